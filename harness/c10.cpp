// C10: every armed controller update against the reference cascade, plus twins for references that must not matter
// and direct calls of the cascade.
#include "sim.hpp"

static std::string g_ctx;
static bool cmp3(const char *w, const V3 &got, ref::V3 want, ref::V3 sc) {
  vh::ev();
  ref::V3 g = rv(got);
  LD t      = vh::rel<TP>() * (ref::norm(sc) + ref::norm(want)) + 1e-30L;
  if (ref::finite3(g) && ref::dist(g, want) <= t) return true;
  vh::fail(std::string("cascade/") + w, "%s: %s observed (%.10g %.10g %.10g) expected (%.10g %.10g %.10g), tolerance %.3g", g_ctx.c_str(), w, vh::D(g.x), vh::D(g.y), vh::D(g.z), vh::D(want.x),
           vh::D(want.y), vh::D(want.z), vh::D(t));
  return false;
}
static bool cmp1(const char *w, LD got, LD want, LD sc) {
  vh::ev();
  if (vh::near(got, want, vh::rel<TP>() * sc + 1e-30L)) return true;
  vh::fail(std::string("cascade/") + w, "%s: %s observed %.10g expected %.10g (scale %.3g)", g_ctx.c_str(), w, vh::D(got), vh::D(want), vh::D(sc));
  return false;
}
static bool motors(const char *w, const VN &m, const ref::Cascade &c) {
  bool ok = true;
  for (int i = 0; i < NR; i++) ok &= cmp1(w, ref::ssq((LD)m(i)), c.mot2[i], c.smot[i] * 4);
  return ok;
}

// the five controllers on their own, built and updated outside any cascade
struct Solo {
  position_controller::PositionController<TP> pos;
  velocity_controller::VelocityController<TP> vel;
  trajectory_controller::TrajectoryController<TP> tra;
  acro_controller::AcroController<TP> acro;
  indi_controller::IndiController<TP, NR> indi;
  Solo(Rng &r, const CtlP &p) : pos(p.position_controller_params), vel(p.velocity_controller_params), tra(p.trajectory_controller_params), acro(p.acro_controller_params), indi(p.indi_controller_params) {
    if (r.chance(0.5)) return;
    pos  = position_controller::PositionController<TP>(p.position_controller_params.pid_params);
    vel  = velocity_controller::VelocityController<TP>(p.velocity_controller_params.pid_params);
    tra  = trajectory_controller::TrajectoryController<TP>(p.trajectory_controller_params.pid_params);
    acro = acro_controller::AcroController<TP>(p.acro_controller_params.vehicle_mass, p.acro_controller_params.kp_rot, p.acro_controller_params.gravity);
    indi = indi_controller::IndiController<TP, NR>(p.indi_controller_params.inertia, p.indi_controller_params.mixer_matrix_inverse, p.indi_controller_params.pid_params);
  }
  void update(const CtlP &p) {
    pos.update_params(p.position_controller_params), vel.update_params(p.velocity_controller_params), tra.update_params(p.trajectory_controller_params);
    acro.update_params(p.acro_controller_params), indi.update_params(p.indi_controller_params);
  }
  void reset() { pos.reset_controller(), vel.reset_controller(), tra.reset_controller(), indi.reset_controller(); }
};

void run_case(long idx, Rng &r) {
  gen::VehOpt vo;
  vo.tilt   = r.chance(0.3);
  SimP p    = gen::simp(r, r.chance(0.3), vo);
  Sim s(p);
  ref::Cascade c;
  CtlP cp = p.controller_params;
  c.load(cp);
  bool alone = r.chance(0.5);
  Solo solo(r, cp);
  s.arm();
  if (r.chance(0.9)) s.set_control_mode(gen::mode(r), r.chance(0.6) ? mr::YawControlMode::ANGLE : mr::YawControlMode::RATE);
  int len    = r.history(2, 40);
  double dt0 = r.logu(1e-3, 0.05);
  uint64_t h = 0;
  int since  = 0;
  for (int k = 0; k < len; k++) {
    // change things
    if (r.chance(0.3)) {
      switch (r.below(10)) {
        case 0:
        case 1: s.set_control_mode(gen::mode(r), r.chance(0.6) ? mr::YawControlMode::ANGLE : mr::YawControlMode::RATE); break;
        case 2: s.get_controller().reset_controller(), c.reset(), solo.reset(), since = 0; vh::bin("cascade reset"); break;
        case 3: {
          CtlP n = gen::mix(r, cp, gen::controller(r, p.dynamics_params.model_params));
          switch (r.below(6)) {
            case 0: cp.acro_controller_params = n.acro_controller_params, s.get_controller().update_acro_controller_params(n.acro_controller_params); break;
            case 1: cp.indi_controller_params = n.indi_controller_params, s.get_controller().update_indi_controller_params(n.indi_controller_params); break;
            case 2: cp.position_controller_params = n.position_controller_params, s.get_controller().update_position_controller_params(n.position_controller_params); break;
            case 3: cp.velocity_controller_params = n.velocity_controller_params, s.get_controller().update_velocity_controller_params(n.velocity_controller_params); break;
            case 4: cp.trajectory_controller_params = n.trajectory_controller_params, s.get_controller().update_trajectory_controller_params(n.trajectory_controller_params); break;
            default: cp = n, s.get_controller().update_params(n);
          }
          c.load(cp);
          solo.update(cp);
          vh::bin("parameters updated in flight");
          break;
        }
        case 4: {
          V3 a = gen::v3(r, 30 * r.far()), b = gen::v3(r, 5 * r.far()), d = gen::v3(r, 5 * r.far());
          s.set_reference_trajectory(a, b, d);
          break;
        }
        case 5: s.set_reference_velocity(gen::v3(r, 10 * r.far())); break;
        case 6: s.set_reference_position(gen::v3(r, 50 * r.far())); break;
        case 7: s.set_reference_yaw_angle((TP)r.uni(-7, 7)), s.set_reference_yaw_rate((TP)r.uni(-3, 3)); break;
        case 8: s.set_reference_acro((TP)(r.uni(-5, 40) * r.far()), gen::v3(r, 5 * r.far())); break;
        default: s.set_refence_motors_angular_velocity(gen::command<TP, NR>(r, p.dynamics_params.model_params, r.chance(0.3)));
      }
    }
    St st = s.get_state();
    if (r.chance(0.3)) {
      st = gen::state<TP, NR>(r, p.dynamics_params.model_params, 20, 10, 100);
      s.get_dynamics().set_state(st);
    }
    TP dt = (TP)(r.chance(0.8) ? dt0 : r.chance(0.1) ? r.logu(1e-8, 10) : r.logu(1e-3, 0.05));
    // twin with other values in the references that do not belong to the mode
    mr::ControlMode m = s.get_control_mode();
    bool yrate        = s.get_yaw_control_mode() == mr::YawControlMode::RATE;
    Sim twin          = s;
    {
      V3 rp = s.get_reference_position(), rvl = s.get_reference_velocity(), ra = s.get_reference_acceleration();
      bool up = m == mr::HOVER || m == mr::POSITION || m == mr::TRAJECTORY, uv = m == mr::VELOCITY || m == mr::TRAJECTORY, ua = m == mr::TRAJECTORY, uy = up || uv;
      twin.set_reference_trajectory(up ? rp : gen::v3(r, 50), uv ? rvl : gen::v3(r, 50), ua ? ra : gen::v3(r, 50));
      if (m != mr::ACRO) twin.set_reference_acro((TP)r.uni(0, 50), gen::v3(r, 5));
      if (m != mr::MOTOR_W) twin.set_refence_motors_angular_velocity(gen::command<TP, NR>(r, p.dynamics_params.model_params, true));
      if (!uy || yrate) twin.set_reference_yaw_angle((TP)r.uni(-3, 3));
      if (!uy || !yrate) twin.set_reference_yaw_rate((TP)r.uni(-3, 3));
    }
    Ctl direct = s.get_controller_const(), staged_ctl = direct;
    ref::V3 rp = rv(s.get_reference_position()), rvl = rv(s.get_reference_velocity()), ra = rv(s.get_reference_acceleration()), rw = rv(s.get_reference_angular_velocity());
    LD rT      = s.get_reference_thrust();
    TP yaw_before = s.get_reference_yaw(), yr = s.get_reference_yaw_rate();
    s.update_controller(dt);
    twin.update_controller(dt);
    g_ctx = vh::fmt("update %d of %d in %s%s (%d since reset), dt %.6g", k, len, gen::mode_name(m), yrate ? "/yaw rate" : "", since++, (double)dt);
    // heading reference
    ref::Q q = rq(st.kinematics.orientation);
    LD cond  = hypotl(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z));
    if (yrate) {
      LD kz   = cp.acro_controller_params.kp_rot(2, 2);
      LD want = ref::heading(q) + (kz == 0 ? 0 : (LD)yr / kz);
      vh::ev();
      if (cond > 1e-3 && fabsl(remainderl((LD)s.get_reference_yaw() - want, 2 * M_PIl)) > vh::rel<TP>() * 10 * (1 + fabsl(want)) / cond)
        vh::fail("cascade/yaw rate", "%s: heading reference %.10g expected %.10g (heading %.10g rate %.6g)", g_ctx.c_str(), (double)s.get_reference_yaw(), vh::D(want), vh::D(ref::heading(q)), (double)yr);
      vh::bin("yaw-rate mode");
    } else {
      vh::ev();
      if (s.get_reference_yaw() != yaw_before) vh::fail("cascade/yaw angle", "%s: the heading reference was changed", g_ctx.c_str());
    }
    LD yaw = s.get_reference_yaw();
    const auto &kn = st.kinematics;
    ref::V3 cpz = rv(kn.position), cv = rv(kn.linear_velocity), w = rv(kn.angular_velocity);
    ref::M3 R = rm(kn.orientation.toRotationMatrix());
    Eigen::Matrix<TP, 3, 3> RE = kn.orientation.toRotationMatrix();
    c.tie = c.ill = false;
    VN act = s.get_actuation_motors_angular_velocity(), dir = act;
    TP yE = s.get_reference_yaw();
    switch (m) {
      case mr::MOTOR_W: break;
      case mr::ACRO:
        c.acro(w, rT, rw, dt, fabsl(rT), rw);
        dir = direct.compute_acro_control(kn.angular_velocity, (TP)rT, ev3<TP>(rw), dt);
        break;
      case mr::TRAJECTORY:
        c.trajectory(cpz, cv, R, w, rp, rvl, ra, yaw, dt);
        dir = direct.compute_trajectory_control(kn.position, kn.linear_velocity, RE, kn.angular_velocity, ev3<TP>(rp), ev3<TP>(rvl), ev3<TP>(ra), yE, dt);
        break;
      case mr::VELOCITY:
        c.velocity(cv, R, w, rvl, yaw, dt, rvl);
        dir = direct.compute_velocity_control(kn.linear_velocity, RE, kn.angular_velocity, ev3<TP>(rvl), yE, dt);
        break;
      default:
        c.position(cpz, R, cv, w, rp, yaw, dt);
        dir = direct.compute_position_control(kn.position, RE, kn.linear_velocity, kn.angular_velocity, ev3<TP>(rp), yE, dt);
    }
    // the same command put together stage by stage: on a copy of the cascade, and with controllers of our own
    VN staged = act;
    if (m != mr::MOTOR_W) {
      V3 a, E_rp = ev3<TP>(rp), E_rv = ev3<TP>(rvl), E_ra = ev3<TP>(ra), rate = ev3<TP>(rw);
      TP T = (TP)rT;
      if (alone) {
        if (m == mr::TRAJECTORY) a = solo.tra.trajectory_to_linear_acceleration(kn.position, kn.linear_velocity, E_rp, E_rv, E_ra, dt);
        else if (m == mr::VELOCITY) a = solo.vel.linear_velocity_to_linear_acceleration(kn.linear_velocity, E_rv, dt);
        else if (m != mr::ACRO) a = solo.vel.linear_velocity_to_linear_acceleration(kn.linear_velocity, solo.pos.position_to_linear_velocity(kn.position, E_rp, dt), dt);
        if (m != mr::ACRO) {
          V3 t = solo.acro.acceleration_to_thrust(a);
          rate = solo.acro.yaw_angle_to_angular_velocity(RE, yE, t);
          T    = t.dot(RE.col(2).normalized());
          if (T < 0) T = 0, rate.setZero();
        }
        staged = solo.indi.acro_to_motor_angular_velocity(kn.angular_velocity, T, rate, dt);
        vh::bin("controllers used alone");
      } else {
        bool acc = false;
        if (m == mr::TRAJECTORY) a = staged_ctl.convert_trajectory_to_linear_acceleration(kn.position, kn.linear_velocity, E_rp, E_rv, E_ra, dt), acc = true;
        else if (m == mr::VELOCITY) a = staged_ctl.convert_linear_velocity_to_linear_acceleration(kn.linear_velocity, E_rv, dt), acc = true;
        else if (m != mr::ACRO) a = staged_ctl.convert_linear_velocity_to_linear_acceleration(kn.linear_velocity, staged_ctl.convert_position_to_linear_velocity(kn.position, E_rp, dt), dt), acc = true;
        if (acc && r.chance(0.5)) staged = staged_ctl.compute_acceleration_control(RE, kn.angular_velocity, a, yE, dt);
        else {
          if (acc) std::tie(T, rate) = staged_ctl.convert_linear_acceleration_to_acro(a, RE, yE, dt);
          staged = r.chance(0.5) ? staged_ctl.convert_acro_to_motor_angular_velocity(kn.angular_velocity, T, rate, dt) : staged_ctl.compute_acro_control(kn.angular_velocity, T, rate, dt);
        }
        vh::bin("cascade called stage by stage");
      }
    }
    vh::bin(gen::mode_name(m));
    vh::ev();
    if (!(twin.get_actuation_motors_angular_velocity() == act)) vh::fail("cascade/foreign reference", "%s: a reference that does not belong to the mode changed the command", g_ctx.c_str());
    vh::ev();
    if (m == mr::MOTOR_W) {
      if (!(act == s.get_reference_motors_angular_velocity())) vh::fail("cascade/direct mode", "%s: commanded rotor speeds are not the references", g_ctx.c_str());
      continue;
    }
    if (c.tie || c.ill) {
      vh::bin(c.tie ? "tie skipped" : "ill-conditioned skipped");
      s.get_controller().reset_controller(), c.reset(), solo.reset(), since = 0;
      continue;
    }
    bool ok = motors("rotor command", act, c);
    for (int i = 0; i < NR; i++) ok &= cmp1("direct call", ref::ssq((LD)dir(i)), ref::ssq((LD)act(i)), c.smot[i]);
    for (int i = 0; i < NR; i++) ok &= cmp1("stage by stage", ref::ssq((LD)staged(i)), ref::ssq((LD)act(i)), c.smot[i] * 4);
    const Ctl &K = s.get_controller_const();
    ok &= motors("reported rotor command", K.get_desired_motor_angular_velocity(), c);
    ok &= cmp1("reported thrust", K.get_desired_thrust(), c.thrust, c.sthrust * 4);
    ok &= cmp3("reported body rate", K.get_desired_angular_velocity(), c.rate, c.srate);
    const auto &ind = K.get_indi_controller_const();
    ok &= cmp3("reported torque", ind.get_desired_torque(), c.torque, c.storque * 4);
    ok &= cmp3("reported rate error", ind.get_angular_velocity_error(), c.rate - w, ref::Cascade::ab(c.srate, w));
    ok &= cmp3("reported angular acceleration", ind.get_desired_angular_acceleration(), ref::Cascade::v(c.indi.out), ref::Cascade::v(c.indi.scale));
    ok &= cmp3("reported thrust vector", ind.get_desired_thrust(), {0, 0, c.thrust}, {0, 0, c.sthrust * 4});
    ok &= motors("reported rotor command", ind.get_motor_angular_velocity(), c);
    if (m != mr::ACRO) {
      ok &= cmp3("reported acceleration", K.get_desired_linear_acceleration(), c.dacc, c.sacc);
      ok &= cmp3("reported raw body rate", K.get_acro_controller_const().get_desired_angular_velocity(), c.raw_rate, c.thrust == 0 ? ref::V3{1, 1, 1} * (1e6L) : c.srate);
      LD st = fabsl(c.mass) * (ref::norm(c.sacc) + ref::norm(c.g));
      ok &= cmp1("reported thrust norm", K.get_acro_controller_const().get_desired_thrust(), ref::norm(c.thrust_w), st * 4);
      ok &= cmp3("reported velocity", K.get_desired_linear_velocity(), c.dvel, c.svel);
      if (m == mr::TRAJECTORY) {
        const auto &t = K.get_trajectory_controller_const();
        ok &= cmp3("trajectory acceleration", t.get_desired_linear_acceleration(), c.dacc, c.sacc);
        ok &= cmp3("trajectory position error", t.get_position_error(), rp - cpz, ref::Cascade::ab(rp, cpz));
        ok &= cmp3("trajectory velocity error", t.get_velocity_error(), rvl - cv, ref::Cascade::ab(rvl, cv));
      } else {
        const auto &vc = K.get_velocity_controller_const();
        ok &= cmp3("velocity error", vc.get_velocity_error(), c.dvel - cv, ref::Cascade::ab(c.svel, cv));
        ok &= cmp3("velocity acceleration", vc.get_desired_linear_acceleration(), c.dacc, c.sacc);
      }
      if (m == mr::POSITION || m == mr::HOVER) {
        ok &= cmp3("position error", K.get_position_controller_const().get_position_error(), rp - cpz, ref::Cascade::ab(rp, cpz));
        ok &= cmp3("position velocity", K.get_position_controller_const().get_desired_linear_velocity(), c.dvel, c.svel);
      }
      if (m != mr::VELOCITY) ok &= cmp3("reported position", K.get_desired_position(), rp, ref::V3());
    }
    if (!ok) return;
    h = vh::hashd(h, vh::D(c.mot2[0]) + k);
    vh::nontrivial(h);
    vh::bin(c.thrust == 0 ? "thrust cut" : "thrust on");
    if (k == 1) vh::sample("%s thrust %.6g rate (%.4g %.4g %.4g) rotor[0]^2 %.6g", g_ctx.c_str(), vh::D(c.thrust), vh::D(c.rate.x), vh::D(c.rate.y), vh::D(c.rate.z), vh::D(c.mot2[0]));
    if (r.chance(0.5)) s.update_dynamics(dt);
    ref::State g = rstate<TP, NR>(s.get_state());
    if (!(ref::norm(g.w) <= 100) || !(ref::norm(g.v) <= 200) || !(ref::norm(g.p) <= 1000)) s.get_dynamics().set_state(gen::state<TP, NR>(r, p.dynamics_params.model_params, 20, 10, 100));
  }
}
