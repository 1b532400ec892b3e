// C25: pairs of runs: single/double precision, renumbered rotors, shifted and turned scenes, rotors that produce nothing.
#include "sim.hpp"
#ifdef FORCE_INST
template class mr::Simulator<TP, NR>;
template class mr::dynamics::Dynamics<TP, NR>;
template class mr::model::Model<TP, NR>;
template class mr::controller::Controller<TP, NR>;
template class imu::IMU<TP>;
template class imu::InertialOdometry<TP>;
template class pid_controller::PID<TP, NR>;
template class pid_1d_controller::PID<TP>;
#endif
template <typename A, typename P, int N>
static mr::model::ModelParams<A, N> castv(const mr::model::ModelParams<P, N> &p) {
  mr::model::ModelParams<A, N> q;
  q.motors_params.clear();
  for (auto &m : p.motors_params) {
    mr::model::MotorParams<A> k;
    k.motor_rotation_direction = m.motor_rotation_direction;
    k.thrust_coefficient = (A)m.thrust_coefficient, k.torque_coefficient = (A)m.torque_coefficient, k.min_speed = (A)m.min_speed, k.max_speed = (A)m.max_speed, k.time_constant = (A)m.time_constant, k.rotational_inertia = (A)m.rotational_inertia;
    k.pose.translation() = m.pose.translation().template cast<A>();
    k.pose.linear()      = m.pose.linear().template cast<A>();
    q.motors_params.push_back(k);
  }
  q.vehicle_mass = (A)p.vehicle_mass, q.vehicle_inertia = p.vehicle_inertia.template cast<A>(), q.vehicle_drag_coefficient = (A)p.vehicle_drag_coefficient;
  q.vehicle_aero_moment_coefficient = p.vehicle_aero_moment_coefficient.template cast<A>(), q.gravity = p.gravity.template cast<A>();
  return q;
}
template <typename A, typename P, int N>
static mr::state::State<A, N> casts(const mr::state::State<P, N> &s) {
  mr::state::State<A, N> q;
  auto &k = s.kinematics;
  auto &o = q.kinematics;
  o.position = k.position.template cast<A>(), o.orientation = k.orientation.template cast<A>(), o.linear_velocity = k.linear_velocity.template cast<A>(), o.angular_velocity = k.angular_velocity.template cast<A>();
  o.linear_acceleration = k.linear_acceleration.template cast<A>(), o.angular_acceleration = k.angular_acceleration.template cast<A>();
  q.dynamics.force = s.dynamics.force.template cast<A>(), q.dynamics.torque = s.dynamics.torque.template cast<A>();
  q.actuators.motor_angular_velocity = s.actuators.motor_angular_velocity.template cast<A>(), q.actuators.motor_angular_acceleration = s.actuators.motor_angular_acceleration.template cast<A>();
  return q;
}
template <typename A, typename P>
static pid_controller::PIDParams<A, 3> castp(const pid_controller::PIDParams<P, 3> &p) {
  pid_controller::PIDParams<A, 3> q;
  q.Kp_gains = p.Kp_gains.template cast<A>(), q.Ki_gains = p.Ki_gains.template cast<A>(), q.Kd_gains = p.Kd_gains.template cast<A>(), q.antiwindup_cte = p.antiwindup_cte.template cast<A>(), q.alpha = p.alpha.template cast<A>();
  q.upper_output_saturation = p.upper_output_saturation.template cast<A>(), q.lower_output_saturation = p.lower_output_saturation.template cast<A>();
  q.reset_integral_flag = p.reset_integral_flag, q.proportional_saturation_flag = p.proportional_saturation_flag;
  return q;
}
template <typename A>
static mr::controller::ControllerParams<A, NR> castc(const CtlP &p) {
  mr::controller::ControllerParams<A, NR> q;
  q.acro_controller_params.vehicle_mass = (A)p.acro_controller_params.vehicle_mass, q.acro_controller_params.kp_rot = p.acro_controller_params.kp_rot.template cast<A>(), q.acro_controller_params.gravity = p.acro_controller_params.gravity.template cast<A>();
  q.indi_controller_params.inertia = p.indi_controller_params.inertia.template cast<A>(), q.indi_controller_params.mixer_matrix_inverse = p.indi_controller_params.mixer_matrix_inverse.template cast<A>();
  q.indi_controller_params.pid_params = castp<A>(p.indi_controller_params.pid_params), q.position_controller_params.pid_params = castp<A>(p.position_controller_params.pid_params);
  q.velocity_controller_params.pid_params = castp<A>(p.velocity_controller_params.pid_params), q.trajectory_controller_params.pid_params = castp<A>(p.trajectory_controller_params.pid_params);
  return q;
}
// |a-b| relative to the sizes given, for two states of the same vehicle
template <typename A, typename B, int N>
static bool near_state(const char *key, const mr::state::State<A, N> &x, const mr::state::State<B, N> &y, const ref::Scale &sc, LD rel, const std::string &ctx) {
  ref::State a = rstate<A, N>(x), b = rstate<B, N>(y);
  bool ok = true;
  auto v  = [&](const char *f, ref::V3 p, ref::V3 q, LD s) {
    vh::ev();
    if (ref::finite3(p) && ref::finite3(q) && ref::dist(p, q) <= rel * s + 1e-30L) return;
    ok = false;
    vh::fail(std::string(key) + "/" + f, "%s: %s (%.9g %.9g %.9g) against (%.9g %.9g %.9g), scale %.3g", ctx.c_str(), f, vh::D(p.x), vh::D(p.y), vh::D(p.z), vh::D(q.x), vh::D(q.y), vh::D(q.z), vh::D(s));
  };
  v("position", a.p, b.p, sc.p), v("velocity", a.v, b.v, sc.v), v("angular velocity", a.w, b.w, sc.w), v("acceleration", a.a, b.a, sc.a), v("angular acceleration", a.dw, b.dw, sc.dw), v("force", a.F, b.F, sc.F), v("torque", a.T, b.T, sc.T);
  vh::ev();
  if (!(ref::qangle(ref::qunit(a.q), ref::qunit(b.q)) <= rel * 8)) ok = false, vh::fail(std::string(key) + "/orientation", "%s: orientations %.6g rad apart", ctx.c_str(), vh::D(ref::qangle(a.q, b.q)));
  for (int i = 0; i < N; i++)
    if (!vh::near(a.mw[i], b.mw[i], rel * sc.m) || !vh::near(a.mdw[i], b.mdw[i], rel * sc.mdw)) {
      ok = false;
      vh::fail(std::string(key) + "/rotor", "%s: rotor %d speed %.9g against %.9g", ctx.c_str(), i, vh::D(a.mw[i]), vh::D(b.mw[i]));
      break;
    }
  return ok;
}
static const LD REL = vh::rel<TP>() * 4;
// ---------------------------------------------------------------- precision
static void precision(Rng &r) {
  gen::VehOpt vo;
  vo.noise = false;
  auto pf  = castv<float>(gen::vehicle<TP, NR>(r, vo));
  auto pd  = castv<double>(pf);
  mr::dynamics::Dynamics<float, NR> df(pf, mr::state::State<float, NR>());
  mr::dynamics::Dynamics<double, NR> dd(pd, mr::state::State<double, NR>());
  auto s = casts<double>(gen::state<TP, NR>(r, gen::vehicle<TP, NR>(r, vo), 30, 20, 100));
  ref::Model rm = rmodel<double, NR>(pd);
  for (int i = 0; i < NR; i++) s.actuators.motor_angular_velocity(i) = std::clamp(s.actuators.motor_angular_velocity(i), pd.motors_params[i].min_speed, pd.motors_params[i].max_speed);
  int n = r.range(1, 12);
  for (int k = 0; k < n; k++) {
    auto sf = casts<float>(s);
    s       = casts<double>(sf);
    df.set_state(sf), dd.set_state(s);
    VN c0 = gen::command<TP, NR>(r, castv<TP>(pf), r.chance(0.3));
    Eigen::Matrix<float, NR, 1> cf = c0.template cast<float>();
    Eigen::Matrix<double, NR, 1> cd = cf.template cast<double>();
    float dt = (float)r.logu(1e-4, 0.0099);
    Eigen::Matrix<float, 3, 1> ef = r.chance(0.5) ? Eigen::Matrix<float, 3, 1>(1, -2, 3) : Eigen::Matrix<float, 3, 1>(0, 0, 0);
    ref::Scale sc;
    ref::step(rm, rstate<double, NR>(s), rvec(cd), dt, rv(ef), ref::V3(), ref::V3(), &sc);
    df.process_euler_explicit(cf, dt, ef, false), dd.process_euler_explicit(cd, (double)dt, ef.template cast<double>(), false);
    if (!near_state("precision", df.get_state(), dd.get_state(), sc, 1e-4L, vh::fmt("step %d", k))) return;
    s = dd.get_state();
    if (!(s.kinematics.angular_velocity.norm() < 300) || !(s.kinematics.linear_velocity.norm() < 1e4)) return;
    vh::bin("precision: dynamics");
    vh::nontrivial(vh::hashd(1, s.kinematics.position(0)));
  }
  if (r.chance(0.3)) {  // a slow turn adds up alike
    auto pe = pf;
    pe.vehicle_inertia = Eigen::Matrix<float, 3, 3>::Identity() * (float)r.logu(1e-3, 1);
    pe.vehicle_aero_moment_coefficient.setZero();
    pe.vehicle_drag_coefficient = 0;
    for (auto &m : pe.motors_params) m.min_speed = 0, m.max_speed = std::max(m.max_speed, 1.f);
    mr::state::State<float, NR> z;
    z.kinematics.orientation      = eq<float>(gen::quat(r));
    z.kinematics.angular_velocity = ev3<float>(gen::vec(r, r.logu(2e-4, 0.1)));
    mr::dynamics::Dynamics<float, NR> ef(pe, z);
    mr::dynamics::Dynamics<double, NR> ed(castv<double>(pe), casts<double>(z));
    int n = r.range(50, 400);
    for (int k = 0; k < n; k++) ef.process_euler_explicit(Eigen::Matrix<float, NR, 1>::Zero(), 0.01f), ed.process_euler_explicit(Eigen::Matrix<double, NR, 1>::Zero(), (double)0.01f);
    LD e = ref::qangle(ref::qunit(rq(ef.get_state().kinematics.orientation)), ref::qunit(rq(ed.get_state().kinematics.orientation)));
    vh::ev();
    if (!(e <= 1.2e-7L * 4 * (n + 8))) return vh::fail("precision/slow turn", "after %d steps of a turn at %.4g rad/s the orientations are %.4g rad apart", n, (double)z.kinematics.angular_velocity.norm(), vh::D(e));
    vh::bin("precision: slow turn");
  }
  // IMU and odometry, without noise
  {
    Eigen::Quaternion<float> qf = eq<float>(gen::quat(r)), q0 = eq<float>(gen::quat(r));
    float al = r.chance(0.5) ? 1.f : (float)r.uni(0.05, 1);
    imu::IMU<float> a(0, 0, 0, 0, Eigen::Quaternion<float>::Identity());
    imu::IMU<double> b(0, 0, 0, 0, Eigen::Quaternion<double>::Identity());
    a.set_orientation(qf), b.set_orientation(qf.cast<double>());
    imu::InertialOdometry<float> oa(al, q0);
    imu::InertialOdometry<double> ob((double)al, q0.cast<double>());
    LD sv = 1e-9L, sp = 1e-9L;
    for (int k = 0; k < 10; k++) {
      Eigen::Matrix<float, 3, 1> f = ev3<float>(gen::vec(r, 20)), w = ev3<float>(gen::vec(r, 5));
      float dt = (float)r.logu(1e-3, 0.05);
      a.update(dt, f, w), b.update((double)dt, f.cast<double>(), w.cast<double>());
      oa.update(a.get_measurement_gyro(), a.get_measurement_accel(), dt), ob.update(b.get_measurement_gyro(), b.get_measurement_accel(), (double)dt);
      sv += f.norm() * dt, sp += sv * dt;
      vh::ev(5);
      if (!((a.get_measurement_gyro().cast<double>() - b.get_measurement_gyro()).norm() <= 1e-5 * (w.norm() + 1e-6)) || !((a.get_measurement_accel().cast<double>() - b.get_measurement_accel()).norm() <= 1e-5 * (f.norm() + 1e-6)))
        return vh::fail("precision/imu", "IMU readings of single and double precision differ");
      LD m = 35;
      if (!((oa.get_position().cast<double>() - ob.get_position()).norm() <= 1e-4L * (sp + m * 0.0025L) * 2) || !((oa.get_linear_velocity().cast<double>() - ob.get_linear_velocity()).norm() <= 1e-4L * (sv + 1e-6L) * 2) || !(ref::qangle(ref::qunit(rq(oa.get_orientation())), ref::qunit(rq(ob.get_orientation()))) <= 1e-4L))
        return vh::fail("precision/odometry", "odometry of single and double precision differ: position by %.3g, velocity by %.3g", (double)(oa.get_position().cast<double>() - ob.get_position()).norm(), (double)(oa.get_linear_velocity().cast<double>() - ob.get_linear_velocity()).norm());
    }
    vh::bin("precision: sensors");
  }
}
// smooth tuning for comparisons: isotropic in the horizontal plane, no decisions that rounding could turn
static void soften(PidP &p, bool iso) {
  p.reset_integral_flag = false;
  if (iso) {
    for (auto *v : {&p.Kp_gains, &p.Ki_gains, &p.Kd_gains, &p.alpha}) (*v)(1) = (*v)(0);
    p.antiwindup_cte.setZero(), p.upper_output_saturation.setZero(), p.lower_output_saturation.setZero();
  }
}
static CtlP smooth(Rng &r, const Veh &v, bool iso) {
  CtlP c = gen::controller(r, v);
  c.acro_controller_params.vehicle_mass = v.vehicle_mass;
  soften(c.position_controller_params.pid_params, iso), soften(c.velocity_controller_params.pid_params, iso), soften(c.trajectory_controller_params.pid_params, iso), soften(c.indi_controller_params.pid_params, false);
  return c;
}
struct In {
  V3 p, v, w, rp, rvl, ra;
  Eigen::Matrix<TP, 3, 3> R;
  TP yaw, dt, thrust;
  int how;
};
static In input(Rng &r, int how) {
  In x;
  x.p = gen::v3(r, 5), x.v = gen::v3(r, 3), x.w = gen::v3(r, 2), x.rp = gen::v3(r, 5), x.rvl = gen::v3(r, 3), x.ra = gen::v3(r, 3);
  x.R   = eq<TP>(ref::mul(ref::axis_angle({0, 0, 1}, r.uni(-3, 3)), ref::axis_angle(gen::dir(r), r.uni(0, 1)))).toRotationMatrix();
  x.yaw = (TP)r.uni(-3, 3), x.dt = (TP)r.uni(2e-3, 0.02), x.thrust = (TP)r.uni(1, 20);
  x.how = how;
  return x;
}
template <typename P>
static Eigen::Matrix<P, NR, 1> control(mr::controller::Controller<P, NR> &c, const In &x) {
  auto v = [](const V3 &a) { return Eigen::Matrix<P, 3, 1>(a.template cast<P>()); };
  Eigen::Matrix<P, 3, 3> R = x.R.template cast<P>();
  switch (x.how) {
    case 0: return c.compute_position_control(v(x.p), R, v(x.v), v(x.w), v(x.rp), (P)x.yaw, (P)x.dt);
    case 1: return c.compute_velocity_control(v(x.v), R, v(x.w), v(x.rvl), (P)x.yaw, (P)x.dt);
    case 2: return c.compute_trajectory_control(v(x.p), v(x.v), R, v(x.w), v(x.rp), v(x.rvl), v(x.ra), (P)x.yaw, (P)x.dt);
    default: return c.compute_acro_control(v(x.w), (P)x.thrust, v(x.rvl), (P)x.dt);
  }
}
static void refrun(ref::Cascade &q, const In &x) {
  q.tie = q.ill = false;
  switch (x.how) {
    case 0: q.position(rv(x.p), rm(x.R), rv(x.v), rv(x.w), rv(x.rp), x.yaw, x.dt); break;
    case 1: q.velocity(rv(x.v), rm(x.R), rv(x.w), rv(x.rvl), x.yaw, x.dt, ref::V3{fabsl((LD)x.rvl(0)), fabsl((LD)x.rvl(1)), fabsl((LD)x.rvl(2))}); break;
    case 2: q.trajectory(rv(x.p), rv(x.v), rm(x.R), rv(x.w), rv(x.rp), rv(x.rvl), rv(x.ra), x.yaw, x.dt); break;
    default: q.acro(rv(x.w), x.thrust, rv(x.rvl), x.dt, fabsl((LD)x.thrust), ref::V3{fabsl((LD)x.rvl(0)), fabsl((LD)x.rvl(1)), fabsl((LD)x.rvl(2))});
  }
}
// commands agree as signed squares, relative to what was added up in them (scales from the reference)
template <typename P, typename Q>
static bool near_cmd(const char *key, const P &a, const Q &b, const ref::Cascade &q, LD rel, const std::string &ctx) {
  for (int i = 0; i < NR; i++) {
    vh::ev();
    if (!vh::near(ref::ssq((LD)a(i)), ref::ssq((LD)b(i)), rel * q.smot[i] + 1e-30L)) {
      vh::fail(key, "%s: command %d is %.9g in one run and %.9g in the other (scale %.3g)", ctx.c_str(), i, (double)a(i), (double)b(i), vh::D(sqrtl(q.smot[i])));
      return false;
    }
  }
  return true;
}
static void precision_control(Rng &r) {
  Veh v   = gen::vehicle<TP, NR>(r);
  auto cf = castc<float>(smooth(r, v, false));
  CtlP c0 = smooth(r, v, false);
  cf      = castc<float>(c0);
  // exactly representable in both
  mr::controller::ControllerParams<double, NR> cd;
  {
    auto &a = cf;
    cd.acro_controller_params.vehicle_mass = a.acro_controller_params.vehicle_mass, cd.acro_controller_params.kp_rot = a.acro_controller_params.kp_rot.cast<double>(), cd.acro_controller_params.gravity = a.acro_controller_params.gravity.cast<double>();
    cd.indi_controller_params.inertia = a.indi_controller_params.inertia.cast<double>(), cd.indi_controller_params.mixer_matrix_inverse = a.indi_controller_params.mixer_matrix_inverse.template cast<double>();
    cd.indi_controller_params.pid_params = castp<double>(a.indi_controller_params.pid_params), cd.position_controller_params.pid_params = castp<double>(a.position_controller_params.pid_params);
    cd.velocity_controller_params.pid_params = castp<double>(a.velocity_controller_params.pid_params), cd.trajectory_controller_params.pid_params = castp<double>(a.trajectory_controller_params.pid_params);
  }
  mr::controller::Controller<float, NR> f(cf);
  mr::controller::Controller<double, NR> d(cd);
  ref::Cascade q;
  q.load(c0);
  int n = r.range(1, 15), how = r.below(4);
  for (int k = 0; k < n; k++) {
    In x = input(r, r.chance(0.8) ? how : r.below(4));
    // make the inputs representable in single precision
    for (auto *u : {&x.p, &x.v, &x.w, &x.rp, &x.rvl, &x.ra}) *u = u->template cast<float>().template cast<TP>();
    x.R = x.R.template cast<float>().template cast<TP>(), x.yaw = (float)x.yaw, x.dt = (float)x.dt, x.thrust = (float)x.thrust;
    refrun(q, x);
    auto a = control<float>(f, x);
    auto b = control<double>(d, x);
    if (q.ill || q.tie) return;
    if (x.how < 3) {  // thrust direction well away from the switch and from the degenerate heading
      ref::V3 z = ref::unit(q.thrust_w), xc{cosl(x.yaw), sinl(x.yaw), 0};
      if (ref::norm(ref::cross(z, xc)) < 0.05L || q.thrust < 0.02L * q.sthrust || q.thrust == 0) return;
    }
    if (!near_cmd("precision/control", a, b, q, 3e-4L, vh::fmt("call %d", k))) return;
    vh::bin("precision: control");
    vh::nontrivial(vh::hashd(2, (double)b(0)));
  }
}
// ---------------------------------------------------------------- renumbering and null rotors
static std::vector<int> perm(Rng &r, int n) {
  std::vector<int> p(n);
  for (int i = 0; i < n; i++) p[i] = i;
  for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.below(i + 1)]);
  return p;
}
static SimP calm(Rng &r, bool iso) {
  gen::VehOpt vo;
  vo.noise = false;
  SimP p   = gen::simp(r, false, vo);
  p.imu_params.imu_orientation = eq<TP>(gen::quat(r));
  p.controller_params = smooth(r, p.dynamics_params.model_params, iso);
  return p;
}
static void renumber(Rng &r) {
  SimP p = calm(r, false), q = p;
  auto pi = perm(r, NR);
  for (int i = 0; i < NR; i++) {
    q.dynamics_params.model_params.motors_params[i] = p.dynamics_params.model_params.motors_params[pi[i]];
    q.controller_params.indi_controller_params.mixer_matrix_inverse.row(i) = p.controller_params.indi_controller_params.mixer_matrix_inverse.row(pi[i]);
  }
  auto per = [&](const VN &v) {
    VN o;
    for (int i = 0; i < NR; i++) o(i) = v(pi[i]);
    return o;
  };
  auto pst = [&](St s) {
    s.actuators.motor_angular_velocity = per(s.actuators.motor_angular_velocity), s.actuators.motor_angular_acceleration = per(s.actuators.motor_angular_acceleration);
    return s;
  };
  q.dynamics_params.state = pst(p.dynamics_params.state);
  Sim a(p), b(q);
  a.arm(), b.arm();
  ref::Model rmod = rmodel<TP, NR>(p.dynamics_params.model_params);
  int n = r.range(2, 20);
  for (int k = 0; k < n; k++) {
    Rng r1(r.u64()), r2(r1);
    if (r.chance(0.5)) {
      gen::call(r1, a);
      VN keep = b.get_reference_motors_angular_velocity();
      gen::call(r2, b);
      b.set_refence_motors_angular_velocity(per(a.get_reference_motors_angular_velocity()));
      (void)keep;
    }
    a.arm(), b.arm();
    TP dt = (TP)r.logu(1e-3, 0.0099);
    b.get_dynamics().set_state(pst(a.get_state()));
    Ctl &ca = a.get_controller(), &cb = b.get_controller();
    a.update_controller(dt), b.update_controller(dt);
    VN ua = per(a.get_actuation_motors_angular_velocity()), ub = b.get_actuation_motors_angular_velocity();
    // what was added up in each command
    for (int i = 0; i < NR; i++) {
      LD sc = ref::ssq((LD)ua(i));
      if (a.get_control_mode() != mr::ControlMode::MOTOR_W) {
        auto row = q.controller_params.indi_controller_params.mixer_matrix_inverse.row(i);
        V3 tq = cb.get_indi_controller().get_desired_torque();
        sc = fabsl((LD)row(2) * cb.get_indi_controller().get_desired_thrust()(2)) + fabsl((LD)row(3) * tq(0)) + fabsl((LD)row(4) * tq(1)) + fabsl((LD)row(5) * tq(2));
      }
      vh::ev();
      if (std::isfinite(ua(i)) && !vh::near(ref::ssq((LD)ua(i)), ref::ssq((LD)ub(i)), REL * fabsl(sc) + 1e-30L)) return vh::fail("renumbered/command", "rotor %d: command %.9g, renumbered %.9g in %s", i, (double)ua(i), (double)ub(i), gen::mode_name(a.get_control_mode()));
    }
    (void)ca;
    auto s0 = rstate<TP, NR>(a.get_state());
    ref::Scale sc;
    ref::step(rmod, s0, rvec(a.get_actuation_motors_angular_velocity()), dt, ref::V3(), ref::V3(), ref::V3(), &sc);
    if (a.get_floor_collision_enabled()) a.disable_floor_collision(), b.disable_floor_collision();
    a.update_dynamics(dt), b.update_dynamics(dt);
    if (!near_state<TP, TP, NR>("renumbered", pst(a.get_state()), b.get_state(), sc, REL * 4, vh::fmt("step %d", k))) return;
    auto &kk = a.get_state().kinematics;
    if (!(kk.angular_velocity.norm() < 200) || !(kk.linear_velocity.norm() < 1e3)) return;
    vh::bin("renumbered rotors");
    vh::nontrivial(vh::hashd(3, (double)kk.position(0)));
  }
}
static void null_rotors(Rng &r) {
  constexpr int N2 = NR + 2;
  SimP p = calm(r, false);
  mr::SimulatorParams<TP, N2> q;
  auto &v = p.dynamics_params.model_params;
  // places of the real rotors among the others
  auto pi = perm(r, N2);
  std::vector<int> at(pi.begin(), pi.begin() + NR);
  if (r.chance(0.3))
    for (int i = 0; i < NR; i++) at[i] = i;
  q.dynamics_params.model_params.motors_params.assign(N2, mr::model::MotorParams<TP>());
  for (auto &m : q.dynamics_params.model_params.motors_params) {
    m.motor_rotation_direction = r.chance(0.5) ? 1 : -1;
    m.pose.translation() = ev3<TP>(gen::vec(r, 1)), m.time_constant = (TP)r.logu(0.01, 1), m.max_speed = (TP)r.logu(10, 1000), m.min_speed = 0;
    m.pose.linear() = eq<TP>(gen::quat(r)).toRotationMatrix();
  }
  q.controller_params.indi_controller_params.mixer_matrix_inverse.setZero();
  for (int i = 0; i < NR; i++) {
    q.dynamics_params.model_params.motors_params[at[i]] = v.motors_params[i];
    q.controller_params.indi_controller_params.mixer_matrix_inverse.row(at[i]) = p.controller_params.indi_controller_params.mixer_matrix_inverse.row(i);
  }
  auto &w = q.dynamics_params.model_params;
  w.vehicle_mass = v.vehicle_mass, w.vehicle_inertia = v.vehicle_inertia, w.vehicle_drag_coefficient = v.vehicle_drag_coefficient, w.vehicle_aero_moment_coefficient = v.vehicle_aero_moment_coefficient, w.gravity = v.gravity;
  auto &c = q.controller_params;
  c.acro_controller_params = p.controller_params.acro_controller_params, c.position_controller_params = p.controller_params.position_controller_params, c.velocity_controller_params = p.controller_params.velocity_controller_params, c.trajectory_controller_params = p.controller_params.trajectory_controller_params;
  c.indi_controller_params.inertia = p.controller_params.indi_controller_params.inertia, c.indi_controller_params.pid_params = p.controller_params.indi_controller_params.pid_params;
  q.imu_params = p.imu_params, q.inertial_odometry_params = p.inertial_odometry_params;
  auto big = [&](const St &s, double fill) {
    mr::state::State<TP, N2> o;
    o.kinematics = s.kinematics, o.dynamics = s.dynamics;
    o.actuators.motor_angular_velocity.setConstant((TP)fill), o.actuators.motor_angular_acceleration.setZero();
    for (int i = 0; i < NR; i++) o.actuators.motor_angular_velocity(at[i]) = s.actuators.motor_angular_velocity(i), o.actuators.motor_angular_acceleration(at[i]) = s.actuators.motor_angular_acceleration(i);
    return o;
  };
  auto small = [&](const mr::state::State<TP, N2> &s) {
    St o;
    o.kinematics = s.kinematics, o.dynamics = s.dynamics;
    for (int i = 0; i < NR; i++) o.actuators.motor_angular_velocity(i) = s.actuators.motor_angular_velocity(at[i]), o.actuators.motor_angular_acceleration(i) = s.actuators.motor_angular_acceleration(at[i]);
    return o;
  };
  Sim a(p);
  mr::Simulator<TP, N2> b(q);
  a.arm(), b.arm();
  ref::Model rmod = rmodel<TP, NR>(v);
  auto mode = gen::mode(r);
  int n = r.range(2, 15);
  b.get_dynamics().set_state(big(a.get_state(), 5));
  a.set_control_mode(mode), b.set_control_mode(mode);
  for (int k = 0; k < n; k++) {
    if (r.chance(0.3)) {
      V3 x = gen::v3(r, 5), y = gen::v3(r, 3), z = gen::v3(r, 3);
      TP yaw = (TP)r.uni(-3, 3), th = (TP)r.uni(0, 20);
      VN u = gen::command<TP, NR>(r, v, false);
      Eigen::Matrix<TP, N2, 1> U;
      for (int i = 0; i < N2; i++) U(i) = (TP)r.uni(0, 500);
      for (int i = 0; i < NR; i++) U(at[i]) = u(i);
      a.set_reference_trajectory(x, y, z), b.set_reference_trajectory(x, y, z), a.set_reference_yaw_angle(yaw), b.set_reference_yaw_angle(yaw), a.set_reference_acro(th, z), b.set_reference_acro(th, z);
      a.set_refence_motors_angular_velocity(u), b.set_refence_motors_angular_velocity(U);
    }
    b.get_dynamics().set_state(big(a.get_state(), r.uni(0, 9)));
    TP dt = (TP)r.logu(1e-3, 0.0099);
    a.update_controller(dt), b.update_controller(dt);
    for (int i = 0; i < NR; i++) {
      LD x = a.get_actuation_motors_angular_velocity()(i), y = b.get_actuation_motors_angular_velocity()(at[i]);
      LD sc = ref::ssq(x);
      if (mode != mr::ControlMode::MOTOR_W) {
        auto row = p.controller_params.indi_controller_params.mixer_matrix_inverse.row(i);
        V3 tq = a.get_controller().get_indi_controller().get_desired_torque();
        sc = fabsl((LD)row(2) * a.get_controller().get_indi_controller().get_desired_thrust()(2)) + fabsl((LD)row(3) * tq(0)) + fabsl((LD)row(4) * tq(1)) + fabsl((LD)row(5) * tq(2));
      }
      vh::ev();
      if (std::isfinite(x) && !vh::near(ref::ssq(x), ref::ssq(y), REL * fabsl(sc) + 1e-30L)) return vh::fail("null rotors/command", "rotor %d: command %.9g, with idle rotors %.9g in %s", i, vh::D(x), vh::D(y), gen::mode_name(mode));
    }
    ref::Scale sc;
    ref::step(rmod, rstate<TP, NR>(a.get_state()), rvec(a.get_actuation_motors_angular_velocity()), dt, ref::V3(), ref::V3(), ref::V3(), &sc);
    a.update_dynamics(dt), b.update_dynamics(dt);
    if (!near_state<TP, TP, NR>("null rotors", a.get_state(), small(b.get_state()), sc, REL * 4, vh::fmt("step %d", k))) return;
    auto &kk = a.get_state().kinematics;
    if (!(kk.angular_velocity.norm() < 200) || !(kk.linear_velocity.norm() < 1e3)) return;
    vh::bin("null rotors");
    vh::nontrivial(vh::hashd(4, (double)kk.position(0)));
  }
}
// ---------------------------------------------------------------- place
static void place(Rng &r) {
  SimP p = calm(r, true);
  auto &v = p.dynamics_params.model_params;
  bool quarter = r.chance(0.4);
  LD ang = r.chance(0.3) ? 0 : quarter ? M_PIl / 2 * r.range(1, 3) : r.uni(-M_PI, M_PI);
  ref::Q T = ref::axis_angle({0, 0, 1}, ang);
  if (!quarter && ang != 0) v.vehicle_drag_coefficient = 0;
  if (ang != 0) {
    auto &k = p.controller_params.acro_controller_params.kp_rot;  // acts in the body frame: any matrix will do
    (void)k;
  }
  ref::V3 sh = r.chance(0.2) ? ref::V3() : ref::V3{(LD)r.range(-50, 50), (LD)r.range(-50, 50), (LD)r.range(-50, 50)};
  if (r.chance(0.3)) sh = {floorl(r.sgn() * r.logu(50, 1e5)), floorl(r.sgn() * r.logu(50, 1e5)), floorl(r.sgn() * r.logu(50, 1e5))};
  if (ref::norm(sh) > 1000) vh::bin("place: far away");
  auto tv = [&](const V3 &a) { return ev3<TP>(ref::rot(T, rv(a))); };
  auto tp = [&](const V3 &a) { return ev3<TP>(ref::rot(T, rv(a)) + sh); };
  auto tq = [&](const Eigen::Quaternion<TP> &q) { return eq<TP>(ref::mul(T, rq(q))); };
  auto ts = [&](St s) {
    auto &k = s.kinematics;
    k.position = tp(k.position), k.orientation = tq(k.orientation), k.linear_velocity = tv(k.linear_velocity), k.linear_acceleration = tv(k.linear_acceleration), s.dynamics.force = tv(s.dynamics.force);
    return s;
  };
  p.dynamics_params.state.kinematics.position *= (TP)0.1;
  SimP q = p;
  q.dynamics_params.state = ts(p.dynamics_params.state);
  q.dynamics_params.model_params.gravity = tv(v.gravity);
  q.controller_params.acro_controller_params.gravity = tv(p.controller_params.acro_controller_params.gravity);
  q.inertial_odometry_params.initial_world_orientation = tq(p.inertial_odometry_params.initial_world_orientation);
  Sim a(p), b(q);
  a.arm(), b.arm();
  bool floor = r.chance(0.3);
  if (floor) {
    TP h = a.get_state().kinematics.position.z() - (TP)r.uni(0.0, 1);
    a.enable_floor_collision(h), b.enable_floor_collision(h + (TP)sh.z);
  }
  ref::Model ra = rmodel<TP, NR>(v);
  ref::Cascade cas;
  cas.load(p.controller_params);
  auto mode = gen::mode(r);
  a.set_control_mode(mode), b.set_control_mode(mode);
  LD rel = 3e-8L;
  int n = r.range(2, 20);
  bool contact = false;
  LD svo = 1, spo = 1;
  for (int k = 0; k < n; k++) {
    if (r.chance(0.4)) {
      V3 x = gen::v3(r, 5), y = gen::v3(r, 3), z = gen::v3(r, 3);
      TP yaw = (TP)r.uni(-3, 3), th = (TP)r.uni(0, 20);
      VN u = gen::command<TP, NR>(r, v, false);
      a.set_reference_trajectory(x, y, z), b.set_reference_trajectory(tp(x), tv(y), tv(z)), a.set_reference_yaw_angle(yaw), b.set_reference_yaw_angle(yaw + (TP)ang), a.set_reference_acro(th, z), b.set_reference_acro(th, z);
      a.set_refence_motors_angular_velocity(u), b.set_refence_motors_angular_velocity(u);
    } else if (k == 0) {
      V3 x = gen::v3(r, 5);
      a.set_reference_position(x), b.set_reference_position(tp(x));
      TP yaw = (TP)r.uni(-3, 3);
      a.set_reference_yaw_angle(yaw), b.set_reference_yaw_angle(yaw + (TP)ang);
    }
    b.get_dynamics().set_state(ts(a.get_state()));
    TP dt = (TP)r.logu(2e-3, 0.0099);
    auto s0 = a.get_state();
    auto &k0 = s0.kinematics;
    In x;
    x.p = k0.position, x.v = k0.linear_velocity, x.w = k0.angular_velocity, x.rp = a.get_reference_position(), x.rvl = a.get_reference_velocity(), x.ra = a.get_reference_acceleration(), x.R = k0.orientation.toRotationMatrix(), x.yaw = a.get_reference_yaw(), x.dt = dt, x.thrust = a.get_reference_thrust();
    x.how = mode == mr::ControlMode::VELOCITY ? 1 : mode == mr::ControlMode::TRAJECTORY ? 2 : mode == mr::ControlMode::ACRO ? 3 : 0;
    if (mode == mr::ControlMode::ACRO) x.rvl = a.get_reference_angular_velocity();
    if (mode != mr::ControlMode::MOTOR_W) refrun(cas, x);
    a.update_controller(dt), b.update_controller(dt);
    if (mode == mr::ControlMode::MOTOR_W) {
      vh::ev();
      if (a.get_actuation_motors_angular_velocity() != b.get_actuation_motors_angular_velocity()) return vh::fail("place/command", "rotor commands differ in another place");
    } else {
      if (cas.ill || cas.tie) return;
      if (x.how < 3) {
        ref::V3 z = ref::unit(cas.thrust_w), xc{cosl(x.yaw), sinl(x.yaw), 0};
        if (ref::norm(ref::cross(z, xc)) < 0.02L || fabsl(ref::dot(z, rv(V3(x.R.col(2))))) < 1e-3L) return;
      }
      for (int i = 0; i < NR; i++) cas.smot[i] *= 1 + ref::norm(sh) * 0.02L * (x.how == 3 ? 0 : 1);  // rounding of shifted positions
      if (!near_cmd("place/command", a.get_actuation_motors_angular_velocity(), b.get_actuation_motors_angular_velocity(), cas, rel, vh::fmt("step %d of %s, turned %.4g, shifted (%.4g %.4g %.4g)", k, gen::mode_name(mode), vh::D(ang), vh::D(sh.x), vh::D(sh.y), vh::D(sh.z)))) return;
    }
    ref::Scale sc;
    ref::step(ra, rstate<TP, NR>(a.get_state()), rvec(a.get_actuation_motors_angular_velocity()), dt, ref::V3(), ref::V3(), ref::V3(), &sc);
    sc.p += ref::norm(sh) * 1e-6L, sc.v += 1e-6L;
    for (int i = 0; i < NR; i++) {  // commands agree as squares only; near zero their roots differ more
      LD d = fabsl((LD)a.get_actuation_motors_angular_velocity()(i) - (LD)b.get_actuation_motors_angular_velocity()(i));
      sc.mdw += d / rel / ra.m[i].tau, sc.m += d / rel * std::min<LD>(1, dt / ra.m[i].tau);
      LD J = ra.m[i].J * d / ra.m[i].tau / rel, ni = ref::normF(ref::inv(ra.I));
      sc.T += J, sc.dw += J * ni * 2, sc.w += J * ni * 2 * dt;
    }
    a.update_dynamics(dt), b.update_dynamics(dt);
    // the floor decides by comparing heights: skip where rounding could decide
    if (floor) {
      LD h = a.get_floor_height(), z = a.get_state().kinematics.position.z(), zb = b.get_state().kinematics.position.z() - sh.z;
      LD zn = k0.position.z() + (LD)k0.linear_velocity.z() * dt;
      if (fabsl(zn - h) < 1e-6L || fabsl((LD)k0.position.z() - h) < 1e-6L && !contact) return;
      if (contact) return;  // exactly on the floor: rounding of the shifted height decides the next contact
      contact = z == h;
      if (contact) vh::bin("place: floor contact");
      (void)zb;
    }
    if (!near_state<TP, TP, NR>("place", ts(a.get_state()), b.get_state(), sc, rel, vh::fmt("step %d of %s, turned %.4g, shifted (%.4g %.4g %.4g)", k, gen::mode_name(mode), vh::D(ang), vh::D(sh.x), vh::D(sh.y), vh::D(sh.z)))) return;
    a.update_imu(dt), b.update_imu(dt);
    V3 g1, a1, g2, a2;
    a.get_imu_measurement(g1, a1), b.get_imu_measurement(g2, a2);
    vh::ev(4);
    if (!((g1 - g2).norm() <= rel * sc.w + 1e-12) || !((a1 - a2).norm() <= rel * sc.a + 1e-12)) return vh::fail("place/imu", "IMU readings differ in another place: gyro by %.3g, accelerometer by %.3g", (double)(g1 - g2).norm(), (double)(a1 - a2).norm());
    a.update_inertial_odometry(dt), b.update_inertial_odometry(dt);
    auto o1 = a.get_odometry(), o2 = b.get_odometry();
    svo += sc.a * dt, spo += svo * dt;
    if (!((tv(o1.position) - o2.position).norm() <= 10 * rel * spo) || !((tv(o1.linear_velocity) - o2.linear_velocity).norm() <= 10 * rel * svo) || !(ref::qangle(ref::qunit(rq(tq(o1.orientation))), ref::qunit(rq(o2.orientation))) <= rel * (1 + sc.w)))
      return vh::fail("place/odometry", "odometry differs in another place: position by %.3g, velocity by %.3g", (double)(tv(o1.position) - o2.position).norm(), (double)(tv(o1.linear_velocity) - o2.linear_velocity).norm());
    auto &kk = a.get_state().kinematics;
    if (!(kk.angular_velocity.norm() < 100) || !(kk.linear_velocity.norm() < 300)) return;
    vh::bin(ang == 0 ? "place: shifted" : quarter ? "place: quarter turn" : "place: turned");
    vh::bin(std::string("place: ") + gen::mode_name(mode));
    vh::nontrivial(vh::hashd(5, (double)kk.position(0)));
  }
}
void run_case(long, Rng &r) {
  pidh::narrow_limits = false;
  int k = r.below(6);
  if (k == 0) precision(r);
  else if (k == 1) precision_control(r);
  else if (k == 2) renumber(r);
  else if (k == 3) null_rotors(r);
  else if (sizeof(TP) == 8) place(r);
  else if (k == 4) renumber(r);
  else null_rotors(r);
}
