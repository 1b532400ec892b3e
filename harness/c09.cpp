// C09: a shadow of all references and modes, compared after every call.
#include "sim.hpp"
struct Shadow {
  VN motors = VN::Zero();
  V3 rate = V3::Zero(), pos = V3::Zero(), vel = V3::Zero(), acc = V3::Zero();
  TP thrust = 0, yaw = 0, yawrate = 0, floor = 0;
  int mode = mr::MOTOR_W, ymode = mr::ANGLE;
  bool armed = false, floor_on = false;
};
static bool eqv(const V3 &a, const V3 &b) {
  for (int i = 0; i < 3; i++)
    if (!(a(i) == b(i)) && !(std::isnan(a(i)) && std::isnan(b(i)))) return false;
  return true;
}
static bool eqs(TP a, TP b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool check(const Sim &s, const Shadow &h, const char *what) {
  vh::ev(13);
  bool ok = true;
  auto bad = [&](const char *ref, double got, double want) {
    vh::fail(std::string("reference/") + ref, "after %s the %s is %.12g, should be %.12g", what, ref, got, want);
    ok = false;
  };
  VN m2;
  V3 a;
  TP t;
  for (int i = 0; i < NR; i++)
    if (!eqs(s.get_reference_motors_angular_velocity()(i), h.motors(i))) bad("motor speed reference", s.get_reference_motors_angular_velocity()(i), h.motors(i));
  s.get_reference_motors_angular_velocity(m2);
  if (m2 != h.motors && h.motors.allFinite()) bad("motor speed reference (copied out)", m2(0), h.motors(0));
  auto v = [&](const char *n, const V3 &x, const V3 &want) {
    if (eqv(x, want)) return;
    for (int i = 0; i < 3; i++)
      if (!eqs(x(i), want(i))) {
        bad(n, x(i), want(i));
        return;
      }
  };
  v("body rate reference", s.get_reference_angular_velocity(), h.rate);
  s.get_reference_angular_velocity(a), v("body rate reference (copied out)", a, h.rate);
  v("position reference", s.get_reference_position(), h.pos);
  s.get_reference_position(a), v("position reference (copied out)", a, h.pos);
  v("velocity reference", s.get_reference_velocity(), h.vel);
  s.get_reference_velocity(a), v("velocity reference (copied out)", a, h.vel);
  v("acceleration reference", s.get_reference_acceleration(), h.acc);
  s.get_reference_acceleration(a), v("acceleration reference (copied out)", a, h.acc);
  if (!eqs(s.get_reference_thrust(), h.thrust)) bad("thrust reference", s.get_reference_thrust(), h.thrust);
  s.get_reference_thrust(t);
  if (!eqs(t, h.thrust)) bad("thrust reference (copied out)", t, h.thrust);
  if (!eqs(s.get_reference_yaw(), h.yaw)) bad("yaw reference", s.get_reference_yaw(), h.yaw);
  s.get_reference_yaw(t);
  if (!eqs(t, h.yaw)) bad("yaw reference (copied out)", t, h.yaw);
  if (!eqs(s.get_reference_yaw_rate(), h.yawrate)) bad("yaw rate reference", s.get_reference_yaw_rate(), h.yawrate);
  s.get_reference_yaw_rate(t);
  if (!eqs(t, h.yawrate)) bad("yaw rate reference (copied out)", t, h.yawrate);
  mr::ControlMode cm;
  mr::YawControlMode ym;
  s.get_control_mode(cm), s.get_yaw_control_mode(ym);
  if ((int)s.get_control_mode() != h.mode || (int)cm != h.mode) bad("control mode", (int)s.get_control_mode(), h.mode);
  if ((int)s.get_yaw_control_mode() != h.ymode || (int)ym != h.ymode) bad("yaw mode", (int)s.get_yaw_control_mode(), h.ymode);
  if (s.get_armed() != h.armed) bad("armed flag", s.get_armed(), h.armed);
  bool fe;
  s.get_floor_collision_enabled(fe), s.get_floor_height(t);
  if (s.get_floor_collision_enabled() != h.floor_on || fe != h.floor_on) bad("floor flag", fe, h.floor_on);
  if (!eqs(s.get_floor_height(), h.floor) || !eqs(t, h.floor)) bad("floor height", t, h.floor);
  return ok;
}
static std::vector<double> rest(const Sim &s) {  // state, sensors, actuation: no reference call may touch them
  auto f = flat<TP, NR>(s);
  f.resize(f.size() - (3 + NR + 12 + 3 + 5));
  return f;
}
void run_case(long idx, Rng &r) {
  SimP p = gen::simp(r, r.chance(0.3));
  Sim s(p);
  Shadow h;
  int n = r.history(4, 90);
  if (!check(s, h, "construction")) return;
  for (int k = 0; k < n; k++) {
    const char *what = "?";
    auto before = rest(s);
    bool touches = false;
    Ctl ctl0(s.get_controller_const());
    int op = r.below(22);
    double big = r.chance(0.1) ? 1e6 : 20;
    switch (op) {
      case 0:
        s.arm(), h.armed = true, h.thrust = (TP)9.81, h.rate.setZero(), h.pos.z() = h.floor, what = "arm";
        break;
      case 1: s.disarm(), h.armed = false, touches = true, what = "disarm"; break;
      case 2: {
        TP f = (TP)r.wide(big);
        if (r.chance(0.2)) s.enable_floor_collision(), f = 0;
        else s.enable_floor_collision(f);
        h.floor_on = true, h.floor = f, what = "enable_floor_collision";
        break;
      }
      case 3: s.disable_floor_collision(), h.floor_on = false, what = "disable_floor_collision"; break;
      case 4: {
        VN c = gen::command<TP, NR>(r, p.dynamics_params.model_params, true);
        s.set_refence_motors_angular_velocity(c), h.motors = c, what = "set_refence_motors_angular_velocity";
        break;
      }
      case 5: {
        TP t = (TP)r.wide(big);
        V3 w = gen::v3(r, big);
        s.set_reference_acro(t, w), h.thrust = t, h.rate = w, what = "set_reference_acro";
        break;
      }
      case 6: {
        V3 a = gen::v3(r, big), b = gen::v3(r, big), c = gen::v3(r, big);
        if (r.chance(0.1)) a = s.get_reference_velocity(), b = s.get_reference_position();
        s.set_reference_trajectory(a, b, c), h.pos = a, h.vel = b, h.acc = c, what = "set_reference_trajectory";
        break;
      }
      case 7: {
        V3 a = gen::v3(r, big);
        s.set_reference_velocity(a), h.vel = a, what = "set_reference_velocity";
        break;
      }
      case 8: {
        V3 a = gen::v3(r, big);
        s.set_reference_position(a), h.pos = a, what = "set_reference_position";
        break;
      }
      case 9: {
        TP y = (TP)r.wide(r.chance(0.2) ? 100 : 4);
        s.set_reference_yaw_angle(y), h.yaw = y, what = "set_reference_yaw_angle";
        break;
      }
      case 10: {
        TP y = (TP)r.wide(5);
        s.set_reference_yaw_rate(y), h.yawrate = y, what = "set_reference_yaw_rate";
        break;
      }
      case 11: {  // any vehicle motion, also set from outside
        s.get_dynamics().set_state(gen::state<TP, NR>(r, p.dynamics_params.model_params, 20, 10, 100));
        touches = true, what = "set_state";
        break;
      }
      case 12:
      case 13:
      case 14: {
        TP dt = (TP)r.logu(1e-3, 0.02);
        gen::tick(r, s, dt);
        touches = true, what = "update";
        if (h.armed && h.ymode == mr::RATE) h.yaw = s.get_reference_yaw();  // judged by the control check
        else if (h.armed) vh::bin("references kept by an armed update");
        if (!s.get_state().kinematics.position.allFinite() || !s.get_state().kinematics.orientation.coeffs().allFinite() || !(s.get_state().kinematics.angular_velocity.norm() < 1e3))
          s.get_dynamics().set_state(gen::state<TP, NR>(r, p.dynamics_params.model_params, 20, 10, 100));
        break;
      }
      default: {
        auto m = gen::mode(r);
        auto y = r.chance(0.5) ? mr::YawControlMode::ANGLE : mr::YawControlMode::RATE;
        if (r.chance(0.25)) m = (mr::ControlMode)h.mode;
        if (r.chance(0.25)) y = (mr::YawControlMode)h.ymode;
        bool dflt = y == mr::YawControlMode::ANGLE && r.chance(0.5);
        if (dflt) s.set_control_mode(m);
        else s.set_control_mode(m, y);
        what = "set_control_mode";
        if ((int)m == h.mode && (int)y == h.ymode) {
          vh::bin("same mode selected");
          break;
        }
        vh::bin((int)m == h.mode ? "only the yaw mode changed" : "mode changed");
        vh::bin(vh::fmt("%s -> %s", gen::mode_name(h.mode), gen::mode_name(m)));
        if (h.vel.norm() > 0 && s.get_state().kinematics.position.norm() > 0) vh::bin("mode changed away from the origin with old references");
        h.mode = m, h.ymode = y;
        h.pos = s.get_state().kinematics.position;
        h.vel.setZero(), h.acc.setZero(), h.rate.setZero(), h.thrust = 0;
        // heading of the vehicle, from an independent formula
        ref::Q q  = ref::qunit(rq(s.get_state().kinematics.orientation));
        LD cy = 1 - 2 * (q.y * q.y + q.z * q.z), sy = 2 * (q.w * q.z + q.x * q.y), want = atan2l(sy, cy), got = s.get_reference_yaw();
        LD lever = sqrtl(cy * cy + sy * sy), d = remainderl(got - want, 2 * M_PIl);
        vh::ev();
        if (!std::isfinite(got) || !(fabsl(got) <= M_PIl + 1e-6L) || (lever > 1e-2L && !(fabsl(d) <= vh::rel<TP>() * 20 / lever))) vh::fail("mode/heading", "the yaw reference becomes %.12g, the heading is %.12g", vh::D(got), vh::D(want));
        h.yaw = s.get_reference_yaw();
        break;
      }
    }
    vh::bin(what);
    if (!check(s, h, what)) return;
    if (!touches) {
      vh::ev();
      auto after = rest(s);
      if (!same(before, after)) vh::fail("reference/disturbs", "%s changes observable %d", what, first_diff(before, after));
      // nor the control history
      Ctl a(ctl0), b(s.get_controller_const());
      V3 e = gen::v3(r, 2), f = gen::v3(r, 2);
      VN x, y;
      Eigen::Matrix<TP, 3, 3> I3 = Eigen::Matrix<TP, 3, 3>::Identity();
      if (r.chance(0.5)) x = a.compute_position_control(e, I3, f, e, f, (TP)0.3, (TP)0.01), y = b.compute_position_control(e, I3, f, e, f, (TP)0.3, (TP)0.01);
      else x = a.compute_trajectory_control(e, f, I3, e, f, e, e, (TP)0.3, (TP)0.01), y = b.compute_trajectory_control(e, f, I3, e, f, e, e, (TP)0.3, (TP)0.01);
      for (int i = 0; i < NR; i++)
        if (!eqs(x(i), y(i))) {
          vh::fail("reference/history", "%s changes the control history", what);
          break;
        }
    }
    vh::nontrivial(vh::hashd(vh::hashd(k, (double)h.pos(0)), (double)h.yaw + h.mode));
  }
  vh::sample("%d calls shadowed, ends in %s with position reference (%.4g %.4g %.4g)", n, gen::mode_name(h.mode), (double)h.pos(0), (double)h.pos(1), (double)h.pos(2));
}
