// C08: no actuation while disarmed, no trace of it afterwards, arming touches exactly its references.
#include "sim.hpp"
static int F_ACT, F_REFW, F_REFP, F_THRUST, F_ARMED;  // places of observables in flat(sim), found by construction order
static void layout() {
  int n   = 3 + 4 + 3 + 3 + 3 + 3 + 3 + 3 + 2 * NR;  // state
  n      += 12 + 3 + 4 + 3 + 3 + 3;                  // IMU, biases, odometry
  F_ACT   = n;
  F_REFW  = n + NR + 3 + NR;
  F_REFP  = F_REFW + 3;
  F_THRUST = F_REFP + 9;
  F_ARMED  = F_THRUST + 3;
}
static bool zero_act(const Sim &s) { return (s.get_actuation_motors_angular_velocity().array() == (TP)0).all(); }
static void others(const char *key, const std::vector<double> &a, const std::vector<double> &b, std::initializer_list<std::pair<int, int>> except, const char *what) {
  vh::ev();
  for (size_t i = 0; i < a.size(); i++) {
    bool skip = false;
    for (auto &e : except)
      if ((int)i >= e.first && (int)i < e.first + e.second) skip = true;
    if (!skip && !(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) {
      vh::fail(key, "%s changes observable %zu from %.9g to %.9g", what, i, a[i], b[i]);
      return;
    }
  }
}
static bool same_control(const Ctl &x, const Ctl &y, Rng &r, const CtlP &) {
  Ctl a(x), b(y);
  for (int k = 0; k < 3; k++) {
    V3 p = gen::v3(r, 3), v = gen::v3(r, 3), w = gen::v3(r, 3), rp = gen::v3(r, 3), rvl = gen::v3(r, 3), ra = gen::v3(r, 3);
    Eigen::Matrix<TP, 3, 3> R = eq<TP>(gen::quat(r)).toRotationMatrix();
    TP yaw = (TP)r.uni(-3, 3), dt = (TP)0.01;
    VN c1, c2;
    switch (r.below(3)) {
      case 0: c1 = a.compute_position_control(p, R, v, w, rp, yaw, dt), c2 = b.compute_position_control(p, R, v, w, rp, yaw, dt); break;
      case 1: c1 = a.compute_trajectory_control(p, v, R, w, rp, rvl, ra, yaw, dt), c2 = b.compute_trajectory_control(p, v, R, w, rp, rvl, ra, yaw, dt); break;
      default: c1 = a.compute_velocity_control(v, R, w, rvl, yaw, dt), c2 = b.compute_velocity_control(v, R, w, rvl, yaw, dt);
    }
    for (int i = 0; i < NR; i++)
      if (!(c1(i) == c2(i)) && !(std::isnan(c1(i)) && std::isnan(c2(i)))) return false;
  }
  return true;
}
static void history(Rng &r) {
  SimP p = gen::simp(r, r.chance(0.4));
  Sim s(p);
  Sim twin(p);  // never sees a controller update while disarmed
  bool armed = false;
  int n = r.history(5, 80), spans = 0;
  vh::ev();
  if (s.get_armed() || !zero_act(s)) {
    vh::fail("construction", "a new simulator is %s", s.get_armed() ? "armed" : "actuated");
    return;
  }
  for (int k = 0; k < n; k++) {
    const char *what = "?";
    int op = r.below(20);
    auto before = flat<TP, NR>(s);
    if (op == 0 || (op == 1 && !armed)) {
      Ctl c0(s.get_controller_const());
      s.arm(), twin.arm(), armed = true, what = "arming";
      auto after = flat<TP, NR>(s);
      others("arm/leaves", before, after, {{F_REFW, 3}, {F_REFP + 2, 1}, {F_THRUST, 1}, {F_ARMED, 1}}, what);
      vh::ev(3);
      if (s.get_reference_thrust() != (TP)9.81 || s.get_reference_angular_velocity().norm() != 0 || s.get_reference_position().z() != s.get_floor_height())
        vh::fail("arm/references", "after arming thrust %.9g rates %.9g reference height %.9g (floor height %.9g)", (double)s.get_reference_thrust(), (double)s.get_reference_angular_velocity().norm(), (double)s.get_reference_position().z(), (double)s.get_floor_height());
      if (!same_control(c0, s.get_controller_const(), r, p.controller_params)) vh::fail("arm/history", "arming changes the control history");
      vh::bin("armed");
    } else if (op == 1 || op == 2) {
      Ctl c0(s.get_controller_const());
      s.disarm(), twin.disarm(), armed = false, what = "disarming";
      auto after = flat<TP, NR>(s);
      others("disarm/leaves", before, after, {{F_ACT, NR}, {F_ARMED, 1}}, what);
      if (!zero_act(s)) vh::fail("disarm/actuation", "actuated right after disarming");
      if (!same_control(c0, s.get_controller_const(), r, p.controller_params)) vh::fail("disarm/history", "disarming changes the control history");
      vh::bin("disarmed");
    } else if (op < 8) {
      Rng q(r.u64()), q2 = q;
      int which = r.below(14);
      // same call on both, but not arm or disarm
      Rng probe = q;
      if (probe.below(14) < 2) continue;
      what = gen::call(q, s);
      gen::call(q2, twin);
      (void)which;
    } else {
      TP dt = (TP)r.logu(1e-3, 0.05);
      if (armed) s.update_controller(dt), twin.update_controller(dt), what = "armed update";
      else {
        Ctl c0(s.get_controller_const());
        int m = r.below(4);
        for (int j = 0; j < m; j++) s.update_controller((TP)r.logu(1e-3, 1));
        what = "disarmed update";
        vh::bin("disarmed update", m);
        if (m) vh::bin(vh::fmt("disarmed in %s", gen::mode_name(s.get_control_mode())));
        if (m && !same_control(c0, s.get_controller_const(), r, p.controller_params)) vh::fail("disarmed/history", "a controller update while disarmed changes the control history");
        spans++;
      }
      // some drift in between
      if (r.chance(0.6)) {
        TP d2 = (TP)r.logu(1e-3, 0.01);
        s.update_dynamics(d2), twin.update_dynamics(d2);
      }
    }
    vh::ev(3);
    if (s.get_armed() != armed) {
      vh::fail("armed flag", "armed is %d after %s, should be %d", (int)s.get_armed(), what, (int)armed);
      return;
    }
    bool g2;
    s.get_armed(g2);
    if (g2 != armed) vh::fail("armed flag", "the two getters disagree");
    if (!armed && !zero_act(s)) {
      vh::fail("disarmed/actuation", "actuated while disarmed after %s in mode %s", what, gen::mode_name(s.get_control_mode()));
      return;
    }
    auto x = flat<TP, NR>(s), y = flat<TP, NR>(twin);
    if (!same(x, y)) {
      vh::fail("disarmed/trace", "controller updates while disarmed changed observable %d (seen after %s)", first_diff(x, y), what);
      return;
    }
    vh::nontrivial(vh::hashd(k, x[F_ACT]));
    if (armed && !zero_act(s) && spans) vh::bin("armed after disarmed updates");
  }
  vh::sample("%d calls, %d disarmed spans, now %s", n, spans, armed ? "armed" : "disarmed");
}
static void spindown(Rng &r) {
  gen::VehOpt vo;
  vo.taumax = 0.05;
  SimP p    = gen::simp(r, false, vo);
  auto &v   = p.dynamics_params.model_params;
  Sim s(p);
  s.arm();
  s.set_control_mode(mr::ControlMode::MOTOR_W);
  s.set_refence_motors_angular_velocity(gen::command<TP, NR>(r, v, false));
  for (int k = 0; k < 5; k++) s.update_controller((TP)0.002), s.update_dynamics((TP)0.002);
  s.disarm();
  if (r.chance(0.5)) s.set_control_mode(gen::mode(r));
  double tmin = 1, tmax = 0;
  for (auto &m : v.motors_params) tmin = std::min(tmin, (double)m.time_constant), tmax = std::max(tmax, (double)m.time_constant);
  TP dt = (TP)(std::min(0.009, tmin) * r.uni(0.2, 0.9));
  VN prev = s.get_state().actuators.motor_angular_velocity;
  int n   = std::min(4000, (int)(30 * tmax / (double)dt) + 1);
  for (int k = 0; k < n; k++) {
    if (r.chance(0.5)) s.update_controller(dt);
    if (r.chance(0.02)) s.set_control_mode(gen::mode(r));
    s.update_dynamics(dt);
    VN w = s.get_state().actuators.motor_angular_velocity;
    vh::ev();
    for (int i = 0; i < NR; i++) {
      auto &m  = v.motors_params[i];
      TP goal  = std::min(std::max((TP)0, m.min_speed), m.max_speed);
      LD scale = std::max((LD)fabs((double)m.max_speed), (LD)fabs((double)m.min_speed));
      if (!(fabsl((LD)w(i) - goal) <= fabsl((LD)prev(i) - goal) + vh::rel<TP>() * scale)) {
        vh::fail("spin-down", "rotor %d goes from %.9g to %.9g while disarmed (rest speed %.9g)", i, (double)prev(i), (double)w(i), (double)goal);
        return;
      }
      if (k == n - 1 && n > 28 * tmax / (double)dt && !(fabsl((LD)w(i) - goal) <= 1e-3L * scale + 1e-6L)) vh::fail("spin-down", "rotor %d still at %.9g after %.4g s disarmed, rest speed %.9g", i, (double)w(i), n * (double)dt, (double)goal);
    }
    prev = w;
    if (!(s.get_state().kinematics.angular_velocity.norm() < 1e3)) s.get_dynamics().set_state([&] { St t = s.get_state(); t.kinematics = mr::state::internal::Kinematics<TP>(); return t; }());
  }
  vh::bin("spun down");
  vh::nontrivial(vh::hashd(n, (double)dt));
}
void run_case(long idx, Rng &r) {
  layout();
  if (idx % 5 == 4) spindown(r);
  else history(r);
}
