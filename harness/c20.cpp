// C20: settings read back as written; updates touch only what they name and keep the history; replacement = newly built.
#include "sim.hpp"
static void quiet() {
  static bool done = false;
  if (!done) std::cout.setstate(std::ios::failbit), std::cerr.setstate(std::ios::failbit), done = true;
}
template <typename A, typename B>
static bool eqm(const A &a, const B &b) {
  for (int j = 0; j < a.cols(); j++)
    for (int i = 0; i < a.rows(); i++)
      if (!(a(i, j) == b(i, j)) && !(std::isnan(a(i, j)) && std::isnan(b(i, j)))) return false;
  return true;
}
static bool es(TP a, TP b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool expect(bool ok, const char *key, const char *what) {
  vh::ev();
  if (!ok) vh::fail(key, "%s", what);
  return ok;
}
// ---------------------------------------------------------------- PID settings
template <int N>
struct Shadow {
  using V = Eigen::Matrix<TP, N, 1>;
  V kp, ki, kd, aw, al, up, lo;
  bool rst, prop, sat;
  void load(const pid_controller::PIDParams<TP, N> &p) {
    kp = p.Kp_gains, ki = p.Ki_gains, kd = p.Kd_gains, aw = p.antiwindup_cte, al = p.alpha, rst = p.reset_integral_flag, prop = p.proportional_saturation_flag;
    if (p.upper_output_saturation.isZero(0) && p.lower_output_saturation.isZero(0)) sat = false;
    else limits(p.upper_output_saturation, p.lower_output_saturation, prop);
  }
  pid_controller::PIDParams<TP, N> params() const {
    pid_controller::PIDParams<TP, N> p;
    p.Kp_gains = kp, p.Ki_gains = ki, p.Kd_gains = kd, p.antiwindup_cte = aw, p.alpha = al, p.reset_integral_flag = rst, p.proportional_saturation_flag = prop;
    if (sat) p.upper_output_saturation = up, p.lower_output_saturation = lo;
    return p;
  }
  void limits(const V &u, const V &l, bool pr) {
    for (int i = 0; i < N; i++)
      if (!(u(i) > l(i)) || u(i) - l(i) < std::numeric_limits<TP>::epsilon()) {
        sat = false;
        return;
      }
    up = u, lo = l, sat = true, prop = pr;
  }
};
template <int N, class C>
static bool readback(const C &c, const Shadow<N> &s, const char *what) {
  using V = Eigen::Matrix<TP, N, 1>;
  V a, b, d;
  c.get_gains(a, b, d);
  bool ok = expect(eqm(a, s.kp) && eqm(b, s.ki) && eqm(d, s.kd) && eqm(c.get_gains_kp(), s.kp) && eqm(c.get_gains_ki(), s.ki) && eqm(c.get_gains_kd(), s.kd), "pid/gains", what);
  ok &= expect(eqm(c.get_anti_windup(), s.aw), "pid/anti-windup", what);
  ok &= expect(eqm(c.get_alpha(), s.al), "pid/alpha", what);
  ok &= expect(c.get_reset_integral_saturation_flag() == s.rst, "pid/reset flag", what);
  ok &= expect(c.get_proportional_saturation_flag() == s.prop, "pid/proportional flag", what);
  ok &= expect(c.get_output_saturation_flag() == s.sat, "pid/limits active", what);
  if (s.sat) {
    c.get_saturation_limits(a, b);
    ok &= expect(eqm(a, s.up) && eqm(b, s.lo), "pid/limits", what);
  }
  auto p = c.get_params();
  ok &= expect(eqm(p.Kp_gains, s.kp) && eqm(p.Ki_gains, s.ki) && eqm(p.Kd_gains, s.kd) && eqm(p.antiwindup_cte, s.aw) && eqm(p.alpha, s.al) && p.reset_integral_flag == s.rst && p.proportional_saturation_flag == s.prop, "pid/params", what);
  if (s.sat) ok &= expect(eqm(p.upper_output_saturation, s.up) && eqm(p.lower_output_saturation, s.lo), "pid/params limits", what);
  else ok &= expect(p.upper_output_saturation.isZero(0) && p.lower_output_saturation.isZero(0), "pid/params limits", what);
  return ok;
}
template <int N>
static void pid(Rng &r) {
  using V = Eigen::Matrix<TP, N, 1>;
  auto p  = pidh::params<TP, N>(r, true);
  pid_controller::PID<TP, N> c(p);
  Shadow<N> s;
  s.up.setZero(), s.lo.setZero();
  s.load(p);
  if (!readback<N>(c, s, "after construction")) return;
  pidh::Signal<N> sig(r);
  pid_controller::PID<TP, N> twin(c);  // never has its own parameters re-applied
  int n = r.history(5, 60);
  for (int k = 0; k < n; k++) {
    std::string what = "after a call";
    V v = pidh::randv<TP, N>(r, r.logu(0.1, 30)), u, l;
    auto both = [&](auto f) { f(c), f(twin); };
    switch (r.below(24)) {
      case 0: both([&](auto &x) { x.set_gains_kp(v); }), s.kp = v, what = "after set_gains_kp"; break;
      case 1: both([&](auto &x) { x.set_gains_ki(v); }), s.ki = v, what = "after set_gains_ki"; break;
      case 2: both([&](auto &x) { x.set_gains_kd(v); }), s.kd = v, what = "after set_gains_kd"; break;
      case 3: {
        V a = pidh::randv<TP, N>(r, 5), b = pidh::randv<TP, N>(r, 5);
        both([&](auto &x) { x.set_gains(v, a, b); }), s.kp = v, s.ki = a, s.kd = b, what = "after set_gains";
        break;
      }
      case 4: both([&](auto &x) { x.set_anti_windup(v); }), s.aw = v, what = "after set_anti_windup"; break;
      case 5:
        for (int i = 0; i < N; i++) v(i) = (TP)r.uni(0, 1);
        both([&](auto &x) { x.set_alpha(v); }), s.al = v, what = "after set_alpha";
        break;
      case 6: s.rst = !s.rst, both([&](auto &x) { x.set_reset_integral_saturation_flag(s.rst); }), what = "after set_reset_integral_saturation_flag"; break;
      case 7: s.prop = !s.prop, both([&](auto &x) { x.set_proportional_saturation_flag(s.prop); }), what = "after set_proportional_saturation_flag"; break;
      case 8: {
        pidh::limits<TP, N>(r, u, l, true);
        if (r.chance(0.3)) {
          int i = r.below(N);
          if (r.chance(0.5)) u(i) = l(i);
          else std::swap(u(i), l(i));
          what = "after limits that are inverted or equal on an axis", vh::bin("limits refused");
        } else what = "after set_output_saturation";
        bool pr = r.chance(0.5);
        both([&](auto &x) { x.set_output_saturation(u, l, pr); }), s.limits(u, l, pr);
        break;
      }
      case 9: both([&](auto &x) { x.disable_output_saturation(); }), s.sat = false, what = "after disable_output_saturation"; break;
      case 10: p = pidh::mix<TP, N>(r, c.get_params(), pidh::params<TP, N>(r, true)), both([&](auto &x) { x.update_pid_params(p); }), s.load(p), what = "after update_pid_params"; break;
      case 11: both([&](auto &x) { x.reset_controller(); }), what = "after reset_controller"; break;
      case 12:
      case 13: c.update_pid_params(c.get_params()), what = "after re-applying its own parameters", vh::bin("own parameters re-applied"); break;
      default: {
        TP dt = (TP)r.logu(1e-3, 0.1);
        V e = sig.template next<TP>(r, dt), d = pidh::randv<TP, N>(r, 3);
        V a, b;
        if (r.chance(0.6)) a = c.compute_control(dt, e), b = twin.compute_control(dt, e);
        else a = c.compute_control(dt, e, d), b = twin.compute_control(dt, e, d);
        if (!expect(eqm(a, b) && eqm(c.get_output(), twin.get_output()) && eqm(c.get_integral_error_contribution(), twin.get_integral_error_contribution()), "pid/re-applied", "re-applying the parameters read from a controller changes its output")) return;
        vh::nontrivial(vh::hashd(k, (double)a(0)));
      }
    }
    if (!readback<N>(c, s, what.c_str())) return;
  }
  vh::bin("PID settings");
}
static void pid1(Rng &r) {
  auto pv = pidh::params<TP, 1>(r, true);
  auto load = [](const auto &v) {
    pid_1d_controller::PIDParams<TP> p;
    p.Kp_gains = v.Kp_gains(0), p.Ki_gains = v.Ki_gains(0), p.Kd_gains = v.Kd_gains(0), p.antiwindup_cte = v.antiwindup_cte(0), p.alpha = v.alpha(0), p.reset_integral_flag = v.reset_integral_flag;
    p.upper_output_saturation = v.upper_output_saturation(0), p.lower_output_saturation = v.lower_output_saturation(0);
    return p;
  };
  auto p = load(pv);
  pid_1d_controller::PID<TP> c(p), twin(p);
  Shadow<1> s;
  s.up.setZero(), s.lo.setZero();
  s.load(pv);
  pidh::Signal<1> sig(r);
  int n = r.history(5, 60);
  for (int k = 0; k < n; k++) {
    const char *what = "scalar class";
    TP v = (TP)r.uni(0, 5);
    auto both = [&](auto f) { f(c), f(twin); };
    Eigen::Matrix<TP, 1, 1> u, l;
    switch (r.below(20)) {
      case 0: both([&](auto &x) { x.set_kp(v); }), s.kp(0) = v; break;
      case 1: both([&](auto &x) { x.set_ki(v); }), s.ki(0) = v; break;
      case 2: both([&](auto &x) { x.set_kd(v); }), s.kd(0) = v; break;
      case 3: both([&](auto &x) { x.set_gains(v, v + 1, v + 2); }), s.kp(0) = v, s.ki(0) = v + 1, s.kd(0) = v + 2; break;
      case 4: both([&](auto &x) { x.set_anti_windup(v); }), s.aw(0) = v; break;
      case 5: v = (TP)r.unit(), both([&](auto &x) { x.set_alpha(v); }), s.al(0) = v; break;
      case 6: s.rst = !s.rst, both([&](auto &x) { x.set_reset_integral_saturation_flag(s.rst); }); break;
      case 7:
        pidh::limits<TP, 1>(r, u, l, true);
        if (r.chance(0.3)) std::swap(u, l);
        both([&](auto &x) { x.set_output_saturation(u(0), l(0)); }), s.limits(u, l, false);
        break;
      case 8: both([&](auto &x) { x.disable_output_saturation(); }), s.sat = false; break;
      case 9: pv = pidh::mix<TP, 1>(r, s.params(), pidh::params<TP, 1>(r, true)), p = load(pv), both([&](auto &x) { x.update_params(p); }), s.load(pv); break;
      case 10: both([&](auto &x) { x.reset_controller(); }); break;
      case 11: c.update_params(c.get_params()), what = "scalar class re-applied"; break;
      default: {
        TP dt = (TP)r.logu(1e-3, 0.1), e = sig.next<TP>(r, dt)(0), a, b;
        if (r.chance(0.6)) a = c.compute_control(dt, e), b = twin.compute_control(dt, e);
        else a = c.compute_control(dt, e, v), b = twin.compute_control(dt, e, v);
        if (!expect(a == b && c.get_output() == twin.get_output(), "pid/re-applied", "re-applying the parameters read from a scalar controller changes its output")) return;
      }
    }
    TP a, b, d;
    c.get_gains(a, b, d);
    auto q = c.get_params();
    bool ok = expect(a == s.kp(0) && b == s.ki(0) && d == s.kd(0) && c.get_kp() == a && c.get_ki() == b && c.get_kd() == d, "pid/gains", what);
    ok &= expect(c.get_anti_windup() == s.aw(0) && c.get_alpha() == s.al(0) && c.get_reset_integral_saturation_flag() == s.rst && c.get_output_saturation_flag() == s.sat, "pid/flags", what);
    ok &= expect(q.Kp_gains == s.kp(0) && q.Ki_gains == s.ki(0) && q.Kd_gains == s.kd(0) && q.antiwindup_cte == s.aw(0) && q.alpha == s.al(0) && q.reset_integral_flag == s.rst, "pid/params", what);
    if (s.sat) {
      c.get_saturation_limits(a, b);
      ok &= expect(a == s.up(0) && b == s.lo(0) && q.upper_output_saturation == a && q.lower_output_saturation == b, "pid/limits", what);
    } else
      ok &= expect(q.upper_output_saturation == 0 && q.lower_output_saturation == 0, "pid/params limits", what);
    if (!ok) return;
  }
  vh::bin("scalar PID settings");
}
// ---------------------------------------------------------------- cascade
struct In {
  V3 p, v, w, rp, rvl, ra;
  Eigen::Matrix<TP, 3, 3> R;
  TP yaw, dt, thrust;
  explicit In(Rng &r) : p(gen::v3(r, 3)), v(gen::v3(r, 3)), w(gen::v3(r, 3)), rp(gen::v3(r, 3)), rvl(gen::v3(r, 3)), ra(gen::v3(r, 3)), R(eq<TP>(gen::quat(r)).toRotationMatrix()), yaw((TP)r.uni(-3, 3)), dt((TP)r.logu(1e-3, 0.05)), thrust((TP)r.uni(0, 20)) {}
};
static const char *PART[] = {"position", "velocity", "trajectory", "rate", "attitude"};
// output of one stage; for the attitude stage thrust and rate
static std::vector<double> stage(Ctl &c, int i, const In &x) {
  std::vector<double> o;
  auto add = [&](const auto &v) {
    for (int k = 0; k < v.size(); k++) o.push_back((double)v(k));
  };
  switch (i) {
    case 0: add(c.convert_position_to_linear_velocity(x.p, x.rp, x.dt)); break;
    case 1: add(c.convert_linear_velocity_to_linear_acceleration(x.v, x.rvl, x.dt)); break;
    case 2: add(c.convert_trajectory_to_linear_acceleration(x.p, x.v, x.rp, x.rvl, x.ra, x.dt)); break;
    case 3: add(c.convert_acro_to_motor_angular_velocity(x.w, x.thrust, x.rvl, x.dt)); break;
    default: {
      auto q = c.convert_linear_acceleration_to_acro(x.ra, x.R, x.yaw, x.dt);
      o.push_back((double)q.first), add(q.second), o.push_back((double)c.yaw_rate_to_angle(x.yaw, x.thrust));
    }
  }
  return o;
}
static VN whole(Ctl &c, const In &x, int how) {
  switch (how) {
    case 0: return c.compute_position_control(x.p, x.R, x.v, x.w, x.rp, x.yaw, x.dt);
    case 1: return c.compute_velocity_control(x.v, x.R, x.w, x.rvl, x.yaw, x.dt);
    case 2: return c.compute_trajectory_control(x.p, x.v, x.R, x.w, x.rp, x.rvl, x.ra, x.yaw, x.dt);
    default: return c.compute_acro_control(x.w, x.thrust, x.rvl, x.dt);
  }
}
static void put(Ctl &c, const CtlP &q, int part, int how) {
  switch (part) {
    case 0:
      if (how == 0) c.update_position_controller_params(q.position_controller_params);
      else if (how == 1) c.get_position_controller().update_params(q.position_controller_params);
      else c.get_position_controller().update_pid_params(q.position_controller_params.pid_params);
      break;
    case 1:
      if (how == 0) c.update_velocity_controller_params(q.velocity_controller_params);
      else if (how == 1) c.get_velocity_controller().update_params(q.velocity_controller_params);
      else c.get_velocity_controller().update_pid_params(q.velocity_controller_params.pid_params);
      break;
    case 2:
      if (how == 0) c.update_trajectory_controller_params(q.trajectory_controller_params);
      else if (how == 1) c.get_trajectory_controller().update_params(q.trajectory_controller_params);
      else c.get_trajectory_controller().update_pid_params(q.trajectory_controller_params.pid_params);
      break;
    case 3:
      if (how == 0) c.update_indi_controller_params(q.indi_controller_params);
      else if (how == 1) c.get_indi_controller().update_params(q.indi_controller_params);
      else {
        c.get_indi_controller().update_inertia(q.indi_controller_params.inertia);
        c.get_indi_controller().update_mixer_matrix_inverse(q.indi_controller_params.mixer_matrix_inverse);
        c.get_indi_controller().update_pid_params(q.indi_controller_params.pid_params);
      }
      break;
    default:
      if (how == 0) c.update_acro_controller_params(q.acro_controller_params);
      else if (how == 1) c.get_acro_controller().update_params(q.acro_controller_params);
      else {
        c.get_acro_controller().update_kp_rot(q.acro_controller_params.kp_rot);
        c.get_acro_controller().update_vehicle_mass(q.acro_controller_params.vehicle_mass);
        c.get_acro_controller().update_gravity(q.acro_controller_params.gravity);
      }
  }
}
static void merge(CtlP &cur, const CtlP &q, int part) {
  switch (part) {
    case 0: cur.position_controller_params = q.position_controller_params; break;
    case 1: cur.velocity_controller_params = q.velocity_controller_params; break;
    case 2: cur.trajectory_controller_params = q.trajectory_controller_params; break;
    case 3: cur.indi_controller_params = q.indi_controller_params; break;
    default: cur.acro_controller_params = q.acro_controller_params;
  }
}
static bool settings(const Ctl &c, const CtlP &p, const char *what) {
  auto one = [&](const auto &x, const PidP &q, const char *key) {
    Shadow<3> s;
    s.up.setZero(), s.lo.setZero();
    s.load(q);
    bool ok = readback<3>(x, s, what);
    if (!ok) vh::fail(std::string("cascade/") + key, "%s: settings of the %s controller read back differently", what, key);
    return ok;
  };
  bool ok = one(c.get_position_controller_const(), p.position_controller_params.pid_params, "position") && one(c.get_velocity_controller_const(), p.velocity_controller_params.pid_params, "velocity") &&
            one(c.get_trajectory_controller_const(), p.trajectory_controller_params.pid_params, "trajectory") && one(c.get_indi_controller_const(), p.indi_controller_params.pid_params, "rate");
  ok &= expect(eqm(c.get_indi_controller_const().get_inertia(), p.indi_controller_params.inertia) && eqm(c.get_indi_controller_const().get_mixer_matrix_inverse(), p.indi_controller_params.mixer_matrix_inverse), "cascade/rate", what);
  auto &a = c.get_acro_controller_const();
  ok &= expect(eqm(a.get_kp_rot(), p.acro_controller_params.kp_rot) && eqm(a.get_gravity(), p.acro_controller_params.gravity) && a.get_vehicle_mass() == p.acro_controller_params.vehicle_mass, "cascade/attitude", what);
  return ok;
}
static void cascade(Rng &r) {
  Veh v   = gen::vehicle<TP, NR>(r);
  CtlP p  = gen::controller(r, v);
  Ctl c   = r.chance(0.5) ? Ctl(p) : Ctl(p.acro_controller_params, p.indi_controller_params, p.position_controller_params, p.trajectory_controller_params, p.velocity_controller_params);
  if (r.chance(0.2)) c = Ctl(), c.update_params(p);
  if (!settings(c, p, "construction")) return;
  Ctl twin(c);
  int n = r.history(3, 25, 0.002);
  for (int k = 0; k < n; k++) {
    int op = r.below(10);
    In x(r);
    if (op < 5) {  // calls that build up history
      int m = r.range(1, 6);
      for (int j = 0; j < m; j++) {
        In y(r);
        int how = r.below(4);
        VN a = whole(c, y, how), b = whole(twin, y, how);
        if (!expect(eqm(a, b), "cascade/paths", "two ways of updating a controller's parameters lead to different commands")) return;
      }
    } else if (op < 8) {
      int part = r.below(5), how = r.below(3), how2 = r.below(3);
      CtlP q   = gen::mix(r, p, gen::controller(r, v));
      Ctl old(c);
      bool again = r.chance(0.2);
      if (again) q = p;
      put(c, q, part, how), put(twin, q, part, how2);
      merge(p, q, part);
      std::string what = vh::fmt("after updating the %s controller", PART[part]);
      if (!settings(c, p, what.c_str())) return;
      vh::bin(vh::fmt("%s controller updated", PART[part]));
      // the others go on as if nothing had happened; re-applied parameters change nothing at all
      for (int i = 0; i < 5; i++) {
        if (i == part && !again) continue;
        Ctl a(c), b(old);
        for (int j = 0; j < 2; j++)
          if (!expect(same(stage(a, i, x), stage(b, i, x)), "cascade/isolation", vh::fmt("%s: the %s controller changes", what.c_str(), PART[i]).c_str())) return;
      }
      // the updated one keeps its history: switching back to the old parameters restores it exactly
      if (!again) {
        Ctl a(c), b(old);
        CtlP o2 = p;
        // old parameters of that part, read from the old controller itself
        switch (part) {
          case 0: a.get_position_controller().update_pid_params(old.get_position_controller_const().get_params()); break;
          case 1: a.get_velocity_controller().update_pid_params(old.get_velocity_controller_const().get_params()); break;
          case 2: a.get_trajectory_controller().update_pid_params(old.get_trajectory_controller_const().get_params()); break;
          case 3:
            a.get_indi_controller().update_pid_params(old.get_indi_controller_const().get_params());
            a.get_indi_controller().update_inertia(old.get_indi_controller_const().get_inertia());
            a.get_indi_controller().update_mixer_matrix_inverse(old.get_indi_controller_const().get_mixer_matrix_inverse());
            break;
          default:
            a.get_acro_controller().update_kp_rot(old.get_acro_controller_const().get_kp_rot());
            a.get_acro_controller().update_vehicle_mass(old.get_acro_controller_const().get_vehicle_mass());
            a.get_acro_controller().update_gravity(old.get_acro_controller_const().get_gravity());
        }
        (void)o2;
        for (int i = 0; i < 5; i++)
          if (!expect(same(stage(a, i, x), stage(b, i, x)), "cascade/history", vh::fmt("%s and restoring its old settings the %s controller behaves differently: its history was touched", what.c_str(), PART[i]).c_str())) return;
      }
    } else if (op == 8) {
      c.reset_controller(), twin.reset_controller();
      Ctl a(c), b(p);
      if (!settings(c, p, "after resetting the cascade")) return;
      for (int j = 0; j < 3; j++) {
        In y(r);
        for (int i = 0; i < 5; i++)
          if (!expect(same(stage(a, i, y), stage(b, i, y)), "cascade/reset", vh::fmt("after resetting the cascade the %s controller does not behave like a new one", PART[i]).c_str())) return;
      }
      vh::bin("cascade reset");
    } else {
      CtlP q = gen::mix(r, p, gen::controller(r, v));
      c.update_params(q);
      for (int i = 0; i < 5; i++) put(twin, q, i, r.below(3));
      p = q;
      if (!settings(c, p, "after updating all controllers")) return;
      vh::bin("all controllers updated");
    }
    vh::nontrivial(vh::hashd(k, (double)p.acro_controller_params.vehicle_mass));
  }
}
// ---------------------------------------------------------------- simulator components
static bool getters(Sim &s) {
  St st;
  Dyn dy;
  Ctl ct;
  imu::IMU<TP> im;
  imu::InertialOdometry<TP> od;
  s.get_state(st), s.get_dynamics(dy), s.get_controller(ct), s.get_imu(im), s.get_inertial_odometry(od);
  bool ok = expect(same(flat<TP, NR>(st), flat<TP, NR>(s.get_state())) && same(flat<TP, NR>(dy.get_state()), flat<TP, NR>(st)) && same(flat<TP, NR>(s.get_dynamics_const().get_state()), flat<TP, NR>(st)) && same(flat<TP, NR>(s.get_dynamics().get_state()), flat<TP, NR>(st)), "getters/state", "the ways of reading the state disagree");
  V3 a, b, c, d;
  im.get_measurement(a, b), s.get_imu_measurement(c, d);
  ok &= expect(eqm(a, c) && eqm(b, d) && eqm(s.get_imu().get_measurement_gyro(), a) && eqm(s.get_imu_const().get_measurement_accel(), b), "getters/imu", "the ways of reading the IMU disagree");
  V3 e, f;
  s.get_imu().get_measurement_gyro(e), s.get_imu().get_measurement_accel(f);
  auto pr = s.get_imu_const().get_measurement();
  ok &= expect(eqm(e, a) && eqm(f, b) && eqm(pr.first, a) && eqm(pr.second, b), "getters/imu", "the ways of reading the IMU disagree");
  ok &= expect(eqm(od.get_position(), s.get_odometry().position) && eqm(s.get_inertial_odometry().get_linear_velocity(), s.get_odometry().linear_velocity), "getters/odometry", "the ways of reading the odometry disagree");
  Rng rx(1);
  In x(rx);
  Ctl c2(s.get_controller_const());
  for (int i = 0; i < 5; i++) ok &= expect(same(stage(ct, i, x), stage(c2, i, x)), "getters/controller", "a copy read from the simulator behaves differently");
  // references
  VN m, m2;
  TP t1, t2, y1, yr, fh;
  bool ar, fe;
  mr::ControlMode cm;
  mr::YawControlMode ym;
  s.get_reference_motors_angular_velocity(m), s.get_reference_thrust(t1), s.get_reference_angular_velocity(a), s.get_reference_position(b), s.get_reference_velocity(c), s.get_reference_acceleration(d), s.get_reference_yaw(y1), s.get_reference_yaw_rate(yr);
  s.get_actuation_motors_angular_velocity(m2), s.get_armed(ar), s.get_floor_collision_enabled(fe), s.get_floor_height(fh), s.get_control_mode(cm), s.get_yaw_control_mode(ym), s.get_external_force(e);
  ok &= expect(eqm(m, s.get_reference_motors_angular_velocity()) && t1 == s.get_reference_thrust() && eqm(a, s.get_reference_angular_velocity()) && eqm(b, s.get_reference_position()) && eqm(c, s.get_reference_velocity()) && eqm(d, s.get_reference_acceleration()) && es(y1, s.get_reference_yaw()) && yr == s.get_reference_yaw_rate(), "getters/references", "the ways of reading a reference disagree");
  ok &= expect(eqm(m2, s.get_actuation_motors_angular_velocity()) && ar == s.get_armed() && fe == s.get_floor_collision_enabled() && fh == s.get_floor_height() && cm == s.get_control_mode() && ym == s.get_yaw_control_mode() && eqm(e, s.get_external_force()), "getters/status", "the ways of reading the status disagree");
  (void)t2;
  return ok;
}
static void components(Rng &r) {
  SimP p = gen::simp(r, r.chance(0.7));
  Sim s(p);
  {  // built at once or assembled
    Sim a;
    int o[4] = {0, 1, 2, 3};
    for (int i = 3; i > 0; i--) std::swap(o[i], o[r.below(i + 1)]);
    for (int i : o) {
      if (i == 0) a.set_dynamics_params(p.dynamics_params);
      if (i == 1) a.set_controller_params(p.controller_params);
      if (i == 2) a.set_imu_params(p.imu_params);
      if (i == 3) a.set_inertial_odometry_params(p.inertial_odometry_params);
    }
    Sim b(p);
    Rng r1(r.u64()), r2(r1);
    for (int k = 0; k < 4; k++) {
      gen::call(r1, a), gen::call(r2, b);
      TP dt = (TP)r1.logu(1e-3, 0.02);
      dt    = (TP)r2.logu(1e-3, 0.02);
      a.arm(), b.arm();
      gen::tick(r1, a, dt), gen::tick(r2, b, dt);
      if (!expect(same(flat<TP, NR>(a), flat<TP, NR>(b)), "components/assembled", "a simulator assembled from parts differs from one built at once")) return;
    }
    vh::bin("assembled");
  }
  s.arm();
  Sim t(s);  // gets each component assigned from a newly built one
  int n = r.history(4, 25, 0.002);
  for (int k = 0; k < n; k++) {
    Rng r1(r.u64()), r2(r1);
    const char *op = "tick";
    if (r.chance(0.3)) {
      SimP q      = gen::simp(r, r.chance(0.7));
      auto before = flat<TP, NR>(s);
      size_t ns   = 22 + 3 + 2 * NR;  // state values
      size_t ni = ns + 12, no = ni + 16;
      Ctl c0(s.get_controller_const());
      int part = r.below(4);
      switch (part) {
        case 0:
          s.set_dynamics_params(q.dynamics_params), t.get_dynamics() = Dyn(q.dynamics_params), op = "set_dynamics_params";
          if (!expect(same(flat<TP, NR>(s.get_state()), flat<TP, NR>(q.dynamics_params.state)) && s.get_dynamics_const().get_model_const().get_mass() == q.dynamics_params.model_params.vehicle_mass, "components/read back", "replaced dynamics do not show the new state and vehicle")) return;
          break;
        case 1:
          s.set_controller_params(q.controller_params), t.get_controller() = Ctl(q.controller_params), op = "set_controller_params";
          if (!settings(s.get_controller_const(), q.controller_params, "after set_controller_params")) return;
          break;
        case 2: {
          s.set_imu_params(q.imu_params), t.get_imu() = imu::IMU<TP>(q.imu_params), op = "set_imu_params";
          TP a, b;
          s.get_imu_const().get_variances(a, b);
          if (!expect(a == q.imu_params.gyro_noise_var && b == q.imu_params.accel_noise_var, "components/read back", "replaced IMU does not show the new variances")) return;
          break;
        }
        default: s.set_inertial_odometry_params(q.inertial_odometry_params), t.get_inertial_odometry() = imu::InertialOdometry<TP>(q.inertial_odometry_params), op = "set_inertial_odometry_params";
          if (!expect(eqm(s.get_odometry().orientation.coeffs(), q.inertial_odometry_params.initial_world_orientation.coeffs()), "components/read back", "replaced odometry does not show its initial orientation")) return;
      }
      // everything that does not belong to the component is as before
      auto after = flat<TP, NR>(s);
      vh::ev();
      for (size_t i = 0; i < after.size(); i++) {
        int owner = i < ns ? 0 : i < ni ? 2 : i < no ? 3 : 9;
        if (owner != part && !(after[i] == before[i]) && !(std::isnan(after[i]) && std::isnan(before[i]))) {
          vh::fail("components/others", "%s changes observable %zu, which does not belong to it", op, i);
          return;
        }
      }
      if (part != 1) {
        In x(r);
        Ctl a(s.get_controller_const()), b(c0);
        for (int i = 0; i < 5; i++)
          if (!expect(same(stage(a, i, x), stage(b, i, x)), "components/others", vh::fmt("%s changes the %s controller", op, PART[i]).c_str())) return;
      }
      vh::bin(op);
    } else if (r.chance(0.3)) {
      op = gen::call(r1, s), gen::call(r2, t);
    } else {
      TP dt = (TP)r.logu(1e-3, 0.02);
      gen::tick(r1, s, dt), gen::tick(r2, t, dt);
    }
    if (!expect(same(flat<TP, NR>(s), flat<TP, NR>(t)), "components/replaced", vh::fmt("%s: a replaced component does not behave like a newly built one", op).c_str())) return;
    if (!getters(s)) return;
    vh::nontrivial(vh::hashd(k, (double)s.get_state().kinematics.position(0)));
  }
  // dynamics: state and model
  Dyn d(p.dynamics_params);
  St a = gen::state<TP, NR>(r, p.dynamics_params.model_params), b;
  Mod m(gen::vehicle<TP, NR>(r), 7), m2;
  if (r.chance(0.5)) d.set_state(a);
  else d.set_state(&a);
  d.get_state(b);
  bool ok = expect(same(flat<TP, NR>(a), flat<TP, NR>(d.get_state())) && same(flat<TP, NR>(b), flat<TP, NR>(a)), "dynamics/state", "the state set is not the state read");
  if (r.chance(0.5)) d.set_model(m);
  else d.set_model(&m);
  d.get_model(m2);
  auto sameModel = [](const Mod &x, const Mod &y) { return x.get_mass() == y.get_mass() && eqm(x.get_mixer_matrix(), y.get_mixer_matrix()) && eqm(x.get_vehicle_inertia(), y.get_vehicle_inertia()) && eqm(x.get_gravity(), y.get_gravity()) && x.get_motors().size() == y.get_motors().size(); };
  ok &= expect(sameModel(m, d.get_model()) && sameModel(m, m2) && sameModel(d.get_model_const(), m) && same(flat<TP, NR>(a), flat<TP, NR>(d.get_state())), "dynamics/model", "the model set is not the model read, or setting it changed the state");
  d.set_state((const St *)nullptr), d.set_model((const Mod *)nullptr);
  ok &= expect(same(flat<TP, NR>(a), flat<TP, NR>(d.get_state())) && sameModel(m, d.get_model()), "dynamics/null", "setting nothing changed something");
  // setting the state does not disturb the noise: a twin whose noise was drawn with another state
  St z = gen::state<TP, NR>(r, m.get_params());
  Dyn e(d);
  e.set_state(z), e.set_state(a);
  VN c = gen::command<TP, NR>(r, m.get_params(), false);
  d.process_euler_explicit(c, (TP)0.005), e.process_euler_explicit(c, (TP)0.005);
  ok &= expect(same(flat<TP, NR>(d.get_state()), flat<TP, NR>(e.get_state())), "dynamics/state", "setting the state leaves traces");
  // IMU settings
  imu::IMU<TP> im(p.imu_params);
  TP gv = (TP)r.logu(1e-4, 1), av = (TP)r.logu(1e-4, 1), x1, x2;
  im.set_noise_variances(gv, av), im.get_variances(x1, x2);
  V3 gb = gen::v3(r, 1), ab = gen::v3(r, 1), g2, a2;
  im.set_bias(gb, ab, 0, 0), im.get_bias(g2, a2);
  ok &= expect(x1 == gv && x2 == av && eqm(gb, g2) && eqm(ab, a2), "imu/settings", "IMU variances or biases read back differently");
  im.get_variances(x1, x2);
  ok &= expect(x1 == gv && x2 == av, "imu/settings", "setting the bias changes the variances");
  imu::InertialOdometry<TP> od(p.inertial_odometry_params);
  auto q0 = eq<TP>(gen::quat(r));
  od.set_initial_orientation(q0);
  ok &= expect(eqm(od.get_orientation().coeffs(), q0.coeffs()), "odometry/settings", "the initial orientation reads back differently");
}
void run_case(long, Rng &r) {
  quiet();
  switch (r.below(6)) {
    case 0: pid<3>(r); break;
    case 1: r.chance(0.5) ? pid<NR>(r) : pid<1>(r); break;
    case 2: pid1(r); break;
    case 3:
    case 4: cascade(r); break;
    default: components(r);
  }
}
