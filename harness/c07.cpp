// C07: every step is predicted with a copy of the vehicle that knows no floor; the floor may only do what it should.
#include "sim.hpp"
static bool closev(const std::vector<double> &a, const std::vector<double> &b, int *at = nullptr) {
  LD m = 0;
  for (size_t i = 0; i < a.size(); i++) {
    LD s = 1 + std::max(fabs(a[i]), fabs(b[i]));
    if (!(fabs(a[i] - b[i]) <= vh::rel<TP>() * s)) {
      if (at) *at = (int)i;
      return false;
    }
  }
  return true;
}
static std::vector<double> calm(const Sim &s) {  // everything a dynamics update must leave alone
  std::vector<double> o;
  auto add = [&](const auto &v) {
    for (int i = 0; i < v.size(); i++) o.push_back((double)v(i));
  };
  add(s.get_actuation_motors_angular_velocity()), add(s.get_reference_motors_angular_velocity());
  add(s.get_reference_angular_velocity()), add(s.get_reference_position()), add(s.get_reference_velocity()), add(s.get_reference_acceleration());
  for (double d : {(double)s.get_reference_thrust(), (double)s.get_reference_yaw(), (double)s.get_reference_yaw_rate(), (double)s.get_armed(), (double)(int)s.get_control_mode(),
                   (double)(int)s.get_yaw_control_mode(), (double)s.get_floor_height(), (double)s.get_floor_collision_enabled()})
    o.push_back(d);
  return o;
}
static std::vector<double> sensors(const Sim &s) {
  std::vector<double> o;
  auto add = [&](const auto &v) {
    for (int i = 0; i < v.size(); i++) o.push_back((double)v(i));
  };
  V3 g, a, gb, ab;
  s.get_imu_measurement(g, a), s.get_imu_const().get_bias(gb, ab);
  add(g), add(a), add(gb), add(ab);
  auto k = s.get_odometry();
  add(k.position), add(k.orientation.coeffs()), add(k.linear_velocity), add(k.angular_velocity), add(k.linear_acceleration);
  return o;
}
static bool finite_st(const St &s) {
  for (double v : flat<TP, NR>(s))
    if (!std::isfinite(v)) return false;
  return true;
}
static TP floor_h     = 0;      // shadow: floor last enabled
static bool floor_on  = false;  // shadow: floor switched on
static void floor_op(Sim &s, const char *op, TP h) {
  if (!strcmp(op, "on")) s.enable_floor_collision(h), floor_h = h, floor_on = true;
  else s.disable_floor_collision(), floor_on = false;
  vh::ev();
  if (s.get_floor_collision_enabled() != floor_on || (floor_on && s.get_floor_height() != floor_h))
    vh::fail("floor/setting", "floor switched %s at %.9g reads %d at %.9g", op, (double)h, (int)s.get_floor_collision_enabled(), (double)s.get_floor_height());
}
static bool contact = false;  // shadow: did the last dynamics update end in a contact
// one monitored dynamics update
static bool monitored(Sim &s, TP dt, TP alpha) {
  Dyn d;
  s.get_dynamics(d);
  St st0     = s.get_state();
  TP h       = floor_h;
  bool en    = floor_on;
  auto keep  = calm(s), sens = sensors(s);
  V3 ext     = V3::Zero();
  bool below = en && st0.kinematics.position.z() < h;
  if (below) ext = -d.get_model_const().get_gravity() * d.get_model_const().get_mass();
  d.process_euler_explicit(s.get_actuation_motors_angular_velocity(), dt, ext, !contact);
  s.update_dynamics(dt);
  if (!finite_st(d.get_state())) return false;
  const St &got = s.get_state(), &free_ = d.get_state();
  std::string ctx = vh::fmt("dt %.6g floor %.6g (%s) start z %.6g free z %.9g end z %.9g", (double)dt, (double)h, en ? "on" : "off", (double)st0.kinematics.position.z(), (double)free_.kinematics.position.z(), (double)got.kinematics.position.z());
  vh::ev(5);
  if (en && !(got.kinematics.position.z() >= h)) vh::fail("floor/below", "%s: below the floor by %.6g", ctx.c_str(), (double)(h - got.kinematics.position.z()));
  if (keep != calm(s)) vh::fail("floor/controls", "%s: a reference, mode, flag or command changed", ctx.c_str());
  if (s.get_external_force().norm() != 0) vh::fail("floor/external force", "%s: an external force is left over", ctx.c_str());
  bool hit = en && free_.kinematics.position.z() < h;
  // a free end within rounding of the floor may be judged either way
  if (en && fabs((double)(free_.kinematics.position.z() - h)) <= vh::rel<TP>() * (1 + fabs((double)h)) && free_.kinematics.position.z() != h) {
    contact = got.kinematics.linear_velocity.norm() == 0 && got.kinematics.angular_velocity.norm() == 0;
    vh::bin("on the edge");
    return true;
  }
  if (!hit) {
    int at = -1;
    if (!closev(flat<TP, NR>(got), flat<TP, NR>(free_), &at))
      vh::fail(contact ? "floor/step after contact" : en ? "floor/above" : "floor/disabled", "%s: field %d is not that of free flight%s", ctx.c_str(), at, contact ? " without noise" : "");
    if (sens != sensors(s)) vh::fail("floor/sensors", "%s: IMU or odometry changed without contact", ctx.c_str());
    vh::bin(contact ? "free step after a contact" : en ? "step above the floor" : "step without floor");
    if (below) vh::bin("came up from below the floor");
    contact = false;
    return true;
  }
  if (contact) vh::bin("contact again");
  if (below) vh::bin("started below the floor");
  contact = true;
  vh::bin("contact");
  auto &k = got.kinematics;
  auto &f = free_.kinematics;
  vh::ev(6);
  LD tol = vh::rel<TP>();
  if (k.position.z() != h) vh::fail("contact/height", "%s: not at the floor height", ctx.c_str());
  if (!(fabs((double)(k.position.x() - f.position.x())) <= tol * (1 + fabs((double)f.position.x()))) || !(fabs((double)(k.position.y() - f.position.y())) <= tol * (1 + fabs((double)f.position.y()))))
    vh::fail("contact/horizontal", "%s: horizontal position (%.9g %.9g) expected (%.9g %.9g)", ctx.c_str(), (double)k.position.x(), (double)k.position.y(), (double)f.position.x(), (double)f.position.y());
  if (!((k.orientation.coeffs() - f.orientation.coeffs()).norm() <= tol * 4)) vh::fail("contact/orientation", "%s: orientation changed", ctx.c_str());
  if (k.linear_velocity.norm() != 0 || k.angular_velocity.norm() != 0 || k.linear_acceleration.norm() != 0 || k.angular_acceleration.norm() != 0)
    vh::fail("contact/motion", "%s: velocity %.6g rate %.6g acceleration %.6g angular acceleration %.6g, all should be zero", ctx.c_str(), (double)k.linear_velocity.norm(), (double)k.angular_velocity.norm(), (double)k.linear_acceleration.norm(), (double)k.angular_acceleration.norm());
  for (int i = 0; i < NR; i++)
    if (!vh::near(got.actuators.motor_angular_velocity(i), free_.actuators.motor_angular_velocity(i), tol * (1 + fabs((double)free_.actuators.motor_angular_velocity(i))))) vh::fail("contact/rotors", "%s: rotor %d at %.9g instead of %.9g", ctx.c_str(), i, (double)got.actuators.motor_angular_velocity(i), (double)free_.actuators.motor_angular_velocity(i));
  for (int i = 0; i < 3; i++)
    if (!vh::near(got.dynamics.force(i), free_.dynamics.force(i), tol * (1 + (LD)free_.dynamics.force.norm())) || !vh::near(got.dynamics.torque(i), free_.dynamics.torque(i), tol * (1 + (LD)free_.dynamics.torque.norm())))
      vh::fail("contact/force", "%s: reported force or torque is not that of the step", ctx.c_str());
  // sensors restarted
  V3 g, a, gb, ab;
  s.get_imu_measurement(g, a), s.get_imu_const().get_bias(gb, ab);
  if (g.norm() != 0 || a.norm() != 0 || gb.norm() != 0 || ab.norm() != 0) vh::fail("contact/imu", "%s: IMU not cleared", ctx.c_str());
  auto o = s.get_odometry();
  if (o.position.norm() != 0 || o.linear_velocity.norm() != 0 || o.angular_velocity.norm() != 0 || o.linear_acceleration.norm() != 0 || !((o.orientation.coeffs() - k.orientation.coeffs()).norm() <= tol * 4))
    vh::fail("contact/odometry", "%s: odometry not restarted at the orientation of the vehicle", ctx.c_str());
  imu::InertialOdometry<TP> oc, fresh(alpha, k.orientation);
  s.get_inertial_odometry(oc);
  for (int j = 0; j < 2; j++) {
    V3 w(TP(0.3), TP(-0.2), TP(0.1 * j)), ac(TP(1), TP(2), TP(-3));
    oc.update(w, ac, (TP)0.01), fresh.update(w, ac, (TP)0.01);
  }
  if (!((oc.get_position() - fresh.get_position()).norm() <= tol) || !((oc.get_orientation().coeffs() - fresh.get_orientation().coeffs()).norm() <= tol * 8) || !((oc.get_linear_velocity() - fresh.get_linear_velocity()).norm() <= tol * 8))
    vh::fail("contact/odometry", "%s: the restarted odometry does not continue like a new one", ctx.c_str());
  return true;
}
void run_case(long idx, Rng &r) {
  contact = floor_on = false;
  int kind = idx % 8;
  if (kind == 6) {  // take-off
    gen::VehOpt vo;
    vo.noise = vo.tilt = vo.bidir = false;
    vo.taumax = 0.3;
    SimP p    = gen::simp(r, false, vo);
    auto &v   = p.dynamics_params.model_params;
    v.gravity = V3(0, 0, (TP)-r.logu(1, 12));
    double tmax = 0, taum = 0;
    for (auto &m : v.motors_params) m.min_speed = 0, m.max_speed = std::max(m.max_speed, (TP)10), tmax += (double)m.thrust_coefficient * (double)m.max_speed * (double)m.max_speed, taum = std::max(taum, (double)m.time_constant);
    double need = 1.3 * (double)v.vehicle_mass * -(double)v.gravity.z();
    for (auto &m : v.motors_params) m.thrust_coefficient *= (TP)(need * r.uni(1, 3) / tmax);
    // no torque: all rotors at the centre, no drag torque
    for (auto &m : v.motors_params) m.pose.translation().setZero(), m.torque_coefficient = 0, m.rotational_inertia = 0;
    St s0;
    s0.kinematics.position    = gen::v3(r, 20);
    s0.kinematics.orientation = eq<TP>(ref::axis_angle({0, 0, 1}, r.uni(-3, 3)));
    TP h                      = (TP)r.wide(20);
    s0.kinematics.position.z() = r.chance(0.3) ? h - (TP)r.uni(0, 1) : h;
    p.dynamics_params.state   = s0;
    Sim s(p);
    floor_op(s, "on", h);
    s.arm();
    s.set_control_mode(mr::ControlMode::MOTOR_W);
    VN c;
    for (int i = 0; i < NR; i++) c(i) = v.motors_params[i].max_speed;
    int rest = r.below(20);
    TP dt    = (TP)r.uni(0.001, 0.01);
    s.set_refence_motors_angular_velocity(VN::Zero());
    for (int k = 0; k < rest; k++) s.update_controller(dt), monitored(s, dt, p.inertial_odometry_params.alpha);
    s.set_refence_motors_angular_velocity(c);
    int n = (int)((8 * taum + 1.0) / (double)dt);
    for (int k = 0; k < n; k++) {
      s.update_controller(dt);
      if (k < 30) monitored(s, dt, p.inertial_odometry_params.alpha);
      else s.update_dynamics(dt);
    }
    vh::ev();
    if (!(s.get_state().kinematics.position.z() > h + (TP)0.01)) vh::fail("take-off", "still at %.6g over the floor after %d steps of %.4g with 1.3 times the weight or more", (double)(s.get_state().kinematics.position.z() - h), n, (double)dt);
    vh::bin("take-off");
    vh::nontrivial(vh::hashd(n, (double)s.get_state().kinematics.position.z()));
    return;
  }
  SimP p = gen::simp(r, r.chance(0.7));
  if (r.chance(0.7)) p.dynamics_params.model_params.gravity = V3(0, 0, (TP)-r.logu(1, 30));
  if (kind == 7) {  // a floor that is never reached
    Sim a(p), b(p);
    b.enable_floor_collision((TP)-1e7);
    Rng ra(r.u64()), rb = ra;
    a.arm(), b.arm();
    V3 rp = a.get_reference_position();
    a.set_reference_position(rp), b.set_reference_position(rp);
    for (int k = 0; k < 25; k++) {
      if (ra.chance(0.3)) {
        auto m = gen::mode(ra);
        gen::mode(rb);
        rb.chance(0.3);
        a.set_control_mode(m), b.set_control_mode(m);
      } else rb.chance(0.3);
      TP dt = (TP)ra.logu(1e-3, 0.02);
      rb.logu(1e-3, 0.02);
      gen::tick(ra, a, dt), gen::tick(rb, b, dt);
      if (!(a.get_state().kinematics.position.norm() < 1e6)) return;
      vh::ev();
      auto x = flat<TP, NR>(a), y = flat<TP, NR>(b);
      x.resize(x.size() - 2), y.resize(y.size() - 2);
      if (!same(x, y)) {
        vh::fail("floor/far", "a floor far below changes observable %d at step %d", first_diff(x, y), k);
        return;
      }
    }
    vh::bin("floor far below");
    vh::nontrivial(vh::hashd(1, (double)a.get_state().kinematics.position.x()));
    return;
  }
  // a vehicle near its floor, with everything else changing
  TP h = (TP)(r.chance(0.3) ? 0 : r.wide(50));
  auto &kin = p.dynamics_params.state.kinematics;
  switch (r.below(4)) {
    case 0: kin.position.z() = h; break;
    case 1: kin.position.z() = h - (TP)r.logu(1e-6, 10); break;
    default: kin.position.z() = h + (TP)r.logu(1e-6, 2);
  }
  if (r.chance(0.6)) kin.linear_velocity.z() = (TP)-r.logu(0.01, 30);
  Sim s(p);
  TP alpha = p.inertial_odometry_params.alpha;
  bool on  = r.chance(0.8);
  if (on) floor_op(s, "on", h);
  if (r.chance(0.7)) s.arm();
  s.set_control_mode(gen::mode(r));
  int n = r.range(3, 60);
  for (int k = 0; k < n; k++) {
    if (r.chance(0.15)) {
      auto before = flat<TP, NR>(s);
      if (r.chance(0.3)) {
        if (r.chance(0.4)) floor_op(s, "off", h);
        else floor_op(s, "on", h = (TP)(r.chance(0.1) ? 0.0 : (double)s.get_state().kinematics.position.z() + r.wide(0.5)));
        auto after = flat<TP, NR>(s);
        before.resize(before.size() - 2), after.resize(after.size() - 2);
        vh::ev();
        if (!same(before, after)) vh::fail("floor/switch", "switching the floor changes observable %d", first_diff(before, after));
        vh::bin("floor switched");
      } else {
        switch (r.below(14)) {
          case 0: floor_op(s, "on", (TP)r.wide(5)); break;
          case 1: floor_op(s, "off", h); break;
          default: {
            bool on = s.get_floor_collision_enabled();
            TP fh   = s.get_floor_height();
            gen::call(r, s, false);
            vh::ev();
            if (on != s.get_floor_collision_enabled() || fh != s.get_floor_height()) vh::fail("floor/setting", "a call that is not about the floor changes its setting");
          }
        }
      }
    }
    TP dt = (TP)(r.chance(0.05) ? r.logu(1e-8, 1e-4) : r.chance(0.9) ? r.logu(1e-4, 0.01) : r.uni(0.01, 0.2));
    if (r.chance(0.9)) s.update_controller(dt);
    if (!s.get_actuation_motors_angular_velocity().allFinite()) return;
    if (!monitored(s, dt, alpha)) return;
    if (r.chance(0.8)) s.update_imu(dt);
    if (r.chance(0.8)) s.update_inertial_odometry(dt);
    vh::nontrivial(vh::hashd(k, (double)s.get_state().kinematics.position.z()));
  }
  vh::sample("floor %.4g, %d steps, last z %.6g, %s", (double)h, n, (double)s.get_state().kinematics.position.z(), contact ? "in contact" : "free");
}
