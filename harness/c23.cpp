// C23: closed-loop missions with the example tuning, scaled to the vehicle: reach, hold, stop, turn, take off, land.
#include "sim.hpp"
static const double PI = M_PI;
static double wrap(double a) { return remainder(a, 2 * PI); }
struct Craft {
  double m;
  SimP p;
};
static V3 v(double a, double b, double c) { return V3((TP)a, (TP)b, (TP)c); }
static Craft craft(Rng &r) {
  Craft c;
  double m = c.m = r.chance(0.15) ? 1.0 : r.chance(0.25) ? r.logu(0.02, 100) : r.logu(0.2, 6);
  if (m > 6 || m < 0.2) vh::bin("very heavy or light vehicle");
  auto &q = c.p.dynamics_params.model_params;
  q.vehicle_mass    = (TP)m;
  q.vehicle_inertia = v(0.0049 * m, 0.0049 * m, 0.0069 * m).asDiagonal();
  q.vehicle_drag_coefficient = (TP)(0.1 * m * r.uni(0, 1));
  q.vehicle_aero_moment_coefficient = v(0.003 * m, 0.003 * m, 0.003 * m).asDiagonal();
  double g = r.chance(0.3) ? r.uni(8, 12) : 9.81;
  q.gravity = v(0, 0, -g);
  TP kf = (TP)(1.91e-6 * m * 4 / NR), kt = (TP)(2.6e-7 * m * 4 / NR), J = (TP)(6.62e-6 * m * 4 / NR);
  bool plus = r.chance(0.3);
  if constexpr (NR == 4) q.motors_params = plus ? Mod::create_quadrotor_plus_config(kf, kt, (TP)0.11, (TP)0.11, 0, 2200, (TP)0.02, J) : Mod::create_quadrotor_x_config(kf, kt, (TP)0.08, (TP)0.08, 0, 2200, (TP)0.02, J);
  else q.motors_params = Mod::create_hexacopter_config(kf, kt, (TP)0.11, 0, 2200, (TP)0.02, J);
  auto &k = c.p.controller_params;
  k.indi_controller_params.inertia = q.vehicle_inertia;
  Eigen::Matrix<TP, 6, NR> mm = Mod::template compute_mixer_matrix<6>(q.motors_params);
  if constexpr (NR == 4) k.indi_controller_params.mixer_matrix_inverse = indi_controller::compute_quadrotor_mixer_matrix_inverse<TP>(mm);
  else {  // least squares over the four controllable directions
    Eigen::Matrix<double, 4, NR> a = mm.bottomRows(4).template cast<double>();
    Eigen::Matrix<double, NR, 4> ai = a.transpose() * (a * a.transpose()).inverse();
    k.indi_controller_params.mixer_matrix_inverse.setZero();
    k.indi_controller_params.mixer_matrix_inverse.rightCols(4) = ai.template cast<TP>();
  }
  auto pid = [&](PidP &x, V3 kp, V3 ki, V3 kd, V3 al, V3 aw, double lim, bool prop) {
    x.Kp_gains = kp, x.Ki_gains = ki, x.Kd_gains = kd, x.alpha = al, x.antiwindup_cte = aw;
    x.upper_output_saturation = v(lim, lim, lim), x.lower_output_saturation = v(-lim, -lim, -lim), x.proportional_saturation_flag = prop;
  };
  pid(k.indi_controller_params.pid_params, v(9, 9, 9), v(3, 3, 3), v(.3, .3, .3), v(.6, .6, .6), v(1, 1, 1), 0, false);
  k.acro_controller_params.vehicle_mass = (TP)m, k.acro_controller_params.gravity = q.gravity, k.acro_controller_params.kp_rot = v(20, 20, 8).asDiagonal();
  pid(k.trajectory_controller_params.pid_params, v(10, 10, 10), v(.005, .005, .005), v(6, 6, 6), v(1, 1, 1), v(1, 1, 1), 0, false);
  pid(k.velocity_controller_params.pid_params, v(6, 6, 10), v(1, 1, 2), v(.4, .4, 0), v(.05, .05, 0), v(1, 1, 1), 4, false);
  pid(k.position_controller_params.pid_params, v(1, 1, 1), v(.01, .01, .01), v(0, 0, 0), v(.1, .1, 0), v(.5, .5, .5), 10, r.chance(0.3));
  c.p.inertial_odometry_params.alpha = (TP)0.9;
  return c;
}
// built at once, or made from another vehicle by setting every part
static Sim build(Rng &r, const Craft &c) {
  if (r.chance(0.6)) return Sim(c.p);
  Sim s(craft(r).p);
  s.set_dynamics_params(c.p.dynamics_params), s.set_inertial_odometry_params(c.p.inertial_odometry_params), s.set_imu_params(c.p.imu_params);
  if (r.chance(0.5)) s.get_controller().update_params(c.p.controller_params);
  else s.set_controller_params(c.p.controller_params);
  vh::bin("vehicle replaced before the flight");
  return s;
}
static double yaw_of(const St &s) { return vh::D(ref::heading(rq(s.kinematics.orientation))); }
static double G(const Craft &c) { return -(double)c.p.dynamics_params.model_params.gravity.z(); }
// an airborne start
static void place(Rng &r, Craft &c, double tilt, double vel) {
  auto &s = c.p.dynamics_params.state;
  auto &k = s.kinematics;
  k.position = v(r.uni(-100, 100), r.uni(-100, 100), r.uni(20, 60));
  ref::Q q = ref::mul(ref::axis_angle({0, 0, 1}, r.uni(-PI, PI)), ref::axis_angle(ref::V3{cosl(r.uni(0, 7)), sinl(r.uni(0, 7)), 0}, r.uni(0, tilt)));
  q = ref::qunit(q);
  if (r.chance(0.5)) q = {-q.w, -q.x, -q.y, -q.z};
  k.orientation = eq<TP>(q);
  k.linear_velocity = gen::v3(r, vel), k.angular_velocity = gen::v3(r, 1);
  double w = sqrt(c.m * G(c) / (NR * (double)c.p.dynamics_params.model_params.motors_params[0].thrust_coefficient));
  for (int i = 0; i < NR; i++) s.actuators.motor_angular_velocity(i) = (TP)(w * r.uni(0.8, 1.1));
}
static double worst[12];
static void see(int i, double x) { worst[i] = std::max(worst[i], x); }
static bool finite_state(const Sim &s) { return s.get_state().kinematics.position.allFinite() && s.get_state().kinematics.orientation.coeffs().allFinite(); }
static void fly(Sim &s, TP dt, int n) {
  for (int i = 0; i < n; i++) s.update_controller(dt), s.update_dynamics(dt);
}
// holds |p - P| , |v - V|, yaw over a window
static bool hold(const char *key, Sim &s, TP dt, double secs, const V3 *P, V3 V, double yaw, bool use_yaw, double ep, double ev_, double ey, int wi) {
  int n = (int)(secs / (double)dt);
  for (int i = 0; i < n; i++) {
    s.update_controller(dt), s.update_dynamics(dt);
    auto &k = s.get_state().kinematics;
    double dp = P ? (double)(k.position - *P).norm() : 0, dv = (double)(k.linear_velocity - V).norm(), dy = use_yaw ? fabs(wrap(yaw_of(s.get_state()) - yaw)) : 0;
    vh::ev(2);
    see(wi, dp), see(wi + 1, dv), see(wi + 2, dy);
    if (!(dp <= ep) || !(dv <= ev_) || !(dy <= ey)) {
      vh::fail(key, "%s %.2f s after settling: position off by %.4g m, velocity by %.4g m/s, heading by %.4g rad", gen::mode_name(s.get_control_mode()), i * (double)dt, dp, dv, dy);
      return false;
    }
  }
  return true;
}
// what settles to what (measured over tens of thousands of flights: .016 m, .029 m/s, .003 m in trajectory control, .0012 rad)
static const double EP = 0.035, EV = 0.06, EPT = 0.01, EY = 0.006;
static bool reach_hold(Rng &r, Sim &s, TP dt, int how, const char *key) {
  auto k = s.get_state().kinematics;
  if (how == 2 && !(k.linear_velocity.norm() < (TP)0.6)) {  // a trajectory starts near its reference: slow down first
    s.set_control_mode(mr::ControlMode::HOVER);
    fly(s, dt, (int)(5 / (double)dt));
    k = s.get_state().kinematics;
  }
  double y0 = yaw_of(s.get_state()), yaw = y0;
  V3 P = k.position;
  bool fresh = r.chance(0.75);  // else: the pose held by the mode change is the reference
  mr::ControlMode md = how == 0 ? mr::ControlMode::POSITION : how == 1 ? mr::ControlMode::HOVER : how == 2 ? mr::ControlMode::TRAJECTORY : mr::ControlMode::VELOCITY;
  if (s.get_control_mode() == md) s.set_control_mode(mr::ControlMode::ACRO);
  s.set_control_mode(md);
  V3 V = v(0, 0, 0);
  if (fresh) {
    if (md == mr::ControlMode::TRAJECTORY) P += v(r.uni(-.3, .3), r.uni(-.3, .3), r.uni(-.2, .3));
    else P += v(r.uni(-3, 3), r.uni(-3, 3), r.uni(-2, 3));
    yaw = y0 + r.uni(-1.5, 1.5) + (r.chance(0.1) ? 2 * PI : 0);
    if (md == mr::ControlMode::VELOCITY) {
      V = v(r.uni(-2, 2), r.uni(-2, 2), r.uni(-1, 1));
      s.set_reference_velocity(V);
    } else if (md == mr::ControlMode::TRAJECTORY) s.set_reference_trajectory(P, V, V);
    else s.set_reference_position(P);
    s.set_reference_yaw_angle((TP)yaw);
  }
  double settle = md == mr::ControlMode::TRAJECTORY ? 12 : md == mr::ControlMode::VELOCITY ? 14 : 18;
  fly(s, dt, (int)(settle / (double)dt));
  if (!finite_state(s)) {
    vh::fail(std::string(key) + "/lost", "the flight diverges in %s", gen::mode_name(md));
    return false;
  }
  if (!hold(key, s, dt, 2, md == mr::ControlMode::VELOCITY ? nullptr : &P, V, yaw, true, md == mr::ControlMode::TRAJECTORY ? EPT : EP, EV, EY, md == mr::ControlMode::VELOCITY ? 3 : md == mr::ControlMode::TRAJECTORY ? 6 : 0)) return false;
  vh::bin(vh::fmt("%s %s", gen::mode_name(md), fresh ? "reached" : "held after mode change").c_str());
  return true;
}
static TP pick_dt(Rng &r) { return (TP)(0.001 * (r.chance(0.3) ? 1 : r.range(2, 5))); }
static void mission(Rng &r) {
  Craft c = craft(r);
  place(r, c, 0.5, 2);
  Sim s = build(r, c);
  s.arm();
  TP dt = pick_dt(r);
  int n = r.range(1, 3);
  for (int i = 0; i < n; i++)
    if (!reach_hold(r, s, dt, r.below(4), "reach and hold")) return;
  vh::nontrivial(vh::hashd(1, (double)s.get_state().kinematics.position(0)));
}
static void yaw_rate(Rng &r) {
  Craft c = craft(r);
  place(r, c, 0.2, 1);
  Sim s = build(r, c);
  s.arm();
  TP dt = pick_dt(r);
  mr::ControlMode md = (mr::ControlMode[]){mr::ControlMode::POSITION, mr::ControlMode::HOVER, mr::ControlMode::TRAJECTORY, mr::ControlMode::VELOCITY}[r.below(4)];
  s.set_control_mode(md, mr::YawControlMode::RATE);
  double rate = r.uni(-0.6, 0.6);
  s.set_reference_yaw_rate((TP)rate);
  V3 P = s.get_state().kinematics.position;
  fly(s, dt, (int)(12 / (double)dt));
  double y = yaw_of(s.get_state()), turned = 0;
  int n = (int)(4 / (double)dt);
  for (int i = 0; i < n; i++) {
    s.update_controller(dt), s.update_dynamics(dt);
    double z = yaw_of(s.get_state());
    turned += wrap(z - y), y = z;
  }
  vh::ev();
  double got = turned / (n * (double)dt);
  see(9, fabs(got - rate));
  if (!(fabs(got - rate) <= 0.02 + 0.02 * fabs(rate))) return vh::fail("yaw rate", "asked to turn at %.4g rad/s in %s, turns at %.4g", rate, gen::mode_name(md), got);
  double dp = (double)(s.get_state().kinematics.position - P).norm();
  if (md != mr::ControlMode::VELOCITY && !(dp < 0.1)) return vh::fail("yaw rate/position", "drifts %.4g m while turning in %s", dp, gen::mode_name(md));
  vh::bin(vh::fmt("turning in %s", gen::mode_name(md)).c_str());
  vh::nontrivial(vh::hashd(2, got));
}
static void track(Rng &r) {
  Craft c = craft(r);
  place(r, c, 0.3, 1);
  Sim s = build(r, c);
  s.arm();
  TP dt = pick_dt(r);
  s.set_control_mode(mr::ControlMode::TRAJECTORY);
  V3 C = s.get_state().kinematics.position;
  double A = r.uni(0.5, 3), w = r.uni(0.2, 1.0) / sqrt(A), B = r.uni(0, 0.5), ph = r.uni(0, 6), T = 14, t = 0, w2 = r.uni(0.5, 1);
  double bad = 0;
  double x0 = cos(ph) * A, y0 = sin(ph) * A, y1 = yaw_of(s.get_state()), yr = r.uni(-0.3, 0.3);
  while (t < T) {
    double a = w * t + ph;
    s.set_reference_trajectory(v((double)C.x() + A * cos(a) - x0, (double)C.y() + A * sin(a) - y0, (double)C.z() + B * sin(w2 * t)), v(-A * w * sin(a), A * w * cos(a), B * w2 * cos(w2 * t)), v(-A * w * w * cos(a), -A * w * w * sin(a), -B * w2 * w2 * sin(w2 * t)));
    s.set_reference_yaw_angle((TP)(y1 + yr * t));
    s.update_controller(dt), s.update_dynamics(dt);
    if (t > 7) {
      double e = (double)(s.get_state().kinematics.position - s.get_reference_position()).norm();
      bad = std::max(bad, e);
      vh::ev();
    }
    t += (double)dt;
  }
  see(10, bad);
  double vm = A * w, drag = (double)c.p.dynamics_params.model_params.vehicle_drag_coefficient / c.m;
  double allow = 0.06 + drag * vm * vm / 10 * 1.5;
  if (!(bad <= allow)) return vh::fail("tracking", "a circle of radius %.3g m at %.3g m/s is followed with an error of %.4g m (allowed %.4g)", A, vm, bad, allow);
  double ye = fabs(wrap(yaw_of(s.get_state()) - y1 - yr * (t - (double)dt)));
  if (!(ye <= 0.12)) return vh::fail("tracking/heading", "the heading lags by %.4g rad at %.3g rad/s", ye, yr);
  vh::bin("moving reference followed");
  vh::nontrivial(vh::hashd(3, bad));
}
// sends the reference to P: at once, or along a slow straight line in trajectory control; tells whether the vehicle went below z
static bool go(Sim &s, TP dt, V3 P, double secs, double z = -1e9) {
  V3 A = s.get_state().kinematics.position, O = v(0, 0, 0);
  double T = (double)(P - A).norm() / 0.5;
  bool tr = s.get_control_mode() == mr::ControlMode::TRAJECTORY, below = false;
  V3 V = (P - A) / (TP)T;
  int n = (int)(secs / (double)dt);
  for (int i = 0; i < n; i++) {
    double t = i * (double)dt;
    if (tr && t < T) s.set_reference_trajectory(A + V * (TP)t, V, O);
    else s.set_reference_trajectory(P, O, O);
    s.update_controller(dt), s.update_dynamics(dt);
    below |= s.get_state().kinematics.position.z() < (TP)z;
  }
  return below;
}
static void ground(Rng &r) {
  Craft c = craft(r);
  double h = r.uni(-5, 5);
  auto &k = c.p.dynamics_params.state.kinematics;
  k.position = v(r.uni(-50, 50), r.uni(-50, 50), h + (r.chance(0.5) ? 0 : r.uni(0, 0.05)));
  k.orientation = eq<TP>(ref::axis_angle({0, 0, 1}, r.uni(-PI, PI)));
  Sim s = build(r, c);
  TP dt = pick_dt(r);
  s.enable_floor_collision((TP)h);
  // on the ground, disarmed: stays
  V3 P0 = k.position;
  fly(s, dt, (int)(1 / (double)dt));
  vh::ev();
  if (!((s.get_state().kinematics.position - v((double)P0.x(), (double)P0.y(), h)).norm() < 0.06)) return vh::fail("ground/rest", "a disarmed vehicle on the ground moved to %.4g m above it", (double)s.get_state().kinematics.position.z() - h);
  s.arm();
  mr::ControlMode md = (mr::ControlMode[]){mr::ControlMode::POSITION, mr::ControlMode::HOVER, mr::ControlMode::TRAJECTORY}[r.below(3)];
  s.set_control_mode(md);
  V3 P = s.get_state().kinematics.position + v(r.uni(-1, 1), r.uni(-1, 1), r.uni(1, 3));
  double yaw = yaw_of(s.get_state()) + r.uni(-1, 1);
  s.set_reference_yaw_angle((TP)yaw);
  go(s, dt, P, 18);
  if (!finite_state(s)) return vh::fail("takeoff/lost", "the flight diverges after take-off");
  if (!hold("takeoff", s, dt, 1, &P, v(0, 0, 0), yaw, true, EP, EV, EY, 0)) return;
  vh::bin(vh::fmt("took off in %s", gen::mode_name(md)).c_str());
  // land
  V3 L = P;
  L.z() = (TP)(h - 0.5);
  bool below = go(s, dt, L, 14, h);
  vh::ev(2);
  auto &q = s.get_state().kinematics;
  if (below || !(fabs((double)q.position.z() - h) < 0.05) || !(q.linear_velocity.norm() < 0.3)) return vh::fail("landing", "sent below the floor in %s the vehicle ends %.4g m above it at %.4g m/s%s", gen::mode_name(md), (double)q.position.z() - h, (double)q.linear_velocity.norm(), below ? ", having been below" : "");
  vh::bin("landed");
  vh::nontrivial(vh::hashd(4, (double)q.position(0)));
}
// the same mission elsewhere and turned by quarter turns
static void elsewhere(Rng &r) {
  if (sizeof(TP) == 4) return mission(r);
  Craft c = craft(r);
  place(r, c, 0.4, 1.5);
  Craft d = c;
  int qn = r.below(4);
  ref::Q T = ref::axis_angle({0, 0, 1}, qn * M_PIl / 2);
  auto tv = [&](const V3 &a) { return ev3<TP>(ref::rot(T, rv(a))); };
  V3 sh = v(r.range(-300, 300), r.range(-300, 300), 0), base = c.p.dynamics_params.state.kinematics.position;
  auto tp = [&](const V3 &a) { return V3(tv(a - base) + base + sh); };
  auto &k = d.p.dynamics_params.state.kinematics;
  k.position = tp(k.position), k.linear_velocity = tv(k.linear_velocity), k.orientation = eq<TP>(ref::mul(T, rq(k.orientation)));
  Sim a = build(r, c), b = build(r, d);
  a.arm(), b.arm();
  TP dt = pick_dt(r);
  double far = 0;
  for (int leg = 0; leg < 3; leg++) {
    mr::ControlMode md = (mr::ControlMode[]){mr::ControlMode::POSITION, mr::ControlMode::HOVER, mr::ControlMode::TRAJECTORY, mr::ControlMode::VELOCITY}[r.below(4)];
    a.set_control_mode(md), b.set_control_mode(md);
    double f = md == mr::ControlMode::TRAJECTORY ? 0.1 : 1;
    V3 P = a.get_state().kinematics.position + v(f * r.uni(-3, 3), f * r.uni(-3, 3), f * r.uni(-2, 3)), V = v(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    TP yaw = (TP)(yaw_of(a.get_state()) + r.uni(-1.3, 1.3));
    if (r.chance(0.8)) {
      V3 Z = v(0, 0, 0);
      if (md == mr::ControlMode::VELOCITY) a.set_reference_velocity(V), b.set_reference_velocity(tv(V));
      else a.set_reference_trajectory(P, Z, Z), b.set_reference_trajectory(tp(P), Z, Z);
      a.set_reference_yaw_angle(yaw), b.set_reference_yaw_angle(yaw + (TP)(qn * M_PI / 2));
    }
    int n = (int)(4 / (double)dt);
    for (int i = 0; i < n; i++) {
      a.update_controller(dt), a.update_dynamics(dt), b.update_controller(dt), b.update_dynamics(dt);
      double e = (double)(tp(a.get_state().kinematics.position) - b.get_state().kinematics.position).norm();
      far = std::max(far, e);
      vh::ev();
      if (!(e < 1e-8)) return vh::fail("elsewhere", "the same flight %d quarter turns round and %.3g m away is %.4g m off in leg %d (%s)", qn, (double)sh.norm(), e, leg, gen::mode_name(md));
    }
  }
  see(11, far);
  vh::bin("same flight elsewhere");
  vh::nontrivial(vh::hashd(5, far));
}
void run_case(long i, Rng &r) {
  switch (r.below(8)) {
    case 0: yaw_rate(r); break;
    case 1: track(r); break;
    case 2: ground(r); break;
    case 3:
      if (NR == 4) elsewhere(r);
      else mission(r);
      break;
    default: mission(r);
  }
  if (vh::X().verbose && i % 100 == 99) {
    fprintf(stderr, "worst:");
    for (double x : worst) fprintf(stderr, " %.3g", x);
    fprintf(stderr, "\n");
  }
}
