// Conversions between the library's types and the reference model, and workload generators.
#pragma once
#ifndef TP
#define TP double
#endif
#ifndef NR
#define NR 4
#endif
#include <multirotor_simulator.hpp>
#include <pid_controller/pid_1d.hpp>

#include "ref.hpp"

namespace mr = multirotor;
using vh::LD;
using vh::Rng;

template <typename T>
ref::V3 rv(const Eigen::MatrixBase<T> &v) {
  return {(LD)v(0), (LD)v(1), (LD)v(2)};
}
template <typename T>
ref::M3 rm(const Eigen::MatrixBase<T> &m) {
  ref::M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r.a[i][j] = m(i, j);
  return r;
}
template <typename P>
ref::Q rq(const Eigen::Quaternion<P> &q) {
  return {(LD)q.w(), (LD)q.x(), (LD)q.y(), (LD)q.z()};
}
template <typename P>
Eigen::Matrix<P, 3, 1> ev3(ref::V3 v) {
  return Eigen::Matrix<P, 3, 1>((P)v.x, (P)v.y, (P)v.z);
}
template <typename P>
Eigen::Matrix<P, 3, 3> em3(const ref::M3 &m) {
  Eigen::Matrix<P, 3, 3> r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r(i, j) = (P)m.a[i][j];
  return r;
}
template <typename P>
Eigen::Quaternion<P> eq(ref::Q q) {
  Eigen::Quaternion<P> r((P)q.w, (P)q.x, (P)q.y, (P)q.z);
  r.normalize();
  return r;
}
template <typename T>
std::vector<LD> rvec(const Eigen::MatrixBase<T> &v) {
  std::vector<LD> r(v.size());
  for (int i = 0; i < v.size(); i++) r[i] = v(i);
  return r;
}
template <typename P, int N>
ref::Model rmodel(const mr::model::ModelParams<P, N> &p) {
  ref::Model m;
  for (auto &k : p.motors_params) {
    ref::Motor o;
    o.dir = k.motor_rotation_direction;
    o.kf = k.thrust_coefficient, o.kt = k.torque_coefficient, o.mn = k.min_speed, o.mx = k.max_speed;
    o.tau = k.time_constant, o.J = k.rotational_inertia;
    o.t = rv(k.pose.translation());
    o.R = rm(k.pose.linear());
    m.m.push_back(o);
  }
  m.mass   = p.vehicle_mass;
  m.I      = rm(p.vehicle_inertia);
  m.drag   = p.vehicle_drag_coefficient;
  m.aero   = rm(p.vehicle_aero_moment_coefficient);
  m.g      = rv(p.gravity);
  m.fnoise = p.force_process_noise_auto_correlation;
  m.mnoise = p.moment_process_noise_auto_correlation;
  return m;
}
template <typename P, int N>
ref::State rstate(const mr::state::State<P, N> &s) {
  ref::State r;
  r.p = rv(s.kinematics.position), r.q = rq(s.kinematics.orientation), r.v = rv(s.kinematics.linear_velocity);
  r.w = rv(s.kinematics.angular_velocity), r.a = rv(s.kinematics.linear_acceleration);
  r.dw = rv(s.kinematics.angular_acceleration), r.F = rv(s.dynamics.force), r.T = rv(s.dynamics.torque);
  r.mw  = rvec(s.actuators.motor_angular_velocity);
  r.mdw = rvec(s.actuators.motor_angular_acceleration);
  return r;
}
template <typename P, int N>
std::vector<double> flat(const mr::state::State<P, N> &s) {
  std::vector<double> o;
  auto add = [&](const auto &v) {
    for (int i = 0; i < v.size(); i++) o.push_back((double)v(i));
  };
  add(s.kinematics.position);
  add(s.kinematics.orientation.coeffs());
  add(s.kinematics.linear_velocity);
  add(s.kinematics.angular_velocity);
  add(s.kinematics.linear_acceleration);
  add(s.kinematics.angular_acceleration);
  add(s.dynamics.force);
  add(s.dynamics.torque);
  add(s.actuators.motor_angular_velocity);
  add(s.actuators.motor_angular_acceleration);
  return o;
}
template <typename P, int N>
std::vector<double> flat(const mr::Simulator<P, N> &s) {
  std::vector<double> o = flat<P, N>(s.get_state());
  auto add              = [&](const auto &v) {
    for (int i = 0; i < v.size(); i++) o.push_back((double)v(i));
  };
  Eigen::Matrix<P, 3, 1> g, a, gb, ab;
  s.get_imu_measurement(g, a);
  s.get_imu_const().get_bias(gb, ab);
  add(g), add(a), add(gb), add(ab);
  auto od = s.get_odometry();
  add(od.position), add(od.orientation.coeffs()), add(od.linear_velocity), add(od.angular_velocity), add(od.linear_acceleration);
  add(s.get_actuation_motors_angular_velocity());
  add(s.get_external_force());
  add(s.get_reference_motors_angular_velocity());
  add(s.get_reference_angular_velocity()), add(s.get_reference_position()), add(s.get_reference_velocity()),
      add(s.get_reference_acceleration());
  o.push_back((double)s.get_reference_thrust());
  o.push_back((double)s.get_reference_yaw());
  o.push_back((double)s.get_reference_yaw_rate());
  o.push_back((double)s.get_armed());
  o.push_back((double)(int)s.get_control_mode());
  o.push_back((double)(int)s.get_yaw_control_mode());
  o.push_back((double)s.get_floor_height());
  o.push_back((double)s.get_floor_collision_enabled());
  return o;
}
inline bool same(const std::vector<double> &a, const std::vector<double> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
  return true;
}
inline int first_diff(const std::vector<double> &a, const std::vector<double> &b) {
  if (a.size() != b.size()) return -2;
  for (size_t i = 0; i < a.size(); i++)
    if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return (int)i;
  return -1;
}

namespace gen {
inline ref::V3 vec(Rng &r, double m) {
  ref::V3 v{r.wide(m), r.wide(m), r.wide(m)};
  switch (r.below(25)) {
    case 0: return {0, 0, 0};
    case 1: {  // along one axis only
      int k = r.below(3);
      ref::V3 o;
      o[k] = v[k];
      return o;
    }
    case 2: return {v.x, v.x, v.x};
    default: return v;
  }
}
inline ref::V3 dir(Rng &r) {
  for (;;) {
    ref::V3 v{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
    LD n = ref::norm(v);
    if (n > 0.05 && n <= 1) return v * (1 / n);
  }
}
inline ref::Q quat(Rng &r) {
  switch (r.below(8)) {
    case 0: return {1, 0, 0, 0};
    case 1: {  // exact half turns and quarter turns
      static const LD h = sqrtl(0.5L);
      static const ref::Q k[] = {{0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {h, h, 0, 0}, {h, 0, h, 0}, {h, 0, 0, h}, {h, -h, 0, 0}, {h, 0, -h, 0}, {h, 0, 0, -h}, {-1, 0, 0, 0}};
      return k[r.below(10)];
    }
    case 2: return ref::axis_angle({0, 0, 1}, r.uni(-M_PI, M_PI));  // pure heading
    case 3: return ref::axis_angle(dir(r), r.logu(1e-9, 1e-2));     // nearly level
    default: {
      ref::Q q = ref::axis_angle(dir(r), r.uni(0, 2 * M_PI));
      if (r.chance(0.5)) q = {-q.w, -q.x, -q.y, -q.z};
      return q;
    }
  }
}
inline ref::M3 spd(Rng &r, double lo, double hi, bool full) {
  ref::M3 d;
  double b = r.logu(lo, hi);
  for (int i = 0; i < 3; i++) d.a[i][i] = b * r.logu(0.2, 5);
  if (!full) return d;
  ref::M3 R = ref::rotm(ref::axis_angle(dir(r), r.uni(0, 6)));
  return R * d * ref::tr(R);
}

struct VehOpt {
  bool tilt = true, bidir = true, noise = true, aero = true, dead = true, far = false;
  double taumin = 0.002, taumax = 1.0;
};
// any valid vehicle
template <typename P, int N>
mr::model::ModelParams<P, N> vehicle(Rng &r, const VehOpt &o = VehOpt()) {
  mr::model::ModelParams<P, N> p;
  double wmax = r.logu(50, 3000), arm = r.logu(0.03, 2.0), mass = r.logu(0.02, 60);
  if (o.far) mass *= r.far(0.03), arm *= r.far(0.03), wmax *= r.far(0.02);
  if (r.chance(0.1)) mass = 1.0;
  bool same = r.chance(0.3), tilt = o.tilt && r.chance(0.5);
  double kf = mass * 9.81 * r.logu(1.2, 6) / N / (wmax * wmax), kt = kf * r.logu(0.003, 0.3);
  double tau = r.logu(o.taumin, o.taumax), J = r.chance(0.2) ? 0.0 : r.logu(1e-8, 1e-3) * (o.far ? r.far(0.03) : 1);
  p.motors_params.clear();
  for (int i = 0; i < N; i++) {
    mr::model::MotorParams<P> m;
    double k                   = same ? 1.0 : r.logu(0.5, 2), k2 = same ? 1.0 : r.logu(0.5, 2);
    m.motor_rotation_direction = r.chance(0.8) ? (i % 2 ? -1 : 1) : (r.chance(0.5) ? 1 : -1);
    m.thrust_coefficient       = (P)(kf * k);
    m.torque_coefficient       = (P)(kt * k2);
    m.min_speed                = (P)((o.bidir && r.chance(0.2)) ? -wmax * r.uni(0, 1) : r.chance(0.5) ? 0.0 : wmax * r.uni(0, 0.3));
    m.max_speed                = (P)(wmax * (same ? 1.0 : r.uni(0.5, 1.5)));
    if (r.chance(0.03)) m.max_speed = m.min_speed;
    m.time_constant      = (P)(same ? tau : std::min(o.taumax, tau * r.logu(0.5, 2)));
    m.rotational_inertia = (P)(J * k);
    double a             = 2 * M_PI * i / N + (same ? 0.3 : r.uni(-0.2, 0.2));
    ref::V3 t{arm * cos(a), arm * sin(a), r.chance(0.5) ? 0.0 : r.uni(-0.2, 0.2) * arm};
    m.pose.translation() = ev3<P>(t);
    if (tilt) m.pose.linear() = eq<P>(ref::axis_angle(dir(r), r.uni(0, r.chance(0.8) ? 0.6 : 3.0))).toRotationMatrix();
    p.motors_params.push_back(m);
  }
  if (r.chance(0.2)) {  // rotors that agree in some of their data and not in the rest: first and last, neighbours, all but one
    auto &ms  = p.motors_params;
    auto give = [&](int to, int from, unsigned what) {
      if (what & 1) ms[to].min_speed = ms[from].min_speed, ms[to].max_speed = ms[from].max_speed;
      if (what & 2) ms[to].thrust_coefficient = ms[from].thrust_coefficient;
      if (what & 4) ms[to].torque_coefficient = ms[from].torque_coefficient;
      if (what & 8) ms[to].time_constant = ms[from].time_constant;
      if (what & 16) ms[to].rotational_inertia = ms[from].rotational_inertia;
      if (what & 32) ms[to].pose.linear() = ms[from].pose.linear();
      if (what & 64) ms[to].motor_rotation_direction = ms[from].motor_rotation_direction;
    };
    unsigned what = r.chance(0.5) ? 1u << r.below(7) : (unsigned)r.range(1, 127);
    switch (r.below(3)) {
      case 0: give(N - 1, 0, what); break;
      case 1: {
        int i = r.below(N);
        give((i + 1) % N, i, what);
        break;
      }
      default: {
        int odd = r.below(N);
        for (int i = 0; i < N; i++)
          if (i != odd) give(i, (odd + 1) % N, what);
      }
    }
  }
  if (o.dead && r.chance(0.03)) {  // a rotor that does nothing, or only half of it
    auto &m  = p.motors_params[r.below(N)];
    int what = r.range(1, 3);
    if (what & 1) m.thrust_coefficient = 0;
    if (what & 2) m.torque_coefficient = 0;
  }
  p.vehicle_mass                    = (P)mass;
  p.vehicle_inertia                 = em3<P>(spd(r, 1e-4 * mass, 0.1 * mass, r.chance(0.5)));
  p.vehicle_drag_coefficient        = (P)((o.aero && r.chance(0.8)) ? r.logu(1e-3, 2) * (o.far ? r.far(0.03) : 1) : 0.0);
  if (o.aero && r.chance(0.8)) p.vehicle_aero_moment_coefficient = em3<P>(spd(r, 1e-5, 1e-1, r.chance(0.5)));
  if (r.chance(0.4)) p.gravity = ev3<P>(r.chance(0.5) ? ref::V3{0, 0, -r.logu(0.1, 30)} : vec(r, 15));
  if (o.noise && r.chance(0.5)) {
    p.force_process_noise_auto_correlation  = (P)r.logu(1e-6, 1);
    p.moment_process_noise_auto_correlation = (P)r.logu(1e-9, 1e-2);
  }
  return p;
}
// the same vehicle with one thing changed, valid again; returns what
template <typename P, int N>
const char *retune(Rng &r, mr::model::ModelParams<P, N> &p) {
  auto &ms = p.motors_params;
  int i = r.below(N), j = r.below(N);
  double k = r.chance(0.3) ? 1 + r.sgn() * r.logu(1e-3, 0.5) : r.logu(0.3, 3);
  switch (r.below(17)) {
    case 0: p.vehicle_mass *= (P)k; return "mass";
    case 1: {  // same determinant, trace and eigenvalues
      int a = r.below(3), b = (a + r.range(1, 2)) % 3;
      p.vehicle_inertia.row(a).swap(p.vehicle_inertia.row(b));
      p.vehicle_inertia.col(a).swap(p.vehicle_inertia.col(b));
      return "inertia axes";
    }
    case 2: p.vehicle_inertia *= (P)k; return "inertia";
    case 3: {
      int a = r.below(3);
      p.vehicle_inertia(a, a) *= (P)(1 + r.uni(0.01, 1));  // stays positive definite
      return "one moment of inertia";
    }
    case 4: p.vehicle_drag_coefficient = r.chance(0.3) ? (P)0 : (P)r.logu(1e-3, 2); return "drag";
    case 5: p.vehicle_aero_moment_coefficient = em3<P>(spd(r, 1e-5, 1e-1, r.chance(0.5))); return "aerodynamic moment";
    case 6: p.gravity = r.chance(0.3) ? Eigen::Matrix<P, 3, 1>(-p.gravity) : ev3<P>(vec(r, 15)); return "gravity";
    case 7:
      for (auto &m : ms) m.rotational_inertia = (P)r.logu(1e-8, 1e-3);
      return "rotor inertias";
    case 8: ms[i].rotational_inertia = (P)r.logu(1e-8, 1e-3); return "one rotor inertia";
    case 9: ms[i].thrust_coefficient *= (P)k; return "one thrust coefficient";
    case 10: ms[i].torque_coefficient *= (P)k; return "one torque coefficient";
    case 11: ms[i].time_constant *= (P)(1 + r.uni(0.01, 1)); return "one time constant";
    case 12: ms[i].motor_rotation_direction *= -1; return "one rotation direction";
    case 13: ms[i].pose.translation() += ev3<P>(vec(r, 0.2)); return "one rotor position";
    case 14: ms[i].pose.linear() = eq<P>(quat(r)).toRotationMatrix(); return "one rotor axis";
    case 15: std::swap(ms[i].pose, ms[j].pose); return "rotor positions exchanged";
    default: return "nothing";
  }
}
template <typename P, int N>
mr::state::State<P, N> state(Rng &r, const mr::model::ModelParams<P, N> &p, double vmax = 60, double wmax = 40, double pmax = 1000) {
  mr::state::State<P, N> s;
  if (r.chance(0.4)) pmax *= r.logu(1e-4, 1);
  if (r.chance(0.5)) vmax *= r.logu(1e-4, 1);
  if (r.chance(0.5)) wmax *= r.logu(1e-4, 1);
  if (r.chance(0.05)) vmax = 0;
  if (r.chance(0.05)) wmax = 0;
  s.kinematics.position             = ev3<P>(vec(r, pmax));
  s.kinematics.orientation          = eq<P>(quat(r));
  s.kinematics.linear_velocity      = ev3<P>(vec(r, vmax));
  s.kinematics.angular_velocity     = ev3<P>(vec(r, wmax));
  s.kinematics.linear_acceleration  = ev3<P>(vec(r, 10));
  s.kinematics.angular_acceleration = ev3<P>(vec(r, 10));
  s.dynamics.force                  = ev3<P>(vec(r, 10));
  s.dynamics.torque                 = ev3<P>(vec(r, 10));
  for (int i = 0; i < N; i++) {
    auto &m = p.motors_params[i];
    double k = r.chance(0.2) ? (double)r.below(2) : r.unit();
    P w      = (P)((double)m.min_speed + k * ((double)m.max_speed - (double)m.min_speed));
    s.actuators.motor_angular_velocity(i)     = std::min(std::max(w, m.min_speed), m.max_speed);
    s.actuators.motor_angular_acceleration(i) = (P)r.wide(1000);
  }
  return s;
}
template <typename P, int N>
Eigen::Matrix<P, N, 1> command(Rng &r, const mr::model::ModelParams<P, N> &p, bool wild) {
  Eigen::Matrix<P, N, 1> c;
  for (int i = 0; i < N; i++) {
    auto &m  = p.motors_params[i];
    double a = m.min_speed, b = m.max_speed, x = a + (b - a) * r.unit();
    if (wild) switch (r.below(10)) {
        case 0: x = 0; break;
        case 1: x = a; break;
        case 2: x = b; break;
        case 3: x = r.wide(1e5); break;
        case 4: x = r.sgn() * r.logu(1, 1e30); break;
        case 5: x = b * (1 + 1e-6); break;
        case 6: x = a - 1e-3; break;
      }
    c(i) = (P)x;
  }
  return c;
}
}  // namespace gen

// compares an observed state with the reference prediction; reports under `key`
template <typename P, int N>
bool check_state(const std::string &key, const mr::state::State<P, N> &got, const ref::State &want, const ref::Scale &sc, const char *ctx, LD k = 1) {
  ref::State g = rstate<P, N>(got);
  LD rel       = vh::rel<P>() * k;
  bool ok      = true;
  auto v       = [&](const char *f, ref::V3 a, ref::V3 b, LD s) {
    vh::ev();
    if (!(ref::finite3(a) && ref::finite3(b) && ref::dist(a, b) <= rel * s + 1e-30L)) {
      ok = false;
      vh::fail(key + "/" + f, "%s: %s observed (%.12g %.12g %.12g) expected (%.12g %.12g %.12g) scale %.3g", ctx, f, vh::D(a.x), vh::D(a.y), vh::D(a.z), vh::D(b.x),
                     vh::D(b.y), vh::D(b.z), vh::D(s));
    }
  };
  v("position", g.p, want.p, sc.p);
  v("linear_velocity", g.v, want.v, sc.v);
  v("angular_velocity", g.w, want.w, sc.w);
  v("linear_acceleration", g.a, want.a, sc.a);
  v("angular_acceleration", g.dw, want.dw, sc.dw);
  v("force", g.F, want.F, sc.F);
  v("torque", g.T, want.T, sc.T);
  vh::ev();
  ref::Q d{g.q.w - want.q.w, g.q.x - want.q.x, g.q.y - want.q.y, g.q.z - want.q.z};
  ref::Q d2{g.q.w + want.q.w, g.q.x + want.q.x, g.q.y + want.q.y, g.q.z + want.q.z};  // same rotation
  LD qd = std::min(ref::qnorm(d), ref::qnorm(d2));
  if (!(qd <= rel * 4)) {
    ok = false;
    vh::fail(key + "/orientation", "%s: orientation observed (%.12g %.12g %.12g %.12g) expected (%.12g %.12g %.12g %.12g)", ctx, vh::D(g.q.w), vh::D(g.q.x), vh::D(g.q.y),
             vh::D(g.q.z), vh::D(want.q.w), vh::D(want.q.x), vh::D(want.q.y), vh::D(want.q.z));
  }
  for (size_t i = 0; i < want.mw.size(); i++) {
    vh::ev();
    if (!vh::near(g.mw[i], want.mw[i], rel * sc.m + 1e-30L) || !vh::near(g.mdw[i], want.mdw[i], rel * sc.mdw + 1e-30L)) {
      ok = false;
      vh::fail(key + "/rotor", "%s: rotor %zu speed %.12g accel %.12g expected %.12g %.12g", ctx, i, vh::D(g.mw[i]), vh::D(g.mdw[i]), vh::D(want.mw[i]), vh::D(want.mdw[i]));
    }
  }
  return ok;
}
