// C21: random histories over the whole public interface on default-built, configured, copied, rejected and reassigned objects.
// Decided by ASan/UBSan/LSan/library assertions, by MSan (every observed value checked), and, in every build, by running
// each history twice with different garbage in the memory of the objects, on the stack and in the heap: any difference
// in an observed value is an uninitialised or dangling read.
#include "sim.hpp"
#include <malloc.h>

#include <memory>
#include <new>
#include <sstream>
#if defined(V_MSAN)
#include <sanitizer/msan_interface.h>
#endif
static void quiet() {
  static bool done = false;
  if (!done) std::cout.setstate(std::ios::failbit), std::cerr.setstate(std::ios::failbit), done = true;
}
static int g_pat = 0;
// leaves garbage where the next calls will put their locals
__attribute__((noinline)) static void scribble() {
  volatile unsigned char b[6000];
  for (size_t i = 0; i < sizeof b; i += 1) b[i] = (unsigned char)g_pat;
#if defined(V_MSAN)
  __msan_poison((void *)b, sizeof b);
#endif
}
template <typename T>
struct Box {  // an object in memory full of garbage
  void *m = nullptr;
  T *p    = nullptr;
  Box() = default;
  Box(const Box &) = delete;
  Box &operator=(const Box &) = delete;
  void raw() {
    clear();
    m = ::operator new(sizeof(T), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
    memset(m, g_pat, sizeof(T));
#if defined(V_MSAN)
    __msan_poison(m, sizeof(T));
#endif
    scribble();
  }
  template <typename... A>
  T &make(A &&...a) {
    raw();
    p = new (m) T(std::forward<A>(a)...);
    return *p;
  }
  T &make0() {  // default initialisation, as in `T x;`
    raw();
    p = new (m) T;
    return *p;
  }
  void clear() {
    if (p) p->~T();
    if (m) {
      memset(m, g_pat ^ 0x5a, sizeof(T));
      ::operator delete(m, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
    }
    p = nullptr, m = nullptr;
  }
  ~Box() { clear(); }
  T &operator*() { return *p; }
  T *operator->() { return p; }
};
struct Trace {
  std::vector<double> v;
  std::vector<short> op;
  short cur = 0;
  void d(double x) {
#if defined(V_MSAN)
    __msan_check_mem_is_initialized(&x, sizeof x);
#endif
    vh::ev();
    v.push_back(x), op.push_back(cur);
  }
  template <typename M>
  void m(const Eigen::MatrixBase<M> &x) {
    for (int j = 0; j < x.cols(); j++)
      for (int i = 0; i < x.rows(); i++) d((double)x(i, j));
  }
  void q(const Eigen::Quaternion<TP> &x) { m(x.coeffs()); }
};
using Imu  = imu::IMU<TP>;
using Odo  = imu::InertialOdometry<TP>;
using PidN = pid_controller::PID<TP, NR>;
using Pid3 = pid_controller::PID<TP, 3>;
using Pid1 = pid_1d_controller::PID<TP>;
using P1P  = pid_1d_controller::PIDParams<TP>;
using PNP  = pid_controller::PIDParams<TP, NR>;
static void see(Trace &t, const St &s) {
  auto &k = s.kinematics;
  t.m(k.position), t.q(k.orientation), t.m(k.linear_velocity), t.m(k.angular_velocity), t.m(k.linear_acceleration), t.m(k.angular_acceleration), t.m(s.dynamics.force), t.m(s.dynamics.torque), t.m(s.actuators.motor_angular_velocity), t.m(s.actuators.motor_angular_acceleration);
}
static void see(Trace &t, const Veh &p) {
  t.d(p.vehicle_mass), t.m(p.vehicle_inertia), t.d(p.vehicle_drag_coefficient), t.m(p.vehicle_aero_moment_coefficient), t.m(p.gravity), t.d(p.force_process_noise_auto_correlation), t.d(p.moment_process_noise_auto_correlation), t.d(p.motors_params.size());
  for (auto &m : p.motors_params) t.d(m.motor_rotation_direction), t.d(m.thrust_coefficient), t.d(m.torque_coefficient), t.d(m.min_speed), t.d(m.max_speed), t.d(m.time_constant), t.d(m.rotational_inertia), t.m(m.pose.translation()), t.m(m.pose.linear());
}
static void see(Trace &t, const Mod &m) {
  see(t, m.get_params());
  t.d(m.get_num_rotors()), t.d(m.get_motors().size()), t.d(m.get_mass()), t.m(m.get_vehicle_inertia()), t.d(m.get_vehicle_drag_coefficient()), t.m(m.get_vehicle_aero_moment_coefficient()), t.m(m.get_gravity());
  t.d(m.get_moment_process_noise_auto_correlation()), t.d(m.get_force_process_noise_auto_correlation()), t.m(m.get_stochastic_force()), t.m(m.get_stochastic_moment());
  t.m(m.get_mixer_torque_matrix()), t.m(m.get_mixer_force_vector()), t.m(m.get_mixer_force_matrix()), t.m(m.get_mixer_inertia_matrix()), t.m(m.get_mixer_matrix());
}
template <typename V, int N>
static void seepp(Trace &t, const pid_controller::PIDParams<V, N> &p) {
  t.m(p.Kp_gains), t.m(p.Ki_gains), t.m(p.Kd_gains), t.m(p.antiwindup_cte), t.m(p.alpha), t.d(p.reset_integral_flag), t.d(p.proportional_saturation_flag), t.m(p.upper_output_saturation), t.m(p.lower_output_saturation);
}
template <int N>
static void seep(Trace &t, const pid_controller::PID<TP, N> &c) {
  Eigen::Matrix<TP, N, 1> a, b, d;
  c.get_gains(a, b, d);
  t.m(a), t.m(b), t.m(d), t.m(c.get_gains_kp()), t.m(c.get_gains_ki()), t.m(c.get_gains_kd()), t.m(c.get_anti_windup()), t.m(c.get_alpha()), t.d(c.get_reset_integral_saturation_flag()), t.d(c.get_proportional_saturation_flag()), t.d(c.get_output_saturation_flag());
  c.get_saturation_limits(a, b);
  t.m(a), t.m(b), t.m(c.get_proportional_error()), t.m(c.get_derivative_error()), t.m(c.get_proportional_error_contribution()), t.m(c.get_integral_error_contribution()), t.m(c.get_derivative_error_contribution()), t.m(c.get_output());
  seepp<TP, N>(t, c.get_params());
}
static void see(Trace &t, const Pid1 &c) {
  TP a, b, d;
  c.get_gains(a, b, d);
  t.d(a), t.d(b), t.d(d), t.d(c.get_kp()), t.d(c.get_ki()), t.d(c.get_kd()), t.d(c.get_anti_windup()), t.d(c.get_alpha()), t.d(c.get_reset_integral_saturation_flag()), t.d(c.get_output_saturation_flag());
  c.get_saturation_limits(a, b);
  t.d(a), t.d(b), t.d(c.get_proportional_error()), t.d(c.get_derivative_error()), t.d(c.get_proportional_error_contribution()), t.d(c.get_integral_error_contribution()), t.d(c.get_derivative_error_contribution()), t.d(c.get_output());
  auto p = c.get_params();
  t.d(p.Kp_gains), t.d(p.Ki_gains), t.d(p.Kd_gains), t.d(p.antiwindup_cte), t.d(p.alpha), t.d(p.reset_integral_flag), t.d(p.upper_output_saturation), t.d(p.lower_output_saturation);
}
static void see(Trace &t, const Ctl &c) {
  t.m(c.get_desired_motor_angular_velocity()), t.d(c.get_desired_thrust()), t.m(c.get_desired_angular_velocity()), t.m(c.get_desired_linear_acceleration()), t.m(c.get_desired_linear_velocity()), t.m(c.get_desired_position());
  auto &a = c.get_acro_controller_const();
  t.m(a.get_desired_angular_velocity()), t.d(a.get_desired_thrust()), t.d(a.get_vehicle_mass()), t.m(a.get_gravity()), t.m(a.get_kp_rot());
  auto &i = c.get_indi_controller_const();
  t.m(i.get_inertia()), t.m(i.get_mixer_matrix_inverse()), t.m(i.get_desired_angular_acceleration()), t.m(i.get_desired_thrust()), t.m(i.get_desired_torque()), t.m(i.get_motor_angular_velocity()), t.m(i.get_angular_velocity_error());
  seep<3>(t, i), seep<3>(t, c.get_position_controller_const()), seep<3>(t, c.get_velocity_controller_const()), seep<3>(t, c.get_trajectory_controller_const());
  t.m(c.get_position_controller_const().get_desired_linear_velocity()), t.m(c.get_position_controller_const().get_position_error()), t.m(c.get_velocity_controller_const().get_desired_linear_acceleration()), t.m(c.get_velocity_controller_const().get_velocity_error());
  t.m(c.get_trajectory_controller_const().get_desired_linear_acceleration()), t.m(c.get_trajectory_controller_const().get_position_error()), t.m(c.get_trajectory_controller_const().get_velocity_error());
}
static void see(Trace &t, const Imu &i) {
  V3 a, b;
  TP x, y;
  i.get_measurement(a, b), t.m(a), t.m(b);
  i.get_bias(a, b), t.m(a), t.m(b);
  i.get_variances(x, y), t.d(x), t.d(y);
  i.get_measurement_gyro(a), i.get_measurement_accel(b), t.m(a), t.m(b), t.m(i.get_measurement_gyro()), t.m(i.get_measurement_accel());
  auto pr = i.get_measurement();
  t.m(pr.first), t.m(pr.second);
}
static void see(Trace &t, const Odo &o) {
  V3 a, b, c, d;
  Eigen::Quaternion<TP> q;
  o.get_measurement(a, q, b, c, d);
  t.m(a), t.q(q), t.m(b), t.m(c), t.m(d), t.m(o.get_position()), t.q(o.get_orientation()), t.m(o.get_linear_velocity()), t.m(o.get_angular_velocity()), t.m(o.get_linear_acceleration());
}
static void see(Trace &t, const Dyn &d) {
  see(t, d.get_state()), see(t, d.get_model_const());
}
static void see(Trace &t, const Sim &s, bool deep) {
  for (double x : flat(s)) t.d(x);
  V3 v;
  VN n;
  TP x;
  bool b;
  mr::ControlMode cm;
  mr::YawControlMode ym;
  mr::state::internal::Kinematics<TP> k;
  s.get_armed(b), t.d(b), s.get_floor_collision_enabled(b), t.d(b), s.get_floor_height(x), t.d(x), s.get_reference_motors_angular_velocity(n), t.m(n), s.get_reference_thrust(x), t.d(x), s.get_reference_angular_velocity(v), t.m(v), s.get_reference_position(v), t.m(v);
  s.get_reference_velocity(v), t.m(v), s.get_reference_acceleration(v), t.m(v), s.get_reference_yaw(x), t.d(x), s.get_reference_yaw_rate(x), t.d(x), s.get_actuation_motors_angular_velocity(n), t.m(n), s.get_external_force(v), t.m(v), s.get_control_mode(cm), t.d(cm), s.get_yaw_control_mode(ym), t.d(ym);
  s.get_odometry(k), t.m(k.position), t.m(k.angular_acceleration);
  St st;
  s.get_state(st), see(t, st);
  if (!deep) return;
  see(t, s.get_dynamics_const()), see(t, s.get_controller_const()), see(t, s.get_imu_const()), see(t, s.get_inertial_odometry_const());
}
// a vehicle that must be refused
static Veh bad(Rng &r) {
  Veh p = gen::vehicle<TP, NR>(r);
  switch (r.below(6)) {
    case 0: p.vehicle_mass = -p.vehicle_mass; break;
    case 1: p.motors_params.pop_back(); break;
    case 2: p.motors_params.clear(); break;
    case 3: p.motors_params.resize(NR + 1 + r.below(3), p.motors_params[0]); break;
    case 4: p.motors_params[r.below(NR)].time_constant = -1; break;
    default: p.vehicle_drag_coefficient = -1; break;
  }
  return p;
}
static const char *kNames[] = {"default simulator", "configured simulator", "refused simulator", "copied simulator", "assigned simulator", "self assignment", "source destroyed", "ran", "component copied out", "component replaced", "refused update",
                               "own state fed back", "held references", "step refused", "dynamics", "model", "imu", "odometry", "controller", "pid", "scalar pid", "text", "simulators in a vector", "kept state", "moved simulator", "extreme values"};
enum Op { OP_DEFAULT, OP_CONF, OP_REFUSED, OP_COPY, OP_ASSIGN, OP_SELF, OP_SRC, OP_RUN, OP_OUT, OP_REPLACE, OP_BADUP, OP_OWN, OP_REFS, OP_THROW, OP_DYN, OP_MODEL, OP_IMU, OP_ODO, OP_CTL, OP_PID, OP_PID1, OP_TEXT, OP_VEC, OP_KEEP, OP_MOVE, OP_XTREME, OP_N };
struct Ops {
  bool b[OP_N] = {};
};
static TP dtof(Rng &r) { return (TP)(r.chance(0.1) ? r.uni(0.01, 0.2) : r.logu(1e-4, 0.0099)); }
static void advance(Rng &r, Sim &s, Trace &t, int n) {
  for (int i = 0; i < n; i++) {
    if (r.chance(0.4)) gen::call(r, s);
    TP dt = dtof(r);
    scribble();
    switch (r.below(5)) {
      case 0: s.update_controller(dt); break;
      case 1: s.update_dynamics(dt); break;
      case 2: s.update_imu(dt); break;
      case 3: s.update_inertial_odometry(dt); break;
      default: s.update_controller(dt), s.update_dynamics(dt), s.update_imu(dt), s.update_inertial_odometry(dt);
    }
    see(t, s, false);
  }
}
static void pid_calls(Rng &r, Pid3 &c, Trace &t) {
  for (int k = r.range(1, 6); k; k--) {
    scribble();
    V3 e = gen::v3(r, 5), d = gen::v3(r, 5);
    TP dt = dtof(r);
    switch (r.below(13)) {
      case 0: t.m(c.compute_control(dt, e)); break;
      case 1: t.m(c.compute_control(dt, e, d)); break;
      case 2: t.m(c.compute_control(dt, c.get_proportional_error(), c.get_derivative_error())); break;
      case 3: c.reset_controller(); break;
      case 4: c.update_pid_params(c.get_params()); break;
      case 5: c.update_pid_params(pidh::params<TP, 3>(r)); break;
      case 6: c.set_output_saturation(e, d, r.chance(0.5)); break;  // refused more often than not
      case 7: c.disable_output_saturation(); break;
      case 8: c.set_gains(e, d, e); break;
      case 9: c.set_anti_windup(e.cwiseAbs()), c.set_alpha(d); break;
      case 10: c.set_reset_integral_saturation_flag(r.chance(0.5)), c.set_proportional_saturation_flag(r.chance(0.5)); break;
      case 11: t.m(Pid3::get_error(e, d)), t.m(Pid3::saturate_output(e, d.cwiseAbs(), -d.cwiseAbs(), r.chance(0.5))); break;
      default: {
        V3 a, b;
        Pid3::get_error(e, d, d, e, a, b);
        t.m(a), t.m(b);
        c.set_gains_kp(e), c.set_gains_ki(d), c.set_gains_kd(a);
      }
    }
    seep<3>(t, c);
  }
}
static void history(Rng r, Trace &t, Ops &ops) {
  Box<Sim> s, u;
  Box<Dyn> d;
  Box<Mod> m;
  Box<Imu> im;
  Box<Odo> od;
  Box<Ctl> c;
  Box<Pid3> p3;
  Box<PidN> pn;
  Box<Pid1> p1;
  bool ds = r.chance(0.5);
  if (ds) s.make0();
  else s.make(gen::simp(r, true));
  see(t, *s, true);
  int n = r.range(3, 14);
  for (int k = 0; k < n; k++) {
    int op = r.below(OP_N);
#if defined(V_MSAN)
    if (op == OP_TEXT) op = OP_RUN;  // the stream library is not instrumented
#endif
    t.cur = (short)op;
    ops.b[op] = true;
    scribble();
    switch (op) {
      case OP_DEFAULT:
        u.make0();
        see(t, *u, true);
        u->arm();
        advance(r, *u, t, r.range(1, 4));
        break;
      case OP_CONF: {
        Box<SimP> p;
        p.make(gen::simp(r, true));
        s.make(*p);
        p.clear();
        s->arm();
        advance(r, *s, t, r.range(1, 4));
        break;
      }
      case OP_REFUSED: {
        Box<SimP> p;
        p.make(gen::simp(r, true));
        p->dynamics_params.model_params = bad(r);
        s.make(*p);
        p.clear();
        s->arm();
        advance(r, *s, t, r.range(1, 4));
        break;
      }
      case OP_COPY:
        u.make(*s);
        see(t, *u, true);
        if (r.chance(0.5)) advance(r, *u, t, 2);
        break;
      case OP_ASSIGN:
        if (!u.p) u.make0();
        *u = *s;
        see(t, *u, true);
        advance(r, *u, t, 2);
        *s = *u;
        break;
      case OP_SELF: {
        Sim &q = *s;
        q = *s;
        Dyn &dd = q.get_dynamics();
        dd = q.get_dynamics_const();
        Ctl &cc = q.get_controller();
        cc = q.get_controller_const();
        break;
      }
      case OP_SRC: {
        u.make(*s);
        s.make0();
        *s = *u;
        u.clear();
        advance(r, *s, t, 2);
        break;
      }
      case OP_MOVE: {
        u.make(std::move(*s));
        s.make(std::move(*u));
        u.clear();
        advance(r, *s, t, 2);
        break;
      }
      case OP_RUN: advance(r, *s, t, r.range(1, 12)); break;
      case OP_OUT: {
        d.make0(), c.make0(), im.make0(), od.make0(), m.make0();
        see(t, *d), see(t, *c), see(t, *im), see(t, *od), see(t, *m);
        s->get_dynamics(*d), s->get_controller(*c), s->get_imu(*im), s->get_inertial_odometry(*od), s->get_dynamics_const().get_model(*m);
        see(t, *d), see(t, *c), see(t, *im), see(t, *od), see(t, *m);
        break;
      }
      case OP_REPLACE: {
        Box<SimP> p;
        if (r.chance(0.3)) p.make0();
        else p.make(gen::simp(r, true));
        if (r.chance(0.2)) p->dynamics_params.model_params = bad(r);
        int w = r.below(16);
        if (w & 1) s->set_dynamics_params(p->dynamics_params);
        if (w & 2) s->set_controller_params(p->controller_params);
        if (w & 4) s->set_imu_params(p->imu_params);
        if (w & 8) s->set_inertial_odometry_params(p->inertial_odometry_params);
        p.clear();
        see(t, *s, true);
        advance(r, *s, t, 2);
        break;
      }
      case OP_BADUP: {
        Veh b = bad(r);
        s->get_dynamics().get_model().update_params(b);
        t.d(s->get_dynamics().get_model().check_params(b));
        see(t, s->get_dynamics_const());
        break;
      }
      case OP_OWN: {
        s->get_dynamics().set_state(s->get_state());
        s->get_dynamics().set_state(&s->get_state());
        s->get_dynamics().set_model(s->get_dynamics_const().get_model_const());
        s->get_dynamics().set_model(&s->get_dynamics_const().get_model_const());
        s->get_dynamics().get_model().update_params(s->get_dynamics_const().get_model_const().get_params());
        s->set_reference_trajectory(s->get_reference_velocity(), s->get_reference_position(), s->get_reference_position());
        s->set_reference_position(s->get_reference_velocity());
        s->set_refence_motors_angular_velocity(s->get_actuation_motors_angular_velocity());
        s->set_control_mode(s->get_control_mode(), s->get_yaw_control_mode());
        auto &ic = s->get_controller().get_indi_controller();
        ic.update_inertia(ic.get_inertia()), ic.update_mixer_matrix_inverse(ic.get_mixer_matrix_inverse()), ic.update_pid_params(ic.get_params());
        auto &ac = s->get_controller().get_acro_controller();
        ac.update_gravity(ac.get_gravity()), ac.update_kp_rot(ac.get_kp_rot()), ac.update_vehicle_mass(ac.get_vehicle_mass());
        see(t, *s, true);
        break;
      }
      case OP_REFS: {  // references handed out stay usable while the object lives
        const St &st = s->get_state();
        const VN &ua = s->get_actuation_motors_angular_velocity(), &rm = s->get_reference_motors_angular_velocity();
        const V3 &rp = s->get_reference_position(), &rvl = s->get_reference_velocity(), &ra = s->get_reference_acceleration(), &rw = s->get_reference_angular_velocity(), &ef = s->get_external_force();
        const auto &cm = s->get_control_mode();
        const auto &ym = s->get_yaw_control_mode();
        const V3 &g = s->get_imu_const().get_measurement_gyro(), &a = s->get_imu_const().get_measurement_accel();
        const Mod &mo = s->get_dynamics_const().get_model_const();
        const auto &pp = mo.get_params();
        const auto &mx = mo.get_mixer_matrix();
        const auto &in = mo.get_vehicle_inertia();
        const auto &sf = mo.get_stochastic_force();
        const Ctl &cc = s->get_controller_const();
        const V3 &dp = cc.get_desired_position(), &dv = cc.get_desired_linear_velocity(), &da = cc.get_desired_linear_acceleration(), &dw = cc.get_desired_angular_velocity();
        const VN &dm = cc.get_desired_motor_angular_velocity();
        const auto &kr = cc.get_acro_controller_const().get_kp_rot();
        const auto &gr = cc.get_acro_controller_const().get_gravity();
        const auto &tq = cc.get_indi_controller_const().get_desired_torque();
        const auto &ou = cc.get_velocity_controller_const().get_output();
        const auto &pe = cc.get_position_controller_const().get_position_error();
        const auto &ta = cc.get_trajectory_controller_const().get_desired_linear_acceleration();
        const auto &pr = s->get_imu_const().get_measurement();
        const auto &oo = s->get_inertial_odometry_const().get_orientation();
        advance(r, *s, t, 3);
        scribble();
        see(t, st), t.m(ua), t.m(rm), t.m(rp), t.m(rvl), t.m(ra), t.m(rw), t.m(ef), t.d(cm), t.d(ym), t.m(g), t.m(a), see(t, pp), t.m(mx), t.m(in), t.m(sf), t.m(dp), t.m(dv), t.m(da), t.m(dw), t.m(dm), t.m(kr), t.m(gr), t.m(tq), t.m(ou), t.m(pe), t.m(ta), t.m(pr.first), t.m(pr.second), t.q(oo);
        break;
      }
      case OP_THROW: {
        bool th = false;
        try {
          s->update_dynamics((TP)(r.chance(0.5) ? 0 : -r.uni(0, 1)));
        } catch (const std::invalid_argument &) {
          th = true;
        }
        t.d(th);
        see(t, *s, true);
        advance(r, *s, t, 2);
        break;
      }
      case OP_DYN: {
        Veh v = gen::vehicle<TP, NR>(r);
        switch (r.below(6)) {
          case 0: d.make0(); break;
          case 1: d.make(Mod(v, 3)); break;
          case 2: d.make(v, gen::state<TP, NR>(r, v)); break;
          case 3: d.make(v, 5, gen::state<TP, NR>(r, v)); break;
          case 4: d.make(bad(r), St()); break;
          default: d.make(mr::dynamics::DynamicsParams<TP, NR>()); break;
        }
        see(t, *d);
        for (int i = 0; i < 3; i++) {
          V3 f = gen::v3(r, 3);
          scribble();
          d->process_euler_explicit(gen::command<TP, NR>(r, v, true), dtof(r), f, r.chance(0.5));
          see(t, *d);
          if (r.chance(0.3)) d->process_euler_explicit(d->get_state().actuators.motor_angular_velocity, dtof(r), d->get_state().dynamics.force);
          if (r.chance(0.3)) d->get_model().update_params(r.chance(0.5) ? gen::vehicle<TP, NR>(r) : bad(r));
          if (r.chance(0.2)) d->set_state((const St *)nullptr), d->set_model((const Mod *)nullptr);
        }
        break;
      }
      case OP_MODEL: {
        if (r.chance(0.3)) m.make0();
        else if (r.chance(0.5)) m.make(bad(r), r.below(9));
        else m.make(gen::vehicle<TP, NR>(r), r.below(9));
        see(t, *m);
        Veh v = gen::vehicle<TP, NR>(r);
        VN w = gen::command<TP, NR>(r, v, false), z = gen::command<TP, NR>(r, v, false);
        V3 x = gen::v3(r, 10);
        if (r.chance(0.7)) m->set_stochastic_noise(dtof(r));
        if (r.chance(0.3)) m->set_stochastic_noise(r.chance(0.5) ? 0.01f : 0.0f);
        scribble();
        t.m(m->get_aerodynamic_moment(x)), t.m(m->get_drag_force(x)), t.d(m->get_force_thrust_by_motors(w)), t.m(m->get_force_vector_thrust_by_motors(w)), t.m(m->get_torque_by_motors(w, z));
        t.m(Mod::template compute_mixer_matrix<4>(v.motors_params)), t.m(Mod::template compute_mixer_matrix<6>(v.motors_params)), t.m(Mod::compute_mixer_inertia_matrix(v.motors_params));
        for (auto &mm : Mod::create_quadrotor_x_config(1, 2, 3, 4, 5, 6, 7, 8)) t.m(mm.pose.matrix()), t.d(mm.motor_rotation_direction), t.d(mm.max_speed);
        for (auto &mm : Mod::create_quadrotor_plus_config(1, 2, 3, 4, 5, 6, 7, 8)) t.m(mm.pose.matrix()), t.d(mm.motor_rotation_direction), t.d(mm.max_speed);
        for (auto &mm : Mod::create_hexacopter_config(1, 2, 3, 4, 5, 6, 7)) t.m(mm.pose.matrix()), t.d(mm.motor_rotation_direction), t.d(mm.max_speed);
        if constexpr (NR == 4) {
          Eigen::Matrix<TP, 6, 4> mm = Mod::template compute_mixer_matrix<6>(v.motors_params);
          t.m(indi_controller::compute_quadrotor_mixer_matrix_inverse<TP>(mm));
        }
        VN sq = mr::utils::squared_keep_sign(w), rt = mr::utils::sqrt_keep_sign(w);
        mr::utils::clamp_vector(z, -1.0f, 1.0f);
        t.m(sq), t.m(rt), t.m(z);
        see(t, *m);
        break;
      }
      case OP_IMU: {
        if (r.chance(0.3)) im.make0();
        else im.make(gen::imu(r, r.chance(0.7)));
        see(t, *im);
        for (int i = 0; i < 4; i++) {
          scribble();
          im->update(dtof(r), gen::v3(r, 10), gen::v3(r, 5));
          see(t, *im);
          switch (r.below(6)) {
            case 0: im->reset(); break;
            case 1: im->set_random_seed(gen::seed(r)); break;
            case 2: im->set_noise_variances((TP)r.unit(), (TP)r.unit()); break;
            case 3: im->set_orientation(eq<TP>(gen::quat(r))); break;
            case 4: im->set_bias(gen::v3(r, 1), gen::v3(r, 1), (TP)r.unit(), (TP)r.unit()); break;
            default: im->update(0, gen::v3(r, 10), gen::v3(r, 5));
          }
        }
        see(t, *im);
        break;
      }
      case OP_ODO: {
        if (r.chance(0.3)) od.make0();
        else od.make(gen::odo(r));
        see(t, *od);
        for (int i = 0; i < 4; i++) {
          scribble();
          od->update(gen::v3(r, 5), gen::v3(r, 10), dtof(r));
          see(t, *od);
          if (r.chance(0.2)) od->reset();
          if (r.chance(0.2)) od->set_initial_orientation(eq<TP>(gen::quat(r)));
          if (r.chance(0.2)) od->set_initial_orientation(od->get_orientation());
        }
        break;
      }
      case OP_CTL: {
        Veh v = gen::vehicle<TP, NR>(r);
        if (r.chance(0.4)) c.make0();
        else if (r.chance(0.3)) c.make(gen::controller(r, v).acro_controller_params);
        else c.make(gen::controller(r, v));
        see(t, *c);
        for (int i = 0; i < 5; i++) {
          V3 a = gen::v3(r, 3), b = gen::v3(r, 3), e = gen::v3(r, 3), f = gen::v3(r, 3), g = gen::v3(r, 3);
          Eigen::Matrix<TP, 3, 3> R = eq<TP>(gen::quat(r)).toRotationMatrix();
          TP yaw = (TP)r.uni(-4, 4), dt = dtof(r), th = (TP)r.uni(-1, 20);
          scribble();
          switch (r.below(13)) {
            case 0: t.m(c->compute_acro_control(a, th, b, dt)); break;
            case 1: t.m(c->compute_acceleration_control(R, a, b, yaw, dt)); break;
            case 2: t.m(c->compute_trajectory_control(a, b, R, e, f, g, a, yaw, dt)); break;
            case 3: t.m(c->compute_velocity_control(a, R, b, e, yaw, dt)); break;
            case 4: t.m(c->compute_position_control(a, R, b, e, f, yaw, dt)); break;
            case 5: c->reset_controller(); break;
            case 6: c->update_params(gen::controller(r, v)); break;
            case 7: t.d(c->yaw_rate_to_angle(yaw, th)); break;
            case 8: {
              auto pr = c->convert_linear_acceleration_to_acro(a, R, yaw, dt);
              t.d(pr.first), t.m(pr.second);
              break;
            }
            case 9: t.m(c->convert_acro_to_motor_angular_velocity(a, th, b, dt)), t.m(c->convert_position_to_linear_velocity(a, b, dt)), t.m(c->convert_linear_velocity_to_linear_acceleration(a, b, dt)), t.m(c->convert_trajectory_to_linear_acceleration(a, b, e, f, g, dt)); break;
            case 10: t.m(c->get_acro_controller().acceleration_to_thrust(a)), t.m(c->get_acro_controller().yaw_angle_to_angular_velocity(R, yaw, b)); break;
            case 11: c->update_params(CtlP()); break;
            default: t.m(c->compute_position_control(c->get_desired_position(), R, c->get_desired_linear_velocity(), c->get_desired_angular_velocity(), c->get_desired_linear_velocity(), yaw, dt));
          }
          see(t, *c);
        }
        if (r.chance(0.3)) pid_calls(r, c->get_velocity_controller(), t);
        if (r.chance(0.3)) pid_calls(r, c->get_indi_controller(), t);
        break;
      }
      case OP_PID: {
        if (r.chance(0.4)) p3.make0();
        else p3.make(pidh::params<TP, 3>(r));
        seep<3>(t, *p3);
        pid_calls(r, *p3, t);
        if (r.chance(0.4)) pn.make0();
        else pn.make(pidh::params<TP, NR>(r));
        seep<NR>(t, *pn);
        for (int i = 0; i < 3; i++) {
          VN e;
          for (int j = 0; j < NR; j++) e(j) = (TP)r.wide(5);
          t.m(r.chance(0.5) ? pn->compute_control(dtof(r), e) : pn->compute_control(dtof(r), e, e));
          if (r.chance(0.3)) pn->reset_controller();
          seep<NR>(t, *pn);
        }
        break;
      }
      case OP_PID1: {
        P1P q;
        if (r.chance(0.7)) q.Kp_gains = (TP)r.uni(0, 5), q.Ki_gains = (TP)r.uni(0, 5), q.Kd_gains = (TP)r.uni(0, 1), q.antiwindup_cte = (TP)(r.chance(0.5) ? 0 : r.unit()), q.alpha = (TP)r.unit(), q.reset_integral_flag = r.chance(0.5), q.upper_output_saturation = (TP)r.wide(3), q.lower_output_saturation = (TP)r.wide(3);
        if (r.chance(0.3)) p1.make0();
        else p1.make(q);
        see(t, *p1);
        for (int i = 0; i < 5; i++) {
          TP e = (TP)r.wide(5), dt = dtof(r);
          scribble();
          switch (r.below(8)) {
            case 0:
            case 1:
            case 2: t.d(p1->compute_control(dt, e)); break;
            case 3: t.d(p1->compute_control(dt, e, e)); break;
            case 4: p1->reset_controller(); break;
            case 5: p1->update_params(q); break;
            case 6: p1->set_output_saturation(e, (TP)r.wide(5)); break;
            default: p1->set_kp(e), p1->set_ki(e), p1->set_kd(e), p1->set_alpha((TP)r.unit()), p1->set_anti_windup(std::abs(e)), p1->disable_output_saturation(), p1->set_reset_integral_saturation_flag(r.chance(0.5));
          }
          see(t, *p1);
        }
        break;
      }
      case OP_TEXT: {
        std::ostringstream o;
        o << s->get_state() << s->get_inertial_odometry_const() << s->get_state().actuators;
        mr::state::internal::print_kinematics(o, s->get_state().kinematics);
        mr::state::internal::print_dynamics(o, s->get_state().dynamics);
        mr::state::internal::print_actuators(o, s->get_state().actuators);
        mr::state::print_state(s->get_state());
        uint64_t h = 5;
        for (char ch : o.str()) h = (h ^ (unsigned char)ch) * 1099511628211ull;
        t.d((double)(h >> 12));
        break;
      }
      case OP_VEC: {
        std::vector<Sim> vs;
        for (int i = 0; i < 3; i++) {
          if (r.chance(0.5)) vs.push_back(*s);
          else vs.emplace_back();
          vs.back().arm();
        }
        std::swap(vs[0], vs[2]);
        vs.erase(vs.begin() + 1);
        for (auto &x : vs) advance(r, x, t, 1), see(t, x, true);
        break;
      }
      case OP_KEEP: {  // a state outlives the simulator it came from
        Box<Sim> w;
        w.make(*s);
        St st    = w->get_state();
        auto mo  = w->get_dynamics().get_model();
        auto cc  = w->get_controller();
        auto pr  = w->get_imu().get_measurement();
        auto od2 = w->get_odometry();
        auto pp  = cc.get_indi_controller().get_params();
        w.clear();
        scribble();
        see(t, st), see(t, mo), see(t, cc), t.m(pr.first), t.m(pr.second), t.m(od2.position), t.q(od2.orientation), t.m(od2.angular_acceleration), seepp<TP, 3>(t, pp);
        s->get_dynamics().set_model(&mo), s->get_dynamics().set_state(&st);
        break;
      }
      case OP_XTREME: {
        static const double ex[] = {0.0, -0.0, 1e30, -1e30, 1e-30, INFINITY, -INFINITY, NAN};
        V3 a((TP)ex[r.below(8)], (TP)ex[r.below(8)], (TP)ex[r.below(8)]), b((TP)ex[r.below(5)], (TP)ex[r.below(5)], (TP)ex[r.below(5)]);
        u.make(*s);
        u->arm(), u->set_control_mode(gen::mode(r), r.chance(0.5) ? mr::YawControlMode::ANGLE : mr::YawControlMode::RATE);
        u->set_reference_trajectory(a, b, a), u->set_reference_yaw_angle((TP)ex[r.below(8)]), u->set_reference_yaw_rate((TP)ex[r.below(8)]), u->set_reference_acro((TP)ex[r.below(8)], b);
        VN w;
        for (int i = 0; i < NR; i++) w(i) = (TP)ex[r.below(8)];
        u->set_refence_motors_angular_velocity(w);
        if (r.chance(0.5)) u->enable_floor_collision((TP)ex[r.below(8)]);
        advance(r, *u, t, 3);
        break;
      }
    }
    see(t, *s, false);
  }
}
void run_case(long, Rng &r) {
  quiet();
  uint64_t a = r.u64();
  Ops ops;
#if defined(V_MSAN)
  g_pat = 0x33;
  Trace t;
  history(Rng(a, 7), t, ops);
#else
  static const int pats[] = {0x00, 0xff, 0x7f, 0x41, 0xa5, 0x3f};
  int i = r.below(6), j = (i + 1 + r.below(5)) % 6;
  Trace t, q;
  auto go = [&](int p, Trace &x) {
    g_pat = pats[p];
#if !defined(V_SAN) && !defined(V_TSAN)
    mallopt(M_PERTURB, pats[p]);
#endif
    Ops o;
    history(Rng(a, 7), x, o);
    ops = o;
  };
  go(i, t), go(j, q);
  if (t.v.size() != q.v.size()) {
    vh::fail("uninitialised", "the same history gives %zu observations with memory full of %02x and %zu with %02x", t.v.size(), pats[i], q.v.size(), pats[j]);
    return;
  }
  for (size_t k = 0; k < t.v.size(); k++)
    if (!(t.v[k] == q.v[k]) && !(std::isnan(t.v[k]) && std::isnan(q.v[k]))) {
      vh::fail(std::string("uninitialised/") + kNames[t.op[k]], "observation %zu, made in '%s': %.9g with memory full of %02x, %.9g with %02x", k, kNames[t.op[k]], t.v[k], pats[i], q.v[k], pats[j]);
      return;
    }
#endif
  int kinds = 0;
  for (int o = 0; o < OP_N; o++)
    if (ops.b[o]) vh::bin(kNames[o]), kinds++;
  vh::bin("observations", t.v.size());
  uint64_t h = 1;
  for (size_t k = 0; k < t.v.size(); k += 7) h = vh::hashd(h, t.v[k]);
  vh::nontrivial(h);
  if (t.v.size() > 20000) vh::sample("%zu observations over %d kinds of operation", t.v.size(), kinds);
}
