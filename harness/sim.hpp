// Random simulators, operations on them, and the reference control cascade.
#pragma once
#include "pid.hpp"

using Sim  = mr::Simulator<TP, NR>;
using SimP = mr::SimulatorParams<TP, NR>;
using Ctl  = mr::controller::Controller<TP, NR>;
using CtlP = mr::controller::ControllerParams<TP, NR>;
using V3   = Eigen::Matrix<TP, 3, 1>;
using VN   = Eigen::Matrix<TP, NR, 1>;
using Veh  = mr::model::ModelParams<TP, NR>;
using St   = mr::state::State<TP, NR>;
using Mod  = mr::model::Model<TP, NR>;
using Dyn  = mr::dynamics::Dynamics<TP, NR>;
using ImuP = imu::IMUParams<TP>;
using OdoP = imu::InertialOdometryParams<TP>;
using PidP = pid_controller::PIDParams<TP, 3>;

namespace gen {
inline PidP pid(Rng &r, double kp, double ki, double kd) {
  PidP p = pidh::params<TP, 3>(r, true);
  for (int i = 0; i < 3; i++) p.Kp_gains(i) = (TP)(kp * r.uni(0.3, 2)), p.Ki_gains(i) = (TP)(r.chance(0.3) ? 0 : ki * r.uni(0, 2)), p.Kd_gains(i) = (TP)(r.chance(0.3) ? 0 : kd * r.uni(0, 2));
  return p;
}
inline CtlP controller(Rng &r, const Veh &v) {
  CtlP c;
  c.acro_controller_params.vehicle_mass = v.vehicle_mass;
  c.acro_controller_params.gravity      = v.gravity;
  if (r.chance(0.1)) c.acro_controller_params.vehicle_mass *= (TP)r.uni(0.5, 2);
  auto &k = c.acro_controller_params.kp_rot;
  for (int i = 0; i < 3; i++) k(i, i) = (TP)r.uni(0.2, 10);
  if (r.chance(0.3))
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        if (i != j) k(i, j) = (TP)r.uni(-1, 1);
  if (r.chance(0.05)) k(2, 2) = 0;
  c.indi_controller_params.inertia    = v.vehicle_inertia;
  c.indi_controller_params.pid_params = pid(r, 20, 1, 0.05);
  bool done = false;
  if constexpr (NR == 4) {
    auto m = Mod::template compute_mixer_matrix<6>(v.motors_params);
    Eigen::Matrix<TP, 4, 4> m4 = m.bottomRows(4);
    if (m.row(0).isZero() && m.row(1).isZero() && r.chance(0.7)) {
      c.indi_controller_params.mixer_matrix_inverse = indi_controller::compute_quadrotor_mixer_matrix_inverse<TP>(m);
      done = c.indi_controller_params.mixer_matrix_inverse.allFinite();
    }
  }
  if (!done) {
    double kf = std::max(1e-12, (double)v.motors_params[0].thrust_coefficient);
    for (int i = 0; i < NR; i++)
      for (int j = 0; j < 6; j++) c.indi_controller_params.mixer_matrix_inverse(i, j) = (TP)(r.uni(-1, 1) / kf);
  }
  c.position_controller_params.pid_params   = pid(r, 1, 0.1, 0.05);
  c.velocity_controller_params.pid_params   = pid(r, 3, 0.3, 0.05);
  c.trajectory_controller_params.pid_params = pid(r, 6, 0.3, 3);
  return c;
}
inline CtlP mix(Rng &r, const CtlP &cur, CtlP n) {
  n.position_controller_params.pid_params   = pidh::mix<TP, 3>(r, cur.position_controller_params.pid_params, n.position_controller_params.pid_params);
  n.velocity_controller_params.pid_params   = pidh::mix<TP, 3>(r, cur.velocity_controller_params.pid_params, n.velocity_controller_params.pid_params);
  n.trajectory_controller_params.pid_params = pidh::mix<TP, 3>(r, cur.trajectory_controller_params.pid_params, n.trajectory_controller_params.pid_params);
  n.indi_controller_params.pid_params       = pidh::mix<TP, 3>(r, cur.indi_controller_params.pid_params, n.indi_controller_params.pid_params);
  if (r.chance(0.5)) n.indi_controller_params.inertia = cur.indi_controller_params.inertia;
  if (r.chance(0.5)) n.indi_controller_params.mixer_matrix_inverse = cur.indi_controller_params.mixer_matrix_inverse;
  auto &a = n.acro_controller_params;
  auto &b = cur.acro_controller_params;
  if (r.chance(0.4)) a.vehicle_mass = b.vehicle_mass;
  if (r.chance(0.4)) a.gravity = b.gravity;
  if (r.chance(0.4)) a.kp_rot = b.kp_rot;
  return n;
}
// seeds: mostly ordinary ones, now and then the corner values (not for pooled statistics, which need fresh seeds)
inline int seed(Rng &r) {
  static const int k[] = {0, 1, -1, 2147483647, -2147483647 - 1, 42, -7};
  return r.chance(0.12) ? k[r.below(7)] : r.below(100000);
}
inline ImuP imu(Rng &r, bool noisy) {
  ImuP p;
  if (noisy) {
    p.gyro_noise_var = (TP)r.logu(1e-6, 1), p.accel_noise_var = (TP)r.logu(1e-6, 1);
    p.gyro_bias_noise_autocorr_time = (TP)r.logu(1e-6, 1), p.accel_bias_noise_autocorr_time = (TP)r.logu(1e-6, 1);
  }
  if (r.chance(0.5)) p.imu_orientation = eq<TP>(quat(r));
  p.seed = seed(r);
  return p;
}
inline OdoP odo(Rng &r) {
  OdoP p;
  if (r.chance(0.5)) p.alpha = (TP)(r.chance(0.15) ? r.logu(1e-5, 0.05) : r.uni(0.05, 1));
  if (r.chance(0.5)) p.initial_world_orientation = eq<TP>(quat(r));
  return p;
}
inline SimP simp(Rng &r, bool noisy, const VehOpt &vo = VehOpt()) {
  SimP s;
  VehOpt o                       = vo;
  o.noise                        = noisy;
  s.dynamics_params.model_params = vehicle<TP, NR>(r, o);
  s.dynamics_params.state        = state<TP, NR>(r, s.dynamics_params.model_params, 20, 10, 100);
  s.dynamics_params.model_seed   = seed(r);
  s.controller_params            = controller(r, s.dynamics_params.model_params);
  s.imu_params                   = imu(r, noisy);
  s.inertial_odometry_params     = odo(r);
  return s;
}
inline V3 v3(Rng &r, double m) { return ev3<TP>(vec(r, m)); }
inline mr::ControlMode mode(Rng &r) { return (mr::ControlMode)r.below(6); }
inline const char *mode_name(int m) {
  static const char *n[] = {"HOVER", "MOTOR_W", "ACRO", "TRAJECTORY", "VELOCITY", "POSITION"};
  return m >= 0 && m < 6 ? n[m] : "?";
}

// one random call of the simulator's public interface (no clock advance); returns a short name
inline const char *call(Rng &r, Sim &s, bool floor = true) {
  int k = r.below(14);
  if (!floor && (k == 2 || k == 3)) k = 13;
  switch (k) {
    case 0: s.arm(); return "arm";
    case 1: s.disarm(); return "disarm";
    case 2: s.enable_floor_collision((TP)r.wide(5)); return "enable floor";
    case 3: s.disable_floor_collision(); return "disable floor";
    case 4:
    case 5: s.set_control_mode(mode(r), r.chance(0.5) ? mr::YawControlMode::ANGLE : mr::YawControlMode::RATE); return "set mode";
    case 6: s.set_refence_motors_angular_velocity(command<TP, NR>(r, s.get_dynamics_const().get_model_const().get_params(), false)); return "set motors";
    case 7: s.set_reference_acro((TP)r.uni(0, 30), v3(r, 3)); return "set acro";
    case 8: {
      V3 a = v3(r, 10), b = v3(r, 3), c = v3(r, 3);
      s.set_reference_trajectory(a, b, c);
      return "set trajectory";
    }
    case 9: s.set_reference_velocity(v3(r, 5)); return "set velocity";
    case 10: s.set_reference_position(v3(r, 10)); return "set position";
    case 11: s.set_reference_yaw_angle((TP)r.uni(-4, 4)); return "set yaw";
    case 12: s.set_reference_yaw_rate((TP)r.uni(-2, 2)); return "set yaw rate";
    default: return "nothing";
  }
}
inline void tick(Rng &r, Sim &s, TP dt) {
  if (r.chance(0.9)) s.update_controller(dt);
  s.update_dynamics(dt);
  if (r.chance(0.9)) s.update_imu(dt);
  if (r.chance(0.9)) s.update_inertial_odometry(dt);
}
}  // namespace gen

// ------------------------------------------------------------------ reference cascade
namespace ref {
struct Cascade {
  Pid pos{3}, vel{3}, traj{3}, indi{3};
  LD mass = 0;
  V3 g;
  M3 kp, I;
  std::vector<std::array<LD, 6>> Minv;
  // results of the last call, and their magnitudes
  V3 dvel, dacc, rate, raw_rate, torque, thrust_w;
  LD thrust = 0;
  std::vector<LD> mot2;  // signed squares
  V3 svel, sacc, srate, storque;
  LD sthrust = 0;
  std::vector<LD> smot;
  bool tie = false, ill = false;
  void load(const CtlP &c) {
    mass = c.acro_controller_params.vehicle_mass, g = rv(c.acro_controller_params.gravity), kp = rm(c.acro_controller_params.kp_rot);
    I    = rm(c.indi_controller_params.inertia);
    Minv.resize(NR);
    for (int i = 0; i < NR; i++)
      for (int j = 0; j < 6; j++) Minv[i][j] = c.indi_controller_params.mixer_matrix_inverse(i, j);
    pidh::to_ref(c.position_controller_params.pid_params, pos), pidh::to_ref(c.velocity_controller_params.pid_params, vel);
    pidh::to_ref(c.trajectory_controller_params.pid_params, traj), pidh::to_ref(c.indi_controller_params.pid_params, indi);
  }
  void reset() { pos.reset(), vel.reset(), traj.reset(), indi.reset(); }
  static std::vector<LD> l(V3 v) { return {v.x, v.y, v.z}; }
  static V3 v(const std::vector<LD> &a) { return {a[0], a[1], a[2]}; }
  static V3 ab(V3 a, V3 b) { return {fabsl(a.x) + fabsl(b.x), fabsl(a.y) + fabsl(b.y), fabsl(a.z) + fabsl(b.z)}; }
  void acro(V3 w, LD T, V3 wd, LD dt, LD sT, V3 swd) {
    thrust = T, rate = wd, sthrust = sT, srate = swd;
    std::vector<LD> mag = l(ab(w, swd));
    V3 acc              = v(indi.run(dt, l(wd - w), nullptr, &mag));
    tie |= indi.tie;
    V3 sacc = v(indi.scale);
    torque  = I * acc + cross(wd, I * wd);
    LD n    = normF(I), k = n * (norm(sacc) + 2 * norm(swd) * norm(swd));
    storque = {k, k, k};
    LD x[6] = {0, 0, T, torque.x, torque.y, torque.z}, sx[6] = {0, 0, sT, k, k, k};
    mot2.assign(NR, 0), smot.assign(NR, 0);
    for (int i = 0; i < NR; i++)
      for (int j = 0; j < 6; j++) mot2[i] += Minv[i][j] * x[j], smot[i] += fabsl(Minv[i][j]) * sx[j];
  }
  void accel(M3 R, V3 w, V3 a, LD yaw, LD dt, V3 sa) {
    dacc = a, sacc = sa;
    thrust_w = (a - g) * mass;
    LD st    = fabsl(mass) * (norm(sa) + norm(g));
    V3 bz{R.a[0][2], R.a[1][2], R.a[2][2]};
    LD T  = dot(thrust_w, unit(bz));
    V3 z  = unit(thrust_w), xc{cosl(yaw), sinl(yaw), 0};
    LD c  = norm(cross(z, xc)), q = norm(thrust_w) > 0 ? st / norm(thrust_w) : 1e30L;
    ill   = !(c > 1e-4L) || !(q < 1e5L);
    V3 wd = rate_law(R, yaw, thrust_w, kp);
    raw_rate = wd;
    LD sw = normF(kp) * 8 * (1 + q) / std::max(c, (LD)1e-30) * (1 + fabsl(yaw));
    if (fabsl(T) <= (std::is_same<TP, float>::value ? 1e-4L : 1e-9L) * st) tie = true;
    V3 swd{sw, sw, sw};
    if (T < 0) T = 0, wd = V3(), swd = V3();
    acro(w, T, wd, dt, T == 0 ? 0 : st, swd);
  }
  void velocity(V3 cv, M3 R, V3 w, V3 dv, LD yaw, LD dt, V3 sdv) {
    dvel = dv, svel = sdv;
    std::vector<LD> mag = l(ab(cv, sdv));
    V3 a                = v(vel.run(dt, l(dv - cv), nullptr, &mag));
    tie |= vel.tie;
    accel(R, w, a, yaw, dt, v(vel.scale));
  }
  void position(V3 cp, M3 R, V3 cv, V3 w, V3 dp, LD yaw, LD dt) {
    std::vector<LD> mag = l(ab(cp, dp));
    V3 dv               = v(pos.run(dt, l(dp - cp), nullptr, &mag));
    tie |= pos.tie;
    velocity(cv, R, w, dv, yaw, dt, v(pos.scale));
  }
  void trajectory(V3 cp, V3 cv, M3 R, V3 w, V3 dp, V3 dv, V3 da, LD yaw, LD dt) {
    dvel = dv, svel = dv;
    std::vector<LD> mag = l(ab(cp, dp)), rm_ = l(ab(cv, dv)), rt = l(dv - cv);
    V3 a                = v(traj.run(dt, l(dp - cp), &rt, &mag, &rm_));
    tie |= traj.tie;
    accel(R, w, a + da, yaw, dt, ab(v(traj.scale), da));
  }
};
}  // namespace ref
