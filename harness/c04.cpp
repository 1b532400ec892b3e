// C04: unit orientation at every observation, finite state, rotation by the body rate.
#include "sim.hpp"
static const LD UNIT = 32 * (LD)std::numeric_limits<TP>::epsilon();
static bool unit(const char *key, const Eigen::Quaternion<TP> &q, const std::string &ctx) {
  vh::ev();
  LD n = ref::qnorm(rq(q));
  if (std::isfinite(n) && fabsl(n - 1) <= UNIT) return true;
  vh::fail(key, "%s: quaternion norm %.15g", ctx.c_str(), vh::D(n));
  return false;
}
static bool finite_all(const Sim &s) {
  for (double v : flat<TP, NR>(s.get_state()))
    if (!std::isfinite(v)) return false;
  return true;
}
// angle between the observed orientation and the exact rotation
static void turned(const char *key, const Eigen::Quaternion<TP> &q, ref::Q q0, ref::V3 w, LD t, long n, LD dt, const std::string &ctx) {
  LD wn = ref::norm(w), x = wn * dt;
  ref::Q want = ref::mul(q0, ref::axis_angle(wn > 0 ? w : ref::V3{1, 0, 0}, wn * t));
  LD err      = ref::qangle(ref::qunit(rq(q)), want);
  LD tol      = 1.05L * n * x * x * x / 12 + (LD)std::numeric_limits<TP>::epsilon() * 8 * (n + 4) + wn * t * 4 * (LD)std::numeric_limits<TP>::epsilon();
  vh::ev();
  if (!(err <= tol)) vh::fail(key, "%s: %.6g rad away from a rotation by (%.6g %.6g %.6g) for %.6g s, tolerance %.3g", ctx.c_str(), vh::D(err), vh::D(w.x), vh::D(w.y), vh::D(w.z), vh::D(t), vh::D(tol));
}

void run_case(long idx, Rng &r) {
  int kind = idx % 4;
  if (kind == 0 || kind == 1) {  // long, violent runs
    SimP p = gen::simp(r, r.chance(0.5));
    Sim s(p);
    s.arm();
    s.set_control_mode(gen::mode(r));
    if (!unit("unit/start", s.get_odometry().orientation, "at construction")) return;
    int len = r.chance(0.02) ? 4000 : r.range(5, 150);
    if (r.chance(0.3)) s.enable_floor_collision((TP)r.wide(20));
    bool veh_calm = true;  // the rates have not run away since the state was last set
    bool odo_calm = true;  // no absurd gyroscope reading since the odometry was last restarted
    for (int k = 0; k < len; k++) {
      if (r.chance(0.1)) gen::call(r, s);
      TP dt      = (TP)(r.chance(0.05) ? r.logu(1e-8, 1e-4) : r.chance(0.9) ? r.logu(1e-4, 0.01) : r.uni(0.01, 0.3));
      bool calm0 = finite_all(s) && s.get_state().kinematics.angular_velocity.norm() < 100 && s.get_state().kinematics.linear_velocity.norm() < 300;
      gen::tick(r, s, dt);
      std::string ctx = vh::fmt("step %d of %d, dt %.6g, mode %s", k, len, (double)dt, gen::mode_name(s.get_control_mode()));
      bool actok = s.get_actuation_motors_angular_velocity().allFinite();
      if (calm0 && actok && dt <= (TP)0.01) {
        vh::ev();
        if (!finite_all(s)) {
          vh::fail("finite", "%s: state not finite after a step from a finite state", ctx.c_str());
          return;
        }
        vh::bin("finite step");
      }
      bool settled = dt <= (TP)0.01 ? calm0 : s.get_state().kinematics.angular_velocity.norm() < 1e6 && !(s.get_floor_collision_enabled() && !(s.get_state().kinematics.position.z() > s.get_floor_height()));
      veh_calm     = veh_calm && settled && finite_all(s);
      if (veh_calm) {
        if (!unit("unit/state", s.get_state().kinematics.orientation, ctx)) return;
        vh::bin("vehicle orientation observed");
      }
      auto o = s.get_odometry();
      V3 gy, ac;
      s.get_imu_measurement(gy, ac);
      odo_calm = odo_calm && gy.norm() < 1e3 && veh_calm;
      if (odo_calm) {
        if (!unit("unit/odometry", o.orientation, ctx)) return;
        vh::bin("odometry orientation observed");
      }
      if (!(s.get_state().kinematics.angular_velocity.norm() < 100) || !(s.get_state().kinematics.linear_velocity.norm() < 300) || !(s.get_state().kinematics.position.norm() < 1e5)) {
        s.get_dynamics().set_state(gen::state<TP, NR>(r, p.dynamics_params.model_params, 20, 10, 100));
        s.get_controller().reset_controller();
        s.set_inertial_odometry_params(p.inertial_odometry_params);
        s.get_imu().reset();
        odo_calm = veh_calm = true;
      }
      vh::nontrivial(vh::hashd(7, (double)s.get_state().kinematics.orientation.x() + k));
    }
    return;
  }
  // constant body rate
  bool slow = r.chance(0.35), fast = !slow && r.chance(0.3);
  ref::V3 w = gen::vec(r, slow ? r.logu(sizeof(TP) == 4 ? 2e-4 : 1e-9, 0.1) : fast ? r.logu(30, 1000) : r.logu(0.01, 30));
  V3 wE     = ev3<TP>(w);
  w         = rv(wE);
  Eigen::Quaternion<TP> q0 = eq<TP>(gen::quat(r));
  LD wn     = ref::norm(w);
  double dt = std::min(0.01, r.logu(1e-4, 0.01));
  if (slow) dt = 0.01, vh::bin("slow rotation");
  if (fast) dt = std::min(dt, 0.2 / vh::D(wn)), vh::bin("fast rotation");
  TP dtp    = std::min((TP)dt, (TP)0.01);
  int n     = fast ? r.range(1, 40) : r.range(1, 400);
  std::string ctx = vh::fmt("%d steps of %.6g", n, dt);
  if (kind == 2) {
    // a vehicle without torque: spherical inertia, no aerodynamic moment, rotors still
    Veh p = gen::vehicle<TP, NR>(r);
    p.vehicle_inertia = Eigen::Matrix<TP, 3, 3>::Identity() * (TP)r.logu(1e-3, 1);
    if (r.chance(0.5)) {  // or about a principal axis
      int ax = r.below(3);
      LD keep = w[ax];
      w = ref::V3();
      w[ax] = keep;
      wE    = ev3<TP>(w);
      wn    = fabsl(keep);
      for (int i = 0; i < 3; i++) p.vehicle_inertia(i, i) *= (TP)r.uni(0.5, 2);
      vh::bin("principal axis");
    }
    p.vehicle_aero_moment_coefficient.setZero();
    p.force_process_noise_auto_correlation = p.moment_process_noise_auto_correlation = 0;
    for (auto &m : p.motors_params) m.min_speed = 0, m.max_speed = std::max(m.max_speed, (TP)1);
    St s;
    s.kinematics.orientation      = q0;
    s.kinematics.angular_velocity = wE;
    s.kinematics.linear_velocity  = gen::v3(r, 5);
    Dyn d(p, s);
    for (int k = 0; k < n; k++) d.process_euler_explicit(VN::Zero(), dtp);
    if (!unit("unit/state", d.get_state().kinematics.orientation, ctx)) return;
    turned("rotation/state", d.get_state().kinematics.orientation, ref::qunit(rq(q0)), w, n * (LD)dtp, n, dtp, ctx);
    vh::bin("constant rate, vehicle");
    // long steps reach the same attitude
    Dyn d2(p, s);
    TP T = (TP)(n * (double)dtp);
    d2.process_euler_explicit(VN::Zero(), T);
    long sub = T <= (TP)0.01 ? 1 : (long)ceil((double)T / 0.01 - 1e-4);
    turned("rotation/long step", d2.get_state().kinematics.orientation, ref::qunit(rq(q0)), w, T, sub, (LD)T / sub, ctx + " in one call");
  } else {
    // odometry with a constant gyroscope, and the quaternion helpers
    imu::InertialOdometry<TP> o((TP)1, q0);
    Eigen::Quaternion<TP> q = q0;
    double bigdt            = r.chance(0.2) ? r.logu(0.01, 1) : (double)dtp;
    for (int k = 0; k < n; k++) {
      o.update(wE, V3::Zero(), (TP)bigdt);
      q = mr::utils::get_quaternion_integrate(q, wE, (double)(TP)bigdt);
      if (!unit("unit/odometry", o.get_orientation(), ctx) || !unit("unit/helper", q, ctx)) return;
    }
    if (wn * bigdt < 0.3) {
      turned("rotation/odometry", o.get_orientation(), ref::qunit(rq(q0)), w, n * (LD)(TP)bigdt, n, (TP)bigdt, ctx);
      turned("rotation/helper", q, ref::qunit(rq(q0)), w, n * (LD)(TP)bigdt, n, (TP)bigdt, ctx);
      vh::bin("constant rate, odometry");
    } else vh::bin("coarse rotation");
    auto dq     = mr::utils::get_quaternion_derivative(q0, wE);
    ref::Q want = ref::mul(rq(q0), {0, w.x, w.y, w.z});
    vh::ev();
    LD e = fabsl(dq(3) - want.w / 2) + fabsl(dq(0) - want.x / 2) + fabsl(dq(1) - want.y / 2) + fabsl(dq(2) - want.z / 2);
    if (!(e <= vh::rel<TP>() * (wn + 1e-20L))) vh::fail("rotation/derivative", "derivative of the quaternion is off by %.6g", vh::D(e));
    // unnormalised input is normalised by the integrator
    Eigen::Quaternion<TP> big = q0;
    big.coeffs() *= (TP)r.logu(0.1, 10);
    unit("unit/helper", mr::utils::get_quaternion_integrate(big, wE, (double)dtp), "unnormalised input");
  }
  vh::nontrivial(vh::hashd(n, vh::D(wn)));
  vh::sample("rate (%.4g %.4g %.4g), %s: turned by %.6g rad as expected", vh::D(w.x), vh::D(w.y), vh::D(w.z), ctx.c_str(), vh::D(wn) * n * dt);
}
