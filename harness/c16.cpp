// C16: IMU readings against body-frame kinematics, mounting and bias.
#include "sim.hpp"
using Imu = imu::IMU<TP>;
static bool readings(const char *key, const Imu &m, ref::V3 wg, ref::V3 wa, LD sg, LD sa, const std::string &ctx) {
  V3 g, a, g2, a2;
  m.get_measurement(g, a);
  auto pr = m.get_measurement();
  m.get_measurement_gyro(g2), m.get_measurement_accel(a2);
  vh::ev(3);
  bool eqn = [](const V3 &x, const V3 &y) { return x == y || (!x.allFinite() && !y.allFinite()); }(g, pr.first);
  if (!eqn || pr.second != a || g2 != g || a2 != a || m.get_measurement_gyro() != g || m.get_measurement_accel() != a) {
    vh::fail("read", "%s: the ways of reading a measurement disagree", ctx.c_str());
    return false;
  }
  if (!(ref::finite3(rv(g)) && ref::dist(rv(g), wg) <= vh::rel<TP>() * sg + 1e-30L)) {
    vh::fail(std::string(key) + "/gyro", "%s: gyroscope (%.9g %.9g %.9g) expected (%.9g %.9g %.9g)", ctx.c_str(), (double)g(0), (double)g(1), (double)g(2), vh::D(wg.x), vh::D(wg.y), vh::D(wg.z));
    return false;
  }
  if (!(ref::finite3(rv(a)) && ref::dist(rv(a), wa) <= vh::rel<TP>() * sa + 1e-30L)) {
    vh::fail(std::string(key) + "/accel", "%s: accelerometer (%.9g %.9g %.9g) expected (%.9g %.9g %.9g)", ctx.c_str(), (double)a(0), (double)a(1), (double)a(2), vh::D(wa.x), vh::D(wa.y), vh::D(wa.z));
    return false;
  }
  return true;
}
static void direct(Rng &r) {
  ImuP ip = gen::imu(r, false);
  Imu m   = r.chance(0.5) ? Imu(ip) : Imu(0, 0, 0, 0, ip.imu_orientation, ip.seed);
  if (r.chance(0.05)) ip = ImuP(), m = r.chance(0.5) ? Imu() : Imu(ip), vh::bin("default IMU");  // exact and aligned
  ref::Q mount = ref::qunit(rq(ip.imu_orientation));
  ref::V3 bg, ba, mg, ma;
  LD sg = 0, sa = 0;
  bool walk = false;  // bias drift switched on: the drifting bias is read from the getter
  if (!readings("start", m, mg, ma, 1, 1, "new IMU")) return;
  int n = r.history(5, 60);
  for (int k = 0; k < n; k++) {
    int op = r.below(14);
    std::string ctx = vh::fmt("call %d", k);
    V3 g0, a0;
    m.get_measurement(g0, a0);
    if (op == 0) m.reset(), bg = ba = mg = ma = ref::V3(), ctx += " reset", vh::bin("reset");
    else if (op == 1) {
      V3 x = gen::v3(r, 2 * r.far()), y = gen::v3(r, 2 * r.far());
      m.set_bias(x, y, 0, 0), bg = rv(x), ba = rv(y), walk = false, ctx += " set_bias";
      vh::bin("bias set");
    } else if (op == 2) {
      auto q = eq<TP>(gen::quat(r));
      m.set_orientation(q), mount = ref::qunit(rq(q)), ctx += " set_orientation";
      vh::bin("mounting changed");
    } else if (op == 3) {
      TP dt = (TP)(r.chance(0.5) ? 0 : -r.logu(1e-6, 1));
      V3 gb0, ab0, gb1, ab1;
      m.get_bias(gb0, ab0);
      m.update(dt, gen::v3(r, 20), gen::v3(r, 20));
      m.get_bias(gb1, ab1);
      vh::ev();
      if (gb0 != gb1 || ab0 != ab1) vh::fail("idle/bias", "a step of %.6g changes the bias", (double)dt);
      ctx += " update without time";
      vh::bin("update without time");
    } else if (op == 4) {
      TP a = (TP)(r.chance(0.5) ? 0 : r.logu(1e-4, 1)), b = (TP)(r.chance(0.5) ? 0 : r.logu(1e-4, 1));
      m.set_bias_autocorrelation_time(a, b), walk = a > 0 || b > 0, ctx += " drift changed";
    } else if (op == 5) {
      m.set_random_seed(gen::seed(r)), ctx += " seed";
      m.set_noise_variances(0, 0);
    } else {
      V3 f = gen::v3(r, 50 * r.far()), w = gen::v3(r, 20 * r.far());
      TP dt = (TP)(r.chance(0.2) ? r.logu(1e-9, 1e-4) : r.logu(1e-4, 1));
      if (dt < (TP)1e-6) vh::bin("very short update");
      m.update(dt, f, w);
      if (walk) {
        V3 x, y;
        m.get_bias(x, y), bg = rv(x), ba = rv(y);
        vh::bin("drifting bias");
      }
      ref::M3 Rt = ref::tr(ref::rotm(mount));
      mg = Rt * rv(w) + bg, ma = Rt * rv(f) + ba;
      sg = ref::norm(rv(w)) + ref::norm(bg), sa = ref::norm(rv(f)) + ref::norm(ba);
      ctx += vh::fmt(" update dt %.6g mounting (%.4g %.4g %.4g %.4g)", (double)dt, vh::D(mount.w), vh::D(mount.x), vh::D(mount.y), vh::D(mount.z));
      vh::bin(fabsl(mount.w) > 0.9999999L ? "aligned mounting" : "turned mounting");
      vh::nontrivial(vh::hashd(k, vh::D(mg.x)));
    }
    if (!readings("direct", m, mg, ma, sg, sa, ctx)) return;
    V3 x, y;
    m.get_bias(x, y);
    vh::ev();
    if (!(ref::dist(rv(x), bg) == 0) || !(ref::dist(rv(y), ba) == 0)) {
      vh::fail("bias", "%s: bias is not the one that was set", ctx.c_str());
      return;
    }
  }
}
static void flight(Rng &r) {
  SimP p = gen::simp(r, r.chance(0.3));
  // process noise may be there, sensor noise not
  p.imu_params.gyro_noise_var = p.imu_params.accel_noise_var = 0;
  p.imu_params.gyro_bias_noise_autocorr_time = p.imu_params.accel_bias_noise_autocorr_time = 0;
  Sim s(p);
  s.arm();
  s.set_control_mode(gen::mode(r));
  ref::Q mount = ref::qunit(rq(p.imu_params.imu_orientation));
  ref::V3 bg, ba;
  if (r.chance(0.5)) {
    V3 x = gen::v3(r, r.far()), y = gen::v3(r, r.far());
    s.get_imu().set_bias(x, y, 0, 0), bg = rv(x), ba = rv(y);
  }
  int n = r.history(2, 40);
  for (int k = 0; k < n; k++) {
    if (r.chance(0.1)) {
      gen::call(r, s);
      s.disable_floor_collision();
    }
    if (r.chance(0.03)) {  // another vehicle in flight
      Veh v = gen::vehicle<TP, NR>(r);
      s.get_dynamics().get_model().update_params(v);
      vh::bin("mass changed in flight");
      s.update_controller((TP)0.005);
      s.update_dynamics((TP)0.005);
    }
    TP dt = (TP)(r.chance(0.1) ? r.logu(1e-8, 1e-4) : r.logu(1e-4, 0.01));
    s.update_controller(dt);
    s.update_dynamics(dt);
    auto &kin = s.get_state().kinematics;
    if (!kin.linear_acceleration.allFinite() || !(kin.angular_velocity.norm() < 1e4) || !kin.orientation.coeffs().allFinite()) return;
    if (r.chance(0.1)) s.update_imu((TP)-1);
    s.update_imu(dt);
    ref::M3 Rt = ref::tr(ref::rotm(mount)), Rb = ref::tr(ref::rotm(ref::qunit(rq(kin.orientation))));
    ref::V3 w = rv(kin.angular_velocity), a = rv(kin.linear_acceleration);
    LD mass = s.get_dynamics_const().get_model_const().get_mass();
    // the acceleration is a sum of larger terms that may cancel
    LD big = ref::norm(rv(s.get_state().dynamics.force)) / mass + ref::norm(rv(s.get_dynamics_const().get_model_const().get_gravity()));
    std::string ctx = vh::fmt("step %d mass %.6g mode %s", k, vh::D(mass), gen::mode_name(s.get_control_mode()));
    if (!readings("flight", s.get_imu_const(), Rt * w + bg, Rt * (Rb * a) + ba, ref::norm(w) + ref::norm(bg), big + ref::norm(ba), ctx)) return;
    V3 g1, a1;
    s.get_imu_measurement(g1, a1);
    vh::ev();
    if (g1 != s.get_imu_const().get_measurement_gyro() || a1 != s.get_imu_const().get_measurement_accel()) vh::fail("read", "the simulator reports another measurement than its IMU");
    vh::bin("measured in flight");
    vh::nontrivial(vh::hashd(k, (double)a1(0)));
    if (k == 0) vh::sample("%s: gyroscope (%.4g %.4g %.4g) accelerometer (%.4g %.4g %.4g)", ctx.c_str(), (double)g1(0), (double)g1(1), (double)g1(2), (double)a1(0), (double)a1(1), (double)a1(2));
  }
  // reset in the simulator
  s.get_imu().reset();
  V3 g1, a1, gb, ab;
  s.get_imu_measurement(g1, a1), s.get_imu().get_bias(gb, ab);
  vh::ev();
  if (g1.norm() != 0 || a1.norm() != 0 || gb.norm() != 0 || ab.norm() != 0) vh::fail("reset", "measurement or bias left after a reset");
}
void run_case(long idx, Rng &r) {
  if (idx % 2) flight(r);
  else direct(r);
}
