// C17: statistics of the IMU noise and bias processes.
#define VH_FINISH
#include "sim.hpp"
#include "stat.hpp"
using Imu = imu::IMU<TP>;
using Six = stat_::Group<6>;
static std::map<std::string, Six> A;
static std::map<std::string, stat_::Pair<6, 6>> C;
static void six(const V3 &a, const V3 &b, LD *o) {
  for (int i = 0; i < 3; i++) o[i] = a(i), o[3 + i] = b(i);
}
static const char *decade(LD v) {
  static char b[32];
  snprintf(b, sizeof b, "1e%d..", (int)floorl(log10l(v) / 3) * 3);
  return b;
}
static void intensities(Rng &r, ImuP &p) {
  double b = r.logu(1e-9, 100);
  p.gyro_noise_var = (TP)(b * r.logu(0.03, 30)), p.accel_noise_var = (TP)(b * r.logu(0.03, 30));
  p.gyro_bias_noise_autocorr_time = (TP)(b * r.logu(0.03, 30)), p.accel_bias_noise_autocorr_time = (TP)(b * r.logu(0.03, 30));
}
static void stats(Rng &r) {
  ImuP p = gen::imu(r, true);
  intensities(r, p);
  p.seed = (int)(r.u64() & 0x7fffffff);
  if (r.chance(0.02)) p.seed = -p.seed;
  bool via = r.chance(0.2);
  SimP sp;
  if (via) {
    gen::VehOpt vo;
    vo.noise = false;
    sp.dynamics_params.model_params = gen::vehicle<TP, NR>(r, vo);
    sp.imu_params                   = p;
  }
  Sim sim(sp);
  Imu own(p);
  Imu &m = via ? sim.get_imu() : own;
  ref::M3 Rt = ref::tr(ref::rotm(ref::qunit(rq(p.imu_orientation))));
  V3 bg, ba, g, a;
  m.get_bias(bg, ba);
  LD z[6], y[6], z0[6];
  six(bg, ba, z0);
  for (int i = 0; i < 6; i++) z0[i] /= sqrtl(i < 3 ? (LD)p.gyro_noise_var : (LD)p.accel_noise_var);
  A[via ? "initial bias, simulator" : "initial bias"].add(z0, false);
  int n = r.history(8, 30, 0.01, 1200);
  V3 b0g = bg, b0a = ba;
  LD T = 0;
  double dt0 = r.logu(1e-3, 0.1);
  const char *last = "construction";
  bool changed = false;
  for (int k = 0; k < n; k++) {
    bool chain = k > 0;
    if (r.chance(0.06)) {
      switch (r.below(6)) {
        case 0:
          m.reset();
          last = "reset";
          break;
        case 1:
          m.set_bias(gen::v3(r, (double)std::sqrt(p.gyro_noise_var)), gen::v3(r, (double)std::sqrt(p.accel_noise_var)), p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time);
          last = "bias set";
          break;
        case 2: {
          auto q = eq<TP>(gen::quat(r));
          m.set_orientation(q);
          Rt   = ref::tr(ref::rotm(ref::qunit(rq(q))));
          last = "mounting changed";
          break;
        }
        case 3:
          intensities(r, p);
          m.set_noise_variances(p.gyro_noise_var, p.accel_noise_var);
          m.set_bias_autocorrelation_time(p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time);
          changed = true;
          last    = "intensities changed";
          break;
        case 4:
          m.set_random_seed((int)(r.u64() & 0x7fffffff));
          last = "reseeding";
          break;
        default:
          m.update((TP)(r.chance(0.5) ? 0 : -0.01), V3::Zero(), V3::Zero());
          last = "an update without time";
      }
      vh::bin(std::string("after ") + last);
      if (strcmp(last, "intensities changed") == 0) vh::bin("intensities changed");
      m.get_bias(bg, ba);
      if (strcmp(last, "an update without time") != 0 && strcmp(last, "mounting changed") != 0) changed = true;
    }
    V3 ob = bg, oa = ba, w = gen::v3(r, 30 * (double)std::sqrt(p.gyro_noise_var)), f = gen::v3(r, 30 * (double)std::sqrt(p.accel_noise_var));
    TP dt = (TP)(r.chance(0.5) ? dt0 : r.chance(0.1) ? r.logu(1e-7, 1e-4) : r.logu(1e-4, 0.5));
    if (via) w.setZero(), f.setZero(), sim.update_imu(dt);
    else m.update(dt, f, w);
    T += dt;
    m.get_bias(bg, ba), m.get_measurement(g, a);
    ref::V3 ng = rv(g) - Rt * rv(w) - rv(bg), na = rv(a) - Rt * rv(f) - rv(ba);
    LD sg = sqrtl(p.gyro_noise_var), sa = sqrtl(p.accel_noise_var), dg = sqrtl((LD)p.gyro_bias_noise_autocorr_time * dt), da = sqrtl((LD)p.accel_bias_noise_autocorr_time * dt);
    // single precision resolves a small increment of a large bias only coarsely
    LD eps = std::numeric_limits<TP>::epsilon();
    bool fine = eps * std::max((LD)bg.norm(), (LD)ob.norm()) < 0.01L * std::min(dg, sg) && eps * std::max((LD)ba.norm(), (LD)oa.norm()) < 0.01L * std::min(da, sa);
    if (!fine) {
      m.reset(), m.get_bias(bg, ba), changed = true, last = "reset";
      continue;
    }
    for (int i = 0; i < 3; i++) z[i] = ng[i] / sg, z[3 + i] = na[i] / sa, y[i] = ((LD)bg(i) - ob(i)) / dg, y[3 + i] = ((LD)ba(i) - oa(i)) / da;
    const char *src = via ? "simulator" : "direct";
    A[vh::fmt("noise %s", src)].add(z, chain), A[vh::fmt("drift %s", src)].add(y, chain);
    A[vh::fmt("drift dt 1e%d", (int)floor(log10((double)dt)))].add(y, false);
    A[vh::fmt("noise variance %s", decade(p.gyro_noise_var))].add(z, false), A[vh::fmt("drift intensity %s", decade(p.gyro_bias_noise_autocorr_time))].add(y, false);
    A[vh::fmt("noise after %s", last)].add(z, false), A[vh::fmt("drift after %s", last)].add(y, false);
    const char *age = k == 0 ? "first update" : k == 1 ? "second update" : k < 16 ? "early updates" : k < 128 ? "later updates" : "late updates";
    A[vh::fmt("noise, %s", age)].add(z, false), A[vh::fmt("drift, %s", age)].add(y, false);
    C["noise and drift of an update"].add(z, y);
    if (k < 3 && !changed) C[vh::fmt("initial bias and noise of update %d", k)].add(z0, z), C[vh::fmt("initial bias and drift of update %d", k)].add(z0, y);
    vh::ev();
    vh::nontrivial(vh::hashd(k, vh::D(ng.x)));
  }
  // the walk over the whole span, however it was divided
  if (!changed) {
    LD dg = sqrtl((LD)p.gyro_bias_noise_autocorr_time * T), da = sqrtl((LD)p.accel_bias_noise_autocorr_time * T);
    for (int i = 0; i < 3; i++) z[i] = ((LD)bg(i) - b0g(i)) / dg, z[3 + i] = ((LD)ba(i) - b0a(i)) / da;
    A["walk"].add(z, false);
  }
  vh::bin("noisy run");
}
static void zeros(Rng &r) {
  // only some intensities on
  int mask = r.below(16);
  ImuP p;
  p.gyro_noise_var = (TP)(mask & 1 ? r.logu(1e-3, 1) : 0), p.accel_noise_var = (TP)(mask & 2 ? r.logu(1e-3, 1) : 0);
  p.gyro_bias_noise_autocorr_time = (TP)(mask & 4 ? r.logu(1e-3, 1) : 0), p.accel_bias_noise_autocorr_time = (TP)(mask & 8 ? r.logu(1e-3, 1) : 0);
  p.seed = r.below(1000000);
  if (r.chance(0.5)) p.imu_orientation = eq<TP>(gen::quat(r));
  Imu m(p);
  V3 bg, ba, g, a;
  m.get_bias(bg, ba);
  vh::ev(2);
  if ((bg.norm() != 0) != !!(mask & 1) || (ba.norm() != 0) != !!(mask & 2)) vh::fail("zero/initial bias", "initial bias (%.3g, %.3g) with noise variances %.3g and %.3g", (double)bg.norm(), (double)ba.norm(), (double)p.gyro_noise_var, (double)p.accel_noise_var);
  m.get_variances(p.gyro_noise_var, p.accel_noise_var);
  ref::M3 Rt = ref::tr(ref::rotm(ref::qunit(rq(p.imu_orientation))));
  for (int k = 0; k < 8; k++) {
    V3 ob = bg, oa = ba, w = gen::v3(r, 3), f = gen::v3(r, 10);
    m.update((TP)r.logu(1e-3, 0.1), f, w);
    m.get_bias(bg, ba), m.get_measurement(g, a);
    LD ng = ref::dist(rv(g), Rt * rv(w) + rv(bg)), na = ref::dist(rv(a), Rt * rv(f) + rv(ba)), tg = vh::rel<TP>() * (ref::norm(rv(w)) + ref::norm(rv(bg))), ta = vh::rel<TP>() * (ref::norm(rv(f)) + ref::norm(rv(ba)));
    vh::ev(4);
    if ((bg != ob) != !!(mask & 4)) vh::fail("zero/gyro drift", "gyroscope bias %s with drift intensity %.3g", bg != ob ? "moves" : "stays", (double)p.gyro_bias_noise_autocorr_time);
    if ((ba != oa) != !!(mask & 8)) vh::fail("zero/accel drift", "accelerometer bias %s with drift intensity %.3g", ba != oa ? "moves" : "stays", (double)p.accel_bias_noise_autocorr_time);
    if (!(mask & 1) && !(ng <= tg)) vh::fail("zero/gyro noise", "gyroscope noise %.6g with zero variance", vh::D(ng));
    if (!(mask & 2) && !(na <= ta)) vh::fail("zero/accel noise", "accelerometer noise %.6g with zero variance", vh::D(na));
    if ((mask & 1) && ng == 0) vh::fail("zero/gyro noise", "no gyroscope noise with variance %.3g", (double)p.gyro_noise_var);
    if ((mask & 2) && na == 0) vh::fail("zero/accel noise", "no accelerometer noise with variance %.3g", (double)p.accel_noise_var);
  }
  vh::bin(mask == 0 ? "all intensities zero" : "some intensities zero");
  vh::nontrivial(vh::hashd(mask, (double)g(0)));
}
static void replay(Rng &r) {
  ImuP p   = gen::imu(r, true);
  if (r.chance(0.5)) {  // some of the intensities zero
    if (r.chance(0.3)) p.gyro_noise_var = 0;
    if (r.chance(0.3)) p.accel_noise_var = 0;
    if (r.chance(0.3)) p.gyro_bias_noise_autocorr_time = 0;
    if (r.chance(0.3)) p.accel_bias_noise_autocorr_time = 0;
  }
  Imu m(p);
  int seed = r.chance(0.2) ? gen::seed(r) / 2 : r.below(1000000), n = r.range(2, 12);
  for (int k = r.below(5); k-- > 0;) m.update((TP)0.01, gen::v3(r, 3), gen::v3(r, 3));
  std::vector<V3> first[4];
  std::vector<TP> dts;
  V3 f = gen::v3(r, 5), w = gen::v3(r, 3);
  for (int k = 0; k < n; k++) dts.push_back((TP)r.logu(1e-3, 0.1));
  for (int pass = 0; pass < 2; pass++) {
    m.set_bias(V3::Zero(), V3::Zero(), p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time);
    m.set_random_seed(seed);
    for (int k = 0; k < n; k++) {
      m.update(dts[k], f, w);
      V3 x[4];
      m.get_measurement(x[0], x[1]), m.get_bias(x[2], x[3]);
      for (int i = 0; i < 4; i++) {
        vh::ev();
        if (pass == 0) first[i].push_back(x[i]);
        else if (x[i] != first[i][k]) {
          vh::fail("reseed", "after reseeding update %d reads something else than the first time", k);
          return;
        }
      }
    }
  }
  m.set_random_seed(seed + 1000);  // (0 and 1 are the same seed to the standard engine)
  m.set_bias(V3::Zero(), V3::Zero(), p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time);
  m.update(dts[0], f, w);
  vh::ev();
  if (m.get_measurement_gyro() == first[0][0] && p.gyro_noise_var > (TP)1e-5) vh::fail("reseed/other", "another seed gives the same noise");
  vh::bin("reseeded");
  vh::nontrivial(vh::hashd(seed, (double)first[0][0](0)));
}
void run_case(long idx, Rng &r) {
  switch (idx % 4) {
    case 0:
    case 1: stats(r); break;
    case 2: zeros(r); break;
    default: replay(r);
  }
}
void finish() {
  static const char *ax[] = {"gyro x", "gyro y", "gyro z", "accel x", "accel y", "accel z"};
  for (auto &e : A) stat_::judge("statistics", e.first, e.second, ax);
  for (auto &e : C) stat_::judge("statistics", e.first, e.second, ax, ax);
  vh::sample("%zu sample groups judged at 6.5 sigma", A.size() + C.size());
}
