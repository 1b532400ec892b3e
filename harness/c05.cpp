// C05: the random part of every step is isolated by subtracting the deterministic reference step, and its statistics judged.
#define VH_FINISH
#include "sim.hpp"
#include "stat.hpp"

using Acc = stat_::Group<3>;
static std::map<std::string, Acc> A;
static std::map<std::string, stat_::Pair<3, 3>> C;
static void put(const std::string &k, ref::V3 z, bool chain) {
  LD v[3] = {z.x, z.y, z.z};
  A[k].add(v, chain);
}
static LD drift_n = 0, drift_ss = 0, drift_s = 0;

void run_case(long idx, Rng &r) {
  gen::VehOpt vo;
  vo.taumin = 0.02;
  Veh p     = gen::vehicle<TP, NR>(r, vo);
  p.vehicle_mass = (TP)r.logu(0.1, 5);
  int kind = idx % 5;
  // no noise: seeds and switches make no difference
  if (kind == 0) {
    bool zero = r.chance(0.5);
    p.force_process_noise_auto_correlation = (TP)(zero ? 0 : r.logu(1e-3, 10)), p.moment_process_noise_auto_correlation = (TP)(zero ? 0 : r.logu(1e-5, 1));
    St s = gen::state<TP, NR>(r, p, 5, 2, 10);
    Dyn a(p, 1, s), b(p, 2, s);
    // the second one has drawn noise before
    for (int k = r.below(4); k-- > 0;) b.get_model().set_stochastic_noise((TP)0.01);
    int len = r.history(1, 15);
    for (int k = 0; k < len; k++) {
      VN c  = gen::command<TP, NR>(r, p, false);
      TP dt = (TP)r.logu(1e-4, 0.02);
      V3 f  = gen::v3(r, 2);
      if (zero && r.chance(0.5)) a.process_euler_explicit(c, dt, f, true), b.process_euler_explicit(c, dt, f, r.chance(0.5));
      else a.process_euler_explicit(c, dt, f, false), b.process_euler_explicit(c, dt, f, false);
      vh::ev();
      auto x = flat<TP, NR>(a.get_state()), y = flat<TP, NR>(b.get_state());
      if (!same(x, y)) {
        vh::fail("noise/off", "step %d without noise depends on the seed (field %d, %s)", k, first_diff(x, y), zero ? "zero intensity" : "disabled");
        return;
      }
      if (!zero && (!(a.get_model().get_stochastic_force().norm() == 0) || !(a.get_model().get_stochastic_moment().norm() == 0))) vh::fail("noise/off reported", "noise disabled but reported");
      vh::nontrivial(vh::hashd(k, x[0]));
      if (!(a.get_state().kinematics.angular_velocity.norm() < 100)) break;
    }
    vh::bin(zero ? "zero intensity" : "noise disabled");
    return;
  }
  // one intensity at a time, or both
  int which = r.below(4);
  LD qf = which == 1 ? 0 : r.logu(1e-4, 100), qm = which == 2 ? 0 : r.logu(1e-6, 10);
  p.force_process_noise_auto_correlation = (TP)qf, p.moment_process_noise_auto_correlation = (TP)qm;
  qf = p.force_process_noise_auto_correlation, qm = p.moment_process_noise_auto_correlation;
  p.vehicle_inertia = em3<TP>(gen::spd(r, 0.05, 0.5, r.chance(0.5)));
  St s              = gen::state<TP, NR>(r, p, 3, 1, 10);
  ref::Model m      = rmodel<TP, NR>(p);
  SimP sp;
  sp.dynamics_params.model_params = p, sp.dynamics_params.state = s, sp.dynamics_params.model_seed = r.below(1000000);
  sp.controller_params.indi_controller_params.inertia = p.vehicle_inertia;
  bool via_sim = r.chance(0.3);
  Sim sim(sp);
  Dyn dd(sp.dynamics_params);
  Dyn *d  = via_sim ? &sim.get_dynamics() : &dd;
  double dt0 = r.logu(2e-4, 0.01);
  int len = r.history(10, 30, 0.01, 1200);
  if (kind == 4) {
    // long steps: the accumulated effect on the velocity
    for (auto &k : p.motors_params) k.min_speed = 0, k.max_speed = std::max(k.max_speed, (TP)1);
    p.vehicle_drag_coefficient = 0;
    p.gravity.setZero();
    p.vehicle_inertia *= (TP)1e4;  // the attitude plays no role here
    p.vehicle_aero_moment_coefficient.setZero();
    p.force_process_noise_auto_correlation = (TP)(qf = r.logu(0.1, 10));
    qf = p.force_process_noise_auto_correlation;
    St z;
    for (int k = 0; k < 4; k++) {
      Dyn e(p, (int)r.below(1000000), z);
      TP T = (TP)(r.chance(0.5) ? r.uni(0.011, 0.5) : r.uni(0.001, 0.01));
      e.process_euler_explicit(VN::Zero(), T);
      V3 v = e.get_state().kinematics.linear_velocity;
      LD sc = sqrtl(qf * (LD)T) / (LD)p.vehicle_mass;
      for (int i = 0; i < 3; i++) {
        LD zz = (LD)v(i) / sc;
        drift_n++, drift_s += zz, drift_ss += zz * zz;
      }
      vh::ev();
      vh::bin(T > (TP)0.01 ? "accumulated over a long step" : "accumulated over a short step");
    }
    return;
  }
  bool chain = false;
  for (int k = 0; k < len; k++) {
    VN c  = via_sim ? VN::Zero().eval() : gen::command<TP, NR>(r, p, false);
    TP dt = (TP)(r.chance(0.7) ? dt0 : r.chance(0.1) ? r.logu(1e-7, 2e-4) : r.logu(2e-4, 0.01));
    if (r.chance(0.05)) {
      p.force_process_noise_auto_correlation = (TP)(which == 1 ? 0 : r.logu(1e-4, 100));
      qf                                     = p.force_process_noise_auto_correlation;
      d->get_model().update_params(p);
      m = rmodel<TP, NR>(p);
      vh::bin("intensity changed in flight");
    }
    bool on            = via_sim || !r.chance(0.15);
    ref::State before  = rstate<TP, NR>(d->get_state());
    V3 f               = via_sim ? V3::Zero().eval() : gen::v3(r, 2);
    ref::Scale sc;
    ref::State det = ref::step(m, before, rvec(c), dt, rv(f), ref::V3(), ref::V3(), &sc);
    if (via_sim) sim.update_controller(dt), sim.update_dynamics(dt);
    else d->process_euler_explicit(c, dt, f, on);
    ref::State got = rstate<TP, NR>(d->get_state());
    ref::V3 nF = got.F - det.F, nT = got.T - det.T, sF = rv(d->get_model_const().get_stochastic_force()), sM = rv(d->get_model_const().get_stochastic_moment());
    LD tF = vh::rel<TP>() * (sc.F + ref::norm(sF)) + 1e-30L, tT = vh::rel<TP>() * (sc.T + ref::norm(sF) + ref::norm(sM)) + 1e-30L;
    std::string ctx = vh::fmt("step %d dt %.6g intensities %.4g %.4g", k, (double)dt, vh::D(qf), vh::D(qm));
    vh::ev(4);
    if (!ref::finite3(nF) || !(ref::dist(nF, sF) <= tF)) vh::fail("noise/force", "%s: random part of the force (%.6g %.6g %.6g), drawn (%.6g %.6g %.6g)", ctx.c_str(), vh::D(nF.x), vh::D(nF.y), vh::D(nF.z), vh::D(sF.x), vh::D(sF.y), vh::D(sF.z));
    if (!on && (ref::norm(nF) > tF || ref::norm(nT) > tT)) vh::fail("noise/off", "%s: random part although disabled", ctx.c_str());
    if (qf == 0 && ref::norm(nF) > tF) vh::fail("noise/force from moment", "%s: random force with zero force intensity", ctx.c_str());
    bool torque_ok = ref::finite3(nT) && ref::dist(nT, sM) <= tT;
    if (!torque_ok) {
      if (ref::finite3(nT) && ref::dist(nT, sF) <= tT) vh::fail("torque-noise-is-force-noise", "%s: the random part of the torque is the random force (%.6g %.6g %.6g), not the random moment (%.6g %.6g %.6g)", ctx.c_str(), vh::D(sF.x), vh::D(sF.y), vh::D(sF.z), vh::D(sM.x), vh::D(sM.y), vh::D(sM.z));
      else vh::fail("noise/torque", "%s: random part of the torque (%.6g %.6g %.6g), drawn moment (%.6g %.6g %.6g)", ctx.c_str(), vh::D(nT.x), vh::D(nT.y), vh::D(nT.z), vh::D(sM.x), vh::D(sM.y), vh::D(sM.z));
    } else vh::bin("torque noise is the moment noise");
    // what was reported is what moved the vehicle
    ref::State want = ref::step(m, before, rvec(c), dt, rv(f), nF, nT, &sc);
    if (!vh::near(ref::dist(got.v, want.v), 0, vh::rel<TP>() * sc.v * 4) || !vh::near(ref::dist(got.w, want.w), 0, vh::rel<TP>() * (sc.w + sc.dw * dt) * 4)) vh::fail("noise/applied", "%s: reported force or torque did not move the vehicle", ctx.c_str());
    if (on) {
      vh::bin("noisy step");
      std::string b = vh::fmt("dt 1e%d", (int)floor(log10((double)dt) * 2) / 2);
      std::string age = k == 0 ? ", first step" : !chain ? ", step after one without noise" : k < 16 ? ", early steps" : k < 128 ? ", later steps" : ", late steps";
      if (qf > 0) {
        ref::V3 z = nF * sqrtl((LD)dt / qf);
        put("force " + b, z, false), put(via_sim ? "force simulator" : "force direct", z, chain), put("force" + age, z, false), put(vh::fmt("force intensity 1e%d", (int)floorl(log10l(qf))), z, false);
        if (qm > 0) {
          ref::V3 y = sM * sqrtl((LD)dt / qm);
          LD zz[3] = {z.x, z.y, z.z}, yy[3] = {y.x, y.y, y.z};
          C["force and moment"].add(zz, yy);
        }
      }
      if (qm > 0) {
        ref::V3 z = (torque_ok ? nT : sM) * sqrtl((LD)dt / qm);
        put("moment " + b, z, false), put(via_sim ? "moment simulator" : "moment direct", z, chain), put("moment" + age, z, false), put(vh::fmt("moment intensity 1e%d", (int)floorl(log10l(qm))), z, false);
      } else if (ref::norm(sM) > 0) vh::fail("noise/moment from force", "%s: random moment with zero moment intensity", ctx.c_str());
    }
    chain = on;
    vh::nontrivial(vh::hashd(k, vh::D(nF.x)));
    if (k == 0) vh::sample("%s: random force (%.4g %.4g %.4g), expected deviation %.4g", ctx.c_str(), vh::D(nF.x), vh::D(nF.y), vh::D(nF.z), vh::D(sqrtl(qf / dt)));
    if (!(ref::norm(got.w) < 50) || !(ref::norm(got.v) < 200)) {
      d->set_state(gen::state<TP, NR>(r, p, 3, 1, 10));
      chain = false;
    }
  }
  // different seeds, different noise
  Dyn x(p, 11, s), y(p, 12, s);
  x.process_euler_explicit(VN::Zero(), (TP)0.005), y.process_euler_explicit(VN::Zero(), (TP)0.005);
  vh::ev();
  if ((qf > 0 && x.get_state().dynamics.force == y.get_state().dynamics.force)) vh::fail("noise/seed", "two seeds give the same noise");
  // drawn and switched off by hand
  x.get_model().set_stochastic_noise((TP)r.logu(1e-4, 0.1));
  vh::ev(2);
  if ((qf > 0) != (x.get_model().get_stochastic_force().norm() > 0) || (qm > 0) != (x.get_model().get_stochastic_moment().norm() > 0)) vh::fail("noise/by hand", "noise drawn with intensities %.4g and %.4g: force %.4g moment %.4g", vh::D(qf), vh::D(qm), (double)x.get_model().get_stochastic_force().norm(), (double)x.get_model().get_stochastic_moment().norm());
  x.get_model().disable_stochastic_noise();
  if (x.get_model().get_stochastic_force().norm() != 0 || x.get_model().get_stochastic_moment().norm() != 0) vh::fail("noise/by hand", "noise switched off is still reported");
  // a step of no length draws nothing
  if (r.chance(0.5)) x.get_model().set_stochastic_noise((TP)0.01);
  x.get_model().set_stochastic_noise((TP)(r.chance(0.5) ? 0 : -r.logu(1e-6, 1)));
  if (x.get_model().get_stochastic_force().norm() != 0 || x.get_model().get_stochastic_moment().norm() != 0) vh::fail("noise/zero step", "noise for a step of zero length");
}
void finish() {
  static const char *ax[] = {"x", "y", "z"};
  auto judge = [](const std::string &k, const char *w, LD v, LD want, LD sig) { stat_::judge("noise/statistics", k, w, v, want, sig); };
  for (auto &e : A) stat_::judge("noise/statistics", e.first, e.second, ax);
  for (auto &e : C) stat_::judge("noise/statistics", e.first, e.second, ax, ax);
  if (drift_n > 200) {
    judge("accumulated", "mean", drift_s / drift_n, 0, 1 / sqrtl(drift_n));
    judge("accumulated", "variance ratio", drift_ss / drift_n, 1, sqrtl(2 / drift_n));
    vh::bin("accumulated statistics judged");
  }
}
