// C11: PID histories against the textbook law (vector controller of dimension NR, and the scalar class).
#include "pid.hpp"
using namespace pidh;
using PP  = PIDParams<TP, NR>;
using Pd  = PID<TP, NR>;
using V   = Vec<TP, NR>;
using P1  = pid_1d_controller::PIDParams<TP>;
using Pd1 = pid_1d_controller::PID<TP>;

static PP mixed(Rng &r) {
  PP p = params<TP, NR>(r, false);
  if (r.chance(0.15) && NR > 1) p.antiwindup_cte(r.below(NR)) = 0;  // a limit of zero on one axis
  return p;
}
static void cmp(const char *what, const char *ctx, int i, LD got, LD want, LD scale) {
  vh::ev();
  if (!vh::near(got, want, vh::rel<TP>() * scale + 1e-30L)) vh::fail(std::string("pid/") + what, "%s axis %d: %s observed %.12g expected %.12g (scale %.3g)", ctx, i, what, vh::D(got), vh::D(want), vh::D(scale));
}

void run_case(long idx, Rng &r) {
  PP pr = mixed(r);
  Pd pid(pr);
  if (r.chance(0.2)) {
    pid = Pd();
    pid.update_pid_params(pr);
  }
  ref::Pid q(NR);
  to_ref(pr, q);
  bool scalar = idx % 3 == 0;  // run the scalar class on axis 0
  P1 p1;
  Pd1 pid1;
  ref::Pid q1(1);
  auto put1 = [&](const PP &p) {
    p1.Kp_gains = p.Kp_gains(0), p1.Ki_gains = p.Ki_gains(0), p1.Kd_gains = p.Kd_gains(0), p1.antiwindup_cte = p.antiwindup_cte(0), p1.alpha = p.alpha(0);
    p1.reset_integral_flag = p.reset_integral_flag, p1.upper_output_saturation = p.upper_output_saturation(0), p1.lower_output_saturation = p.lower_output_saturation(0);
    q1.p[0] = {(LD)p1.Kp_gains, (LD)p1.Ki_gains, (LD)p1.Kd_gains, (LD)p1.antiwindup_cte, (LD)p1.alpha};
    q1.rst  = p.reset_integral_flag;
    if (p1.upper_output_saturation != 0 || p1.lower_output_saturation != 0) q1.limits({(LD)p1.upper_output_saturation}, {(LD)p1.lower_output_saturation}, false, std::numeric_limits<TP>::epsilon());
    else q1.sat = false;
  };
  put1(pr);
  pid1 = Pd1(p1);
  Signal<NR> sig(r), rate(r);
  int len    = r.chance(0.05) ? 400 : r.history(2, 60);
  double dt0 = r.chance(0.06) ? r.logu(1e-9, 1e3) : r.logu(1e-4, 0.5), ops = len > 100 && r.chance(0.7) ? 0.0005 : 0.08;
  std::vector<LD> area(NR, 0), fscale(NR, 0);  // magnitudes that went into the accumulators, for the tolerance
  LD area1 = 0, fscale1 = 0;
  bool saturated = false, restarted = false;
  uint64_t h = 0;
  for (int k = 0; k < len; k++) {
    // operations between calls
    if (r.chance(ops)) {
      int op = r.below(12);
      PP n   = mixed(r);
      switch (op) {
        case 0:
        case 1:
          pid.reset_controller(), q.reset(), pid1.reset_controller(), q1.reset();
          vh::bin("reset in the middle");
          break;
        case 2:
          n = mix<TP, NR>(r, pid.get_params(), n);
          pr = n, pid.update_pid_params(n), to_ref(n, q), put1(n), pid1.update_params(p1);
          vh::bin("parameters changed in the middle");
          break;
        case 3:
          pid.set_gains(n.Kp_gains, n.Ki_gains, n.Kd_gains), pid1.set_gains(n.Kp_gains(0), n.Ki_gains(0), n.Kd_gains(0));
          for (int i = 0; i < NR; i++) q.p[i].kp = n.Kp_gains(i), q.p[i].ki = n.Ki_gains(i), q.p[i].kd = n.Kd_gains(i);
          q1.p[0].kp = n.Kp_gains(0), q1.p[0].ki = n.Ki_gains(0), q1.p[0].kd = n.Kd_gains(0);
          vh::bin("gains changed in the middle");
          break;
        case 4:
          pid.set_gains_kp(n.Kp_gains), pid1.set_kp(n.Kp_gains(0)), q1.p[0].kp = n.Kp_gains(0);
          for (int i = 0; i < NR; i++) q.p[i].kp = n.Kp_gains(i);
          break;
        case 5:
          pid.set_gains_ki(n.Ki_gains), pid1.set_ki(n.Ki_gains(0)), q1.p[0].ki = n.Ki_gains(0);
          for (int i = 0; i < NR; i++) q.p[i].ki = n.Ki_gains(i);
          break;
        case 6:
          pid.set_gains_kd(n.Kd_gains), pid1.set_kd(n.Kd_gains(0)), q1.p[0].kd = n.Kd_gains(0);
          for (int i = 0; i < NR; i++) q.p[i].kd = n.Kd_gains(i);
          break;
        case 7:
          pid.set_anti_windup(n.antiwindup_cte), pid1.set_anti_windup(n.antiwindup_cte(0)), q1.p[0].aw = n.antiwindup_cte(0);
          for (int i = 0; i < NR; i++) q.p[i].aw = n.antiwindup_cte(i);
          vh::bin("anti-windup changed in the middle");
          break;
        case 8:
          pid.set_alpha(n.alpha), pid1.set_alpha(n.alpha(0)), q1.p[0].alpha = n.alpha(0);
          for (int i = 0; i < NR; i++) q.p[i].alpha = n.alpha(i);
          break;
        case 9: pid.set_reset_integral_saturation_flag(n.reset_integral_flag), pid1.set_reset_integral_saturation_flag(n.reset_integral_flag), q.rst = q1.rst = n.reset_integral_flag; break;
        case 10: pid.disable_output_saturation(), pid1.disable_output_saturation(), q.sat = q1.sat = false; break;
        default: {
          V up, lo;
          bool pf = r.chance(0.5);
          limits<TP, NR>(r, up, lo, pf);
          pid.set_output_saturation(up, lo, pf), pid1.set_output_saturation(up(0), lo(0));
          q.limits(rvec(up), rvec(lo), pf, std::numeric_limits<TP>::epsilon());
          q1.limits({(LD)up(0)}, {(LD)lo(0)}, false, std::numeric_limits<TP>::epsilon());
          vh::bin("limits changed in the middle");
        }
      }
    }
    if (r.chance(0.05)) sig.renew(r);
    double dtd = r.chance(0.9) ? dt0 : r.chance(0.1) ? r.logu(1e-9, 1e3) : r.logu(1e-4, 0.5);
    TP dt      = (TP)dtd;
    if (dt < (TP)1e-6) vh::bin("very short call");
    if (dt > (TP)20) vh::bin("very long call");
    V e = sig.template next<TP>(r, dtd), de = rate.template next<TP>(r, dtd);
    bool given          = r.chance(0.3);
    std::vector<LD> re  = rvec(e), rd = rvec(de);
    if (q.fresh) area.assign(NR, 0), fscale.assign(NR, 0);
    if (q1.fresh) area1 = fscale1 = 0;
    for (int i = 0; i < NR; i++) {
      area[i] += fabsl(re[i] * dt);
      if (!given) fscale[i] = ref::filter_scale(q.p[i].alpha, (fabsl(re[i]) + fabsl(q.fresh ? re[i] : q.s[i].last)) / dt, fscale[i]);
    }
    area1 += fabsl(re[0] * dt);
    if (!given) fscale1 = ref::filter_scale(q1.p[0].alpha, (fabsl(re[0]) + fabsl(q1.fresh ? re[0] : q1.s[0].last)) / dt, fscale1);
    std::vector<LD> acc0(NR);
    for (int i = 0; i < NR; i++) acc0[i] = q.s[i].acc;
    bool fresh0 = q.fresh;
    V out              = given ? pid.compute_control(dt, e, de) : pid.compute_control(dt, e);
    std::vector<LD> ro = given ? q.run(dt, re, &rd) : q.run(dt, re);
    std::string ctx    = vh::fmt("call %d of %d, %s", k, len, given ? "rate given" : "rate derived");
    if (q.tie) {
      vh::bin("undecidable tie skipped");
      pid.reset_controller(), q.reset(), pid1.reset_controller(), q1.reset();
      continue;
    }
    LD big = 0, many = 1 + k / 100.0L;  // the rounding of equal increments adds up
    for (int i = 0; i < NR; i++) {
      LD sP = fabsl(q.P[i]), sI = fabsl(q.p[i].ki) * area[i] * many, sD = given ? fabsl(q.Dc[i]) : fabsl(q.p[i].kd) * fscale[i];
      cmp("proportional contribution", ctx.c_str(), i, pid.get_proportional_error_contribution()(i), q.P[i], sP);
      cmp("integral contribution", ctx.c_str(), i, pid.get_integral_error_contribution()(i), q.I[i], sI);
      cmp("derivative contribution", ctx.c_str(), i, pid.get_derivative_error_contribution()(i), q.Dc[i], sD);
      cmp("reported error", ctx.c_str(), i, pid.get_proportional_error()(i), re[i], 0);
      if (given) cmp("reported rate", ctx.c_str(), i, pid.get_derivative_error()(i), rd[i], 0);
      big = std::max(big, sP + sI + sD);
      if (q.p[i].aw > 0 && fabsl(q.s[i].acc) == q.p[i].aw) saturated = true;
      if (q.rst && !fresh0 && q.p[i].aw > 0 && fabsl(acc0[i]) == q.p[i].aw && acc0[i] * re[i] < 0 && fabsl(q.s[i].acc) < q.p[i].aw) restarted = true;
    }
    for (int i = 0; i < NR; i++) {
      cmp("output", ctx.c_str(), i, out(i), ro[i], q.sat && q.prop ? big * 4 : fabsl(q.P[i]) + fabsl(q.p[i].ki) * area[i] * many + (given ? fabsl(q.Dc[i]) : fabsl(q.p[i].kd) * fscale[i]));
      cmp("reported output", ctx.c_str(), i, pid.get_output()(i), out(i), 0);
    }
    if (scalar) {
      LD o = given ? pid1.compute_control(dt, e(0), de(0)) : pid1.compute_control(dt, e(0));
      std::vector<LD> e1{re[0]}, d1{rd[0]};
      std::vector<LD> ro1 = given ? q1.run(dt, e1, &d1) : q1.run(dt, e1);
      if (q1.tie) {
        pid.reset_controller(), q.reset(), pid1.reset_controller(), q1.reset();
        continue;
      }
      LD sP = fabsl(q1.P[0]), sI = fabsl(q1.p[0].ki) * area1 * many, sD = given ? fabsl(q1.Dc[0]) : fabsl(q1.p[0].kd) * fscale1;
      std::string c1 = "scalar " + ctx;
      cmp("proportional contribution", c1.c_str(), 0, pid1.get_proportional_error_contribution(), q1.P[0], sP);
      cmp("integral contribution", c1.c_str(), 0, pid1.get_integral_error_contribution(), q1.I[0], sI);
      cmp("derivative contribution", c1.c_str(), 0, pid1.get_derivative_error_contribution(), q1.Dc[0], sD);
      cmp("reported error", c1.c_str(), 0, pid1.get_proportional_error(), re[0], 0);
      if (given) cmp("reported rate", c1.c_str(), 0, pid1.get_derivative_error(), rd[0], 0);
      cmp("output", c1.c_str(), 0, o, ro1[0], sP + sI + sD);
      cmp("reported output", c1.c_str(), 0, pid1.get_output(), o, 0);
      vh::bin("scalar class");
    }
    h = vh::hashd(h, vh::D(ro[0]) + k);
    vh::nontrivial(h);
    vh::bin(given ? "rate given" : "rate derived");
    if (q.sat) vh::bin(q.prop ? "proportional limit active" : "per-axis limit active");
    if (!vh::X().failures.empty() && vh::X().failures.back().c == idx) return;
    if (k == len - 1) vh::sample("%d axes, %d calls, last output[0] %.9g (P %.4g I %.4g D %.4g)", NR, len, vh::D(ro[0]), vh::D(q.P[0]), vh::D(q.I[0]), vh::D(q.Dc[0]));
  }
  if (saturated) vh::bin("accumulator at its limit");
  if (restarted) vh::bin("saturated accumulator restarted");
  // fresh start after reset: same future as a new controller with the same parameters
  {
    pid.reset_controller();
    Pd fresh(pid.get_params());
    if (!pid.get_output_saturation_flag()) fresh.disable_output_saturation();
    Signal<NR> s2(r);
    for (int k = 0; k < 5; k++) {
      V e = s2.template next<TP>(r, dt0);
      V a = pid.compute_control((TP)dt0, e), b = fresh.compute_control((TP)dt0, e);
      vh::ev();
      if (!(a == b)) vh::fail("pid/reset forgets", "call %d after reset: %.12g, new controller %.12g", k, (double)a(0), (double)b(0));
    }
    vh::bin("reset compared with a new controller");
  }
  // static error helper
  V x = sig.template next<TP>(r, 0.1), y = sig.template next<TP>(r, 0.1), xd = rate.template next<TP>(r, 0.1), yd = rate.template next<TP>(r, 0.1), pe, dd;
  Pd::get_error(x, y, xd, yd, pe, dd);
  vh::ev();
  if (!(pe == V(y - x)) || !(dd == V(yd - xd)) || !(Pd::get_error(x, y) == pe)) vh::fail("pid/get_error", "error is not reference minus state");
  TP p0, d0;
  Pd1::get_error(x(0), y(0), xd(0), yd(0), p0, d0);
  if (p0 != y(0) - x(0) || d0 != yd(0) - xd(0) || Pd1::get_error(x(0), y(0)) != p0) vh::fail("pid/get_error", "scalar error is not reference minus state");
}
