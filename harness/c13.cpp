// C13: scalar controller, one-dimensional vector controller, every axis of a vector controller and a permuted
// vector controller run side by side on the same history.
#include "pid.hpp"
using namespace pidh;
using PP  = PIDParams<TP, NR>;
using Pd  = PID<TP, NR>;
using PP1 = PIDParams<TP, 1>;
using PdV = PID<TP, 1>;
using V   = Vec<TP, NR>;
using P1  = pid_1d_controller::PIDParams<TP>;
using Pd1 = pid_1d_controller::PID<TP>;

static void cut(const PP &p, int i, PP1 &v, P1 &s) {
  v.Kp_gains(0) = s.Kp_gains = p.Kp_gains(i), v.Ki_gains(0) = s.Ki_gains = p.Ki_gains(i), v.Kd_gains(0) = s.Kd_gains = p.Kd_gains(i);
  v.antiwindup_cte(0) = s.antiwindup_cte = p.antiwindup_cte(i), v.alpha(0) = s.alpha = p.alpha(i);
  v.reset_integral_flag = s.reset_integral_flag = p.reset_integral_flag;
  v.proportional_saturation_flag = p.proportional_saturation_flag;
  v.upper_output_saturation(0) = s.upper_output_saturation = p.upper_output_saturation(i);
  v.lower_output_saturation(0) = s.lower_output_saturation = p.lower_output_saturation(i);
}
static PP permute(const PP &p, const std::vector<int> &m) {
  PP q = p;
  for (int i = 0; i < NR; i++)
    q.Kp_gains(i) = p.Kp_gains(m[i]), q.Ki_gains(i) = p.Ki_gains(m[i]), q.Kd_gains(i) = p.Kd_gains(m[i]), q.antiwindup_cte(i) = p.antiwindup_cte(m[i]), q.alpha(i) = p.alpha(m[i]),
    q.upper_output_saturation(i) = p.upper_output_saturation(m[i]), q.lower_output_saturation(i) = p.lower_output_saturation(m[i]);
  return q;
}
static V permute(const V &v, const std::vector<int> &m) {
  V q;
  for (int i = 0; i < NR; i++) q(i) = v(m[i]);
  return q;
}

void run_case(long idx, Rng &r) {
  PP pr = params<TP, NR>(r, false, 0);
  bool propcase = r.chance(0.15);
  if (propcase) pr = params<TP, NR>(r, true, 1);
  Pd pid(pr), pert(pr);
  std::vector<Pd1> sc(NR);
  std::vector<PdV> vc(NR);
  std::vector<int> m(NR);
  for (int i = 0; i < NR; i++) m[i] = i;
  for (int i = NR - 1; i > 0; i--) std::swap(m[i], m[r.below(i + 1)]);
  Pd perm(permute(pr, m));
  auto load = [&](const PP &p) {
    for (int i = 0; i < NR; i++) {
      PP1 v;
      P1 s;
      cut(p, i, v, s);
      vc[i].update_pid_params(v);
      sc[i].update_params(s);
    }
  };
  load(pr);
  Signal<NR> sig(r), rate(r), other(r);
  int len = r.history(3, 80), pax = r.below(NR);  // the perturbed controller sees other errors on every axis but pax
  double dt0 = r.chance(0.05) ? r.logu(1e-9, 1e3) : r.logu(1e-3, 0.5);
  std::vector<LD> area(NR, 0), fs(NR, 0), last(NR, 0);
  bool fresh = true, tie = false;
  uint64_t h = 0;
  for (int k = 0; k < len; k++) {
    if (r.chance(0.1)) {
      PP n = propcase ? params<TP, NR>(r, true, 1) : params<TP, NR>(r, false, 0);
      switch (r.below(6)) {
        case 0:
          pid.reset_controller(), perm.reset_controller(), pert.reset_controller();
          for (int i = 0; i < NR; i++) sc[i].reset_controller(), vc[i].reset_controller();
          fresh = true;
          vh::bin("reset");
          break;
        case 1: n = mix<TP, NR>(r, pid.get_params(), n), pid.update_pid_params(n), pert.update_pid_params(n), perm.update_pid_params(permute(n, m)), load(n); vh::bin("parameter change"); break;
        case 2:
          pid.set_gains(n.Kp_gains, n.Ki_gains, n.Kd_gains), pert.set_gains(n.Kp_gains, n.Ki_gains, n.Kd_gains), perm.set_gains(permute(n.Kp_gains, m), permute(n.Ki_gains, m), permute(n.Kd_gains, m));
          for (int i = 0; i < NR; i++)
            sc[i].set_gains(n.Kp_gains(i), n.Ki_gains(i), n.Kd_gains(i)), vc[i].set_gains(n.Kp_gains.segment(i, 1), n.Ki_gains.segment(i, 1), n.Kd_gains.segment(i, 1));
          break;
        case 3: {
          V up, lo;
          limits<TP, NR>(r, up, lo, propcase);
          pid.set_output_saturation(up, lo, propcase), pert.set_output_saturation(up, lo, propcase), perm.set_output_saturation(permute(up, m), permute(lo, m), propcase);
          for (int i = 0; i < NR; i++) sc[i].set_output_saturation(up(i), lo(i)), vc[i].set_output_saturation(up.segment(i, 1), lo.segment(i, 1));
          vh::bin("limit change");
          break;
        }
        case 4:
          pid.set_anti_windup(n.antiwindup_cte), pert.set_anti_windup(n.antiwindup_cte), perm.set_anti_windup(permute(n.antiwindup_cte, m));
          pid.set_alpha(n.alpha), pert.set_alpha(n.alpha), perm.set_alpha(permute(n.alpha, m));
          for (int i = 0; i < NR; i++) sc[i].set_anti_windup(n.antiwindup_cte(i)), vc[i].set_anti_windup(n.antiwindup_cte.segment(i, 1)), sc[i].set_alpha(n.alpha(i)), vc[i].set_alpha(n.alpha.segment(i, 1));
          break;
        default:
          pid.set_reset_integral_saturation_flag(n.reset_integral_flag), pert.set_reset_integral_saturation_flag(n.reset_integral_flag), perm.set_reset_integral_saturation_flag(n.reset_integral_flag);
          for (int i = 0; i < NR; i++) sc[i].set_reset_integral_saturation_flag(n.reset_integral_flag), vc[i].set_reset_integral_saturation_flag(n.reset_integral_flag);
      }
    }
    if (r.chance(0.05)) sig.renew(r);
    V e = sig.template next<TP>(r, dt0), de = rate.template next<TP>(r, dt0), e2 = other.template next<TP>(r, dt0);
    e2(pax)    = e(pax);
    bool given = r.chance(0.3);
    TP dt      = (TP)dt0;
    V o = given ? pid.compute_control(dt, e, de) : pid.compute_control(dt, e);
    V q = given ? perm.compute_control(dt, permute(e, m), permute(de, m)) : perm.compute_control(dt, permute(e, m));
    V p2 = given ? pert.compute_control(dt, e2, de) : pert.compute_control(dt, e2);
    if (fresh) area.assign(NR, 0), fs.assign(NR, 0), last = rvec(e);
    PP cur = pid.get_params();
    // permuting is exact up to the rounding of proportional limiting
    LD big = 0;
    for (int i = 0; i < NR; i++) {
      area[i] += fabsl((LD)e(i) * dt);
      if (!given) fs[i] = std::max((LD)0, (LD)cur.alpha(i)) * (fabsl((LD)e(i)) + fabsl(last[i])) / dt + (1 - (LD)cur.alpha(i)) * fs[i];
      last[i] = e(i);
      big = std::max(big, fabsl((LD)cur.Kp_gains(i) * e(i)) + fabsl((LD)cur.Ki_gains(i)) * area[i] + (given ? fabsl((LD)cur.Kd_gains(i) * de(i)) : fabsl((LD)cur.Kd_gains(i)) * fs[i]));
    }
    fresh = false;
    std::string ctx = vh::fmt("call %d of %d", k, len);
    V po = permute(o, m);
    for (int i = 0; i < NR; i++) {
      vh::ev();
      LD tol = propcase && pid.get_output_saturation_flag() ? vh::rel<TP>() * big : vh::rel<TP>() * big;
      if (!vh::near(q(i), po(i), tol + 1e-30L)) vh::fail("axes/permutation", "%s: permuted axis %d gave %.12g, original axis %d %.12g", ctx.c_str(), i, (double)q(i), m[i], (double)po(i));
      if (pid.get_integral_error_contribution()(m[i]) != perm.get_integral_error_contribution()(i)) vh::fail("axes/permutation", "%s: integral contributions do not permute", ctx.c_str());
    }
    vh::bin("permutation");
    if (!propcase) {
      vh::ev();
      if (p2(pax) != o(pax)) vh::fail("axes/influence", "%s: axis %d gave %.12g, but %.12g when the other axes saw other errors", ctx.c_str(), pax, (double)o(pax), (double)p2(pax));
      vh::bin("other axes perturbed");
    }
    for (int i = 0; i < NR; i++) {
      TP s = given ? sc[i].compute_control(dt, e(i), de(i)) : sc[i].compute_control(dt, e(i));
      Vec<TP, 1> e1, d1;
      e1(0) = e(i), d1(0) = de(i);
      Vec<TP, 1> v = given ? vc[i].compute_control(dt, e1, d1) : vc[i].compute_control(dt, e1);
      LD sP = fabsl((LD)cur.Kp_gains(i) * e(i)), sI = fabsl((LD)cur.Ki_gains(i)) * area[i], sD = given ? fabsl((LD)cur.Kd_gains(i) * de(i)) : fabsl((LD)cur.Kd_gains(i)) * fs[i];
      auto two = [&](const char *w, LD a, LD b, LD sc_) {
        vh::ev();
        if (!vh::near(a, b, vh::rel<TP>() * sc_ + 1e-30L)) vh::fail(std::string("axes/") + w, "%s axis %d of %d: %.12g against %.12g", ctx.c_str(), i, NR, vh::D(a), vh::D(b));
      };
      two("proportional", pid.get_proportional_error_contribution()(i), sc[i].get_proportional_error_contribution(), sP);
      two("integral", pid.get_integral_error_contribution()(i), sc[i].get_integral_error_contribution(), sI);
      two("derivative", pid.get_derivative_error_contribution()(i), sc[i].get_derivative_error_contribution(), sD);
      two("integral 1-vector", vc[i].get_integral_error_contribution()(0), sc[i].get_integral_error_contribution(), sI);
      two("derivative 1-vector", vc[i].get_derivative_error_contribution()(0), sc[i].get_derivative_error_contribution(), sD);
      if (!propcase) {
        two("output", o(i), s, sP + sI + sD);
        vh::bin("axis against scalar");
      }
      if (!propcase) two("output 1-vector", v(0), s, sP + sI + sD);
      h = vh::hashd(h, (double)s);
    }
    vh::nontrivial(h);
    if (!vh::X().failures.empty() && vh::X().failures.back().c == idx) return;
    if (k == len - 1) vh::sample("%d axes, %d calls, scalar and axis outputs agree: %.9g", NR, len, (double)o(0));
  }
}
