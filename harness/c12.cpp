// C12: output limits. Observed outputs are judged directly (inside, direction, untouched) and against a twin without limits.
#include "pid.hpp"
using namespace pidh;
using PP  = PIDParams<TP, NR>;
using Pd  = PID<TP, NR>;
using V   = Vec<TP, NR>;
using Pd1 = pid_1d_controller::PID<TP>;

// judges a limited output `o` for the unlimited value `u`
static bool judge(const char *ctx, const V &u, const V &o, const V &up, const V &lo, bool prop) {
  LD eps  = std::numeric_limits<TP>::epsilon();
  bool in = true, straddle = true;
  for (int i = 0; i < NR; i++) in &= u(i) <= up(i) && u(i) >= lo(i), straddle &= up(i) > 0 && lo(i) < 0;
  size_t before = vh::X().failures.size();
  for (int i = 0; i < NR; i++) {
    vh::ev();
    if (prop && !straddle) continue;
    LD slack = prop ? 16 * NR * eps * std::max(fabsl((LD)up(i)), fabsl((LD)lo(i))) : 0;
    if (!(o(i) <= up(i) + slack && o(i) >= lo(i) - slack)) vh::fail("limit/exceeded", "%s axis %d: output %.12g outside [%.12g, %.12g]", ctx, i, (double)o(i), (double)lo(i), (double)up(i));
    if (!prop) {
      TP w = u(i) > up(i) ? up(i) : u(i) < lo(i) ? lo(i) : u(i);
      if (o(i) != w) vh::fail("limit/per-axis", "%s axis %d: unlimited %.12g limited to %.12g, not %.12g", ctx, i, (double)u(i), (double)o(i), (double)w);
    }
  }
  if (prop && straddle) {
    vh::ev();
    if (in) {
      if (!(o == u)) vh::fail("limit/inside touched", "%s: output inside the limits was changed", ctx);
    } else {
      // same direction, scaled by the single factor that brings every axis inside
      LD f = 1;
      for (int i = 0; i < NR; i++) {
        if (u(i) > up(i)) f = std::min(f, (LD)up(i) / (LD)u(i));
        if (u(i) < lo(i)) f = std::min(f, (LD)lo(i) / (LD)u(i));
      }
      for (int i = 0; i < NR; i++)
        if (!vh::near(o(i), f * (LD)u(i), 64 * NR * eps * fabsl(f * (LD)u(i)) + 1e-30L))
          vh::fail("limit/direction", "%s axis %d: %.12g limited to %.12g, proportional limiting gives %.12g", ctx, i, (double)u(i), (double)o(i), vh::D(f * (LD)u(i)));
      vh::bin("proportional limiting scaled");
    }
  }
  if (!prop && !in) vh::bin("per-axis limiting clipped");
  if (in) vh::bin("inside the limits");
  return vh::X().failures.size() == before;
}

void run_case(long idx, Rng &r) {
  PP pr = params<TP, NR>(r, false);
  Pd pid(pr), twin(pr);  // the twin never has limits
  twin.disable_output_saturation();
  bool on = false, prop = false;
  V up = pr.upper_output_saturation, lo = pr.lower_output_saturation;
  auto zero = [](const V &v) {
    for (int i = 0; i < NR; i++)
      if (v(i) != 0) return false;
    return true;
  };
  on   = !(zero(up) && zero(lo));
  prop = pr.proportional_saturation_flag;
  Signal<NR> sig(r), rate(r);
  double dt0 = r.chance(0.05) ? r.logu(1e-9, 1e3) : r.logu(1e-3, 0.3);
  int len    = r.history(3, 40);
  uint64_t h = 0;
  for (int k = 0; k < len; k++) {
    if (r.chance(0.2)) {
      int op = r.below(10);
      V a, b;
      bool pf = r.chance(0.5);
      limits<TP, NR>(r, a, b, pf);
      int ax = r.below(NR);
      switch (op) {
        case 0: pid.disable_output_saturation(), on = false; break;
        case 1:  // inverted on one axis
          if (a(ax) == b(ax)) break;
          std::swap(a(ax), b(ax));
          pid.set_output_saturation(a, b, pf), on = false;
          vh::bin("inverted limits");
          break;
        case 2:  // equal on one axis
          b(ax) = a(ax);
          pid.set_output_saturation(a, b, pf), on = false;
          vh::bin("equal limits");
          break;
        case 3: {  // all zero through the parameters
          PP n = pid.get_params();
          n.upper_output_saturation.setZero(), n.lower_output_saturation.setZero();
          pid.update_pid_params(n), on = false;
          vh::bin("zero limits");
          break;
        }
        case 4: {  // through the parameters, possibly invalid on one axis
          PP n = pid.get_params();
          int bad = r.below(4);
          if (bad == 0) std::swap(a(ax), b(ax));
          n.upper_output_saturation = a, n.lower_output_saturation = b, n.proportional_saturation_flag = pf;
          pid.update_pid_params(n);
          on = bad != 0, up = a, lo = b, prop = pf;
          break;
        }
        case 5: {  // one-sided: one limit vector zero
          if (!pf) {
            for (int i = 0; i < NR; i++) {
              if (a(i) <= 0) a(i) = 1;
              b(i) = 0;
            }
          } else break;
          PP n = pid.get_params();
          n.upper_output_saturation = a, n.lower_output_saturation = b, n.proportional_saturation_flag = false;
          if (r.chance(0.5)) {
            n.upper_output_saturation = V(-b), n.lower_output_saturation = V(-a);
            V t = a;
            a = -b, b = -t;
          }
          pid.update_pid_params(n);
          on = true, up = a, lo = b, prop = false;
          vh::bin("one limit vector zero");
          break;
        }
        case 6: {  // only something else changes
          PP m = mix<TP, NR>(r, twin.get_params(), params<TP, NR>(r, false)), n = m;
          V gu = V::Zero(), gl = V::Zero();
          if (on) gu = up, gl = lo;
          n.upper_output_saturation = gu, n.lower_output_saturation = gl, n.proportional_saturation_flag = prop;
          pid.update_pid_params(n), twin.update_pid_params(m), twin.disable_output_saturation();
          vh::bin("other parameters changed");
          break;
        }
        case 7: {  // the same limits once more, perhaps after switching them off
          if (!on) break;
          if (r.chance(0.5)) pid.disable_output_saturation();
          if (r.chance(0.3)) {
            PP n = pid.get_params();
            n.upper_output_saturation = up, n.lower_output_saturation = lo, n.proportional_saturation_flag = prop;
            pid.update_pid_params(n);
          } else pid.set_output_saturation(up, lo, prop);
          vh::bin("same limits again");
          break;
        }
        default: pid.set_output_saturation(a, b, pf), on = true, up = a, lo = b, prop = pf; vh::bin("limits set");
      }
      vh::ev();
      if (pid.get_output_saturation_flag() != on) vh::fail("limit/switch", "limiting reported %s after operation %d, expected %s", pid.get_output_saturation_flag() ? "on" : "off", op, on ? "on" : "off");
      if (on) {
        V gu, gl;
        pid.get_saturation_limits(gu, gl);
        if (!(gu == up) || !(gl == lo)) vh::fail("limit/readback", "the limits read back differ from the ones set");
      }
    }
    if (r.chance(0.03)) pid.reset_controller(), twin.reset_controller();
    V e = sig.template next<TP>(r, dt0), de = rate.template next<TP>(r, dt0);
    bool given = r.chance(0.3);
    V o        = given ? pid.compute_control((TP)dt0, e, de) : pid.compute_control((TP)dt0, e);
    V u        = given ? twin.compute_control((TP)dt0, e, de) : twin.compute_control((TP)dt0, e);
    std::string ctx = vh::fmt("call %d of %d", k, len);
    vh::ev();
    if (!(pid.get_proportional_error_contribution() == twin.get_proportional_error_contribution()) || !(pid.get_integral_error_contribution() == twin.get_integral_error_contribution()) ||
        !(pid.get_derivative_error_contribution() == twin.get_derivative_error_contribution()))
      vh::fail("limit/history", "%s: contributions with limits differ from those without", ctx.c_str());
    if (on) judge(ctx.c_str(), u, o, up, lo, prop);
    else {
      vh::ev();
      if (!(o == u)) vh::fail("limit/off", "%s: limiting is off but the output %.12g differs from %.12g", ctx.c_str(), (double)o(0), (double)u(0));
      vh::bin("limiting off");
    }
    vh::ev();
    if (!(pid.get_output() == o)) vh::fail("limit/reported", "%s: reported output differs from the returned one", ctx.c_str());
    h = vh::hashd(h, (double)o(0) + k);
    vh::nontrivial(h);
    if (!vh::X().failures.empty() && vh::X().failures.back().c == idx) return;
  }
  // static function, any limits
  {
    V a, b, u;
    bool pf = r.chance(0.5);
    limits<TP, NR>(r, a, b, pf);
    double m = r.logu(1e-3, 1e4);
    for (int i = 0; i < NR; i++) u(i) = (TP)(r.chance(0.1) ? (double)a(i) : r.chance(0.1) ? (double)b(i) : r.wide(m));
    judge("static", u, Pd::saturate_output(u, a, b, pf), a, b, pf);
    TP s = Pd1::saturate_output(u(0), a(0), b(0)), w = u(0) > a(0) ? a(0) : u(0) < b(0) ? b(0) : u(0);
    vh::ev();
    if (s != w) vh::fail("limit/scalar static", "%.12g limited to %.12g", (double)u(0), (double)s);
    vh::sample("unlimited[0] %.6g in [%.6g, %.6g] %s, %d calls agreed", (double)u(0), (double)b(0), (double)a(0), pf ? "proportional" : "per axis", len);
  }
  // scalar class
  {
    Pd1 p, t;
    double kp = r.logu(0.1, 10), ki = r.logu(0.1, 10), kd = r.logu(0.01, 1);
    p.set_gains((TP)kp, (TP)ki, (TP)kd), t.set_gains((TP)kp, (TP)ki, (TP)kd);
    bool s_on = false;
    TP a = 0, b = 0;
    for (int k = 0; k < 12; k++) {
      if (r.chance(0.4)) {
        V x, y;
        limits<TP, NR>(r, x, y, false);
        switch (r.below(4)) {
          case 0: p.set_output_saturation(y(0), x(0)), s_on = false; break;
          case 1: p.set_output_saturation(x(0), x(0)), s_on = false; break;
          case 2: {
            auto q = p.get_params();
            a = q.upper_output_saturation = x(0), b = q.lower_output_saturation = y(0);
            if (r.chance(0.3)) a = b = q.upper_output_saturation = q.lower_output_saturation = 0, s_on = false;
            else s_on = true;
            p.update_params(q);
            break;
          }
          default: p.set_output_saturation(a = x(0), b = y(0)), s_on = true;
        }
        vh::ev();
        if (p.get_output_saturation_flag() != s_on) vh::fail("limit/scalar switch", "limiting reported %d expected %d", p.get_output_saturation_flag(), s_on);
      }
      V e  = sig.template next<TP>(r, dt0);
      TP o = p.compute_control((TP)dt0, e(0)), u = t.compute_control((TP)dt0, e(0)), w = !s_on ? u : u > a ? a : u < b ? b : u;
      vh::ev();
      if (o != w) vh::fail("limit/scalar", "unlimited %.12g gave %.12g, expected %.12g", (double)u, (double)o, (double)w);
      if (p.get_integral_error_contribution() != t.get_integral_error_contribution() || p.get_derivative_error_contribution() != t.get_derivative_error_contribution()) vh::fail("limit/scalar history", "history disturbed");
    }
    vh::bin("scalar class");
  }
}
