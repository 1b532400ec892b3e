// Random PID configurations, histories and the operations on them, applied to the real controller and to the reference.
#pragma once
#include "gen.hpp"

namespace pidh {
using namespace pid_controller;
template <typename P, int N>
using Vec = Eigen::Matrix<P, N, 1>;

template <typename P, int N>
Vec<P, N> randv(Rng &r, double m, double zero = 0.1) {
  Vec<P, N> v;
  for (int i = 0; i < N; i++) v(i) = (P)(r.chance(zero) ? 0.0 : r.chance(0.5) ? r.uni(0, m) : r.logu(m * 1e-4, m));
  return v;
}
// off where the limits of one run are rounded to another precision and may coincide there
inline bool narrow_limits = true;
template <typename P, int N>
void limits(Rng &r, Vec<P, N> &up, Vec<P, N> &lo, bool straddle) {
  const double eps = std::numeric_limits<P>::epsilon();
  double m = r.logu(0.01, 100);
  bool narrow = r.chance(0.15) && narrow_limits;  // limits that are close together, but still different
  if (narrow) m = r.logu(1e3 * eps, 1e-2);
  for (int i = 0; i < N; i++) {
    double a = m * r.uni(0.05, 1), b = -m * r.uni(0.05, 1);
    if (!straddle && r.chance(0.2)) a = m * r.uni(0.5, 1), b = m * r.uni(0, 0.4);
    if (!straddle && r.chance(0.2)) a = -m * r.uni(0, 0.4), b = -m * r.uni(0.5, 1);
    if (r.chance(0.2)) b = -a;
    if (b >= a) std::swap(a, b);
    up(i) = (P)a, lo(i) = (P)b;
    double gap = narrow ? 16 * eps : 1e-3;
    if (!(up(i) - lo(i) > (P)gap)) up(i) = lo(i) + (P)(10 * gap);
    if (narrow && !straddle && r.chance(0.3)) {
      lo(i) = (P)r.uni(-50, 50);
      up(i) = lo(i) + (P)r.logu(64 * eps * std::max(1.0, std::fabs((double)lo(i))), 0.1);
    }
    // an axis that is practically without limit on one side or both
    if (r.chance(0.04)) {
      const P far = (P)r.logu(1e6, 1e30);
      int side    = r.range(1, 3);
      if (side & 1) up(i) = far;
      if (side & 2) lo(i) = -far;
    }
  }
}
// uniform: anti-windup on every axis or on none
template <typename P, int N>
PIDParams<P, N> params(Rng &r, bool straddle = true, int prop = -1) {
  PIDParams<P, N> p;
  p.Kp_gains = randv<P, N>(r, r.logu(0.1, 50) * r.far(0.02));
  p.Ki_gains = randv<P, N>(r, r.logu(0.1, 50) * r.far(0.02));
  p.Kd_gains = randv<P, N>(r, r.logu(0.01, 5) * r.far(0.02));
  if (r.chance(0.1)) p.Kp_gains *= (P)-1;
  if (r.chance(0.6)) p.antiwindup_cte = randv<P, N>(r, r.logu(0.01, 20), 0.0);
  if (r.chance(0.05)) p.antiwindup_cte(r.below(N)) = (P)1e30, p.antiwindup_cte = p.antiwindup_cte.cwiseMax((P)1e-2);
  if (r.chance(0.6))
    for (int i = 0; i < N; i++) p.alpha(i) = (P)(r.chance(0.1) ? 1.0 : r.chance(0.1) ? 0.0 : r.chance(0.1) ? r.logu(1e-6, 0.01) : r.uni(0.01, 1));
  p.reset_integral_flag          = r.chance(0.4);
  p.proportional_saturation_flag = prop >= 0 ? prop : r.chance(0.5);
  if (r.chance(0.5)) limits<P, N>(r, p.upper_output_saturation, p.lower_output_saturation, straddle || p.proportional_saturation_flag);
  return p;
}
// half of the time the new parameters differ from the current ones in one place only
template <typename P, int N>
PIDParams<P, N> mix(Rng &r, const PIDParams<P, N> &cur, const PIDParams<P, N> &n) {
  if (r.chance(0.5)) return n;
  PIDParams<P, N> m = cur;
  int i             = r.below(N);
  switch (r.below(9)) {
    case 0: m.Kp_gains = n.Kp_gains; break;
    case 1: m.Ki_gains = n.Ki_gains; break;
    case 2: m.Kd_gains = n.Kd_gains; break;
    case 3: m.antiwindup_cte = n.antiwindup_cte; break;
    case 4: m.alpha = n.alpha; break;
    case 5: m.reset_integral_flag = !m.reset_integral_flag; break;
    case 6: m.Kp_gains(i) = n.Kp_gains(i); break;
    case 7: m.Kd_gains(i) = n.Kd_gains(i), m.Ki_gains(i) = n.Ki_gains(i); break;
    default: m.upper_output_saturation = n.upper_output_saturation, m.lower_output_saturation = n.lower_output_saturation, m.proportional_saturation_flag = n.proportional_saturation_flag;
  }
  return m;
}
// source of error signals: steps, waves, jumps, holds
template <int N>
struct Signal {
  double amp[N], w[N], ph[N], off[N];
  int kind;
  double t = 0;
  explicit Signal(Rng &r) { renew(r); }
  void renew(Rng &r) {
    kind     = r.below(5);
    double m = r.chance(0.04) ? r.logu(1e-6, 1e5) : r.logu(1e-2, 50);
    for (int i = 0; i < N; i++) amp[i] = r.wide(m), w[i] = r.logu(0.1, 30), ph[i] = r.uni(0, 6.3), off[i] = r.wide(m);
  }
  template <typename P>
  Vec<P, N> next(Rng &r, double dt) {
    t += dt;
    Vec<P, N> e;
    for (int i = 0; i < N; i++) {
      double v;
      switch (kind) {
        case 0: v = amp[i]; break;
        case 1: v = amp[i] * sin(w[i] * t + ph[i]); break;
        case 2: v = off[i] + amp[i] * sin(w[i] * t + ph[i]); break;
        case 3: v = r.wide(fabs(amp[i])); break;
        default: v = (fmod(t * w[i] + ph[i], 6.283) < 3.14 ? amp[i] : -amp[i]); break;
      }
      e(i) = (P)v;
    }
    if (r.chance(0.02)) e.setZero();
    return e;
  }
};
template <typename P, int N>
void to_ref(const PIDParams<P, N> &p, ref::Pid &q) {
  for (int i = 0; i < N; i++) q.p[i] = {(LD)p.Kp_gains(i), (LD)p.Ki_gains(i), (LD)p.Kd_gains(i), (LD)p.antiwindup_cte(i), (LD)p.alpha(i)};
  q.rst = p.reset_integral_flag;
  q.prop = p.proportional_saturation_flag;
  bool any = false;
  for (int i = 0; i < N; i++) any |= p.upper_output_saturation(i) != 0 || p.lower_output_saturation(i) != 0;
  if (any) q.limits(rvec(p.upper_output_saturation), rvec(p.lower_output_saturation), p.proportional_saturation_flag, std::numeric_limits<P>::epsilon());
  else q.sat = false;
}
}  // namespace pidh
