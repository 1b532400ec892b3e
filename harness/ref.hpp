// Independent reference model in long double: rigid body, rotors, PID, attitude law, cascade, odometry.
// Written from the documentation (docs/*.md and the interface comments), not from the code's formulas
// layout; no Eigen arithmetic is used here.
#pragma once
#include <array>
#include "core.hpp"

namespace ref {
using vh::LD;

struct V3 {
  LD x = 0, y = 0, z = 0;
  LD &operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
  LD operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(V3 a, LD k) { return {a.x * k, a.y * k, a.z * k}; }
inline V3 operator*(LD k, V3 a) { return a * k; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline LD dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline LD norm(V3 a) { return sqrtl(dot(a, a)); }
inline V3 unit(V3 a) {
  LD n = norm(a);
  return n > 0 ? a * (1 / n) : a;
}
inline bool finite3(V3 a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }
inline LD dist(V3 a, V3 b) { return norm(a - b); }

struct M3 {
  LD a[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
};
inline M3 eye() {
  M3 m;
  m.a[0][0] = m.a[1][1] = m.a[2][2] = 1;
  return m;
}
inline V3 operator*(const M3 &m, V3 v) {
  V3 r;
  for (int i = 0; i < 3; i++) r[i] = m.a[i][0] * v.x + m.a[i][1] * v.y + m.a[i][2] * v.z;
  return r;
}
inline M3 operator*(const M3 &p, const M3 &q) {
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int k = 0; k < 3; k++) r.a[i][j] += p.a[i][k] * q.a[k][j];
  return r;
}
inline M3 tr(const M3 &m) {
  M3 r;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r.a[i][j] = m.a[j][i];
  return r;
}
inline LD det(const M3 &m) {
  return m.a[0][0] * (m.a[1][1] * m.a[2][2] - m.a[1][2] * m.a[2][1]) -
         m.a[0][1] * (m.a[1][0] * m.a[2][2] - m.a[1][2] * m.a[2][0]) +
         m.a[0][2] * (m.a[1][0] * m.a[2][1] - m.a[1][1] * m.a[2][0]);
}
inline V3 solve(const M3 &m, V3 b) {  // Cramer
  LD d = det(m);
  V3 r;
  for (int c = 0; c < 3; c++) {
    M3 t = m;
    for (int i = 0; i < 3; i++) t.a[i][c] = b[i];
    r[c] = det(t) / d;
  }
  return r;
}
inline LD normF(const M3 &m) {
  LD s = 0;
  for (auto &r : m.a)
    for (LD v : r) s += v * v;
  return sqrtl(s);
}
inline M3 inv(const M3 &m) {
  M3 r;
  for (int c = 0; c < 3; c++) {
    V3 e;
    e[c]  = 1;
    V3 s  = solve(m, e);
    for (int i = 0; i < 3; i++) r.a[i][c] = s[i];
  }
  return r;
}

struct Q {
  LD w = 1, x = 0, y = 0, z = 0;
};
inline Q mul(Q a, Q b) {
  return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
          a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
}
inline Q conj(Q q) { return {q.w, -q.x, -q.y, -q.z}; }
inline LD qnorm(Q q) { return sqrtl(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z); }
inline Q qunit(Q q) {
  LD n = qnorm(q);
  return {q.w / n, q.x / n, q.y / n, q.z / n};
}
inline M3 rotm(Q q) {  // body to world
  M3 r;
  LD w = q.w, x = q.x, y = q.y, z = q.z;
  r.a[0][0] = 1 - 2 * (y * y + z * z);
  r.a[0][1] = 2 * (x * y - w * z);
  r.a[0][2] = 2 * (x * z + w * y);
  r.a[1][0] = 2 * (x * y + w * z);
  r.a[1][1] = 1 - 2 * (x * x + z * z);
  r.a[1][2] = 2 * (y * z - w * x);
  r.a[2][0] = 2 * (x * z - w * y);
  r.a[2][1] = 2 * (y * z + w * x);
  r.a[2][2] = 1 - 2 * (x * x + y * y);
  return r;
}
inline V3 rot(Q q, V3 v) { return rotm(q) * v; }
inline Q axis_angle(V3 u, LD ang) {
  u    = unit(u);
  LD s = sinl(ang / 2);
  return {cosl(ang / 2), u.x * s, u.y * s, u.z * s};
}
inline LD qangle(Q a, Q b) {  // angle between two unit rotations
  Q d  = mul(conj(a), b);
  LD v = sqrtl(d.x * d.x + d.y * d.y + d.z * d.z);
  return 2 * atan2l(v, fabsl(d.w));
}
// one Euler step of the attitude kinematics: q' = q + dt/2 * q*(0,w), normalised
inline Q qstep(Q q, V3 w, LD dt) {
  Q d = mul(q, {0, w.x, w.y, w.z});
  return qunit({q.w + d.w * dt / 2, q.x + d.x * dt / 2, q.y + d.y * dt / 2, q.z + d.z * dt / 2});
}
inline LD heading(Q q) { return atan2l(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z)); }
inline LD wrap(LD a) {
  while (a > M_PIl) a -= 2 * M_PIl;
  while (a <= -M_PIl) a += 2 * M_PIl;
  return a;
}
inline LD ssq(LD v) { return v < 0 ? -v * v : v * v; }
inline LD ssqrt(LD v) { return v < 0 ? -sqrtl(-v) : sqrtl(v); }
inline LD clampl(LD v, LD a, LD b) { return v < a ? a : v > b ? b : v; }

// ------------------------------------------------------------------ vehicle
struct Motor {
  int dir;
  LD kf, kt, mn, mx, tau, J;
  V3 t;
  M3 R;
};
struct Model {
  std::vector<Motor> m;
  LD mass, drag, fnoise, mnoise;
  M3 I, aero;
  V3 g;
};
struct State {
  V3 p, v, w, a, dw, F, T;
  Q q;
  std::vector<LD> mw, mdw;
};
// magnitudes of what was added up, for tolerances
struct Scale {
  LD F = 0, T = 0, a = 0, dw = 0, v = 0, w = 0, p = 0, m = 0, mdw = 0;
};
inline void wrench(const Model &md, const std::vector<LD> &w, const std::vector<LD> &dw, V3 &F, V3 &T, LD *sF = nullptr,
                   LD *sT = nullptr) {
  F = V3();
  T = V3();
  for (size_t i = 0; i < md.m.size(); i++) {
    const Motor &k = md.m[i];
    V3 f           = k.R * V3{0, 0, k.kf * ssq(w[i])};
    V3 t           = cross(k.t, f) + k.R * V3{0, 0, k.dir * k.kt * ssq(w[i])};
    V3 j           = k.R * V3{0, 0, k.dir * k.J * dw[i]};
    F              = F + f;
    T              = T + t + j;
    if (sF) *sF += norm(f);
    if (sT) *sT += norm(k.t) * norm(f) + k.kt * fabsl(ssq(w[i])) + fabsl(k.J * dw[i]);
  }
}
inline State step(const Model &md, const State &s, const std::vector<LD> &cmd, LD dt, V3 ext, V3 nF = V3(), V3 nM = V3(),
                  Scale *sc = nullptr) {
  State r = s;
  Scale z;
  size_t n = md.m.size();
  for (size_t i = 0; i < n; i++) {
    const Motor &k = md.m[i];
    LD des         = clampl(cmd[i], k.mn, k.mx);
    r.mdw[i]       = (des - s.mw[i]) / k.tau;
    r.mw[i]        = clampl(s.mw[i] + r.mdw[i] * dt, k.mn, k.mx);
    LD big         = fabsl(des) + fabsl(s.mw[i]);
    z.mdw          = std::max(z.mdw, big / k.tau);
    z.m            = std::max(z.m, big * (1 + dt / k.tau));
  }
  V3 Fb, Tb;
  wrench(md, s.mw, r.mdw, Fb, Tb, &z.F, &z.T);
  V3 drag{-md.drag * ssq(s.v.x), -md.drag * ssq(s.v.y), -md.drag * ssq(s.v.z)};
  r.F = rot(s.q, Fb) + md.g * md.mass + drag + ext + nF;
  z.F += norm(md.g) * md.mass + norm(drag) + norm(ext) + norm(nF);
  V3 am   = (md.aero * s.w) * (-norm(s.w));
  V3 gyro = cross(s.w, md.I * s.w);
  r.T     = Tb + am + nM - gyro;
  z.T += normF(md.aero) * dot(s.w, s.w) + norm(nM) + normF(md.I) * dot(s.w, s.w);
  r.a  = r.F * (1 / md.mass);
  r.dw = solve(md.I, r.T);
  r.p  = s.p + s.v * dt;
  r.v  = s.v + r.a * dt;
  r.w  = s.w + r.dw * dt;
  r.q  = qstep(s.q, s.w, dt);
  z.a  = z.F / md.mass;
  LD ni = normF(inv(md.I));
  z.dw = z.T * ni * (1 + normF(md.I) * ni);
  z.v  = norm(s.v) + z.a * dt;
  z.w  = norm(s.w) + z.dw * dt;
  z.p  = norm(s.p) + norm(s.v) * dt;
  if (sc) *sc = z;
  return r;
}

// ------------------------------------------------------------------ PID, one axis
struct PidParams1 {
  LD kp = 0, ki = 0, kd = 0, aw = 0, alpha = 1;
};
// magnitude that the rounding of one first-order low-pass step is relative to; what is filtered out still leaves its rounding
// behind when the filter is written as an increment, f += alpha (x - f)
inline LD filter_scale(LD alpha, LD in, LD before) {
  const LD rounding = sizeof(TP) == 4 ? 0.05L : 5e-5L;  // a few machine epsilons, in units of the relative tolerance
  return fabsl(alpha) * in + fabsl(1 - alpha) * before + rounding * (in + before);
}
struct Pid1 {
  LD acc = 0, last = 0, filt = 0;
  LD pre = 0, at = -1;  // value before the last clamping, and the limit it was clamped to
};
// n-dimensional PID. sat: limits active.
struct Pid {
  int n;
  std::vector<PidParams1> p;
  std::vector<Pid1> s;
  std::vector<LD> up, lo;
  bool sat = false, prop = false, rst = false, fresh = true;
  std::vector<LD> P, I, Dc, raw, out, e, de;
  std::vector<LD> scale;  // magnitude added up in each output, with everything in the history that led to it
  std::vector<LD> area, fsc, lastmag;
  bool tie = false;       // an accumulator sat numerically on its limit, or error was exactly 0, while deciding a restart
  explicit Pid(int n_ = 3) : n(n_), p(n_), s(n_), up(n_, 0), lo(n_, 0), P(n_, 0), I(n_, 0), Dc(n_, 0), raw(n_, 0), out(n_, 0), e(n_, 0), de(n_, 0), scale(n_, 0), area(n_, 0), fsc(n_, 0), lastmag(n_, 0) {}
  void limits(const std::vector<LD> &u, const std::vector<LD> &l, bool pr, LD eps) {
    for (int i = 0; i < n; i++)
      if (fabsl(u[i] - l[i]) < eps || u[i] < l[i]) {
        sat = false;
        return;
      }
    up = u, lo = l, sat = true, prop = pr;
  }
  void reset() { fresh = true; }
  static void saturate(std::vector<LD> &o, const std::vector<LD> &up, const std::vector<LD> &lo, bool prop) {
    size_t n = o.size();
    if (!prop) {
      for (size_t i = 0; i < n; i++) o[i] = clampl(o[i], lo[i], up[i]);
      return;
    }
    for (size_t i = 0; i < n; i++) {
      LD f = 1;
      if (o[i] > up[i]) f = up[i] / o[i];
      else if (o[i] < lo[i]) f = lo[i] / o[i];
      for (size_t j = 0; j < n; j++) o[j] *= f;
    }
  }
  const std::vector<LD> &run(LD dt, const std::vector<LD> &err, const std::vector<LD> *rate = nullptr, const std::vector<LD> *mag = nullptr,
                             const std::vector<LD> *ratemag = nullptr) {
    tie         = false;
    bool anyaw  = false;
    for (int i = 0; i < n; i++) anyaw |= p[i].aw != 0;
    for (int i = 0; i < n; i++) {
      if (fresh) s[i] = Pid1{0, err[i], 0};
      if (rst) {
        LD m = fabsl(s[i].acc), lim = fabsl(p[i].aw);
        bool opp = std::signbit(s[i].acc) != std::signbit(err[i]);
        LD tt = sizeof(TP) == 4 ? 1e-4L : 1e-9L;
        LD mg0 = mag ? (*mag)[i] : fabsl(err[i]);
        // the sign of the error, or of the accumulator, is rounding noise while the other one is not
        if (s[i].acc != 0 && m >= lim * (1 - 1e-5L) && fabsl(err[i]) <= tt * mg0) tie = true;
        if (!fresh && m >= lim * (1 - 1e-5L) && m <= tt * area[i] && s[i].acc != 0) tie = true;
        if (opp && s[i].acc != 0) {
          if (err[i] == 0) tie = true;
          LD mm = m == s[i].at && lim == s[i].at ? fabsl(s[i].pre) : m;
          if (lim > 0 && fabsl(mm - lim) <= 1e-5 * lim) tie = true;
        }
        if (m >= lim && opp) s[i].acc = 0;
      }
      s[i].acc += err[i] * dt;
      s[i].pre = s[i].acc, s[i].at = p[i].aw;
      if (anyaw) s[i].acc = clampl(s[i].acc, -p[i].aw, p[i].aw);
      P[i] = p[i].kp * err[i];
      I[i] = p[i].ki * s[i].acc;
      if (rate) {
        Dc[i] = p[i].kd * (*rate)[i];
        de[i] = (*rate)[i];
      } else {
        LD d      = (err[i] - s[i].last) / dt;
        s[i].filt = p[i].alpha * d + (1 - p[i].alpha) * s[i].filt;
        Dc[i]     = p[i].kd * s[i].filt;
      }
      LD mg = mag ? (*mag)[i] : fabsl(err[i]);
      if (fresh) area[i] = fsc[i] = 0, lastmag[i] = mg;
      area[i] += mg * dt;
      if (!rate) fsc[i] = filter_scale(p[i].alpha, (mg + lastmag[i]) / dt, fsc[i]);
      lastmag[i] = mg;
      scale[i]   = fabsl(p[i].kp) * mg + fabsl(p[i].ki) * area[i] + fabsl(p[i].kd) * (rate ? (ratemag ? (*ratemag)[i] : fabsl((*rate)[i])) : fsc[i]);
      s[i].last = err[i];
      e[i]      = err[i];
      raw[i]    = P[i] + I[i] + Dc[i];
      out[i]    = raw[i];
    }
    fresh = false;
    if (sat) {
      saturate(out, up, lo, prop);
      if (prop) {
        LD m = 0;
        for (LD v : scale) m = std::max(m, v);
        scale.assign(n, 4 * m);
      }
    }
    return out;
  }
};

// ------------------------------------------------------------------ attitude law
inline V3 rate_law(const M3 &R, LD yaw, V3 thrust, const M3 &kp) {
  V3 xc{cosl(yaw), sinl(yaw), 0};
  V3 zb = unit(thrust), yb = unit(cross(zb, xc)), xb = unit(cross(yb, zb));
  M3 Rd;
  for (int i = 0; i < 3; i++) Rd.a[i][0] = xb[i], Rd.a[i][1] = yb[i], Rd.a[i][2] = zb[i];
  M3 A = tr(Rd) * R, B = tr(R) * Rd;
  V3 e{(A.a[2][1] - B.a[2][1]) / 2, (A.a[0][2] - B.a[0][2]) / 2, (A.a[1][0] - B.a[1][0]) / 2};
  return kp * (e * (LD)-1);
}

}  // namespace ref
