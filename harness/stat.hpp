// Statistics of standardised samples: mean, variance, correlation between components, with earlier samples and between streams.
#pragma once
#include "core.hpp"

namespace stat_ {
using vh::LD;
static const int LAGS = 24;
static const long ENOUGH = 1000;
static const LD SIGMA = 6.5L;

template <int D>
struct Group {
  long n = 0, ln[LAGS + 1] = {0};
  LD s[D] = {0}, ss[D] = {0}, x[D][D] = {{0}}, lag[LAGS + 1][D] = {{0}}, x1[D][D] = {{0}};
  LD ring[LAGS + 1][D];
  int have = 0, at = 0;
  // chain: the previous sample of this group directly precedes this one in the same stream
  void add(const LD *z, bool chain) {
    n++;
    if (!chain) have = 0;
    for (int i = 0; i < D; i++) {
      s[i] += z[i], ss[i] += z[i] * z[i];
      for (int j = 0; j < i; j++) x[i][j] += z[i] * z[j];
    }
    for (int l = 1; l <= have && l <= LAGS; l++) {
      const LD *o = ring[(at + LAGS + 1 - l) % (LAGS + 1)];
      ln[l]++;
      for (int i = 0; i < D; i++) lag[l][i] += z[i] * o[i];
      if (l == 1)
        for (int i = 0; i < D; i++)
          for (int j = 0; j < D; j++) x1[i][j] += z[i] * o[j];
    }
    for (int i = 0; i < D; i++) ring[at][i] = z[i];
    at = (at + 1) % (LAGS + 1);
    if (have < LAGS) have++;
  }
};
template <int A, int B>
struct Pair {
  long n = 0;
  LD s[A][B] = {{0}};
  void add(const LD *a, const LD *b) {
    n++;
    for (int i = 0; i < A; i++)
      for (int j = 0; j < B; j++) s[i][j] += a[i] * b[j];
  }
};
inline void judge(const char *key, const std::string &k, const char *w, LD v, LD want, LD sig) {
  vh::ev();
  if (!(fabsl(v - want) <= SIGMA * sig)) vh::fail(key, "%s %s: %.6g expected %.6g +- %.3g", k.c_str(), w, vh::D(v), vh::D(want), vh::D(sig));
}
template <int D>
void judge(const char *key, const std::string &name, const Group<D> &a, const char *const *ax) {
  vh::bin("samples " + name, a.n);
  if (a.n < ENOUGH) return;
  LD n = a.n;
  for (int i = 0; i < D; i++) {
    std::string k = vh::fmt("%s, %s (n=%ld)", name.c_str(), ax[i], a.n);
    judge(key, k, "mean", a.s[i] / n, 0, 1 / sqrtl(n));
    judge(key, k, "variance ratio", a.ss[i] / n, 1, sqrtl(2 / n));
    for (int j = 0; j < i; j++) judge(key, k + " with " + ax[j], "correlation", a.x[i][j] / n, 0, 1 / sqrtl(n));
    for (int l = 1; l <= LAGS; l++)
      if (a.ln[l] >= ENOUGH) judge(key, k, vh::fmt("correlation with %d samples before", l).c_str(), a.lag[l][i] / a.ln[l], 0, 1 / sqrtl((LD)a.ln[l]));
    if (a.ln[1] >= ENOUGH)
      for (int j = 0; j < D; j++) judge(key, k + " with " + ax[j], "correlation with the sample before", a.x1[i][j] / a.ln[1], 0, 1 / sqrtl((LD)a.ln[1]));
  }
  vh::bin("statistics judged");
}
template <int A, int B>
void judge(const char *key, const std::string &name, const Pair<A, B> &p, const char *const *ax, const char *const *bx) {
  vh::bin("pairs " + name, p.n);
  if (p.n < ENOUGH) return;
  for (int i = 0; i < A; i++)
    for (int j = 0; j < B; j++) judge(key, name + ": " + ax[i] + " with " + bx[j], "correlation", p.s[i][j] / p.n, 0, 1 / sqrtl((LD)p.n));
}
}  // namespace stat_
