// Run-time monitoring core: deterministic random source, case driver, verdict and coverage recording.
// No iostreams here, so that the same core runs under MemorySanitizer.
#pragma once
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

namespace vh {

typedef long double LD;

// ---------------------------------------------------------------- random source
struct Rng {
  uint64_t s[4];
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t a = 1, uint64_t b = 0) {
    uint64_t x = a * 0x2545f4914f6cdd1dull + b * 0x9e3779b97f4a7c15ull + 77;
    for (int i = 0; i < 4; i++) s[i] = mix(x);
  }
  uint64_t u64() {
    uint64_t r = ((s[1] * 5) << 7 | (s[1] * 5) >> 57) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3] << 45 | s[3] >> 19;
    return r;
  }
  int below(int n) { return (int)(u64() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(double p) { return unit() < p; }
  double unit() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * unit(); }
  double logu(double a, double b) { return exp(uni(log(a), log(b))); }
  // length of a history: mostly a..b, now and then far longer, for effects that need many calls
  int history(int a, int b, double often = 0.004, int far = 2500) {
    int n = range(a, b);
    if (!chance(often)) return n;
    return chance(0.03) ? range(66000, 70000) : range(far / 2, far);
  }
  double sgn() { return (u64() & 1) ? 1.0 : -1.0; }
  // a factor that is sometimes far from one
  double far(double p = 0.05) { return chance(p) ? logu(1, 1e3) : chance(p) ? logu(1e-4, 1) : 1.0; }
  // symmetric value with widely varying magnitude up to m, sometimes exactly zero or exactly +-m
  double wide(double m) {
    if (m <= 0) return 0.0;
    int k = below(20);
    if (k == 0) return 0.0;
    if (k == 1) return sgn() * m;
    if (k < 12) return uni(-m, m);
    return sgn() * logu(m * 1e-6, m);
  }
};

// ---------------------------------------------------------------- recording
// own containers: parts of the library's are not instrumented, which MemorySanitizer would misread
struct HashSet {
  std::vector<uint64_t> t = std::vector<uint64_t>(1024, 0);
  size_t n = 0;
  size_t size() const { return n; }
  void insert(uint64_t h) {
    if (!h) h = 1;
    if ((n + 1) * 2 > t.size()) {
      std::vector<uint64_t> o(t.size() * 2, 0);
      o.swap(t);
      n = 0;
      for (uint64_t x : o)
        if (x) insert(x);
    }
    size_t i = (h ^ (h >> 29)) & (t.size() - 1);
    while (t[i] && t[i] != h) i = (i + 1) & (t.size() - 1);
    if (!t[i]) t[i] = h, n++;
  }
};
struct Bin {
  char k[96];
  long long n;
};
struct Failure {
  std::string key, msg;
  long c;
};

struct Ctx {
  uint64_t seed = 1;
  long cases = 0, from = 0, only = -1;
  long cur = -1;
  long long evals = 0;
  HashSet distinct;
  std::vector<Bin> bins;
  std::vector<std::string> samples;
  std::vector<Failure> failures;
  std::map<std::string, long long> failcount;
  volatile int64_t *progress = nullptr;
  const char *out = nullptr;
  bool verbose = false;
};
inline Ctx &X() {
  static Ctx x;
  return x;
}
inline std::string vfmt(const char *f, va_list ap) {
  char b[4096];
  vsnprintf(b, sizeof b, f, ap);
  return b;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  return s;
}
// one evaluation of an oracle on an observed execution
inline void ev(long long n = 1) { X().evals += n; }
inline void bin(const char *b, long long n = 1) {
  for (auto &x : X().bins)
    if (!strncmp(x.k, b, sizeof x.k - 1)) {
      x.n += n;
      return;
    }
  Bin x;
  memset(&x, 0, sizeof x);
  strncpy(x.k, b, sizeof x.k - 1);
  x.n = n;
  X().bins.push_back(x);
}
inline void bin(const std::string &b, long long n = 1) { bin(b.c_str(), n); }
inline void nontrivial(uint64_t h) {
  if (X().distinct.size() < 2000000) X().distinct.insert(h);
}
inline uint64_t hashd(uint64_t h, double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  h ^= u + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}
inline void sample(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char *f, ...) {
#if defined(V_MSAN)
  return;
#endif
  if (X().samples.size() >= 4) return;
  va_list ap;
  va_start(ap, f);
  X().samples.push_back(fmt("case %ld: ", X().cur) + vfmt(f, ap));
  va_end(ap);
}
inline void dump();
// a violation witnessed on the real code; `key` names the kind of violation
inline void fail(const std::string &key, const char *f, ...) __attribute__((format(printf, 2, 3)));
inline void fail(const std::string &key, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string m = vfmt(f, ap);
  va_end(ap);
  long long &n = X().failcount[key];
  n++;
  if (n <= 3) X().failures.push_back({key, m, X().cur});
  if (X().verbose && n <= 20) fprintf(stderr, "[%s] case %ld: %s\n", key.c_str(), X().cur, m.c_str());
}
inline std::string esc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o;
}
inline void dump() {
  if (!X().out) return;
  FILE *f = fopen(X().out, "w");
  if (!f) return;
  fprintf(f, "{\"cases\": %ld, \"evaluations\": %lld, \"distinct\": %zu, \"bins\": {", X().cases, X().evals,
          X().distinct.size());
  const char *s = "";
  for (auto &b : X().bins) fprintf(f, "%s\"%s\": %lld", s, b.k, b.n), s = ", ";
  fprintf(f, "}, \"samples\": [");
  s = "";
  for (auto &b : X().samples) fprintf(f, "%s\"%s\"", s, esc(b).c_str()), s = ", ";
  fprintf(f, "], \"failcount\": {");
  s = "";
  for (auto &b : X().failcount) fprintf(f, "%s\"%s\": %lld", s, esc(b.first).c_str(), b.second), s = ", ";
  fprintf(f, "}, \"failures\": [");
  s = "";
  for (auto &b : X().failures)
    fprintf(f, "%s{\"key\": \"%s\", \"case\": %ld, \"msg\": \"%s\"}", s, esc(b.key).c_str(), b.c, esc(b.msg).c_str()),
        s = ", ";
  fprintf(f, "]}\n");
  fclose(f);
}

// ---------------------------------------------------------------- comparisons
template <typename P>
constexpr LD rel() {
  return std::is_same<P, float>::value ? (LD)3e-5 : (LD)1e-10;
}
inline bool fin(LD a) { return std::isfinite((double)a) || std::isfinite(a); }
// |a-b| <= tol, both finite
inline bool near(LD a, LD b, LD tol) { return std::isfinite(a) && std::isfinite(b) && fabsl(a - b) <= tol; }

inline double D(LD x) { return (double)x; }

}  // namespace vh

// the harness defines this
void run_case(long idx, vh::Rng &r);
#ifdef VH_FINISH
void finish();  // optional closing oracle over everything recorded
#endif

#ifndef VH_NO_MAIN
int main(int argc, char **argv) {
  using namespace vh;
  Ctx &x         = X();
  const char *pf = nullptr;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx       = [&] { return i + 1 < argc ? argv[++i] : (char *)"0"; };
    if (a == "--seed") x.seed = strtoull(nx(), 0, 10);
    else if (a == "--cases") x.cases = atol(nx());
    else if (a == "--from") x.from = atol(nx());
    else if (a == "--only") x.only = atol(nx());
    else if (a == "--out") x.out = nx();
    else if (a == "--progress") pf = nx();
    else if (a == "-v") x.verbose = true;
  }
  if (pf) {
    int fd = open(pf, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 8) == 0) {
      void *m = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) x.progress = (volatile int64_t *)m;
    }
    if (fd >= 0) close(fd);
  }
  long a = x.only >= 0 ? x.only : x.from, b = x.only >= 0 ? x.only + 1 : x.cases;
  for (long i = a; i < b; i++) {
    x.cur = i;
    if (x.progress) *x.progress = i;
    Rng r(x.seed, (uint64_t)i);
    run_case(i, r);
    if (x.failures.size() > 40) break;
  }
#ifdef VH_FINISH
  if (x.only < 0) {
    x.cur = -1;
    finish();
  }
#endif
  dump();
  if (x.verbose) fprintf(stderr, "cases %ld evals %lld fails %zu\n", b - a, x.evals, x.failures.size());
  return x.failures.empty() ? 0 : 1;
}
#endif
