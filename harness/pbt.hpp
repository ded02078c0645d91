// A small property-based testing engine with integrated shrinking.
//
// Every random decision of a case is one bounded choice taken from Src.  A case
// is therefore a sequence of integers; it can be recorded, replayed, and shrunk
// by deleting and lowering choices (0 is always the simplest alternative).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

typedef uint64_t u64;

inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline u64 hash_str(const std::string &s) {
  u64 h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return mix(h);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
  double u() { return ((next() >> 11) + 0.5) * (1.0 / 9007199254740992.0); }
  u64 below(u64 n) { return n ? next() % n : next(); }
  double gauss() {
    double a = u(), b = u();
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
};

// Choices are kept in shared memory, so the master can read those of a crashed worker.
struct Tape {
  static const size_t CAP = 1 << 18;
  volatile u64 n;
  u64 v[CAP];
};

struct Overrun {};  // the case took too many choices

class Src {
 public:
  Src(Tape *t, u64 seed) : tape(t), rng(seed), replay(nullptr), pos(0) { tape->n = 0; }
  Src(Tape *t, const std::vector<u64> *r) : tape(t), rng(0), replay(r), pos(0) { tape->n = 0; }
  // A choice in [0, n); n == 0 means any 64 bit value.
  u64 draw(u64 n) {
    u64 x;
    if (replay) {
      x = pos < replay->size() ? (*replay)[pos] : 0;
      pos++;
      if (n && x >= n) x = n - 1;
    }
    else x = n == 1 ? 0 : rng.below(n);
    if (tape->n >= Tape::CAP) throw Overrun();
    tape->v[tape->n] = x;
    tape->n = tape->n + 1;
    return x;
  }
  long i(long lo, long hi) { return hi <= lo ? lo : lo + (long)draw((u64)(hi - lo) + 1); }
  // True with probability num/den; false is the simple case.
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  bool coin() { return draw(2) != 0; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
  // Index i with probability proportional to w[i].
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned s = 0; for (unsigned x : w) s += x;
    u64 d = draw(s); size_t k = 0;
    for (unsigned x : w) { if (d < x) return k; d -= x; k++; }
    return 0;
  }
  // Biased to small values: the bit width is chosen first.
  long small(long lo, long hi) {
    long span = hi - lo; int b = 0;
    while (b < 62 && (1L << b) <= span) b++;
    int w = (int)draw(b + 1);
    long m = w >= 62 ? span : (1L << w) - 1;
    if (m > span) m = span;
    return lo + (long)draw((u64)m + 1);
  }
  // Geometric-like size.
  double u01() { return (double)draw(1u << 20) / (double)(1u << 20); }
  double real(double lo, double hi) { return lo + (hi - lo) * u01(); }
  // Standard normal from one choice, 0 -> 0.
  double gauss() {
    u64 d = draw(1u << 16);
    double p = ((double)(d >> 1) + 0.25) / (1u << 15) * 0.5;  // in (0, 1/2)
    double z = d == 0 ? 0.0 : probit(0.5 + p);
    return (d & 1) ? -z : z;
  }
  // A generator for bulk data derived from one choice.
  Rng bulk() { return Rng(mix(draw(1u << 30) + 77)); }
  size_t count() const { return tape->n; }
 private:
  static double probit(double p) {  // for p >= 1/2, bisection is enough
    double lo = 0, hi = 9;
    for (int k = 0; k < 45; k++) {
      double m = (lo + hi) / 2;
      if (0.5 * std::erfc(-m / 1.4142135623730951) < p) lo = m; else hi = m;
    }
    return lo;
  }
  Tape *tape; Rng rng; const std::vector<u64> *replay; size_t pos;
};

struct Fail { std::string msg; };

struct Stats {
  u64 evaluations = 0, nontrivial = 0;
  std::map<std::string, u64> labels;
};

class Ctx {
 public:
  Ctx(Src &s, bool thorough_) : src(s), thorough(thorough_) {}
  Src &src;
  bool thorough;
  std::string descr;              // description of the case, for samples and replay files
  bool nontriv = false;
  std::vector<std::string> labs;
  void label(const std::string &l) { labs.push_back(l); }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  // A listed finding (known-findings.txt) was met: counted, otherwise a failure.
  void known(const char *id, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
};

typedef std::function<void(Ctx &)> Prop;

struct Sub {
  std::string prop, name, rule, variant;  // variant: "plain" or "asan"
  long quick, thorough;
  Prop fn;
};
std::vector<Sub> &registry();
struct Reg {
  Reg(const char *p, const char *n, const char *variant, long q, long t, const char *rule, Prop f) {
    registry().push_back({p, n, rule, variant, q, t, f});
  }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define SUB(prop, name, variant, q, t, rule) \
  static void PBT_CAT(sub_, __LINE__)(pbt::Ctx &c); \
  static pbt::Reg PBT_CAT(reg_, __LINE__)(prop, name, variant, q, t, rule, PBT_CAT(sub_, __LINE__)); \
  static void PBT_CAT(sub_, __LINE__)(pbt::Ctx &c)

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// Directories.
extern std::string g_libdir;   // built codecs
extern std::string g_repo;     // the tree under test
std::string scratch();         // a private directory of the current process, removed by the master

}  // namespace pbt
