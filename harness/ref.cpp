// Reference decoders, written from the definitions; plain recursion, paths are copied.
#include "codec.hpp"
#include <algorithm>
#include <memory>
using namespace pbt;

namespace {

const double CLIP = 1.0 - 1e-8;
double clip(double e) { return e > CLIP ? CLIP : (e < -CLIP ? -CLIP : e); }

struct Eps5 : Arith {
  double from_llr(double l) const { return clip(-std::tanh(0.5 * l)); }
  double x(double a, double b) const { return a * b; }
  double add(double a, double b) const { return clip((a + b) / (1.0 + a * b)); }
  double lp0(double e) const { return std::log(1.0 + e); }
  double lp1(double e) const { return std::log(1.0 - e); }
  double llr(double e) const { return std::log((1.0 + e) / (1.0 - e)); }
};
struct Rho : Arith {  // e is log(P0/P1)
  double from_llr(double l) const { return -l; }
  double add(double a, double b) const { return a + b; }
  double llr(double e) const { return e; }
};
double sp(double t) { return t > 0 ? t + std::log1p(std::exp(-t)) : std::log1p(std::exp(t)); }  // log(1+e^t)
struct Rho1 : Rho {
  double x(double a, double b) const {
    double p = std::fabs(a), q = std::fabs(b), m = std::min(p, q), v;
    if (m < 1e-3) v = 2 * std::atanh(std::tanh(p / 2) * std::tanh(q / 2));
    else v = m + std::log1p(std::exp(-(p + q))) - std::log1p(std::exp(-std::fabs(p - q)));
    return (a < 0) != (b < 0) ? -v : v;
  }
  double lp0(double e) const { return -sp(-e); }
  double lp1(double e) const { return -sp(e); }
};
struct Rho5 : Rho {
  double x(double a, double b) const {
    double m = std::min(std::fabs(a), std::fabs(b));
    return ((a < 0) != (b < 0)) ? -m : m;
  }
  double lp0(double e) const { return -sp(-e); }
  double lp1(double e) const { return -sp(e); }
};

struct Gap {
  double g = 1e9, small = 1e9;
  void see(double d) { if (d < g) g = d; }
  double val(double e) { double a = std::fabs(e); if (a < small) small = a; return e; }   // a soft value
};

double add_t(const Arith &A, double a, double b, Gap &g) {
  double s = std::fabs(a) + std::fabs(b);
  if (std::fabs(a + b) <= 1e-8 * s) g.see(0);
  return g.val(A.add(a, b));
}

// Information bits of a word of the full space of length 2^m.
Bits mm_info(const Bits &y) {
  Bits f = y;
  size_t n = f.size();
  for (size_t h = n / 2; h >= 1; h /= 2)
    for (size_t i = 0; i < n; i += 2 * h)
      for (size_t j = 0; j < h; j++) f[i + j] ^= f[i + j + h];
  return f;
}

Bits full_encode(int m, const Bits &x) {
  std::vector<unsigned> c((size_t)1 << m);
  for (size_t i = 0; i < c.size(); i++) c[i] = (unsigned)(c.size() - 1 - i);
  return ref_encode(m, c, x);
}

Bits hard(const Vec &e, Bits &x, Gap &g) {
  Bits y(e.size());
  for (size_t i = 0; i < e.size(); i++) { y[i] = e[i] > 0 ? 0 : 1; if (e[i] == 0) g.see(0); }
  x = mm_info(y);
  return y;
}

// Log-probabilities of all words of the first order code.
void fo_words(const Arith &A, const Vec &e, double s, Bits pre, std::vector<std::pair<double, Bits>> &out, Gap &g) {
  pre.push_back(0);
  if (e.size() == 1) {
    out.push_back({s + A.lp0(e[0]), pre});
    pre.back() = 1;
    out.push_back({s + A.lp1(e[0]), pre});
    return;
  }
  size_t h = e.size() / 2;
  for (int v = 0; v < 2; v++) {
    double t = s;
    Vec u(h);
    for (size_t i = 0; i < h; i++) {
      double q = A.x(e[i], e[i + h]);
      t += v ? A.lp1(q) : A.lp0(q);
      u[i] = A.add(v ? -e[i] : e[i], e[i + h]);
    }
    pre.back() = v;
    fo_words(A, u, t, pre, out, g);
  }
}

Bits plain_dec(const Arith &A, int m, int r, const Vec &e, Bits &x, Gap &g, bool first_order) {
  size_t n = e.size(), h = n / 2;
  if (!first_order && r == 0) {
    double s = 0, t = 0;
    for (double v : e) { double l = A.llr(v); s += l; t += std::fabs(l); }
    g.see(std::fabs(s) / (t + 1e-8 * n));   // logarithms of values close to 1 are rounded
    int b = s > 0 ? 0 : 1;
    x.push_back(b);
    return Bits(n, b);
  }
  if (r == m) {
    Bits xi; Bits y = hard(e, xi, g);
    x.insert(x.end(), xi.begin(), xi.end());
    return y;
  }
  if (first_order && r == 1) {
    // Best word by the Hadamard recursion.
    std::vector<std::pair<double, Bits>> w;
    fo_words(A, e, 0, Bits(), w, g);
    size_t best = 0; double second = -1e300;
    for (size_t i = 1; i < w.size(); i++) if (w[i].first > w[best].first) best = i;
    for (size_t i = 0; i < w.size(); i++) if (i != best && w[i].first > second) second = w[i].first;
    g.see((w[best].first - second) / (1 + std::fabs(w[best].first)));
    Bits bx = w[best].second, by = ref_encode(m, rm_coeffs(m, 1), bx);
    x.insert(x.end(), bx.begin(), bx.end());
    return by;
  }
  Vec ev(h), eu(h);
  for (size_t i = 0; i < h; i++) ev[i] = g.val(A.x(e[i], e[i + h]));
  Bits v = plain_dec(A, m - 1, r - 1, ev, x, g, first_order);
  for (size_t i = 0; i < h; i++) eu[i] = add_t(A, v[i] ? -e[i] : e[i], e[i + h], g);
  Bits u = plain_dec(A, m - 1, r, eu, x, g, first_order);
  Bits y(n);
  for (size_t i = 0; i < h; i++) { y[i] = v[i] ^ u[i]; y[i + h] = u[i]; }
  return y;
}

typedef std::shared_ptr<const Vec> PV;
typedef std::shared_ptr<const Bits> PB;
struct Path {
  double met = 0;
  int perm = 0;
  bool tie = false;
  Bits info;
  std::vector<PV> E;
  std::vector<PB> C;
};

struct ListDec {
  const Arith &A; int L; Gap g;
  std::vector<bool> active;   // border nodes (RM) or positions (polar)
  size_t node = 0, last_node = 0;
  std::vector<std::vector<int>> perms;
  std::function<Bits(const Path &)> word;
  explicit ListDec(const Arith &a) : A(a), L(1) {}

  void prune(std::vector<Path> &v) {
    if ((int)v.size() > L) {
      std::stable_sort(v.begin(), v.end(), [](const Path &a, const Path &b) { return a.met > b.met; });
      bool fin = node == last_node;
      // the closest pair of a kept and a dropped path that are not equivalent
      for (int i = L - 1; i >= 0 && g.g > 0; i--) {   // (a tie settles that it is not judged)
        bool far = true;
        for (size_t j = L; j < v.size(); j++) {
          double d = (v[i].met - v[j].met) / (1 + std::fabs(v[i].met));
          if (d > 1e-5) break;
          far = false;
          bool eq = (v[i].info == v[j].info && perms[v[i].perm] == perms[v[j].perm]) || (fin && word(v[i]) == word(v[j]));
          if (!eq) g.see(d < 1e-13 ? 0 : d);
          if (g.g <= 0) break;
        }
        if (far) break;
      }
      v.resize(L);
    }
    for (auto &p : v) { if (p.tie) g.see(0); p.tie = false; }
  }
  void skip(std::vector<Path> &v) {
    for (auto &p : v) {
      const Vec &e = *p.E.back();
      for (double t : e) p.met += A.lp0(t);
      p.C.push_back(std::make_shared<Bits>(e.size(), 0));
      p.E.pop_back();
    }
  }
  void repetition(std::vector<Path> &v) {
    std::vector<Path> o;
    for (auto &p : v) {
      const Vec e = *p.E.back();
      p.E.pop_back();
      for (int b = 0; b < 2; b++) {
        Path q = p;
        for (double t : e) q.met += b ? A.lp1(t) : A.lp0(t);
        q.info.push_back(b);
        q.C.push_back(std::make_shared<Bits>(e.size(), b));
        o.push_back(std::move(q));
      }
    }
    v.swap(o);
    prune(v);
  }
  void rate1(std::vector<Path> &v) {
    std::vector<Path> o;
    for (auto &p : v) {
      const Vec e = *p.E.back();
      p.E.pop_back();
      size_t n = e.size();
      Bits h(n); double best = 0;
      for (size_t i = 0; i < n; i++) {
        h[i] = e[i] > 0 ? 0 : 1;
        if (e[i] == 0) g.see(0);
        best += h[i] ? A.lp1(e[i]) : A.lp0(e[i]);
      }
      auto pen = [&](size_t i) { return h[i] ? A.lp0(e[i]) - A.lp1(e[i]) : A.lp1(e[i]) - A.lp0(e[i]); };  // <= 0
      auto push = [&](std::vector<size_t> flips, bool tie) {
        Path q = p;
        Bits y = h;
        q.met += best;
        for (size_t f : flips) { q.met += pen(f); y[f] ^= 1; }
        Bits xi = mm_info(y);
        q.info.insert(q.info.end(), xi.begin(), xi.end());
        q.C.push_back(std::make_shared<Bits>(y));
        q.tie = tie;
        o.push_back(std::move(q));
      };
      if (n == 2) {
        push({}, false); push({0}, false); push({1}, false); push({0, 1}, false);
        continue;
      }
      std::vector<size_t> ord(n);
      for (size_t i = 0; i < n; i++) ord[i] = i;
      std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return pen(a) > pen(b); });
      double s[4]; for (int k = 0; k < 4; k++) s[k] = pen(ord[k]);
      auto close = [&](double a, double b) { return std::fabs(a - b) <= 1e-6 * (std::fabs(a) + std::fabs(b)) || std::fabs(a - b) < 1e-12; };
      bool t12 = close(s[0], s[1]), t23 = close(s[1], s[2]), t34 = close(s[2], s[3]);
      push({}, false);
      push({ord[0]}, t12 && t23);
      push({ord[1]}, t23);
      bool two = s[0] + s[1] > s[2];
      bool td = close(s[0] + s[1], s[2]);
      if (two) push({ord[0], ord[1]}, t23 || td);
      else push({ord[2]}, t34 || td);
    }
    v.swap(o);
    prune(v);
  }
  void rm(std::vector<Path> &v, int m, int r) {
    if (r == 0 || r == m) {
      last_node = active.size() - 1;
      bool a = active[node];
      if (!a) skip(v);
      else if (r == 0) repetition(v);
      else rate1(v);
      node++;
      return;
    }
    split_v(v);
    rm(v, m - 1, r - 1);
    split_u(v);
    rm(v, m - 1, r);
    combine(v);
  }
  void polar(std::vector<Path> &v, int m) {
    if (m == 0) {
      last_node = active.size() - 1;
      if (!active[node]) skip(v); else repetition(v);
      node++;
      return;
    }
    split_v(v);
    polar(v, m - 1);
    split_u(v);
    polar(v, m - 1);
    combine(v);
  }
  void split_v(std::vector<Path> &v) {
    for (auto &p : v) {
      const Vec &e = *p.E.back(); size_t h = e.size() / 2;
      auto q = std::make_shared<Vec>(h);
      for (size_t i = 0; i < h; i++) (*q)[i] = g.val(A.x(e[i], e[i + h]));
      p.E.push_back(q);
    }
  }
  void split_u(std::vector<Path> &v) {
    for (auto &p : v) {
      const Vec &e = *p.E.back(); size_t h = e.size() / 2;
      const Bits &c = *p.C.back();
      auto q = std::make_shared<Vec>(h);
      for (size_t i = 0; i < h; i++) (*q)[i] = add_t(A, c[i] ? -e[i] : e[i], e[i + h], g);
      p.E.back() = q;
    }
  }
  void combine(std::vector<Path> &v) {
    for (auto &p : v) {
      PB u = p.C.back(); p.C.pop_back();
      PB w = p.C.back(); p.C.pop_back();
      size_t h = u->size();
      auto y = std::make_shared<Bits>(2 * h);
      for (size_t i = 0; i < h; i++) { (*y)[i] = (*w)[i] ^ (*u)[i]; (*y)[i + h] = (*u)[i]; }
      p.C.push_back(y);
    }
  }
};

unsigned permute_index(unsigned i, const std::vector<int> &p) {
  unsigned o = 0;
  for (size_t j = 0; j < p.size(); j++) o |= ((i >> j) & 1u) << p[j];
  return o;
}

Ref run_list(ListDec &d, const Cfg &c, int L, const Vec &llr, bool is_polar) {
  size_t n = llr.size();
  d.L = L;
  d.perms = c.perms;
  if (d.perms.empty()) { std::vector<int> id(c.m); for (int i = 0; i < c.m; i++) id[i] = i; d.perms.push_back(id); }
  std::vector<unsigned> co = c.coeffs();
  std::map<unsigned, int> pos;
  for (size_t i = 0; i < co.size(); i++) pos[co[i]] = (int)i;
  d.word = [&](const Path &p) {
    Bits x(co.size(), 0);
    for (size_t i = 0; i < co.size() && i < p.info.size(); i++) {
      auto it = pos.find(permute_index(co[i], d.perms[p.perm]));
      if (it != pos.end()) x[it->second] = p.info[i];
    }
    return x;
  };
  Vec e(n);
  for (size_t i = 0; i < n; i++) e[i] = d.A.from_llr(llr[i]);
  std::vector<Path> v;
  for (size_t k = 0; k < d.perms.size(); k++) {
    auto q = std::make_shared<Vec>(n);
    for (size_t i = 0; i < n; i++) (*q)[i] = e[permute_index((unsigned)i, d.perms[k])];
    Path p; p.perm = (int)k; p.E.push_back(q);
    v.push_back(p);
  }
  if (is_polar) {
    d.active.clear();
    for (size_t t = 0; t < n; t++) d.active.push_back(c.mask[t] != '0');
    d.polar(v, c.m);
  }
  else {
    size_t nn = border_nodes(c.m, c.r).size();
    for (size_t t = 0; t < nn; t++) d.active.push_back(c.mask[t] != '0');
    d.rm(v, c.m, c.r);
  }
  std::stable_sort(v.begin(), v.end(), [](const Path &a, const Path &b) { return a.met > b.met; });
  Ref o;
  for (auto &p : v) o.list.push_back({p.met, d.word(p)});
  o.x = o.list[0].second; o.metric = o.list[0].first;
  for (auto &l : o.list)
    if (l.second != o.x) { d.g.see((o.metric - l.first) / (1 + std::fabs(o.metric))); break; }
  o.gap = d.g.g;
  o.small = d.g.small;
  return o;
}

}  // namespace

const Arith &eps5() { static Eps5 a; return a; }
const Arith &rho1() { static Rho1 a; return a; }
const Arith &rho5() { static Rho5 a; return a; }

static Ref plain(const Arith &A, int m, int r, const Vec &llr, bool fo) {
  Vec e(llr.size());
  for (size_t i = 0; i < e.size(); i++) e[i] = A.from_llr(llr[i]);
  Ref o; Gap g;
  plain_dec(A, m, r, e, o.x, g, fo);
  o.gap = g.g;
  o.small = g.small;
  return o;
}
Ref ref_dtrm0(const Arith &A, int m, int r, const Vec &llr) { return plain(A, m, r, llr, false); }
Ref ref_dtrm1(const Arith &A, int m, int r, const Vec &llr) { return plain(A, m, r, llr, true); }
std::vector<std::pair<double, Bits>> ref_first_order(const Arith &A, const Vec &e) {
  std::vector<std::pair<double, Bits>> w; Gap g;
  fo_words(A, e, 0, Bits(), w, g);
  return w;
}
Ref ref_glp(const Arith &A, const Cfg &c, int L, const Vec &llr) { ListDec d(A); return run_list(d, c, L, llr, false); }
Ref ref_polar(const Arith &A, const Cfg &c, const Vec &llr) {
  ListDec d(A);
  Ref o = run_list(d, c, c.L, llr, true);
  if (!c.crc.empty()) {
    size_t k = c.k();
    // The order of the list matters now: the first valid against every other valid one and, for an erasure, the best.
    double g = d.g.g == o.gap ? o.gap : o.gap;
    int first = -1;
    auto valid = [&](const Bits &w) {
      Bits x(w.begin(), w.begin() + k), t(w.begin() + k, w.end());
      return ref_crc(x, c.crc) == t;
    };
    for (size_t i = 0; i < o.list.size(); i++) if (valid(o.list[i].second)) { first = (int)i; break; }
    o.pick = first;
    if (first < 0) o.rc = 1;
    else {
      o.x = o.list[first].second; o.metric = o.list[first].first;
      for (size_t i = first + 1; i < o.list.size(); i++)
        if (valid(o.list[i].second) && o.list[i].second != o.x) { g = std::min(g, (o.metric - o.list[i].first) / (1 + std::fabs(o.metric))); break; }
    }
    o.gap = g;
    o.x.resize(k);
  }
  return o;
}
static Ref decode_llr(const Arith &A, const Cfg &c, const Vec &y, double sg, const Vec &llr) {
  switch (c.codec) {
    case DTRM0: return ref_dtrm0(A, c.m, c.r, llr);
    case DTRM1: return ref_dtrm1(A, c.m, c.r, llr);
    case POLAR: return ref_polar(A, c, llr);
    default:
      if (!c.var) return ref_glp(A, c, c.L, llr);
      Ref o; double g = 1e9;
      for (auto &s : c.stages) {
        o = ref_glp(A, c, s.first, llr);
        g = std::min(g, o.gap);
        Vec w = bpsk(ref_encode(c.m, c.coeffs(), o.x));
        double d = 0;
        for (size_t i = 0; i < w.size(); i++) d += (y[i] - w[i]) * (y[i] - w[i]);
        d /= sg * sg;
        g = std::min(g, std::fabs(d - s.second) / (1 + std::fabs(s.second)));
        if (d < s.second) break;
      }
      o.gap = g;
      return o;
  }
}
Ref ref_decode(const Arith &A, const Cfg &c, const Vec &y, double sg) {
  Vec llr(y.size());
  for (size_t i = 0; i < y.size(); i++) llr[i] = y[i] * 2 / (sg * sg);
  return decode_llr(A, c, y, sg, llr);
}
bool ref_sure(const Arith &A, const Cfg &c, const Vec &y, double sg, Ref &out, double mingap) {
  out = ref_decode(A, c, y, sg);
  if (out.gap < mingap) return false;
  Rng r(4242);
  for (int t = 0; t < 2; t++) {
    Vec z = y;
    for (double &v : z) v *= 1 + 1e-8 * (r.u() - 0.5);
    Ref q = ref_decode(A, c, z, sg);
    if (q.gap < mingap || q.x != out.x || q.rc != out.rc) return false;
  }
  return true;
}

Ref ref_ml(const Cfg &c, const Vec &y) {
  int k = c.k();
  Ref o; double best = -1e300, second = -1e300;
  std::vector<Vec> base(k);
  double t = 1e-12; for (double v : y) t += std::fabs(v);
  // Gray code over information words: flip the generator rows.
  Bits x(k, 0);
  Bits w = ref_code(c, x);
  std::vector<Bits> row(k);
  for (int i = 0; i < k; i++) { Bits e(k, 0); e[i] = 1; row[i] = ref_code(c, e); }
  for (unsigned long g = 0;; g++) {
    double s = 0;
    for (size_t i = 0; i < y.size(); i++) s += w[i] ? y[i] : -y[i];
    if (s > best) { second = best; best = s; o.x = x; }
    else if (s > second) second = s;
    if (g + 1 >= (1UL << k)) break;
    int b = __builtin_ctzl(g + 1);
    x[b] ^= 1;
    for (size_t i = 0; i < w.size(); i++) w[i] ^= row[b][i];
  }
  o.gap = (best - second) / t;
  o.metric = best;
  return o;
}
