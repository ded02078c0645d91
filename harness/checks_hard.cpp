// C31: programs built for hard decisions (HARD_INPUT).
#include "codec.hpp"
#include <algorithm>
#include <cstring>
using namespace pbt;

namespace {

// The builds: the default soft arithmetic and the two others.
struct Build { const char *lib; const Arith &A; double llr; };
Build build(Ctx &c, int codec, bool minsum = true) {
  long w = codec == DTRM1 ? 0 : c.src.weighted({3, 1, minsum ? 1 : 0});
  c.label(w == 0 ? "epsilon" : w == 1 ? "exact LLR" : "min-sum");
  if (w == 1) return {"hrho1", rho1(), 1.0};
  if (w == 2) return {"hrho5", rho5(), 1.0};
  return {"hard", eps5(), std::log(4.0)};
}
Cfg gen(Ctx &c, int mtop, int Lmax) {
  CfgLim l; l.mmax = mtop; l.Lmax = Lmax;
  Cfg f = gen_cfg(c, (int)c.src.draw(4), l);
  f.var = false; f.stages.clear();   // stages are chosen by the distance to the received values
  return f;
}
// Another received vector with the same signs. Not positive values are taken as 0.
Vec with_signs(Src &s, const Bits &b, const char **how = nullptr) {
  Vec y(b.size());
  Rng q = s.bulk();
  int kind = (int)s.draw(5);
  double e = s.real(-12, 12);
  for (size_t i = 0; i < y.size(); i++) {
    double v = kind == 0 ? 1 : kind == 1 ? std::pow(10, e) : kind == 2 ? q.u() + 1e-9 : kind == 3 ? std::pow(10, 24 * q.u() - 12) : std::fabs(q.gauss()) + 1e-300;
    y[i] = b[i] ? v : -v;
    if (!b[i] && kind >= 2 && q.below(8) == 0) y[i] = q.below(2) ? 0.0 : -0.0;
  }
  if (how) *how = kind == 0 ? "equal" : kind == 1 ? "scaled" : kind == 2 ? "uniform" : kind == 3 ? "any" : "normal";
  return y;
}
double any_sg(Src &s) { return s.coin() ? s.real(0.1, 3) : std::pow(10, s.real(-3, 3)); }
void ok(Ctx &c, Inst &in) { if (!in.ok()) c.fail("configuration is not accepted: %s", in.a.ui_text()); }
// Hard decisions: a code word with errors.
Bits received(Ctx &c, const Cfg &f, Bits *x = nullptr, long *wrong = nullptr) {
  Src &s = c.src;
  Bits w = gen_bits(s, f.k()), b = ref_code(f, w);
  Rng q = s.bulk();
  long e = s.chance(1, 6) ? f.n() : s.small(0, std::max(1, f.n() / 3));
  long n = 0;
  Bits d = b;
  if (e == f.n()) for (int &v : d) v = (int)q.below(2);
  else for (; e > 0; e--) d[q.below(d.size())] ^= 1;
  for (size_t i = 0; i < b.size(); i++) n += b[i] != d[i];
  if (x) *x = w;
  if (wrong) *wrong = n;
  return d;
}

SUB("C31", "signs_only", "plain", 300000, 18000000, "at least one wrong hard decision, different magnitudes") {
  Src &s = c.src;
  Cfg f = gen(c, s.chance(1, 8) ? 8 : 6, 12);
  Build B = build(c, f.codec);
  long wrong;
  Bits b = received(c, f, nullptr, &wrong);
  const char *h[2];
  Vec y[2]; double sg[2];
  for (int t = 0; t < 2; t++) { y[t] = with_signs(s, b, &h[t]); sg[t] = any_sg(s); }
  c.note("%s %s | signs %s | %s at %.6g, %s at %.6g", B.lib, f.str().substr(0, 400).c_str(), show(b).c_str(), h[0], sg[0], h[1], sg[1]);
  Inst in(f, B.lib); ok(c, in);
  Bits x[2]; int rc[2];
  for (int t = 0; t < 2; t++) { in.sg(sg[t]); rc[t] = in.dec(y[t], x[t], f.k()); }
  if (rc[0] != rc[1]) c.fail("return codes %d and %d for the same signs", rc[0], rc[1]);
  if (x[0] != x[1]) c.fail("decoded %s and %s for the same signs", show(x[0]).c_str(), show(x[1]).c_str());
  c.nontrivial(wrong > 0 && y[0] != y[1]);
}
SUB("C31", "noiseless", "plain", 150000, 9000000, "nonzero information word") {
  Src &s = c.src;
  Cfg f = gen(c, s.chance(1, 8) ? 10 : 6, 12);
  Build B = build(c, f.codec);
  // The soft value of a bit is the product of up to 2^d signs; it has to be representable.
  int d0 = !strcmp(B.lib, "hard") ? 6 : !strcmp(B.lib, "hrho1") ? 5 : 30;
  if ((f.codec == POLAR ? f.m : f.r) > d0) { c.label("too weak"); return; }
  Bits x = gen_bits(s, f.k());
  const char *h;
  Vec y = with_signs(s, ref_code(f, x), &h);
  double sg = any_sg(s);
  c.note("%s %s | x=%s | %s at %.6g", B.lib, f.str().substr(0, 400).c_str(), show(x, 60).c_str(), h, sg);
  Inst in(f, B.lib); ok(c, in);
  in.sg(sg);
  Bits d;
  int rc = in.dec(y, d, f.k());
  if (rc) c.fail("return code %d for right signs", rc);
  if (d != x) c.fail("decoded %s, sent %s", show(d).c_str(), show(x).c_str());
  c.nontrivial(std::count(x.begin(), x.end(), 1) > 0);
}
SUB("C31", "by_rule", "plain", 300000, 18000000, "judged case with at least one wrong hard decision") {
  Src &s = c.src;
  Cfg f = gen(c, s.chance(1, 8) ? 8 : 6, 8);
  Build B = build(c, f.codec);
  long wrong;
  Bits b = received(c, f, nullptr, &wrong);
  Vec v(b.size());
  for (size_t i = 0; i < b.size(); i++) v[i] = b[i] ? B.llr : -B.llr;
  c.note("%s %s | signs %s", B.lib, f.str().substr(0, 400).c_str(), show(b).c_str());
  Ref r;
  if (!ref_sure(B.A, f, v, std::sqrt(2.0), r)) { c.label("near tie, not judged"); return; }
  Inst in(f, B.lib); ok(c, in);
  in.sg(any_sg(s));
  Bits d;
  int rc = in.dec(with_signs(s, b), d, f.k());
  if (rc != r.rc) c.fail("return code %d, expected %d", rc, r.rc);
  if (d != r.x) c.fail("decoded %s, expected %s (gap %.3g)", show(d).c_str(), show(r.x).c_str(), r.gap);
  c.nontrivial(wrong > 0);
}
// With lists of all words (or first order codes) the decoded word is one of the nearest to the signs.
SUB("C31", "nearest", "plain", 150000, 9000000, "the hard decisions are not a code word") {
  Src &s = c.src;
  Cfg f;
  f.codec = (int)s.i(1, 3);
  Build B = build(c, f.codec, false);
  int mtop = f.codec != DTRM1 && !strcmp(B.lib, "hard") ? 3 : 6;   // longer sums saturate
  f.m = (int)s.i(1, mtop); f.r = f.codec == POLAR ? f.m : 1;
  if (f.codec == GLP) {
    f.mask = std::string(binom(f.m, 1), '1');
    f.L = 1 << (f.m + 1);
  }
  if (f.codec == POLAR) {
    f.mask = std::string(f.n(), '0');
    int K = (int)s.i(1, std::min(f.n(), 8));
    Rng q = s.bulk();
    for (int i = 0; i < K; i++) f.mask[q.below(2) ? f.n() - 1 - q.below(std::min(f.n(), 2 * K)) : q.below(f.n())] = '1';
    f.L = 1 << f.ktot();
  }
  Bits b = received(c, f);
  c.note("%s %s | signs %s", B.lib, f.str().substr(0, 400).c_str(), show(b).c_str());
  Inst in(f, B.lib); ok(c, in);
  in.sg(any_sg(s));
  Bits d;
  int rc = in.dec(with_signs(s, b), d, f.k());
  if (rc) c.fail("return code %d", rc);
  int best = f.n() + 1, got = f.n() + 1;
  for (long w = 0; w < 1L << f.k(); w++) {
    Bits x(f.k()); for (int i = 0; i < f.k(); i++) x[i] = (w >> i) & 1;
    Bits cw = ref_code(f, x);
    int e = 0; for (int i = 0; i < f.n(); i++) e += cw[i] != b[i];
    best = std::min(best, e);
    if (x == d) got = e;
  }
  if (got != best) c.fail("decoded %s at distance %d, another word has distance %d", show(d).c_str(), got, best);
  c.nontrivial(best > 0);
}
// The decoders of first order codes, called directly.
SUB("C31", "first_order", "plain", 150000, 9000000, "the hard decisions are not a code word") {
  typedef int (*F)(int, double *, int *);
  typedef int (*FL)(int, double *, int, int *);
  static const char *libs[3] = {"util_hard", "util_hrho1", "util_hrho5"};
  static F one[3]; static FL lst[3];
  if (!one[0]) for (int t = 0; t < 3; t++) { one[t] = (F)lib_sym(libs[t], "rm1_dec_sh"); lst[t] = (FL)lib_sym(libs[t], "rm1_dec_lst"); }
  Src &s = c.src;
  int b = (int)s.draw(3);
  Cfg f; f.codec = DTRM1; f.r = 1;
  f.m = (int)s.i(1, b == 0 ? 3 : 6);
  Bits d = received(c, f);
  int L = s.coin() ? 0 : (int)s.i(1, f.n());
  c.note("%s m=%d L=%d | signs %s", libs[b], f.m, L, show(d).c_str());
  std::vector<Bits> x[2];
  int k = f.m + 1;
  for (int t = 0; t < 2; t++) {
    Vec y = with_signs(s, d);
    std::vector<int> o((size_t)std::max(1, L) * k, -7);
    Vec keep = y;
    if ((L ? lst[b](f.m, y.data(), L, o.data()) : one[b](f.m, y.data(), o.data())) != 0) c.fail("error");
    if (memcmp(keep.data(), y.data(), y.size() * sizeof(double))) c.fail("the received vector is changed");
    for (size_t i = 0; i < o.size(); i += k) x[t].push_back(Bits(o.begin() + i, o.begin() + i + k));
  }
  if (x[0] != x[1]) c.fail("first words %s and %s for the same signs", show(x[0][0]).c_str(), show(x[1][0]).c_str());
  int best = f.n() + 1, got = f.n() + 1;
  for (long w = 0; w < 1L << k; w++) {
    Bits z(k); for (int i = 0; i < k; i++) z[i] = (w >> i) & 1;
    Bits cw = ref_code(f, z);
    int e = 0; for (int i = 0; i < f.n(); i++) e += cw[i] != d[i];
    best = std::min(best, e);
    if (z == x[0][0]) got = e;
  }
  if (b != 2 || best == 0) if (got != best) c.fail("decoded %s at distance %d, another word has distance %d", show(x[0][0]).c_str(), got, best);
  c.nontrivial(best > 0);
}

}  // namespace
