// C16: the soft arithmetic of the formats, and decoders compiled with them.
#include "codec.hpp"
#include <algorithm>
using namespace pbt;

namespace {
struct Fmt {
  std::string name;
  void (*from)(const double *, double *, int);
  double (*x)(double, double), (*add)(double, double), (*inv)(double), (*lp0)(double), (*lp1)(double);
  double (*lp0_0)(double), (*lp1_0)(double), (*lp0_1)(double), (*lp1_1)(double), (*sub)(double), (*llr)(double);
  int (*is0)(double), (*stronger)(double, double);
  double (*strongest)(), (*dec)(int), (*xdec)(double, double), (*exd)(double, double);
};
Fmt &fmt(int k) {
  static Fmt f[3]; static bool init = false;
  static const char *nm[3] = {"eps5", "rho1", "rho5"};
  if (!init) {
    for (int i = 0; i < 3; i++) {
      std::string l = std::string("fmt_") + nm[i];
      f[i].name = nm[i];
#define G(m, s) *(void **)&f[i].m = lib_sym(l, s)
      G(from, "f_from_llr"); G(x, "f_xor"); G(add, "f_add"); G(inv, "f_inv"); G(lp0, "f_lnp0"); G(lp1, "f_lnp1");
      G(lp0_0, "f_lnp0_0"); G(lp1_0, "f_lnp1_0"); G(lp0_1, "f_lnp0_1"); G(lp1_1, "f_lnp1_1"); G(sub, "f_sub"); G(llr, "f_llr");
      G(is0, "f_is0"); G(stronger, "f_stronger"); G(strongest, "f_strongest"); G(dec, "f_dec"); G(xdec, "f_xor_dec"); G(exd, "f_est_xor_dec");
    }
    init = true;
  }
  return f[k];
}
double fr(Fmt &f, double l) { double e; f.from(&l, &e, 1); return e; }
bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
// Exact combination of two log-likelihood ratios, in a form without cancellation.
double boxplus(double a, double b) {
  double s = (a < 0) != (b < 0) ? -1 : 1, x = std::fabs(a), y = std::fabs(b), m = std::min(x, y), M = std::max(x, y);
  // log((1 + e^(x+y)) / (e^x + e^y)) = m + log1p(e^-(x+y)) - log1p(e^-(M-m))
  double v = m + std::log1p(std::exp(-(x + y))) - std::log1p(std::exp(-(M - m)));
  if (m < 1e-3) v = 2 * std::atanh(std::tanh(x / 2) * std::tanh(y / 2));
  return s * v;
}
double gen_llr(Src &s, double top) {
  double v;
  switch (s.draw(4)) {
    case 0: v = s.real(0, 4); break;
    case 1: v = s.real(0, top); break;
    case 2: v = std::pow(10, -s.real(0, 6)); break;
    default: v = 0.25 * s.i(0, (long)(4 * std::min(top, 14.0)));
  }
  return s.coin() ? -v : v;
}
}  // namespace

SUB("C16", "laws", "plain", 1500000, 90000000, "both log-likelihoods are nonzero and different") {
  Src &s = c.src;
  int k = (int)s.draw(3);
  Fmt &f = fmt(k);
  bool eps = k == 0;
  double top = eps ? 14 : k == 1 ? 300 : 1e6;
  double a = gen_llr(s, top), b = gen_llr(s, top), d = gen_llr(s, eps ? 4 : top);   // positive: 0 is more likely
  c.note("%s llr %.17g %.17g %.17g", f.name.c_str(), a, b, d);
  c.label(f.name);
  double A = fr(f, -a), B = fr(f, -b), D = fr(f, -d);
  double T = eps ? 2e-6 : 1e-9;
  c.nontrivial(a != 0 && b != 0 && a != b);
  if (!near(f.llr(A), a, T)) c.fail("round trip of %g gives %g", a, f.llr(A));
  if (a != 0 && f.is0(A) != (a > 0)) c.fail("the estimate of %g votes for %d", a, !f.is0(A));
  if (!near(f.llr(f.inv(A)), -a, T)) c.fail("negation of %g gives %g", a, f.llr(f.inv(A)));
  if (f.inv(f.inv(A)) != A) c.fail("double negation of %g", a);
  // XOR.
  double x = f.llr(f.x(A, B)), want = k == 2 ? (a == 0 || b == 0 ? 0 : ((a < 0) != (b < 0) ? -1 : 1) * std::min(std::fabs(a), std::fabs(b))) : boxplus(a, b);
  if (!near(x, want, T)) c.fail("XOR of %g and %g gives %g, expected %g", a, b, x, want);
  if (!near(f.llr(f.x(B, A)), x, 1e-12)) c.fail("XOR of %g and %g is not commutative", a, b);
  if (!near(f.llr(f.x(f.inv(A), B)), -x, T)) c.fail("XOR of %g negated and %g gives %g", a, b, f.llr(f.x(f.inv(A), B)));
  if (std::fabs(x) > std::min(std::fabs(a), std::fabs(b)) * (1 + T) + T) c.fail("XOR of %g and %g is stronger than both: %g", a, b, x);
  if (!near(f.llr(f.x(f.x(A, B), D)), f.llr(f.x(A, f.x(B, D))), 4 * T)) c.fail("XOR is not associative");
  // ADD.
  if (!eps || (std::fabs(a + b) <= 14 && std::fabs(a) <= 9 && std::fabs(b) <= 9)) {
    double t = f.llr(f.add(A, B));
    if (!near(t, a + b, eps ? 2e-6 : 1e-12)) c.fail("sum of %g and %g gives %g", a, b, t);
    if (!near(f.llr(f.add(B, A)), t, 1e-12)) c.fail("the sum is not commutative");
    double u = f.llr(f.add(f.inv(A), B));
    if (!near(u, b - a, eps ? 2e-6 : 1e-9)) c.fail("sum of %g negated and %g gives %g", a, b, u);
  }
  // Probabilities, as far as the exponential does not overflow.
  if (std::fabs(a) < 600) {
    if (!near(f.lp0(A) - f.lp1(A), a, T)) c.fail("ln P0 - ln P1 of %g gives %g", a, f.lp0(A) - f.lp1(A));
    if (std::fabs(a) < 200) {
      double p = std::exp(f.lp0(A)) + std::exp(f.lp1(A));
      if (!near(p, eps ? 2 : 1, 1e-9)) c.fail("the probabilities of %g add up to %g", a, p);
    }
    if (a > 0) {
      if (!near(f.lp0_0(A), f.lp0(A), 1e-12) || !near(f.lp1_0(A), f.lp1(A), 1e-12)) c.fail("probabilities of an estimate of 0: %g", a);
      if (!near(f.sub(A), -a, T)) c.fail("ln P1 - ln P0 of %g gives %g", a, f.sub(A));
    }
    if (a < 0 && (!near(f.lp0_1(A), f.lp0(A), 1e-12) || !near(f.lp1_1(A), f.lp1(A), 1e-12))) c.fail("probabilities of an estimate of 1: %g", a);
  }
  // Order.
  if (a - b > 1e-5 * (1 + std::fabs(b)) + (eps ? 1e-5 * std::exp(std::max(std::fabs(a), std::fabs(b))) * 1e-4 : 0)) {
    if (!f.stronger(A, B) || f.stronger(B, A)) c.fail("order of %g and %g", a, b);
  }
  if (f.stronger(A, f.strongest())) c.fail("%g is stronger than the strongest", a);
  // Decisions.
  for (int u = 0; u < 2; u++) {
    if (!near(f.llr(f.exd(A, f.dec(u))), u ? -a : a, T)) c.fail("%g with the decision %d gives %g", a, u, f.llr(f.exd(A, f.dec(u))));
    for (int v = 0; v < 2; v++) if (f.xdec(f.dec(u), f.dec(v)) != f.dec(u ^ v)) c.fail("decisions %d and %d", u, v);
  }
}
SUB("C16", "saturation", "plain", 500000, 30000000, "a strong log-likelihood") {
  // Any finite input gives a finite estimate of the right sign, order and bounded strength.
  Src &s = c.src;
  int k = (int)s.draw(3);
  Fmt &f = fmt(k);
  double a = std::pow(10, s.real(-300, 300)), b = std::pow(10, s.real(-3, 6));
  if (s.coin()) a = s.real(0, 2000);
  if (s.coin()) a = -a;
  if (s.coin()) b = -b;
  c.note("%s llr %.17g %.17g", f.name.c_str(), a, b);
  c.nontrivial(std::fabs(a) > 20);
  double A = fr(f, -a), B = fr(f, -b);
  if (!std::isfinite(A)) c.fail("the estimate of %g is %g", a, A);
  if (std::fabs(a) > 1e-15 && f.is0(A) != (a > 0)) c.fail("the estimate of %g votes for %d", a, !f.is0(A));
  if (k == 0) {
    double vals[] = {f.lp0(A), f.lp1(A), f.llr(A), f.add(A, B), f.add(f.inv(A), B), f.x(A, B), f.llr(f.add(A, B)), f.llr(f.add(f.inv(A), f.inv(B)))};
    for (double v : vals) if (!std::isfinite(v)) c.fail("not finite for %g, %g", a, b);
    if (std::fabs(A) >= 1) c.fail("estimate %.17g", A);
    double t = f.llr(f.add(A, B));
    if (std::fabs(a) > 1e-6 && (a > 0) == (b > 0) && ((t > 0) != (a > 0) || std::fabs(t) < 0.999 * std::min(18.0, std::max(std::fabs(a), std::fabs(b))))) c.fail("sum of %g and %g gives %g", a, b, t);
  }
  else if (f.add(A, B) != a + b && std::fabs(a) < 1e290) c.fail("sum of %g and %g gives %g", a, b, f.add(A, B));
  if (k == 2) { double x = f.x(A, B), w = ((a < 0) != (b < 0) ? -1 : 1) * std::min(std::fabs(a), std::fabs(b)); if (std::fabs(a) > 1e-150 && std::fabs(a) < 1e150 && x != w) c.fail("XOR of %g and %g gives %g", a, b, x); }
}

namespace {
struct Case { Cfg f; Bits x; Rx rx; int hard = 0; };
Case dec_case(Ctx &c, int codec) {
  Src &s = c.src;
  Case k; Cfg &f = k.f; f.codec = codec;
  f.m = (int)s.i(1, s.chance(1, 8) ? 7 : 5); f.r = (int)s.i(1, f.m);
  if (codec == GLP) f.mask = gen_node_mask(s, f.m, f.r);
  if (codec == POLAR) {
    f.r = f.m; f.mask = gen_polar_mask(s, f.m);
    int kt = f.ktot();
    if (kt > 2 && s.chance(1, 3)) { int l = (int)s.i(1, std::min(6, kt - 1)); for (int i = 0; i < l; i++) f.crc += s.coin() ? '1' : '0'; }
  }
  if (codec >= 2) f.L = (int)s.small(1, 10);
  if (codec == GLP && f.mask.find('0') == std::string::npos && s.chance(1, 4)) { int np = (int)s.i(1, 4); for (int i = 0; i < np; i++) f.perms.push_back(gen_perm(s, f.m)); }
  k.x = gen_bits(s, f.k());
  Bits cw = ref_code(f, k.x);
  k.rx = gen_rx(c, cw, (double)f.k() / f.n());
  double t = 0; for (double v : k.rx.y) t += std::fabs(2 * v);
  if (t > 0) k.rx.sg = std::sqrt(t / (16 * s.real(0.3, 1)));
  for (int j = 0; j < f.n(); j++) k.hard += (k.rx.y[j] > 0) != (cw[j] != 0);
  c.note("%s | x=%s | %s sg=%.9g y=%s", f.str().substr(0, 300).c_str(), show(k.x, 32).c_str(), k.rx.mode.c_str(), k.rx.sg, show(k.rx.y, 12).c_str());
  c.label(codec_name[codec]);
  return k;
}
void judge(Ctx &c, const Case &k, const std::string &fm, const Ref &r) {
  Inst in(k.f, fm);
  if (!in.ok()) c.fail("configuration is not accepted: %s", in.a.ui_text());
  in.sg(k.rx.sg);
  Bits xd;
  int rc = in.dec(k.rx.y, xd, k.f.k());
  if (rc != r.rc) c.fail("%s: return code %d, expected %d", fm.c_str(), rc, r.rc);
  if (rc == 0 && xd != r.x) c.fail("%s: decoded %s, expected %s", fm.c_str(), show(xd).c_str(), show(r.x).c_str());
}
}  // namespace
SUB("C16", "exact_formats_agree", "plain", 250000, 15000000, "judged case with a wrong hard decision") {
  int codec = c.src.oneof({DTRM0, GLP, POLAR});
  Case k = dec_case(c, codec);
  Ref r;
  if (!ref_sure(eps5(), k.f, k.rx.y, k.rx.sg, r, 1e-5) || r.small < 1e-8) { c.label("near tie, not judged"); return; }
  judge(c, k, "", r);
  judge(c, k, "rho1", r);
  c.nontrivial(k.hard > 0);
}
SUB("C16", "min_sum_decoders", "plain", 200000, 12000000, "judged case with a wrong hard decision") {
  int codec = c.src.oneof({DTRM0, GLP, POLAR});
  Case k = dec_case(c, codec);
  Ref r;
  if (!ref_sure(rho5(), k.f, k.rx.y, k.rx.sg, r)) { c.label("near tie, not judged"); return; }
  judge(c, k, "rho5", r);
  c.nontrivial(k.hard > 0);
}
SUB("C16", "rho1_decoders", "plain", 150000, 9000000, "judged case with a wrong hard decision") {
  // The LLR format itself, without the limit on the strength that the eps format needs.
  int codec = c.src.oneof({DTRM0, GLP, POLAR});
  Case k = dec_case(c, codec);
  k.rx.sg = std::sqrt(k.rx.sg * k.rx.sg / c.src.real(1, 8));
  c.note(" sg=%.9g", k.rx.sg);
  Ref r;
  if (!ref_sure(rho1(), k.f, k.rx.y, k.rx.sg, r, 1e-5) || r.small < 1e-8) { c.label("near tie, not judged"); return; }
  judge(c, k, "rho1", r);
  c.nontrivial(k.hard > 0);
}
SUB("C16", "first_order_formats", "plain", 125000, 7500000, "a unique best word, m >= 2") {
  typedef int (*F3)(int, double *, int *);
  Src &s = c.src;
  static F3 f0 = (F3)lib_sym("util", "rm1_dec_sh"), f1 = (F3)lib_sym("util_rho1", "rm1_dec_sh");
  if (!f0 || !f1) return;
  int m = (int)s.i(1, 6), n = 1 << m;
  Cfg f; f.m = m; f.r = 1; f.codec = DTRM1;
  Bits x = gen_bits(s, m + 1);
  Rx rx = gen_rx(c, ref_encode(m, rm_coeffs(m, 1), x), (m + 1.0) / n);
  double t = 0; for (double v : rx.y) t += std::fabs(v);
  if (t == 0) return;
  Vec l = rx.y; for (double &v : l) v *= 16 * 0.9 / t;
  c.note("RM(1,%d) llr=%s", m, show(l, 16).c_str());
  Vec e(n); for (int j = 0; j < n; j++) e[j] = eps5().from_llr(l[j]);
  auto w = ref_first_order(eps5(), e);
  std::sort(w.begin(), w.end(), [](const std::pair<double, Bits> &a, const std::pair<double, Bits> &b) { return a.first > b.first; });
  if (w[0].first - w[1].first < 1e-5) { c.label("tie"); return; }
  Bits a(m + 1), b(m + 1);
  f0(m, l.data(), a.data());
  Vec l2 = l; f1(m, l2.data(), b.data());
  if (a != w[0].second) c.fail("eps5: %s, expected %s", show(a).c_str(), show(w[0].second).c_str());
  if (b != w[0].second) c.fail("rho1: %s, expected %s", show(b).c_str(), show(w[0].second).c_str());
  c.nontrivial(m >= 2);
}
