// C04-C14, C28: decoders against reference decoders and metamorphic relations.
#include "codec.hpp"
#include <algorithm>
using namespace pbt;

namespace {

struct Case { Cfg f; Bits x, cw; Rx rx; int hard = 0; };

// A received vector near the border of the decision region of the sent word, found with the reference decoder.
void to_boundary(Ctx &c, Case &k, int lo_steps = 1, int hi_steps = 10) {
  Src &s = c.src;
  int n = k.f.n();
  Vec b = bpsk(k.cw), w(n), y(n);
  int kind = (int)s.draw(3);
  k.rx.mode = "boundary";
  k.rx.sg = s.real(0.5, 1.5);
  Rng q = s.bulk();
  for (double &v : w) v = kind == 0 ? q.gauss() : kind == 1 ? 2 * q.u() - 1 : 0.1 * q.gauss();
  if (kind == 2) for (long f = s.i(1, std::max(1, n / 3)); f > 0; f--) { int i = (int)q.below(n); w[i] = -b[i] * (0.5 + q.u()); }
  auto at = [&](double t) { for (int j = 0; j < n; j++) y[j] = b[j] + t * w[j]; };
  auto sent = [&](double t) { at(t); Ref r = ref_decode(eps5(), k.f, y, k.rx.sg); return r.rc == 0 && r.x == k.x; };
  double lo = 0, hi = 1;
  while (hi < 8 && sent(hi)) { lo = hi; hi *= 2; }
  for (int steps = (int)s.i(lo_steps, hi_steps); steps > 0; steps--) { double m = (lo + hi) / 2; (sent(m) ? lo : hi) = m; }
  at(s.coin() ? lo : hi);
  k.rx.y = y;
}
void finish_case(Ctx &c, Case &k) {
  k.x = gen_bits(c.src, k.f.k());
  k.cw = ref_code(k.f, k.x);
  if (!k.f.var && (long)k.f.n() * k.f.L * std::max<size_t>(1, k.f.perms.size()) <= 768 && c.src.chance(1, 5)) to_boundary(c, k);
  else k.rx = gen_rx(c, k.cw, (double)k.f.k() / k.f.n());
  for (int j = 0; j < k.f.n(); j++) k.hard += (k.rx.y[j] > 0) != (k.cw[j] != 0);
}
// A received vector so close to the border that calculations with less than double precision decide otherwise.
const double FINE = 3e-8;
void finish_fine(Ctx &c, Case &k) {
  k.x = gen_bits(c.src, k.f.k());
  k.cw = ref_code(k.f, k.x);
  to_boundary(c, k, 14, 26);
  k.rx.mode = "at the border";
  for (int j = 0; j < k.f.n(); j++) k.hard += (k.rx.y[j] > 0) != (k.cw[j] != 0);
}
void describe(Ctx &c, const Case &k) {
  c.note("%s | x=%s | %s sg=%.9g y=%s", k.f.str().substr(0, 400).c_str(), show(k.x, 40).c_str(), k.rx.mode.c_str(), k.rx.sg, show(k.rx.y, 16).c_str());
  c.label(k.rx.mode);
}
Cfg rm(int codec, int m, int r) {
  Cfg f; f.codec = codec; f.m = m; f.r = r;
  if (codec == GLP) f.mask = std::string(binom(m, r), '1');
  if (codec == POLAR) {
    f.mask = std::string(1u << m, '0');
    for (int t = 0; t < f.n(); t++) if (popcnt(f.n() - 1 - t) <= r) f.mask[t] = '1';
  }
  return f;
}
void need_ok(Ctx &c, Inst &in) { if (!in.ok()) c.fail("configuration is not accepted: %s", in.a.ui_text()); }

// Limits the cost of a reference list decoding.
int cap_list(int L, int m, int budget) {
  int n = 1 << m;
  return std::max(1, std::min(L, budget / n));
}
double sum_llr(const Case &k) { double s = 0; for (double v : k.rx.y) s += std::fabs(2 * v / (k.rx.sg * k.rx.sg)); return s; }
// Chooses sg so that the total of the log-likelihoods is at most `top`: nothing saturates.
// Several words are as likely: the decoded word is one of them.
void one_of_best(Ctx &c, const Case &k, const Ref &r, const Bits &xd) {
  double d = 0, t = 1e-12;
  for (int b : xd) if (b != 0 && b != 1) c.fail("decoded %s", show(xd).c_str());
  Bits w = ref_code(k.f, xd);
  for (size_t j = 0; j < w.size(); j++) { d += w[j] ? k.rx.y[j] : -k.rx.y[j]; t += std::fabs(k.rx.y[j]); }
  if (r.metric - d > 2e-5 * t) c.fail("decoded %s, %s is more likely: %.9g, %.9g", show(xd).c_str(), show(r.x).c_str(), d, r.metric);
  c.label("tie");
}
void unsaturate(Ctx &c, Case &k, double top = 16) {
  double s = 0; for (double v : k.rx.y) s += std::fabs(2 * v);
  if (s == 0) return;
  k.rx.sg = std::sqrt(s / (top * c.src.real(0.3, 1)));
}

// Decodes with the codec and the reference; true if judged.
bool against_ref(Ctx &c, const Case &k, Inst &in, Ref *out = nullptr, double mingap = 1e-6) {
  Ref r;
  if (!ref_sure(eps5(), k.f, k.rx.y, k.rx.sg, r, mingap)) { c.label("near tie, not judged"); return false; }
  in.sg(k.rx.sg);
  Bits xd;
  int rc = in.dec(k.rx.y, xd, k.f.k());
  if (rc != r.rc) c.fail("return code %d, expected %d", rc, r.rc);
  if (xd != r.x) c.fail("return code %d, decoded %s, expected %s (gap %.3g)", rc, show(xd).c_str(), show(r.x).c_str(), r.gap);
  c.label(rc ? "erasure" : xd == k.x ? "decoded as sent" : "other word");
  if (out) *out = r;
  return true;
}

int list_m(Ctx &c, int lo = 1) {
  if (c.thorough && c.src.chance(1, 10)) return (int)c.src.i(lo, 9);
  if (c.src.chance(1, 12)) return (int)c.src.i(lo, c.src.chance(1, 10) ? 10 : 8);
  return (int)c.src.i(lo, 6);
}
int list_size(Ctx &c, int m) {
  Src &s = c.src;
  int L = s.chance(1, 8) ? (int)s.i(1, 64) : (int)s.small(1, 20);
  if (s.chance(1, 30)) return cap_list((int)s.i(1, 1024), m, 16384);
  return cap_list(L, m, c.thorough ? 8192 : 3072);
}
void add_crc(Ctx &c, Cfg &f, int maxlen = 16) {
  Src &s = c.src;
  int kt = f.ktot();
  if (kt < 2) return;
  int l = (int)s.small(1, std::min(kt - 1, maxlen));
  if (s.chance(1, 4)) {   // sparse polynomials
    f.crc = std::string(l, '0');
    for (int n = (int)s.draw(3); n > 0; n--) f.crc[s.i(0, l - 1)] = '1';
    return;
  }
  for (int i = 0; i < l; i++) f.crc += s.coin() ? '1' : '0';
  if (s.chance(3, 4)) f.crc[l - 1] = '1';
}
// Any configuration of any codec.
Cfg any_cfg(Ctx &c, int mtop = 6) {
  CfgLim l; l.mmax = mtop; l.Lmax = 12;
  return gen_cfg(c, (int)c.src.draw(4), l);
}
void add_stages(Ctx &c, Cfg &f) {
  Src &s = c.src;
  f.var = true;
  int n = (int)s.i(1, 5);
  double scale = f.n();
  for (int i = 0; i < n; i++) f.stages.push_back({(int)s.small(1, 12), s.chance(1, 6) ? (s.coin() ? 0.0 : 1e9) : scale * s.real(0.2, 2.2)});
}

}  // namespace

// ----------------------------------------------------------------- C04

static void noiseless(Ctx &c, Cfg f, double deepest = 1e-4) {
  Src &s = c.src;
  int n = f.n(), k = f.k();
  int d = 0;
  for (unsigned q : f.coeffs()) d = std::max(d, popcnt(q));
  // The deepest soft value is tanh(llr / 2) ^ (2 ^ d).
  double tmin = std::pow(deepest, 1.0 / std::pow(2.0, d));
  double lmin = 2 * std::atanh(tmin);
  double llr = lmin * std::pow(10, s.real(0, s.chance(1, 4) ? 10 : 2.5));
  double sg = std::pow(10, s.real(-4, 4));
  if (s.chance(1, 4)) sg = 1;
  double a = llr * sg * sg / 2;
  Bits x = gen_bits(s, k), cw = ref_code(f, x);
  c.note("%s | x=%s | gain %.9g sg %.9g", f.str().substr(0, 400).c_str(), show(x, 60).c_str(), a, sg);
  Vec y = bpsk(cw);
  for (double &v : y) v *= a;
  Inst in(f); need_ok(c, in);
  in.sg(sg);
  Bits xd;
  int rc = in.dec(y, xd, k);
  if (rc) c.fail("return code %d for a noiseless word", rc);
  if (xd != x) c.fail("decoded %s, sent %s", show(xd).c_str(), show(x).c_str());
  int w = 0; for (int b : x) w += b;
  c.nontrivial(w > 0);
  // The encoder of the same instance, and amplitude one.
  Vec e = in.enc(x, n);
  if (e != bpsk(cw)) c.fail("the encoder gives a different word");
}
SUB("C04", "noiseless", "plain", 540000, 32400000, "nonzero information word") {
  Src &s = c.src;
  Cfg f = any_cfg(c, s.chance(1, 6) ? 9 : 6);
  if (f.codec == GLP && s.chance(1, 5)) { add_stages(c, f); c.label("staged"); }
  c.label(codec_name[f.codec]);
  if (!f.perms.empty()) c.label("permutations");
  if (!f.crc.empty()) c.label("crc");
  noiseless(c, f);
}
// The deepest soft value is just above the rounding errors of the metrics.
SUB("C04", "noiseless_weak", "plain", 135000, 8100000, "nonzero information word") {
  Src &s = c.src;
  Cfg f = any_cfg(c, 5);
  if (s.coin() && f.codec != DTRM1) {   // low order monomials: the received values themselves are weak
    f.perms.clear(); f.crc.clear();
    int r = (int)s.i(0, 1);
    if (f.codec == POLAR) { f.mask = std::string(f.n(), '0'); for (int i = 0; i < f.n(); i++) if (popcnt(f.n() - 1 - i) <= r) f.mask[i] = s.chance(1, 3) ? '0' : '1'; f.mask[f.n() - 1] = '1'; }
    else { f.r = 1; f.mask = std::string(f.codec == GLP ? binom(f.m, 1) : 0, '1'); }
  }
  c.label(codec_name[f.codec]);
  noiseless(c, f, 1e-10);
}
SUB("C04", "noiseless_long", "plain", 7200, 432000, "nonzero information word") {
  Src &s = c.src;
  int codec = (int)s.draw(4), m = (int)s.i(9, c.thorough ? 13 : 12);
  Cfg f = rm(codec, m, (int)s.i(1, codec == GLP ? std::min(m, 15) : m));
  if (codec == GLP) f.mask = gen_node_mask(s, f.m, f.r);
  if (codec == POLAR) { f.mask = gen_polar_mask(s, m); f.r = m; if (s.coin()) add_crc(c, f, 24); }
  if (codec >= 2) f.L = (int)s.small(1, 8);
  c.label(codec_name[codec]);
  noiseless(c, f);
}
// Lengths up to 2^20 (polar: 2^15, as initialisation takes k^2 steps).
SUB("C04", "noiseless_very_long", "plain", 480, 28800, "nonzero information word") {
  Src &s = c.src;
  int codec = (int)s.draw(4), m = codec == POLAR ? (int)s.i(13, 15) : s.chance(1, 4) ? (int)s.i(17, 20) : (int)s.i(13, 17);
  int r = s.coin() ? (int)s.i(1, 2) : s.coin() ? m - (int)s.i(1, 2) : (int)s.i(1, m);
  while (codec == GLP && (r > 15 || rm_dim(m, r) > 16000)) r--;   // initialisation takes k^2 steps
  Cfg f = rm(codec, m, r);
  if (codec == GLP && s.coin()) f.mask = gen_node_mask(s, m, r);
  if (codec == POLAR) { f.r = m; if (s.coin()) f.mask = gen_polar_mask(s, m); if (s.coin()) add_crc(c, f, 24); }
  if (codec >= 2) f.L = cap_list((int)s.small(1, 4), m, 1 << 17);
  c.label(codec_name[codec]); c.label("m=" + std::to_string(m));
  noiseless(c, f);
}
SUB("C04", "wide_gain", "plain", 135000, 8100000, "nonzero information word, gain or noise level beyond 1e6 or below 1e-6") {
  // Amplitudes and noise levels over the whole range: decoding needs only the ratio.
  Src &s = c.src;
  Cfg f = any_cfg(c, 5);
  double e = s.real(-60, 60);
  double sg = std::pow(10, e);
  double a = sg * sg * std::pow(10, s.real(1.2, 6));
  Bits x = gen_bits(s, f.k());
  Vec y = bpsk(ref_code(f, x));
  for (double &v : y) v *= a;
  int d = 0; for (unsigned q : f.coeffs()) d = std::max(d, popcnt(q));
  c.note("%s | x=%s | gain %.9g sg %.9g", f.str().substr(0, 400).c_str(), show(x, 60).c_str(), a, sg);
  Inst in(f); need_ok(c, in);
  in.sg(sg);
  Bits xd;
  int rc = in.dec(y, xd, f.k());
  if (rc) c.fail("return code %d for a noiseless word", rc);
  if (xd != x) c.fail("decoded %s, sent %s", show(xd).c_str(), show(x).c_str());
  int w = 0; for (int b : x) w += b;
  c.nontrivial(w > 0 && std::fabs(e) > 6);
}

// ----------------------------------------------------------------- C05

SUB("C05", "recursion", "plain", 1200000, 72000000, "judged case with at least one wrong hard decision") {
  Src &s = c.src;
  Case k;
  int m = s.chance(1, 10) ? (int)s.i(7, c.thorough ? 11 : 10) : (int)s.i(1, 7);
  k.f = rm(DTRM0, m, (int)s.i(1, m));
  finish_case(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in)) c.nontrivial(k.hard > 0);
}
SUB("C05", "any_reals", "plain", 600000, 36000000, "judged case") {
  // Received values of any size, including strong, weak and equal ones.
  Src &s = c.src;
  Case k;
  int m = (int)s.i(1, 6);
  k.f = rm(DTRM0, m, (int)s.i(1, m));
  k.x = Bits(k.f.k(), 0); k.cw = Bits(k.f.n(), 0);
  k.rx.mode = "any"; k.rx.sg = std::pow(10, s.real(-1, 1));
  double spread = s.real(0, 6), base = s.real(-3, 3);
  Rng q = s.bulk();
  for (int j = 0; j < k.f.n(); j++) k.rx.y.push_back((q.next() & 1 ? -1 : 1) * std::pow(10, base - spread * q.u()) * k.rx.sg * k.rx.sg);
  describe(c, k);
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in)) c.nontrivial();
}

SUB("C05", "close_decisions", "plain", 120000, 7200000, "judged case with at least one wrong hard decision") {
  Src &s = c.src;
  Case k;
  int m = s.chance(1, 8) ? (int)s.i(8, 11) : (int)s.i(2, 7);
  k.f = rm(DTRM0, m, (int)s.i(1, m - 1));
  finish_fine(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in, nullptr, FINE)) c.nontrivial(k.hard > 0);
}

// ----------------------------------------------------------------- C06

static void lists_differ(Ctx &c, const char *what, const Bits &a, const Bits &b) {
  if (a != b) c.fail("%s: %s, expected %s", what, show(a).c_str(), show(b).c_str());
}
// A vector of log-likelihoods (positive: bit 1) for RM(1, m).
static Vec fo_llr(Ctx &c, int m, bool sat) {
  Case k; k.f = rm(DTRM1, m, 1);
  finish_case(c, k);
  if (!sat) unsaturate(c, k);
  Vec l(k.f.n());
  for (size_t j = 0; j < l.size(); j++) l[j] = 2 * k.rx.y[j] / (k.rx.sg * k.rx.sg);
  c.label(k.rx.mode);
  return l;
}
struct Pair { double s, s2; Bits x; };   // best and worse score of a complementary pair, best word
static std::vector<Pair> pairs_of(const Vec &llr) {
  Vec e(llr.size());
  for (size_t j = 0; j < e.size(); j++) e[j] = eps5().from_llr(llr[j]);
  auto w = ref_first_order(eps5(), e);
  std::vector<Pair> p;
  for (size_t i = 0; i + 1 < w.size(); i += 2) {
    bool a = w[i].first >= w[i + 1].first;
    p.push_back({a ? w[i].first : w[i + 1].first, a ? w[i + 1].first : w[i].first, a ? w[i].second : w[i + 1].second});
  }
  std::stable_sort(p.begin(), p.end(), [](const Pair &a, const Pair &b) { return a.s > b.s; });
  return p;
}
// Brute force: correlations of all affine functions, by pairs.
static std::vector<Pair> pairs_brute(const Vec &llr, int m) {
  std::vector<Pair> p;
  auto co = rm_coeffs(m, 1);
  for (unsigned w = 0; w < (1u << m); w++) {
    Bits x(m + 1, 0);
    for (int i = 0; i < m; i++) x[i] = (w >> i) & 1;
    Bits cw = ref_encode(m, co, x);
    double t = 0;
    for (size_t j = 0; j < llr.size(); j++) t += cw[j] ? llr[j] : -llr[j];
    if (t < 0) x[m] = 1;   // the all-one word is the last row
    p.push_back({std::fabs(t) / 2, -std::fabs(t) / 2, x});
  }
  std::stable_sort(p.begin(), p.end(), [](const Pair &a, const Pair &b) { return a.s > b.s; });
  return p;
}
// Number of leading pairs whose order and words are unambiguous.
static size_t clear_prefix(const std::vector<Pair> &p, double g) {
  size_t n = 0;
  for (; n < p.size(); n++) {
    double t = g * (1 + std::fabs(p[n].s));
    if (p[n].s - p[n].s2 < t) break;
    if (n + 1 < p.size() && p[n].s - p[n + 1].s < t) break;
  }
  return n;
}
SUB("C06", "hadamard_decoders", "plain", 240000, 14400000, "a unique best word, m >= 2") {
  typedef int (*F3)(int, double *, int *);
  static F3 sh = (F3)lib_sym("util", "rm1_dec_sh"), finp = (F3)lib_sym("util", "rm1_dec_sh_finp"), dotp = (F3)lib_sym("util", "rm1_dec_sh_dotp");
  static auto lst = (int (*)(int, double *, int, int *))lib_sym("util", "rm1_dec_lst");
  Src &s = c.src;
  int m = s.chance(1, 12) ? (int)s.i(7, 9) : (int)s.i(1, 6), n = 1 << m;
  bool sat = s.chance(1, 3);
  Vec llr = fo_llr(c, m, sat);
  int mode = (int)s.draw(4);
  static const char *nm[] = {"hard", "internal format", "correlation", "list"};
  c.note("RM(1,%d) %s%s llr=%s", m, nm[mode], sat ? " (may saturate)" : "", show(llr, 16).c_str());
  c.label(nm[mode]);
  double tot = 0; for (double v : llr) tot += std::fabs(v);
  auto p = pairs_of(llr);
  if (tot <= 17) {
    // The recursion is exactly maximum likelihood: check the reference itself.
    auto b = pairs_brute(llr, m);
    size_t cp = std::min(clear_prefix(p, 1e-5), clear_prefix(b, 1e-5));
    for (size_t i = 0; i < cp; i++) if (p[i].x != b[i].x) { fprintf(stderr, "reference differs from brute force\n"); _Exit(77); }
    c.label("brute force");
  }
  size_t clear = clear_prefix(p, 1e-6);
  // Judge only what small changes of the input do not change.
  {
    Rng q(99); Vec z = llr; for (double &v : z) v *= 1 + 1e-8 * (q.u() - 0.5);
    auto p2 = pairs_of(z);
    clear = std::min(clear, clear_prefix(p2, 1e-6));
    for (size_t i = 0; i < clear; i++) if (p2[i].x != p[i].x) { clear = i; break; }
  }
  if (clear == 0) { c.label("tie"); return; }
  Vec in = llr; in.push_back(3.5);
  if (mode == 0 && sh) {
    Bits x(m + 2, -5);
    if (sh(m, in.data(), x.data())) c.fail("error code");
    if (x[m + 1] != -5) c.fail("wrote past the word");
    x.resize(m + 1); lists_differ(c, "rm1_dec_sh", x, p[0].x);
  }
  if (mode == 1 && finp) {
    for (int j = 0; j < n; j++) in[j] = eps5().from_llr(llr[j]);
    Vec keep = in;
    Bits x(m + 2, -5);
    if (finp(m, in.data(), x.data())) c.fail("error code");
    if (x[m + 1] != -5 || in != keep) c.fail("wrote outside of the word");
    x.resize(m + 1); lists_differ(c, "rm1_dec_sh_finp", x, p[0].x);
  }
  if (mode == 2 && dotp) {
    if (tot > 17) return;
    for (int j = 0; j < n; j++) in[j] = eps5().from_llr(llr[j]);
    Bits x(m + 1, -5);
    if (dotp(m, in.data(), x.data())) c.fail("error code");
    auto b = pairs_brute(llr, m);
    if (clear_prefix(b, 1e-5) == 0) return;
    lists_differ(c, "rm1_dec_sh_dotp", x, b[0].x);
  }
  if (mode == 3 && lst) {
    int L = s.chance(1, 4) ? (int)s.i(1, 2 * n) : (int)s.i(1, std::min(n, 6));
    int got = std::min(L, n);
    Bits x(got * (m + 1) + 1, -5);
    if (lst(m, in.data(), L, x.data())) c.fail("error code");
    if (x.back() != -5) c.fail("wrote past the list");
    for (int i = 0; i < got && i < (int)clear; i++) {
      Bits w(x.begin() + i * (m + 1), x.begin() + (i + 1) * (m + 1));
      if (w != p[i].x) c.fail("list entry %d of %d: %s, expected %s", i, L, show(w).c_str(), show(p[i].x).c_str());
    }
    if (clear > 1 && got > 1) c.label("several entries judged");
  }
  c.nontrivial(m >= 2);
}
SUB("C06", "first_order_ml", "plain", 160000, 9600000, "a unique ML word which differs from the hard decisions") {
  // dtrm1 on RM(1,m) against exhaustive search.
  Src &s = c.src;
  Case k;
  int m = s.chance(1, 10) ? (int)s.i(7, 9) : (int)s.i(1, 6);
  k.f = rm(DTRM1, m, 1);
  finish_case(c, k); unsaturate(c, k); describe(c, k);
  Ref r = ref_ml(k.f, k.rx.y);
  Inst in(k.f); need_ok(c, in);
  in.sg(k.rx.sg);
  Bits xd;
  int rc = in.dec(k.rx.y, xd, k.f.k());
  if (rc) c.fail("return code %d", rc);
  if (r.gap < 1e-5) { one_of_best(c, k, r, xd); return; }
  if (xd != r.x) c.fail("decoded %s, the ML word is %s", show(xd).c_str(), show(r.x).c_str());
  Bits w = ref_code(k.f, r.x);
  for (int j = 0; j < k.f.n(); j++) if ((k.rx.y[j] > 0) != (w[j] != 0)) { c.nontrivial(); break; }
}
SUB("C06", "close_decisions", "plain", 80000, 4800000, "judged case with at least one wrong hard decision") {
  Src &s = c.src;
  Case k;
  int m = s.chance(1, 8) ? (int)s.i(8, 10) : (int)s.i(2, 7);
  k.f = rm(DTRM1, m, s.chance(1, 3) ? 1 : (int)s.i(1, m - 1));
  finish_fine(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in, nullptr, FINE)) c.nontrivial(k.hard > 0);
}
SUB("C06", "recursion", "plain", 200000, 12000000, "judged case with at least one wrong hard decision") {
  Src &s = c.src;
  Case k;
  int m = s.chance(1, 10) ? (int)s.i(7, c.thorough ? 10 : 9) : (int)s.i(1, 7);
  k.f = rm(DTRM1, m, (int)s.i(1, m));
  finish_case(c, k); describe(c, k);
  c.label("r=" + std::to_string(k.f.r));
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in)) c.nontrivial(k.hard > 0);
}

// ----------------------------------------------------------------- C07, C11 (several permutations)

static void gen_glp(Ctx &c, Cfg &f, bool subcode) {
  Src &s = c.src;
  f.codec = GLP;
  f.m = list_m(c);
  f.r = (int)s.i(1, f.m);
  f.mask = subcode ? gen_node_mask(s, f.m, f.r) : std::string(binom(f.m, f.r), '1');
  f.L = list_size(c, f.m);
}
SUB("C07", "list_decoder", "plain", 288000, 17280000, "judged case with at least one wrong hard decision, L > 1") {
  Case k;
  gen_glp(c, k.f, c.src.chance(2, 3));
  finish_case(c, k); describe(c, k);
  bool full = k.f.mask.find('0') == std::string::npos;
  c.label(full ? "full code" : "subcode");
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in)) { c.nontrivial(k.hard > 0 && k.f.L > 1); c.label("judged"); }
}
SUB("C07", "small_codes", "plain", 432000, 25920000, "judged case with at least one wrong hard decision, L > 1") {
  // Short codes, every list size.
  Src &s = c.src;
  Case k; k.f.codec = GLP;
  k.f.m = (int)s.i(1, 4); k.f.r = (int)s.i(1, k.f.m);
  k.f.mask = gen_node_mask(s, k.f.m, k.f.r);
  k.f.L = s.chance(1, 12) ? (int)s.i(1, 300) : (int)s.i(1, 33);
  finish_case(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in)) c.nontrivial(k.hard > 0 && k.f.L > 1);
}
// Long lists with few different permutations; the last ones may be met only there.
static void many_perms(Ctx &c, Cfg &f) {
  Src &s = c.src;
  f.m = (int)s.i(4, 6); f.r = (int)s.i(2, f.m - 2);
  f.mask = std::string(binom(f.m, f.r), '1');
  f.L = (int)s.i(1, 4);
  std::vector<std::vector<int>> pool;
  for (long i = s.i(1, 4); i > 0; i--) pool.push_back(gen_perm(s, f.m));
  long np = s.i(40, 400), run = s.coin() ? np : s.i(1, 200);
  Rng r = s.bulk();
  while ((long)f.perms.size() < np) {
    std::vector<int> p = pool[r.below(pool.size())];
    for (long q = 1 + r.below(run); q > 0 && (long)f.perms.size() < np; q--) f.perms.push_back(p);
  }
  for (long q = s.i(0, 3); q > 0; q--) f.perms[f.perms.size() - q] = gen_perm(s, f.m);
  c.label("many permutations");
}
SUB("C11", "permutation_list", "plain", 60000, 3600000, "judged case with several permutations and a wrong hard decision") {
  Src &s = c.src;
  Case k;
  gen_glp(c, k.f, false);
  if (k.f.m > 7) { k.f.m = 7; k.f.r = std::min(k.f.r, 7); k.f.mask = std::string(binom(k.f.m, k.f.r), '1'); }
  int np = s.chance(1, 12) ? (int)s.i(1, 60) : (int)s.i(1, std::min(10, 2 + k.f.L));
  if (np > 10) k.f.L = cap_list((int)s.i(1, 40), k.f.m, 3072);
  if (s.chance(1, 60)) { np = 0; many_perms(c, k.f); }
  for (int i = 0; i < np; i++) k.f.perms.push_back(gen_perm(s, k.f.m));
  finish_case(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in)) c.nontrivial(k.hard > 0 && np > 1);
}
static unsigned pidx(unsigned i, const std::vector<int> &p) {
  unsigned o = 0;
  for (size_t j = 0; j < p.size(); j++) o |= ((i >> j) & 1u) << p[j];
  return o;
}
SUB("C11", "single_permutation", "plain", 96000, 5760000, "the permutation is not the identity") {
  Src &s = c.src;
  Case k;
  gen_glp(c, k.f, false);
  std::vector<int> p = gen_perm(s, k.f.m);
  finish_case(c, k);
  describe(c, k);
  c.note(" perm="); for (int v : p) c.note("%d ", v);
  Cfg g = k.f; g.perms = {p};
  Ref r; if (!ref_sure(eps5(), g, k.rx.y, k.rx.sg, r)) { c.label("near tie, not judged"); return; }
  Inst a(g), b(k.f);
  need_ok(c, a); need_ok(c, b);
  a.sg(k.rx.sg); b.sg(k.rx.sg);
  Vec yp(k.f.n());
  for (int i = 0; i < k.f.n(); i++) yp[i] = k.rx.y[pidx(i, p)];
  Bits xa, xb;
  int ra = a.dec(k.rx.y, xa, k.f.k()), rb = b.dec(yp, xb, k.f.k());
  auto co = k.f.coeffs();
  std::map<unsigned, int> pos;
  for (size_t i = 0; i < co.size(); i++) pos[co[i]] = (int)i;
  Bits xm(k.f.k(), -1);
  for (size_t i = 0; i < co.size(); i++) xm[pos[pidx(co[i], p)]] = xb[i];
  if (ra != rb) c.fail("return codes %d and %d", ra, rb);
  if (xa != xm) c.fail("decoded %s, by permuting the input %s", show(xa).c_str(), show(xm).c_str());
  for (size_t j = 0; j < p.size(); j++) if (p[j] != (int)j) c.nontrivial();
}
SUB("C11", "order_and_identity", "plain", 72000, 4320000, "judged case with a wrong hard decision") {
  Src &s = c.src;
  Case k;
  gen_glp(c, k.f, false);
  if (k.f.m > 6) { k.f.m = 6; k.f.r = std::min(k.f.r, 6); k.f.mask = std::string(binom(k.f.m, k.f.r), '1'); }
  Cfg g = k.f;
  bool ident = s.chance(1, 3);
  std::vector<int> id(k.f.m); for (int j = 0; j < k.f.m; j++) id[j] = j;
  if (ident) { g.perms = {id}; if (s.chance(1, 2)) { k.f.mask = g.mask = gen_node_mask(s, k.f.m, k.f.r); c.label("identity on a subcode"); } }
  else {
    int np = (int)s.i(2, 8);
    if (s.chance(1, 60)) many_perms(c, k.f);
    else for (int i = 0; i < np; i++) k.f.perms.push_back(gen_perm(s, k.f.m));
    np = (int)k.f.perms.size();
    g = k.f;
    for (int i = np - 1; i > 0; i--) std::swap(g.perms[i], g.perms[s.i(0, i)]);
  }
  finish_case(c, k); describe(c, k);
  Ref r;
  if (!ident && !ref_sure(eps5(), k.f, k.rx.y, k.rx.sg, r)) { c.label("near tie, not judged"); return; }
  Inst a(k.f), b(g); need_ok(c, a); need_ok(c, b);
  a.sg(k.rx.sg); b.sg(k.rx.sg);
  Bits xa, xb;
  int ra = a.dec(k.rx.y, xa, k.f.k()), rb = b.dec(k.rx.y, xb, k.f.k());
  if (ra != rb || xa != xb) c.fail("%s: %d %s and %d %s", ident ? "identity" : "other order", ra, show(xa).c_str(), rb, show(xb).c_str());
  c.nontrivial(k.hard > 0);
}
SUB("C11", "noiseless", "plain", 72000, 4320000, "nonzero word and a permutation other than the identity") {
  Src &s = c.src;
  Cfg f; gen_glp(c, f, false);
  int np = s.chance(1, 10) ? (int)s.i(1, 80) : (int)s.i(1, 12); bool non = false;
  for (int i = 0; i < np; i++) {
    f.perms.push_back(gen_perm(s, f.m));
    for (int j = 0; j < f.m; j++) non |= f.perms.back()[j] != j;
  }
  Bits x = gen_bits(s, f.k());
  c.note("%s | x=%s", f.str().substr(0, 300).c_str(), show(x, 40).c_str());
  Inst in(f); need_ok(c, in);
  double t = 2 * std::atanh(std::pow(1e-3, 1.0 / (1 << f.r)));
  in.sg(std::sqrt(2 / t));
  Bits xd;
  int rc = in.dec(bpsk(ref_code(f, x)), xd, f.k());
  if (rc || xd != x) c.fail("rc %d, decoded %s, sent %s", rc, show(xd).c_str(), show(x).c_str());
  int w = 0; for (int b : x) w += b;
  c.nontrivial(w > 0 && non);
}

// ----------------------------------------------------------------- C08, C09

static void gen_pol(Ctx &c, Cfg &f) {
  f.codec = POLAR;
  f.m = list_m(c); f.r = f.m;
  f.mask = gen_polar_mask(c.src, f.m);
  f.L = list_size(c, f.m);
}
SUB("C08", "scl_decoder", "plain", 96000, 5760000, "judged case with at least one wrong hard decision, L > 1") {
  Case k;
  gen_pol(c, k.f);
  finish_case(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in)) { c.nontrivial(k.hard > 0 && k.f.L > 1); c.label("judged"); }
}
SUB("C08", "small_codes", "plain", 144000, 8640000, "judged case with at least one wrong hard decision, L > 1") {
  Src &s = c.src;
  Case k; k.f.codec = POLAR;
  k.f.m = (int)s.i(1, 4); k.f.r = k.f.m;
  k.f.mask = gen_polar_mask(s, k.f.m);
  k.f.L = s.chance(1, 12) ? (int)s.i(1, 300) : (int)s.i(1, 33);
  finish_case(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in)) c.nontrivial(k.hard > 0 && k.f.L > 1);
}
static void close_list(Ctx &c, int codec) {
  Src &s = c.src;
  Case k;
  bool lng = s.chance(1, 12);
  int m = lng ? (int)s.i(8, 10) : (int)s.i(2, 7);
  k.f.codec = codec; k.f.m = m; k.f.r = codec == POLAR ? m : (int)s.i(1, std::max(1, m - 1));
  if (s.chance(1, 2)) {   // Reed-Muller frozen set
    Cfg g = rm(codec, m, (int)s.i(1, std::max(1, m - 1)));
    k.f.mask = g.mask; if (codec == GLP) k.f.r = g.r;
  }
  else k.f.mask = codec == POLAR ? gen_polar_mask(s, m) : gen_node_mask(s, m, k.f.r);
  k.f.L = cap_list((int)s.i(2, 20), m, lng ? 4096 : 1024);
  finish_fine(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  if (against_ref(c, k, in, nullptr, FINE)) c.nontrivial(k.hard > 0 && k.f.L > 1);
}
SUB("C07", "close_decisions", "plain", 30000, 1800000, "judged case with at least one wrong hard decision, L > 1") { close_list(c, GLP); }
SUB("C08", "close_decisions", "plain", 20000, 1200000, "judged case with at least one wrong hard decision, L > 1") { close_list(c, POLAR); }
// At least two unfrozen positions.
static void crc_room(Ctx &c, Cfg &f) {
  if (f.m < 2) { f.m = f.r = 2; f.mask = gen_polar_mask(c.src, 2); }
  while (f.ktot() < 2) f.mask[c.src.i(0, f.n() - 1)] = '1';
}
static void crc_case(Ctx &c, Case &k) {
  finish_case(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  Ref r;
  if (against_ref(c, k, in, &r)) {
    if (r.rc) c.label("no valid survivor");
    else if (r.pick > 0) c.label("a less likely survivor is chosen");
    c.nontrivial(r.rc != 0 || r.pick > 0);
  }
}
SUB("C09", "crc_selection", "plain", 120000, 7200000, "an erasure, or the most likely survivor has an invalid CRC") {
  Case k;
  gen_pol(c, k.f);
  crc_room(c, k.f);
  add_crc(c, k.f, c.src.chance(1, 10) ? 60 : 16);
  crc_case(c, k);
}
SUB("C09", "small_codes", "plain", 180000, 10800000, "an erasure, or the most likely survivor has an invalid CRC") {
  Src &s = c.src;
  Case k; k.f.codec = POLAR;
  k.f.m = (int)s.i(2, 5); k.f.r = k.f.m;
  k.f.mask = gen_polar_mask(s, k.f.m);
  k.f.L = (int)s.i(1, 24);
  crc_room(c, k.f);
  add_crc(c, k.f, 8);
  crc_case(c, k);
}
// ----- Long codes and long lists (C05 to C09).

static void long_code(Ctx &c, int codec, bool crc = false) {
  Src &s = c.src;
  Case k;
  bool list = codec == GLP || codec == POLAR, longlist = list && s.chance(1, 3);
  int m = longlist ? (int)s.i(4, 8) : list ? (int)s.i(9, 12) : codec == DTRM1 ? (int)s.i(10, 14) : (int)s.i(11, 15);
  // Low and high orders, and everything between.
  int kind = (int)s.draw(3);
  int r = kind == 0 ? (int)s.i(1, 2) : kind == 1 ? m - (int)s.i(1, 2) : (int)s.i(1, m);
  k.f = rm(codec, m, std::max(1, r));
  if (codec == GLP && s.coin()) k.f.mask = gen_node_mask(s, m, k.f.r);
  if (codec == POLAR) { k.f.r = m; if (s.coin()) k.f.mask = gen_polar_mask(s, m); }
  if (list) k.f.L = longlist ? cap_list((int)s.i(65, 4000), m, c.thorough ? 131072 : 65536) : cap_list((int)s.small(1, 32), m, c.thorough ? 65536 : 32768);
  if (crc) { while (k.f.ktot() < 2) k.f.mask[s.i(0, k.f.n() - 1)] = '1'; add_crc(c, k.f, s.coin() ? 8 : 64); }
  c.label(longlist ? "list above 64" : "long code");
  finish_case(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  Ref rf;
  if (!against_ref(c, k, in, &rf)) return;
  c.label("judged");
  c.nontrivial(crc ? rf.rc != 0 || rf.pick > 0 : k.hard > 0);
}
SUB("C05", "long_codes", "plain", 4000, 240000, "judged case with at least one wrong hard decision") { long_code(c, DTRM0); }
SUB("C06", "long_codes", "plain", 4000, 240000, "judged case with at least one wrong hard decision") { long_code(c, DTRM1); }
SUB("C07", "long_codes", "plain", 4000, 240000, "judged case with at least one wrong hard decision") { long_code(c, GLP); }
SUB("C08", "long_codes", "plain", 4000, 240000, "judged case with at least one wrong hard decision") { long_code(c, POLAR); }
SUB("C09", "long_codes", "plain", 4000, 240000, "an erasure, or the most likely survivor has an invalid CRC") { long_code(c, POLAR, true); }

// Lengths to 2^20.
static void very_long_code(Ctx &c, int codec, bool crc = false) {
  Src &s = c.src;
  Case k;
  bool list = codec == GLP || codec == POLAR;
  int m = codec == POLAR ? (int)s.i(13, 14) : codec == GLP ? (int)s.i(13, 15) : (int)s.i(15, s.chance(1, 4) ? 19 : 17);
  int kind = (int)s.draw(3);
  int r = kind == 0 ? (int)s.i(1, 3) : kind == 1 ? m - (int)s.i(1, 3) : (int)s.i(1, m);
  while (codec == GLP && rm_dim(m, r) > 16000) r--;
  k.f = rm(codec, m, std::max(1, r));
  if (codec == GLP && s.coin()) k.f.mask = gen_node_mask(s, m, k.f.r);
  if (codec == POLAR) { k.f.r = m; if (s.coin()) k.f.mask = gen_polar_mask(s, m); }
  if (list) k.f.L = (int)s.i(1, 3);
  if (crc) { while (k.f.ktot() < 2) k.f.mask[s.i(0, k.f.n() - 1)] = '1'; add_crc(c, k.f, 8); }
  c.label("m=" + std::to_string(m));
  finish_case(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  Ref rf;
  if (!against_ref(c, k, in, &rf)) return;
  c.label("judged");
  c.nontrivial(crc ? rf.rc != 0 || rf.pick > 0 : k.hard > 0);
}
SUB("C05", "very_long", "plain", 160, 9600, "judged case with at least one wrong hard decision") { very_long_code(c, DTRM0); }
SUB("C06", "very_long", "plain", 400, 24000, "judged case with at least one wrong hard decision") { very_long_code(c, DTRM1); }
SUB("C07", "very_long", "plain", 400, 24000, "judged case with at least one wrong hard decision") { very_long_code(c, GLP); }

// Lists of tens of thousands of paths, most of them cut.
static void huge_list(Ctx &c, int codec, bool crc = false) {
  Src &s = c.src;
  Case k;
  int m = (int)s.i(4, 5);
  k.f = rm(codec, m, (int)s.i(m == 4 ? 3 : 2, m - 1));
  if (codec == POLAR) k.f.r = m;
  k.f.L = (int)s.i(m == 4 ? 1000 : 4001, c.thorough ? 70000 : 40000);
  if (crc) add_crc(c, k.f, 12);
  finish_case(c, k); unsaturate(c, k, 16); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  Ref rf;
  if (!against_ref(c, k, in, &rf, 1e-7)) return;
  c.label("judged");
  c.nontrivial(crc ? rf.rc != 0 || rf.pick > 0 : k.hard > 0);
}
SUB("C07", "huge_lists", "plain", 64, 3840, "judged case with at least one wrong hard decision") { huge_list(c, GLP); }
SUB("C08", "huge_lists", "plain", 64, 3840, "judged case with at least one wrong hard decision") { huge_list(c, POLAR); }
SUB("C09", "huge_lists", "plain", 64, 3840, "an erasure, or the most likely survivor has an invalid CRC") { huge_list(c, POLAR, true); }

SUB("C09", "returned_word_is_valid", "plain", 90000, 5400000, "decoded with success from pure noise or many errors") {
  // With as many paths as survivors can have, a success is a valid word: the re-encoded word carries its CRC,
  // and the same decoder without the CRC (its CRC bits as information) agrees on the mother code.
  Src &s = c.src;
  Case k; gen_pol(c, k.f);
  if (k.f.m > 6) { c.label("long"); }
  crc_room(c, k.f);
  add_crc(c, k.f, 6);
  finish_case(c, k); describe(c, k);
  Inst in(k.f); need_ok(c, in);
  in.sg(k.rx.sg);
  Bits xd;
  int rc = in.dec(k.rx.y, xd, k.f.k());
  if (rc != 0 && rc != 1) c.fail("return code %d", rc);
  for (int b : xd) if (b != 0 && b != 1) c.fail("decoded %s", show(xd).c_str());
  // Metamorphic: the plain decoder's best word; if its CRC is valid it has to be the result.
  Cfg g = k.f; g.crc = "";
  Inst pl(g); need_ok(c, pl);
  pl.sg(k.rx.sg);
  Bits xp; pl.dec(k.rx.y, xp, g.k());
  Bits inf(xp.begin(), xp.begin() + k.f.k()), tail(xp.begin() + k.f.k(), xp.end());
  if (ref_crc(inf, k.f.crc) == tail) {
    c.label("best survivor is valid");
    if (rc) c.fail("erasure although the most likely survivor is valid");
    Ref r;
    if (xd != inf && ref_sure(eps5(), k.f, k.rx.y, k.rx.sg, r)) c.fail("decoded %s, the most likely survivor is %s", show(xd).c_str(), show(inf).c_str());
  }
  else if (rc == 0) {
    c.label("another survivor");
    if (xd == inf) {
      // The information part may only be the same if the survivors differ in the CRC bits.
      c.label("same information part");
    }
    c.nontrivial();
  }
  else { c.label("erasure"); c.nontrivial(); }
  if (k.f.L == 1) {
    // One survivor: success exactly if it is valid.
    if ((rc == 0) != (ref_crc(inf, k.f.crc) == tail)) c.fail("single survivor with %s CRC, return code %d", rc ? "a valid" : "an invalid", rc);
  }
}

// ----------------------------------------------------------------- C10

static void ml_case(Ctx &c, Case &k) {
  finish_case(c, k); unsaturate(c, k); describe(c, k);
  Ref r = ref_ml(k.f, k.rx.y);
  Inst in(k.f); need_ok(c, in);
  in.sg(k.rx.sg);
  Bits xd;
  int rc = in.dec(k.rx.y, xd, k.f.k());
  if (rc) c.fail("return code %d", rc);
  if (r.gap < 1e-5) { one_of_best(c, k, r, xd); return; }
  if (xd != r.x) c.fail("decoded %s, the ML word is %s", show(xd).c_str(), show(r.x).c_str());
  Bits w = ref_code(k.f, r.x);
  c.label(r.x == k.x ? "decoded as sent" : "other word");
  for (int j = 0; j < k.f.n(); j++) if ((k.rx.y[j] > 0) != (w[j] != 0)) { c.nontrivial(); break; }
}
static int ml_list(Ctx &c, int ktot) { return (1 << ktot) + (c.src.chance(1, 3) ? (int)c.src.i(0, 20) : 0); }
static void polar_ml(Ctx &c, int lo, int hi) {
  Src &s = c.src;
  Case k; k.f.codec = POLAR; k.f.m = (int)s.i(lo < 9 ? 1 : 4, 6); k.f.r = k.f.m;
  int K = (int)s.i(lo, std::min(1 << k.f.m, hi));
  // K positions: the best ones or any.
  k.f.mask = std::string(k.f.n(), '0');
  std::vector<std::pair<double, int>> w;
  bool rnd = s.coin();
  Rng q = s.bulk();
  for (int t = 0; t < k.f.n(); t++) { double v = 0; for (int b = 0; b < k.f.m; b++) if ((t >> b) & 1) v += std::pow(1.19, b); w.push_back({rnd ? q.u() : -v, t}); }
  std::sort(w.begin(), w.end());
  for (int i = 0; i < K; i++) k.f.mask[w[i].second] = '1';
  if (s.coin()) { add_crc(c, k.f, 8); c.label("crc"); }
  k.f.L = ml_list(c, k.f.ktot());
  if (k.f.L > 32768) c.label("list above 32768");
  ml_case(c, k);
}
SUB("C10", "polar_ml", "plain", 640000, 38400000, "a unique ML word which differs from the hard decisions") { polar_ml(c, 1, c.src.chance(1, c.thorough ? 20 : 60) ? 11 : 9); }
static void rm_list_ml(Ctx &c, int top) {
  Src &s = c.src;
  Case k; k.f.codec = GLP; k.f.m = (int)s.i(top > 9 ? 5 : 1, 7); k.f.r = top > 9 ? (int)s.i(2, k.f.m - 2) : k.f.m < 3 || s.chance(1, 3) ? 1 : (int)s.i(2, k.f.m - 1);
  auto nodes = border_nodes(k.f.m, k.f.r);
  k.f.mask = std::string(nodes.size(), '0');
  // Repetition and length-2 nodes only, at most `top` bits.
  std::vector<size_t> ok;
  for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].r == 0 || nodes[i].m == 1) ok.push_back(i);
  if (ok.empty()) { k.f.r = 1; k.f.m = std::max(1, k.f.m); nodes = border_nodes(k.f.m, 1); k.f.mask = std::string(nodes.size(), '0'); for (size_t i = 0; i < nodes.size(); i++) ok.push_back(i); }
  bool all = s.coin();
  Rng q = s.bulk();
  for (size_t i = ok.size(); i-- > 1;) std::swap(ok[i], ok[q.below(i + 1)]);
  int bits = 0;
  for (size_t i : ok) {
    int b = (int)nodes[i].coeffs.size();
    if (bits + b > top) continue;
    if (!all && bits > 0 && q.below(top > 9 ? 20 : 3) == 0) continue;
    k.f.mask[i] = '1'; bits += b;
  }
  k.f.L = ml_list(c, bits);
  c.label(k.f.r == 1 ? "first order" : "higher order");
  if (k.f.L > 32768) c.label("list above 32768");
  ml_case(c, k);
}
SUB("C10", "rm_list_ml", "plain", 640000, 38400000, "a unique ML word which differs from the hard decisions") { rm_list_ml(c, 9); }
// Tens of thousands of paths.
SUB("C10", "many_paths", "plain", 160, 9600, "a unique ML word which differs from the hard decisions") {
  if (c.src.coin()) polar_ml(c, 12, c.src.coin() ? 16 : 14); else rm_list_ml(c, c.src.coin() ? 16 : 14);
}

// ----------------------------------------------------------------- C12

SUB("C12", "encoders_agree", "plain", 180000, 10800000, "nonzero word") {
  Src &s = c.src;
  int m = s.chance(1, 10) ? (int)s.i(7, 12) : (int)s.i(1, 7), r = (int)s.i(1, m);
  Cfg f[4];
  for (int k = 0; k < 4; k++) f[k] = rm(k, m, r);
  Bits x;
  Vec y0;
  for (int k = 0; k < 4; k++) {
    Inst in(f[k]); need_ok(c, in);
    if (k == 0) { x = gen_bits(s, in.k()); c.note("RM(%d,%d) x=%s", r, m, show(x, 60).c_str()); y0 = in.enc(x, in.n()); continue; }
    if (in.k() != (int)x.size() || in.n() != (int)y0.size()) c.fail("%s is [%d,%d], dtrm0 is [%zu,%zu]", codec_name[k], in.n(), in.k(), y0.size(), x.size());
    Vec y = in.enc(x, in.n());
    for (size_t j = 0; j < y.size(); j++) if (y[j] != y0[j]) c.fail("%s: symbol %zu is %g, dtrm0 has %g", codec_name[k], j, y[j], y0[j]);
  }
  for (int b : x) if (b) c.nontrivial();
}
SUB("C12", "list_one_is_recursive", "plain", 300000, 18000000, "judged case with a wrong hard decision") {
  Src &s = c.src;
  Case k;
  int m = s.chance(1, 8) ? (int)s.i(7, 10) : (int)s.i(1, 6), r = (int)s.i(1, m);
  bool pol = s.coin();
  k.f = rm(DTRM0, m, r);
  finish_case(c, k);
  if (pol) unsaturate(c, k, 16);
  describe(c, k);
  c.label(pol ? "polar" : "dtrm_glp");
  Cfg g = rm(pol ? POLAR : GLP, m, r); g.L = 1;
  Ref r0;
  if (!ref_sure(eps5(), k.f, k.rx.y, k.rx.sg, r0)) { c.label("near tie, not judged"); return; }
  Ref r1; if (!ref_sure(eps5(), g, k.rx.y, k.rx.sg, r1)) { c.label("near tie, not judged"); return; }
  Inst a(k.f), b(g); need_ok(c, a); need_ok(c, b);
  a.sg(k.rx.sg); b.sg(k.rx.sg);
  Bits xa, xb;
  int ra = a.dec(k.rx.y, xa, k.f.k()), rb = b.dec(k.rx.y, xb, k.f.k());
  if (ra || rb) c.fail("return codes %d and %d", ra, rb);
  if (xa != xb) c.fail("dtrm0 decodes %s, %s with L=1 %s", show(xa).c_str(), codec_name[g.codec], show(xb).c_str());
  c.nontrivial(k.hard > 0);
}
SUB("C12", "uncoded_is_hard_decision", "plain", 240000, 14400000, "received vector with both signs") {
  Src &s = c.src;
  int codec = (int)s.draw(4), m = (int)s.i(1, s.chance(1, 10) ? 9 : 5);
  Case k; k.f = rm(codec, m, m);
  k.f.L = codec >= 2 ? cap_list((int)s.small(1, 16), m, 2048) : 1;
  k.x = gen_bits(s, k.f.k()); k.cw = ref_code(k.f, k.x);
  k.rx = gen_rx(c, k.cw, 1);
  unsaturate(c, k, 16);
  describe(c, k);
  // Values that differ by many orders of magnitude are lost in sums.
  double mx = 0, mn = 1e300; bool neg = false, pos = false;
  Bits h(k.f.n());
  for (int j = 0; j < k.f.n(); j++) { double v = k.rx.y[j]; mx = std::max(mx, std::fabs(v)); mn = std::min(mn, std::fabs(v)); h[j] = v > 0; (v > 0 ? pos : neg) = true; }
  if (mn <= 1e-5 * mx || (codec == POLAR && m > 5)) { c.label("not judged"); return; }
  if (codec == POLAR) {
    // The products must not vanish.
    double lp = 0; for (double v : k.rx.y) lp += std::log10(std::tanh(std::fabs(v) / (k.rx.sg * k.rx.sg)));
    if (lp < -250) { c.label("not judged"); return; }
    Ref r; if (k.f.L > 1 && !ref_sure(eps5(), k.f, k.rx.y, k.rx.sg, r)) { c.label("near tie, not judged"); return; }
  }
  Inst in(k.f); need_ok(c, in);
  in.sg(k.rx.sg);
  Bits xd; int rc = in.dec(k.rx.y, xd, k.f.k());
  if (rc) c.fail("return code %d", rc);
  Bits w = ref_encode(m, k.f.coeffs(), xd);
  if (w != h) c.fail("decoded codeword %s, hard decisions %s", show(w).c_str(), show(h).c_str());
  c.label(codec_name[codec]);
  c.nontrivial(neg && pos);
}
SUB("C12", "dtrm1_is_glp_on_first_order", "plain", 120000, 7200000, "a unique ML word which differs from the hard decisions") {
  // On first-order codes the list decoder that prunes nothing and dtrm1 are both ML.
  Src &s = c.src;
  Case k;
  int m = (int)s.i(1, 7);
  k.f = rm(DTRM1, m, 1);
  finish_case(c, k); unsaturate(c, k); describe(c, k);
  Ref r = ref_ml(k.f, k.rx.y);
  if (r.gap < 1e-5) { c.label("tie"); return; }
  Cfg g = rm(s.coin() ? POLAR : GLP, m, 1); g.L = 1 << (m + 1);
  Inst a(k.f), b(g); need_ok(c, a); need_ok(c, b);
  a.sg(k.rx.sg); b.sg(k.rx.sg);
  Bits xa, xb;
  a.dec(k.rx.y, xa, k.f.k()); b.dec(k.rx.y, xb, k.f.k());
  if (xa != xb) c.fail("dtrm1 decodes %s, %s %s", show(xa).c_str(), codec_name[g.codec], show(xb).c_str());
  c.nontrivial(k.hard > 0);
}

// ----------------------------------------------------------------- C13, C14

SUB("C13", "codeword_shift", "plain", 1200000, 72000000, "nonzero shift of a vector with wrong hard decisions, judged") {
  Src &s = c.src;
  Case k; k.f = any_cfg(c, s.chance(1, 8) ? 8 : 6);
  k.f.L = cap_list(k.f.L, k.f.m, 2048);
  if (k.f.codec == GLP && s.chance(1, 6)) { add_stages(c, k.f); for (auto &t : k.f.stages) t.first = cap_list(t.first, k.f.m, 1024); c.label("staged"); }
  finish_case(c, k); describe(c, k);
  Bits x2 = gen_bits(s, k.f.k());
  c.note(" shift=%s", show(x2, 40).c_str());
  c.label(codec_name[k.f.codec]);
  Ref r;
  if (!ref_sure(eps5(), k.f, k.rx.y, k.rx.sg, r)) { c.label("near tie, not judged"); return; }
  Bits w2 = ref_code(k.f, x2);
  Vec y2 = k.rx.y;
  for (size_t j = 0; j < y2.size(); j++) if (w2[j]) y2[j] = -y2[j];
  if (k.f.var) {
    // Distances are those to the codewords: both ways give the same.
  }
  Inst in(k.f); need_ok(c, in);
  in.sg(k.rx.sg);
  Bits xa, xb;
  int ra = in.dec(k.rx.y, xa, k.f.k()), rb = in.dec(y2, xb, k.f.k());
  if (ra != rb) c.fail("return code %d, after adding a codeword %d", ra, rb);
  if (ra == 0) for (size_t i = 0; i < xa.size(); i++) if ((xa[i] ^ x2[i]) != xb[i]) c.fail("decoded %s, after adding %s: %s", show(xa).c_str(), show(x2).c_str(), show(xb).c_str());
  int w = 0; for (int b : x2) w += b;
  c.nontrivial(w > 0 && k.hard > 0);
}
SUB("C14", "scaling", "plain", 1800000, 108000000, "vector with wrong hard decisions, judged") {
  Src &s = c.src;
  Case k; k.f = any_cfg(c, s.chance(1, 8) ? 9 : 6);
  k.f.L = cap_list(k.f.L, k.f.m, 2048);
  finish_case(c, k);
  bool pow4 = s.chance(2, 3);
  double g, q;
  if (pow4) {
    int e = (int)s.i(-60, 60);
    if (s.coin()) {   // as far as neither the values nor the square of the deviation leave the range of numbers
      double lo = 1e300, hi = 1e-300;
      for (double v : k.rx.y) if (v != 0) { lo = std::min(lo, std::fabs(v)); hi = std::max(hi, std::fabs(v)); }
      for (double v : {k.rx.sg, k.rx.sg * k.rx.sg}) { lo = std::min(lo, v); hi = std::max(hi, v); }
      int a = std::max(-440, (int)((-950 - std::log2(lo)) / 2)), b = std::min(440, (int)((950 - std::log2(hi)) / 2));
      if (a <= 0 && b >= 0) { e = (int)s.i(a, b); c.label("far"); }
    }
    g = std::ldexp(1.0, 2 * e); q = std::ldexp(1.0, e);
  }
  else { q = std::pow(10, s.real(-6, 6)); g = q * q; }
  describe(c, k);
  c.note(" scale=%.17g", g);
  c.label(pow4 ? "power of four" : "any factor");
  c.label(codec_name[k.f.codec]);
  if (!pow4) { Ref r; if (!ref_sure(eps5(), k.f, k.rx.y, k.rx.sg, r)) { c.label("near tie, not judged"); return; } }
  Inst in(k.f); need_ok(c, in);
  in.sg(k.rx.sg);
  Bits xa, xb;
  int ra = in.dec(k.rx.y, xa, k.f.k());
  Vec y = k.rx.y; for (double &v : y) v *= g;
  in.sg(k.rx.sg * q);
  int rb = in.dec(y, xb, k.f.k());
  if (ra != rb) c.fail("return code %d, scaled %d", ra, rb);
  if (ra == 0 && xa != xb) c.fail("decoded %s, scaled %s", show(xa).c_str(), show(xb).c_str());
  c.nontrivial(k.hard > 0);
}

// ----------------------------------------------------------------- C28

SUB("C28", "staged_lists", "plain", 400000, 24000000, "a stage other than the first decides, or the first of several with a wrong hard decision") {
  Src &s = c.src;
  Case k; gen_glp(c, k.f, s.chance(1, 3));
  if (k.f.m > 7) { k.f.m = 7; k.f.r = std::min(k.f.r, 7); k.f.mask = gen_node_mask(s, k.f.m, k.f.r); }
  bool full = k.f.mask.find('0') == std::string::npos;
  if (full && s.chance(1, 5)) { int np = (int)s.i(1, 6); for (int i = 0; i < np; i++) k.f.perms.push_back(gen_perm(s, k.f.m)); c.label("permutations"); }
  int ns = (int)s.i(1, 6), n = k.f.n(), kk = k.f.k();
  std::vector<int> L(ns);
  for (int &l : L) l = cap_list((int)s.small(1, 24), k.f.m, 2048);
  int words = (int)s.i(1, 4);
  std::vector<Case> cs(words);
  for (auto &q : cs) { q.f = k.f; finish_case(c, q); }
  // What plain decoders of each size return, and the distances.
  std::vector<std::vector<Bits>> px(words, std::vector<Bits>(ns));
  std::vector<std::vector<double>> pd(words, std::vector<double>(ns));
  for (int t = 0; t < ns; t++) {
    Cfg g = k.f; g.L = L[t];
    Inst in(g); need_ok(c, in);
    for (int w = 0; w < words; w++) {
      in.sg(cs[w].rx.sg);
      if (in.dec(cs[w].rx.y, px[w][t], kk)) c.fail("plain decoder fails");
      Vec b = bpsk(ref_code(g, px[w][t]));
      double d = 0;
      for (int j = 0; j < n; j++) d += (b[j] - cs[w].rx.y[j]) * (b[j] - cs[w].rx.y[j]);
      pd[w][t] = d / (cs[w].rx.sg * cs[w].rx.sg);
    }
  }
  Cfg f = k.f; f.var = true;
  f.L = (int)s.small(1, 24);
  for (int t = 0; t < ns; t++) {
    double th;
    switch (s.draw(6)) {
      case 0: th = pd[0][t] * s.real(0.7, 1.3); break;
      case 5: th = pd[s.i(0, words - 1)][t] * (1 + (s.coin() ? 1 : -1) * std::ldexp(1.0, -(int)s.i(18, 28))); break;
      case 1: th = pd[s.i(0, words - 1)][s.i(0, ns - 1)] * s.real(0.9, 1.1); break;
      case 2: th = 0; break;
      case 3: th = 1e12; break;
      default: th = n * s.real(0, 3);
    }
    f.stages.push_back({L[t], th});
  }
  c.note("%s", f.str().substr(0, 500).c_str());
  Inst in(f); need_ok(c, in);
  for (int w = 0; w < words; w++) {
    int t = 0; bool near = false;
    for (; t < ns; t++) {
      double th = f.stages[t].second;
      if (std::fabs(pd[w][t] - th) < 1e-9 * (1 + th)) { near = true; break; }
      if (pd[w][t] < th) break;
    }
    if (near) { c.label("threshold tie"); continue; }
    bool last = t == ns;
    if (last) t = ns - 1;
    c.note(" | %s sg=%.9g y=%s", cs[w].rx.mode.c_str(), cs[w].rx.sg, show(cs[w].rx.y, 8).c_str());
    in.sg(cs[w].rx.sg);
    Bits xd;
    int rc = in.dec(cs[w].rx.y, xd, kk);
    if (rc) c.fail("return code %d", rc);
    if (xd != px[w][t]) c.fail("decoded %s, stage %d (L=%d) gives %s, word %d", show(xd).c_str(), t, L[t], show(px[w][t]).c_str(), w);
    c.label(last ? "no threshold met" : t ? "later stage" : "first stage");
    c.nontrivial(t > 0 || (ns > 1 && cs[w].hard > 0));
  }
}
