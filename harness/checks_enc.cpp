// C01, C02, C03: encoders and CRC.
#include "codec.hpp"
#include <algorithm>
using namespace pbt;

// A size: mostly small, sometimes up to hi.
static int gen_m(Ctx &c, int lo, int hi) {
  Src &s = c.src;
  if (c.thorough && s.chance(1, 400)) return (int)s.i(lo, hi + 4);
  if (s.chance(1, 12)) return (int)s.i(lo, hi - 2);
  if (s.chance(1, 60)) return (int)s.i(lo, hi);
  return (int)s.i(lo, std::min(hi, 8));
}
// An order: any, but the full space (one border node) seldom.
static int gen_r(Src &s, int m) { return m < 2 || s.chance(1, 10) ? m : (int)s.i(1, m - 1); }
static void same_word(Ctx &c, const char *what, const Vec &y, const Bits &cw) {
  for (size_t j = 0; j < cw.size(); j++)
    if (y[j] != (cw[j] ? 1.0 : -1.0)) c.fail("%s: symbol %zu is %g, expected %d", what, j, y[j], cw[j] ? 1 : -1);
}
static void same_bits(Ctx &c, const char *what, const int *y, const Bits &cw) {
  for (size_t j = 0; j < cw.size(); j++)
    if (y[j] != cw[j]) c.fail("%s: bit %zu is %d, expected %d", what, j, y[j], cw[j]);
}
static int weight(const Bits &b) { int w = 0; for (int x : b) w += x; return w; }

// Checks length, dimension and the codewords of some information words.
static void check_encoder(Ctx &c, const Cfg &f, Inst &in, int words) {
  if (!in.ok()) c.fail("configuration is not accepted: %s", in.a.ui_text());
  int n = f.n(), k = f.k();
  if (in.n() != n) c.fail("reported length %d, expected %d", in.n(), n);
  if (in.k() != k) c.fail("reported dimension %d, expected %d", in.k(), k);
  for (int w = 0; w < words; w++) {
    Bits x = gen_bits(c.src, k);
    c.note(" x=%s", show(x, 40).c_str());
    Bits cw = ref_code(f, x);
    same_word(c, "encoder", in.enc(x, n), cw);
    if (weight(cw) > 0 && weight(cw) < n) c.nontrivial();
  }
}

SUB("C01", "codec_encoders", "plain", 720000, 43200000, "RM code, encoded word is neither all-zero nor all-one") {
  Src &s = c.src;
  Cfg f;
  f.codec = (int)s.draw(3);
  f.m = gen_m(c, 1, 14); f.r = (int)s.i(1, std::min(f.m, f.codec == GLP ? 15 : f.m));
  f.L = 1;
  if (f.codec == GLP) f.mask = std::string(binom(f.m, f.r), '1');
  c.note("%s RM(%d,%d)", codec_name[f.codec], f.r, f.m);
  c.label(codec_name[f.codec]);
  if (f.m > 8) c.label("m>8");
  Inst in(f);
  check_encoder(c, f, in, 3);
}

// Lengths from 2^15 to 2^20: where an index or a size of a short type ends.
SUB("C01", "very_long", "plain", 240, 14400, "RM code, encoded word is neither all-zero nor all-one") {
  Src &s = c.src;
  Cfg f;
  f.codec = (int)s.draw(3);
  f.m = (int)s.i(15, s.chance(1, 4) ? 20 : 17);
  int kind = (int)s.draw(3);
  f.r = kind == 0 ? (int)s.i(1, 3) : kind == 1 ? f.m - (int)s.i(0, 3) : (int)s.i(1, f.m);
  while (f.codec == GLP && (f.r > 15 || rm_dim(f.m, f.r) > 16000)) f.r--;
  if (f.codec == GLP) f.mask = std::string(binom(f.m, f.r), '1');
  c.note("%s RM(%d,%d)", codec_name[f.codec], f.r, f.m);
  c.label(codec_name[f.codec]); c.label("m=" + std::to_string(f.m));
  Inst in(f);
  check_encoder(c, f, in, 1);
}

SUB("C01", "linear_and_distance", "plain", 360000, 21600000, "two different information words of an RM code") {
  Src &s = c.src;
  Cfg f;
  f.codec = (int)s.draw(3);
  f.m = gen_m(c, 1, 13); f.r = (int)s.i(1, std::min(f.m, f.codec == GLP ? 15 : f.m));
  if (f.codec == GLP) f.mask = std::string(binom(f.m, f.r), '1');
  Inst in(f);
  if (!in.ok()) c.fail("configuration is not accepted");
  int n = in.n(), k = in.k();
  if (n != f.n() || k != f.k()) c.fail("reported [%d,%d], expected [%d,%d]", n, k, f.n(), f.k());
  Bits a = gen_bits(s, k), b = gen_bits(s, k), d(k);
  for (int i = 0; i < k; i++) d[i] = a[i] ^ b[i];
  c.note("%s RM(%d,%d) a=%s b=%s", codec_name[f.codec], f.r, f.m, show(a, 40).c_str(), show(b, 40).c_str());
  Vec ya = in.enc(a, n), yb = in.enc(b, n), yd = in.enc(d, n);
  int w = 0;
  for (int j = 0; j < n; j++) {
    if (yd[j] != -ya[j] * yb[j]) c.fail("not linear at symbol %d", j);
    w += yd[j] > 0;
  }
  if (weight(d)) {
    c.nontrivial();
    if (w < (1 << (f.m - f.r))) c.fail("weight %d of a nonzero word is below 2^%d", w, f.m - f.r);
  }
  else if (w) c.fail("the zero word is not encoded to zero");
}

SUB("C01", "encoder_utilities", "plain", 720000, 43200000, "encoding utility, encoded word is neither all-zero nor all-one") {
  auto enc_bsc = (int (*)(int, int, int *, int *))lib_sym("util", "mrm_enc_bsc");
  auto enc_bpsk = (int (*)(int, int, int *, double *))lib_sym("util", "mrm_enc_bpsk");
  auto enc_mm = (int (*)(int, int *, int *))lib_sym("util", "mrm_enc_mm_bsc");
  auto rm_k = (int (*)(int, int))lib_sym("util", "calc_rm_k");
  Src &s = c.src;
  int m = gen_m(c, 0, 14), r = (int)s.i(0, m), n = 1 << m;
  std::vector<unsigned> co = rm_coeffs(m, r);
  int k = (int)co.size();
  if (rm_k && rm_k(m, r) != k) c.fail("calc_rm_k(%d,%d)=%d, expected %d", m, r, rm_k(m, r), k);
  Bits x = gen_bits(s, k), cw = ref_encode(m, co, x);
  int mode = (int)s.draw(4);
  c.note("mode %d RM(%d,%d) x=%s", mode, r, m, show(x, 60).c_str());
  if (weight(cw) > 0 && weight(cw) < n) c.nontrivial();
  Bits in = x; in.push_back(1);
  if (mode == 0 && enc_bsc) {
    Bits y(n + 1, 5);
    enc_bsc(m, r, in.data(), y.data());
    same_bits(c, "mrm_enc_bsc", y.data(), cw);
    if (y[n] != 5) c.fail("wrote past the codeword");
  }
  if (mode == 1 && enc_bpsk) {
    Vec y(n + 1, 5);
    enc_bpsk(m, r, in.data(), y.data());
    same_word(c, "mrm_enc_bpsk", y, cw);
    if (y[n] != 5) c.fail("wrote past the codeword");
  }
  if (mode >= 2 && enc_mm) {
    x = gen_bits(s, n); cw = ref_encode(m, rm_coeffs(m, m), x);
    Bits y = x;
    if (mode == 2) {
      Bits z(n, 5);
      enc_mm(m, y.data(), z.data());
      same_bits(c, "mrm_enc_mm_bsc", z.data(), cw);
      same_bits(c, "input of mrm_enc_mm_bsc", y.data(), x);
    }
    else {
      enc_mm(m, y.data(), y.data());
      same_bits(c, "in-place mrm_enc_mm_bsc", y.data(), cw);
      enc_mm(m, y.data(), y.data());
      same_bits(c, "double mrm_enc_mm_bsc", y.data(), x);
    }
  }
}

SUB("C02", "very_long", "plain", 96, 5760, "some but not all coefficients are frozen") {
  Src &s = c.src;
  Cfg f; f.codec = s.coin() ? GLP : POLAR;
  f.L = 1;
  if (f.codec == GLP) {
    f.m = (int)s.i(14, 17); f.r = s.coin() ? (int)s.i(1, 3) : (int)s.i(1, f.m);
    while (f.r > 15 || rm_dim(f.m, f.r) > 16000) f.r--;
    f.mask = gen_node_mask(s, f.m, f.r);
  }
  else {
    f.m = f.r = (int)s.i(15, 17); f.mask = gen_polar_mask(s, f.m);
    if (s.coin() && f.ktot() > 40) f.crc = "00000111";
  }
  c.note("%s m=%d r=%d mask=%s..", codec_name[f.codec], f.m, f.r, f.mask.substr(0, 40).c_str());
  c.label(codec_name[f.codec]); c.label("m=" + std::to_string(f.m));
  Inst in(f);
  check_encoder(c, f, in, 1);
  c.nontriv = f.mask.find('0') != std::string::npos;
}

SUB("C02", "subcode_masks", "plain", 540000, 32400000, "some but not all border nodes are frozen") {
  Src &s = c.src;
  Cfg f; f.codec = GLP;
  f.m = gen_m(c, 1, 13); f.r = std::min(15, gen_r(s, f.m));
  f.mask = gen_node_mask(s, f.m, f.r);
  f.L = (int)s.i(1, 4);
  std::string full = f.mask;
  if (s.chance(1, 8)) { int e = (int)s.i(1, 20); for (int i = 0; i < e; i++) f.mask += s.coin() ? '1' : '0'; c.label("longer mask"); }
  c.note("RM(%d,%d) mask=%s", f.r, f.m, f.mask.substr(0, 80).c_str());
  Inst in(f);
  Cfg g = f; g.mask = full;
  if (f.k() != g.k()) c.fail("internal");
  check_encoder(c, f, in, 2);
  c.nontriv = full.find('0') != std::string::npos;
}

SUB("C02", "polar_masks", "plain", 540000, 32400000, "some but not all positions are frozen") {
  Src &s = c.src;
  Cfg f; f.codec = POLAR;
  f.m = gen_m(c, 1, 14); f.r = f.m;
  f.mask = gen_polar_mask(s, f.m);
  f.L = (int)s.i(1, 4);
  int kt = f.ktot();
  if (kt > 1 && s.chance(1, 3)) {
    int l = (int)s.i(1, std::min(24, kt - 1));
    for (int i = 0; i < l; i++) f.crc += s.coin() ? '1' : '0';
    c.label("crc");
  }
  std::string full = f.mask;
  if (s.chance(1, 8)) { int e = (int)s.i(1, 20); for (int i = 0; i < e; i++) f.mask += s.coin() ? '1' : '0'; c.label("longer mask"); }
  c.note("polar m=%d mask=%s crc=%s", f.m, f.mask.substr(0, 80).c_str(), f.crc.c_str());
  Inst in(f);
  check_encoder(c, f, in, 2);
  c.nontriv = full.find('0') != std::string::npos;
}

SUB("C02", "all_ones_mask", "plain", 180000, 10800000, "nonzero word") {
  Src &s = c.src;
  int m = gen_m(c, 1, 13), r = (int)s.i(1, std::min(m, 15));
  bool pol = s.coin();
  Cfg f; f.codec = pol ? POLAR : GLP; f.m = m; f.r = pol ? m : r;
  f.mask = std::string(pol ? (1L << m) : binom(m, r), '1');
  Cfg g; g.codec = s.coin() ? DTRM1 : DTRM0; g.m = m; g.r = f.r;
  c.note("%s all ones / %s RM(%d,%d)", codec_name[f.codec], codec_name[g.codec], g.r, m);
  Inst a(f), b(g);
  if (!a.ok() || !b.ok()) c.fail("configuration is not accepted");
  if (a.n() != b.n() || a.k() != b.k()) c.fail("[%d,%d] and [%d,%d]", a.n(), a.k(), b.n(), b.k());
  Bits x = gen_bits(s, a.k());
  c.note(" x=%s", show(x, 40).c_str());
  Vec ya = a.enc(x, a.n()), yb = b.enc(x, a.n());
  for (int j = 0; j < a.n(); j++) if (ya[j] != yb[j]) c.fail("symbol %d: %g and %g", j, ya[j], yb[j]);
  c.nontrivial(weight(x) > 0);
}

SUB("C02", "mask_utilities", "plain", 540000, 32400000, "some but not all nodes are frozen") {
  // The encoders of both kinds of subcode, and the dimension, called directly.
  typedef unsigned u32;
  bool par0 = c.src.coin();
  auto fk = (int (*)(int, int, u32 *))lib_sym("util", par0 ? "calc_par0_srm_k" : "calc_srm_k");
  auto fe = (int (*)(int, int, u32 *, int *, int *))lib_sym("util", par0 ? "smrm_par0_enc_bsc" : "smrm_enc_bsc");
  auto fb = (int (*)(int, int, u32 *, int *, double *))lib_sym("util", par0 ? "smrm_par0_enc_bpsk" : "smrm_enc_bpsk");
  Src &s = c.src;
  int m = gen_m(c, 0, 13), r = s.chance(1, 12) ? 0 : gen_r(s, m), n = 1 << m;
  std::vector<std::vector<unsigned>> nodes;
  if (par0) for (unsigned q : rm_coeffs(m, r)) nodes.push_back({q});
  else for (auto &b : border_nodes(m, r)) nodes.push_back(b.coeffs);
  std::vector<u32> tab(nodes.size());
  std::vector<unsigned> co;
  Rng q = s.bulk(); unsigned dens = (unsigned)s.i(0, 10);
  bool some = false;
  for (size_t i = 0; i < tab.size(); i++) {
    tab[i] = q.below(10) < dens ? 0 : 1 + (u32)q.below(3);   // any nonzero list size
    if (tab[i]) co.insert(co.end(), nodes[i].begin(), nodes[i].end()); else some = true;
  }
  int k = (int)co.size();
  Bits x = gen_bits(s, k), cw = ref_encode(m, co, x);
  c.note("%s m=%d r=%d k=%d x=%s", par0 ? "par0" : "srm", m, r, k, show(x, 40).c_str());
  c.nontrivial(some && k > 0);
  if (fk && fk(m, r, tab.data()) != k) c.fail("dimension %d, expected %d", fk(m, r, tab.data()), k);
  Bits in = x; in.push_back(1);
  if (s.coin()) {
    if (!fe) return;
    Bits y(n + 1, 5);
    fe(m, r, tab.data(), in.data(), y.data());
    same_bits(c, "subcode encoder", y.data(), cw);
    if (y[n] != 5) c.fail("wrote past the codeword");
  }
  else {
    if (!fb) return;
    Vec y(n + 1, 5);
    fb(m, r, tab.data(), in.data(), y.data());
    same_word(c, "subcode BPSK encoder", y, cw);
    if (y[n] != 5) c.fail("wrote past the codeword");
  }
}

SUB("C03", "crc_remainder", "plain", 3000000, 180000000, "message longer than the CRC with a nonzero remainder") {
  auto calc = (int *(*)(const int *, int, const int *, int, int *))lib_sym("util", "calc_crc");
  auto valid = (int (*)(const int *, int, const int *, int, int *))lib_sym("util", "is_valid_crc");
  if (!calc || !valid) { fprintf(stderr, "no crc functions\n"); _Exit(77); }
  Src &s = c.src;
  int len = s.chance(1, 10) ? (int)s.i(1, 130) : (int)s.i(1, 32), n = s.chance(1, 20) ? (int)s.i(0, 5000) : (int)s.small(0, 300);
  std::string poly(len, '0'); std::vector<int> p(len);
  bool dense = s.chance(3, 4);
  for (int i = 0; i < len; i++) { poly[i] = dense ? (s.coin() ? '1' : '0') : (s.chance(1, 16) || i == len - 1 ? '1' : '0'); p[i] = poly[i] != '0'; }
  Bits x = gen_bits(s, n);
  c.note("crc %s message %s", poly.c_str(), show(x, 60).c_str());
  Bits want = ref_crc(x, poly);
  c.nontrivial(n > len && weight(want) > 0);
  c.label(n < len ? "shorter than the CRC" : "full");
  int bl = std::max(n, len);
  Bits buf(bl + 2, 7), xx = x, pp = p;
  int *r = calc(xx.data(), n, pp.data(), len, buf.data());
  if (r < buf.data() || r + len > buf.data() + bl) c.fail("the CRC is outside of the buffer");
  for (int i = 0; i < len; i++) if (r[i] != want[i]) c.fail("CRC bit %d is %d, expected %d", i, r[i], want[i]);
  if (buf[bl] != 7 || xx != x || pp != p) c.fail("wrote outside of the buffer");
  // Validation: the right CRC and changed ones.
  Bits w = x; w.insert(w.end(), want.begin(), want.end());
  int flips = (int)s.draw(4);
  std::string fl;
  for (int i = 0; i < flips; i++) {
    int pos = s.coin() || n == 0 ? n + (int)s.i(0, len - 1) : (int)s.i(0, n - 1);
    w[pos] ^= 1; fl += " " + std::to_string(pos);
  }
  Bits xm(w.begin(), w.begin() + n), cm(w.begin() + n, w.end());
  bool ok = ref_crc(xm, poly) == cm;
  Bits b2(bl + 2, 3), ww = w;
  int v = valid(ww.data(), n, pp.data(), len, b2.data());
  if ((v != 0) != ok) c.fail("word with flipped bits%s: validity %d, expected %d", fl.c_str(), v, (int)ok);
  if (ww != w || b2[bl] != 3) c.fail("validation wrote outside of the buffer");
  c.label(ok ? "valid" : "invalid");
}

SUB("C03", "ca_polar_encoder", "plain", 450000, 27000000, "nonzero CRC") {
  Src &s = c.src;
  Cfg f; f.codec = POLAR;
  f.m = gen_m(c, 1, 13); f.r = f.m;
  f.mask = gen_polar_mask(s, f.m);
  int kt = f.ktot();
  if (kt < 2) { f.mask = std::string(f.n(), '1'); kt = f.ktot(); }
  int l = (int)s.i(1, std::min(s.chance(1, 6) ? 100 : 32, kt - 1));
  bool sp = s.chance(1, 4);
  for (int i = 0; i < l; i++) f.crc += sp ? (s.chance(1, 12) ? '1' : '0') : s.coin() ? '1' : '0';
  f.L = 1;
  c.note("polar m=%d mask=%s crc=%s", f.m, f.mask.substr(0, 64).c_str(), f.crc.c_str());
  Inst in(f);
  if (!in.ok()) c.fail("configuration is not accepted: %s", in.a.ui_text());
  int k = f.k();
  if (in.k() != k) c.fail("dimension %d, expected %d", in.k(), k);
  Bits x = gen_bits(s, k);
  c.note(" x=%s", show(x, 40).c_str());
  if (k < l) c.label("shorter than the CRC");
  Bits cw = ref_code(f, x);
  same_word(c, "CA-polar encoder", in.enc(x, f.n()), cw);
  c.nontrivial(weight(ref_crc(x, f.crc)) > 0);
  // The transmitted word carries exactly information and CRC: undo the transform.
  Vec y = in.enc(x, f.n());
  Bits t(f.n());
  for (int j = 0; j < f.n(); j++) t[j] = y[j] > 0;
  for (int h = f.n() / 2; h >= 1; h /= 2)
    for (int i = 0; i < f.n(); i += 2 * h)
      for (int j = 0; j < h; j++) t[i + j] ^= t[i + j + h];
  Bits w;
  for (int j = 0; j < f.n(); j++) { if (f.mask[j] != '0') w.push_back(t[j]); else if (t[j]) c.fail("frozen position %d is used", j); }
  Bits e = x, r = ref_crc(x, f.crc); e.insert(e.end(), r.begin(), r.end());
  if (w != e) c.fail("carried bits %s, expected %s", show(w).c_str(), show(e).c_str());
}
