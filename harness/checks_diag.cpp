// C34: builds with diagnostic output (DBG, DBG2) or counted operations (COUNT_OPS).
#include "codec.hpp"
#include <sys/stat.h>
#include <algorithm>
using namespace pbt;

namespace {

Cfg gen(Ctx &c, int mtop) {
  CfgLim l; l.mmax = mtop; l.Lmax = 12;
  Cfg f = gen_cfg(c, (int)c.src.draw(4), l);
  if (f.codec == GLP && c.src.chance(1, 4)) { f.var = true; for (int q = (int)c.src.i(1, 4); q > 0; q--) f.stages.push_back({(int)c.src.small(1, 12), f.n() * c.src.real(0.2, 2.2)}); }
  return f;
}
bool built(int codec, const char *kind) {
  struct stat st;
  return stat((g_libdir + "/" + codec_name[codec] + "_" + kind + ".so").c_str(), &st) == 0 && st.st_size > 0;
}
void same(Ctx &c, const char *kind, bool ops, const Cfg &f, int words) {
  Src &s = c.src;
  if (!built(f.codec, kind)) { c.label("does not compile"); return; }
  c.label(codec_name[f.codec]);
  c.note("%s %s", kind, f.str().substr(0, 400).c_str());
  Inst a(f), b(f, kind);
  if (a.rc != b.rc) c.fail("initialised with %d and %d", a.rc, b.rc);
  if (!a.ok()) c.fail("configuration is not accepted: %s", a.a.ui_text());
  static std::map<std::string, std::pair<long (*)(), void (*)(int *)>> fn;
  auto &p = fn[b.a.name];
  if (!p.first) { p.first = (long (*)())lib_sym(b.a.name, "ecv_printed"); p.second = (void (*)(int *))lib_sym(b.a.name, "ecv_ops"); }
  if (a.n() != b.n() || a.k() != b.k()) c.fail("the codes are [%d,%d] and [%d,%d]", a.n(), a.k(), b.n(), b.k());
  int wrong = 0;
  for (int t = words; t > 0; t--) {
    Bits x = gen_bits(s, f.k());
    Vec ya = a.enc(x, f.n()), yb = b.enc(x, f.n());
    if (ya != yb) c.fail("encoded %s differently", show(x).c_str());
    Rx rx = gen_rx(c, ref_code(f, x), (double)f.k() / f.n());
    for (int j = 0; j < f.n(); j++) wrong += (rx.y[j] > 0) != (ya[j] > 0);
    a.sg(rx.sg); b.sg(rx.sg);
    if (f.codec == GLP && f.var) { int q = (int)s.draw(f.stages.size()); a.a.set_csnrn(a.inst, q); b.a.set_csnrn(b.inst, q); }
    Bits xa, xb, xc; int o[2][8];
    int ra = a.dec(rx.y, xa, f.k());
    p.second(o[0]);
    int rb = b.dec(rx.y, xb, f.k());
    p.second(o[0]);
    if (ra != rb) c.fail("return codes %d and %d", ra, rb);
    if (xa != xb) c.fail("decoded %s, in the other build %s", show(xa).c_str(), show(xb).c_str());
    if (ops) {
      b.dec(rx.y, xc, f.k());
      p.second(o[1]);
      long n = 0;
      for (int i = 0; i < 8; i++) { if (o[0][i] != o[1][i]) c.fail("operations of type %d: %d, again %d", i, o[0][i], o[1][i]); if (o[0][i] < 0) c.fail("%d operations", o[0][i]); n += o[0][i]; }
      if (n > 0) c.label("counted");
    }
    else if (p.first() > 0) c.label("with output");
  }
  c.nontrivial(wrong > 0);
}

void same(Ctx &c, const char *kind, bool ops) {
  Cfg f = gen(c, c.src.chance(1, 8) ? 8 : 6);
  same(c, kind, ops, f, (int)c.src.i(1, 3));
}

SUB("C34", "output", "plain", 60000, 3600000, "a received word with wrong hard decisions") { same(c, "dbg", false); }
SUB("C34", "operations", "plain", 120000, 7200000, "a received word with wrong hard decisions") { same(c, "ops", true); }
SUB("C34", "memory", "asan", 12000, 720000, "a received word with wrong hard decisions") { bool o = c.src.coin(); same(c, o ? "ops" : "dbg", o); }

// Lists of more than 4096 information bits.
SUB("C34", "long_lists", "asan", 16, 960, "a received word with wrong hard decisions") {
  Src &s = c.src;
  Cfg f; f.m = 13; f.L = (int)s.i(1, 2);
  if (s.coin()) { f.codec = GLP; f.r = (int)s.i(11, 13); f.mask = std::string(binom(13, f.r), '1'); }
  else {
    f.codec = POLAR; f.r = 13;
    for (int i = 0; i < 1 << 13; i++) f.mask += s.chance(5, 9) ? '1' : '0';
    for (int i = 0; f.ktot() < 4100; i++) f.mask[i] = '1';
  }
  same(c, "dbg", false, f, 1);
}

}  // namespace
