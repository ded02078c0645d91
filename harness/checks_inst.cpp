// C15, C17, C27: codec instances: history, configurations, memory.
#include "codec.hpp"
#include <dlfcn.h>
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <memory>
using namespace pbt;

namespace {

void add_stages(Src &s, Cfg &f, int Lmax = 12) {
  f.var = true;
  int n = (int)s.i(1, 5);
  for (int i = 0; i < n; i++) f.stages.push_back({(int)s.small(1, Lmax), s.chance(1, 6) ? (s.coin() ? 0.0 : 1e9) : f.n() * s.real(0.2, 2.2)});
}
Cfg some_cfg(Ctx &c, int mtop, int Lmax = 12) {
  CfgLim l; l.mmax = mtop; l.Lmax = Lmax;
  Cfg f = gen_cfg(c, (int)c.src.draw(4), l);
  if (f.codec == GLP && c.src.chance(1, 4)) add_stages(c.src, f, Lmax);
  return f;
}

// A copy of the codec loaded anew: its static data are in the initial state.
struct FreshLib {
  void *h = nullptr; std::string path;
  Api a;
  FreshLib(int codec) {
    static int cnt = 0;
    std::string nm = codec_name[codec];
    path = scratch() + strf("/fresh%d.so", cnt++);
    std::string src = g_libdir + "/" + nm + ".so";
    static std::map<std::string, std::string> img;
    std::string &d = img[nm];
    if (d.empty()) {
      FILE *f = fopen(src.c_str(), "rb"); if (!f) _Exit(77);
      char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) d.append(b, n);
      fclose(f);
    }
    FILE *f = fopen(path.c_str(), "wb"); if (!f) _Exit(77);
    fwrite(d.data(), 1, d.size(), f); fclose(f);
    h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    unlink(path.c_str());
    if (!h) { fprintf(stderr, "%s\n", dlerror()); _Exit(77); }
    a.name = nm; a.h = h;
    auto g = [&](const char *s) { return dlsym(h, s); };
    a.init = (int (*)(char *, void **))g("cdc_init");
    a.get_n = (int (*)(void *))g("cdc_get_n"); a.get_k = (int (*)(void *))g("cdc_get_k");
    a.set_sg = (void (*)(void *, double))g("cdc_set_sg"); a.set_csnrn = (void (*)(void *, int))g("cdc_set_csnrn");
    a.enc = (int (*)(void *, int *, double *))g("enc_bpsk"); a.dec = (int (*)(void *, double *, int *))g("dec_bpsk");
    a.close = (void (*)(void *))g("cdc_close");
    a.ui_errs = (int (*)())g("ecv_ui_errs"); a.ui_msgs = (int (*)())g("ecv_ui_msgs");
    a.ui_text = (const char *(*)())g("ecv_ui_text"); a.ui_reset = (void (*)())g("ecv_ui_reset");
  }
  ~FreshLib() { if (h) dlclose(h); }
};

const int GUARD = 24;
template <class T> struct Guarded {
  std::vector<T> b; size_t n;
  Guarded(size_t n_, T fill) : b(n_ + 2 * GUARD, fill), n(n_) { mark(); }
  static T canary(size_t i) { return (T)(123457 + 31 * (long)i); }
  void mark() { for (size_t i = 0; i < GUARD; i++) { b[i] = canary(i); b[GUARD + n + i] = canary(i + 77); } }
  T *p() { return b.data() + GUARD; }
  bool intact() { for (size_t i = 0; i < GUARD; i++) if (b[i] != canary(i) || b[GUARD + n + i] != canary(i + 77)) return false; return true; }
};

// Encodes or decodes with guards around the buffers.
Vec guarded_enc(Ctx &c, Api &a, void *inst, const Bits &x, int n, double fill) {
  Guarded<int> gx(x.size(), 0); std::copy(x.begin(), x.end(), gx.p());
  Guarded<double> gy(n, fill);
  a.enc(inst, gx.p(), gy.p());
  if (!gx.intact() || !std::equal(x.begin(), x.end(), gx.p())) c.fail("the encoder changed its input");
  if (!gy.intact()) c.fail("the encoder wrote outside of the %d symbols", n);
  return Vec(gy.p(), gy.p() + n);
}
int guarded_dec(Ctx &c, Api &a, void *inst, const Vec &y, int k, Bits &xd, u64 fill) {
  Guarded<double> gy(y.size(), 0); std::copy(y.begin(), y.end(), gy.p());
  Guarded<int> gx(k, 0);
  Rng r(fill);
  for (int i = 0; i < k; i++) gx.p()[i] = fill == 0 ? 0 : fill == 1 ? -1 : fill == 2 ? 1 : (int)r.next();
  int rc = a.dec(inst, gy.p(), gx.p());
  if (!gy.intact() || memcmp(gy.p(), y.data(), y.size() * sizeof(double))) c.fail("the decoder changed its input");
  if (!gx.intact()) c.fail("the decoder wrote outside of the %d bits", k);
  xd.assign(gx.p(), gx.p() + k);
  return rc;
}

Vec any_vector(Ctx &c, const Cfg &f, double &sg) {
  Src &s = c.src;
  switch (s.weighted({6, 1, 1, 1})) {
    case 1: { Vec y(f.n(), 0.0); double v = s.oneof({0.0, 1.0, -1.0, 1e-9}); for (double &e : y) e = v; return y; }   // ties
    case 2: { Rng r = s.bulk(); Vec y(f.n()); for (double &e : y) e = (double)((int)r.below(3) - 1); return y; }
    case 3: { Rng r = s.bulk(); Vec y(f.n()); for (double &e : y) e = r.gauss() * std::pow(10, 12 * r.u() - 6); return y; }
  }
  Bits x = gen_bits(s, f.k());
  Rx rx = gen_rx(c, ref_code(f, x), (double)f.k() / f.n());
  sg = rx.sg;
  return rx.y;
}
}  // namespace

// ----------------------------------------------------------------- C15

SUB("C15", "history", "plain", 62500, 3750000, "at least three decodings by instances with an earlier history") {
  Src &s = c.src;
  int ni = (int)s.i(1, 4);
  struct I { Cfg f; std::string par; void *inst = nullptr; double sg = 1; int sn = -1; int ops = 0; };
  std::vector<I> v(ni);
  for (int i = 0; i < ni; i++) {
    if (i && s.chance(1, 3)) v[i].f = v[(size_t)s.i(0, i - 1)].f;   // a twin
    else v[i].f = some_cfg(c, s.chance(1, 6) ? 8 : 5);
    v[i].par = v[i].f.params();
    c.note("[%d] %s; ", i, v[i].f.str().substr(0, 160).c_str());
    c.label(codec_name[v[i].f.codec]);
  }
  auto open_in = [&](I &e, Api &a, void *&inst) {
    std::vector<char> b(e.par.begin(), e.par.end()); b.push_back(0);
    inst = nullptr;
    a.ui_reset();
    if (a.init(b.data(), &inst) || !inst) c.fail("configuration is not accepted: %s: %s", e.f.str().c_str(), a.ui_text());
    a.set_sg(inst, e.sg);
    if (a.set_csnrn && e.sn >= 0) a.set_csnrn(inst, e.sn);
  };
  struct Cleanup { std::vector<I> &v; ~Cleanup() { for (auto &e : v) if (e.inst) api(e.f.codec).close(e.inst); mallopt(M_PERTURB, 0); } } cl{v};
  int nops = (int)s.i(1, c.thorough ? 40 : 24), judged = 0;
  for (int o = 0; o < nops; o++) {
    int i = (int)s.i(0, ni - 1);
    I &e = v[i]; Api &a = api(e.f.codec);
    mallopt(M_PERTURB, (int)s.draw(4) * 85);
    if (!e.inst) { open_in(e, a, e.inst); e.ops = 0; c.note("open %d; ", i); }
    switch (s.weighted({8, 3, 2, 1, 1})) {
      case 0: {
        Vec y = any_vector(c, e.f, e.sg);
        a.set_sg(e.inst, e.sg);
        Bits xd, xe;
        int rc = guarded_dec(c, a, e.inst, y, e.f.k(), xd, s.draw(8));
        mallopt(M_PERTURB, 85);
        FreshLib L(e.f.codec); void *fi; open_in(e, L.a, fi);
        int rf = guarded_dec(c, L.a, fi, y, e.f.k(), xe, 0);
        L.a.close(fi);
        c.note("dec %d %s; ", i, show(y, 5).c_str());
        if (rc != rf) c.fail("step %d: return code %d, on a fresh instance %d", o, rc, rf);
        if (xd != xe) c.fail("step %d: decoded %s, on a fresh instance %s", o, show(xd).c_str(), show(xe).c_str());
        if (e.ops++) judged++;
        break;
      }
      case 1: {
        Bits x = gen_bits(s, e.f.k());
        Vec y = guarded_enc(c, a, e.inst, x, e.f.n(), s.oneof({0.0, 7.25, -1.0, (double)NAN}));
        FreshLib L(e.f.codec); void *fi; open_in(e, L.a, fi);
        Vec z = guarded_enc(c, L.a, fi, x, e.f.n(), 0.5);
        L.a.close(fi);
        c.note("enc %d %s; ", i, show(x, 10).c_str());
        if (memcmp(y.data(), z.data(), y.size() * sizeof(double))) c.fail("step %d: encoded %s, on a fresh instance %s", o, show(y).c_str(), show(z).c_str());
        e.ops++;
        break;
      }
      case 2: e.sg = s.real(0.3, 2.5); a.set_sg(e.inst, e.sg); c.note("sg %d; ", i); break;
      case 3: a.close(e.inst); e.inst = nullptr; c.note("close %d; ", i); break;
      case 4: if (a.set_csnrn && (!e.f.var || !e.f.stages.empty())) { e.sn = (int)s.i(0, e.f.var ? (int)e.f.stages.size() - 1 : 40); a.set_csnrn(e.inst, e.sn); } break;
    }
    if (e.inst && (a.get_n(e.inst) != e.f.n() || a.get_k(e.inst) != e.f.k())) c.fail("step %d: n = %d, k = %d", o, a.get_n(e.inst), a.get_k(e.inst));
  }
  c.nontrivial(judged >= 3);
}

// Long lives: thousands of calls, in any order.
SUB("C15", "long_history", "plain", 1600, 60000, "at least a thousand calls") {
  Src &s = c.src;
  Cfg f = some_cfg(c, s.chance(1, 4) ? 5 : 4, 6);
  Inst in(f); if (!in.ok()) c.fail("not accepted: %s", in.a.ui_text());
  Api &a = in.a;
  struct V { Vec y; double sg; int rc; Bits xd, x; Vec cw; };
  std::vector<V> pool((size_t)s.i(2, 8));
  for (auto &v : pool) {
    v.sg = 1; v.y = any_vector(c, f, v.sg); v.x = gen_bits(s, f.k());
    FreshLib L(f.codec);
    std::string par = f.params(); std::vector<char> b(par.begin(), par.end()); b.push_back(0);
    void *fi = nullptr;
    if (L.a.init(b.data(), &fi)) c.fail("not accepted");
    L.a.set_sg(fi, v.sg);
    v.rc = guarded_dec(c, L.a, fi, v.y, f.k(), v.xd, 0);
    v.cw = guarded_enc(c, L.a, fi, v.x, f.n(), 0.5);
    L.a.close(fi);
  }
  long calls = s.chance(1, 12) ? s.i(1000, c.thorough ? 140000 : 70000) : s.i(10, 4000);
  if (f.n() * f.L > 64) calls = std::min(calls, 6000L);
  c.note("%s, %zu vectors, %ld calls", f.str().substr(0, 300).c_str(), pool.size(), calls);
  Rng r = s.bulk();
  bool resg = s.coin(); double cur = -1;
  Inst *other = nullptr; std::unique_ptr<Inst> own;
  if (s.coin()) { own.reset(new Inst(f)); other = own.get(); if (!other->ok()) c.fail("not accepted"); }
  for (long t = 0; t < calls; t++) {
    V &v = pool[r.below(pool.size())];
    Inst &u = other && r.below(3) == 0 ? *other : in;
    if (r.below(4) == 0) {
      Vec y = guarded_enc(c, a, u.inst, v.x, f.n(), 7.25);
      if (y != v.cw) c.fail("call %ld: encoded %s, on a fresh instance %s", t, show(y).c_str(), show(v.cw).c_str());
    }
    else {
      if (&u != &in || resg || cur != v.sg) { u.sg(v.sg); if (&u == &in) cur = v.sg; }
      Bits xd;
      int rc = guarded_dec(c, a, u.inst, v.y, f.k(), xd, r.below(4));
      if (rc != v.rc || xd != v.xd) c.fail("call %ld: decoded %s (%d), on a fresh instance %s (%d)", t, show(xd).c_str(), rc, show(v.xd).c_str(), v.rc);
    }
  }
  c.nontrivial(calls >= 1000);
}

// Many instances alive at once.
SUB("C15", "many_instances", "plain", 8000, 480000, "at least twenty instances at once") {
  Src &s = c.src;
  int ni = s.chance(1, 4) ? (int)s.i(40, c.thorough ? 600 : 300) : (int)s.i(5, 40);
  struct E { Cfg f; void *inst = nullptr; Vec y, cw; double sg = 1; int rc = 0; Bits xd, x; };
  std::vector<E> v((size_t)ni);
  struct Cleanup { std::vector<E> &v; ~Cleanup() { for (auto &e : v) if (e.inst) api(e.f.codec).close(e.inst); } } cl{v};
  std::vector<Cfg> kinds;
  for (int n = (int)s.i(1, 4); n > 0; n--) kinds.push_back(some_cfg(c, 4, 6));
  std::vector<E> known;
  for (auto &f : kinds) for (int t = 0; t < 3; t++) {
    E e; e.f = f; e.y = any_vector(c, f, e.sg); e.x = gen_bits(s, f.k());
    FreshLib L(f.codec);
    std::string par = f.params(); std::vector<char> b(par.begin(), par.end()); b.push_back(0);
    void *fi = nullptr;
    if (L.a.init(b.data(), &fi)) c.fail("not accepted: %s", f.str().c_str());
    L.a.set_sg(fi, e.sg);
    e.rc = guarded_dec(c, L.a, fi, e.y, f.k(), e.xd, 0);
    e.cw = guarded_enc(c, L.a, fi, e.x, f.n(), 0.5);
    L.a.close(fi);
    known.push_back(e);
  }
  Rng r = s.bulk();
  for (auto &f : kinds) c.note("%s; ", f.str().substr(0, 160).c_str());
  c.note("%d instances", ni);
  auto open = [&](E &e) {
    e = known[r.below(known.size())];
    std::string par = e.f.params(); std::vector<char> b(par.begin(), par.end()); b.push_back(0);
    Api &a = api(e.f.codec);
    a.ui_reset();
    if (a.init(b.data(), &e.inst) || !e.inst) c.fail("with other instances alive not accepted: %s: %s", e.f.str().c_str(), a.ui_text());
    a.set_sg(e.inst, e.sg);
  };
  auto use = [&](int i) {
    E &e = v[(size_t)i]; Api &a = api(e.f.codec);
    if (a.get_n(e.inst) != e.f.n() || a.get_k(e.inst) != e.f.k()) c.fail("instance %d of %d: n = %d, k = %d", i, ni, a.get_n(e.inst), a.get_k(e.inst));
    if (r.below(3) == 0) {
      if (guarded_enc(c, a, e.inst, e.x, e.f.n(), 7.25) != e.cw) c.fail("instance %d of %d: encoded otherwise than by a fresh one", i, ni);
    }
    Bits xd;
    int rc = guarded_dec(c, a, e.inst, e.y, e.f.k(), xd, r.below(4));
    if (rc != e.rc || xd != e.xd) c.fail("instance %d of %d: decoded %s (%d), by a fresh one %s (%d)", i, ni, show(xd).c_str(), rc, show(e.xd).c_str(), e.rc);
  };
  for (auto &e : v) open(e);
  for (int t = 0; t < 2 * ni; t++) {
    int i = (int)r.below((u64)ni);
    E &e = v[(size_t)i];
    use(i);
    if (r.below(4) == 0) { api(e.f.codec).close(e.inst); e.inst = nullptr; open(e); }
  }
  for (int i = 0; i < ni; i++) use(i);
  c.nontrivial(ni >= 20);
}

// The result does not depend on where the vectors are, nor on a failed initialisation before.
SUB("C15", "failed_init_between", "plain", 20000, 1200000, "an initialisation failed while the instance was alive") {
  Src &s = c.src;
  Cfg f = some_cfg(c, 5);
  Inst in(f); if (!in.ok()) c.fail("not accepted");
  double sg = 1;
  Vec y = any_vector(c, f, sg);
  c.note("%s y=%s", f.str().substr(0, 200).c_str(), show(y, 6).c_str());
  in.sg(sg);
  Bits a, b;
  int ra = guarded_dec(c, in.a, in.inst, y, f.k(), a, 3);
  int n = (int)s.i(1, 3), failed = 0;
  for (int i = 0; i < n; i++) {
    Cfg g = some_cfg(c, 4);
    if (s.coin()) g.codec = f.codec;
    auto t = g.tokens();
    t.resize((size_t)s.i(0, (long)t.size()));    // cut
    Api &ap = api(g.codec);
    std::string p = join_params(t); std::vector<char> q(p.begin(), p.end()); q.push_back(0);
    void *inst = nullptr;
    ap.ui_reset();
    if (ap.init(q.data(), &inst)) failed++; else ap.close(inst);
  }
  int rb = guarded_dec(c, in.a, in.inst, y, f.k(), b, 5);
  if (ra != rb || a != b) c.fail("first %d %s, then %d %s", ra, show(a).c_str(), rb, show(b).c_str());
  c.nontrivial(failed > 0);
}

// ----------------------------------------------------------------- C17

namespace {
struct Item { std::vector<std::string> t; };
std::vector<Item> items(const Cfg &f) {
  std::vector<Item> v;
  auto t = f.tokens();
  for (size_t i = 0; i < t.size();) {
    Item e; e.t.push_back(t[i++]);
    e.t.push_back(t[i]);
    if (t[i++] == "{") { while (t[i] != "}") e.t.push_back(t[i++]); e.t.push_back(t[i++]); }
    v.push_back(e);
  }
  return v;
}
std::vector<std::string> flat(const std::vector<Item> &v) { std::vector<std::string> t; for (auto &e : v) t.insert(t.end(), e.t.begin(), e.t.end()); return t; }
int find(const std::vector<Item> &v, const std::string &k) { for (size_t i = 0; i < v.size(); i++) if (v[i].t[0] == k) return (int)i; return -1; }
// Parameters the codec does not know. Names resemble the known ones.
Item unknown(Src &s) {
  static const std::vector<std::string> names = {"res_file", "foo", "RM_", "RM_mm", "rm_m", "RM", "c_mm", "c_", "border_node", "border_node_mask2", "list_sizes", "list", "permutation", "CRC", "ca_polar", "SNR_val_trn", "EbNo_values", "random_codeword", "x", "info_bits", "use_variable", "distance", "-1", "0", "on"};
  static const std::vector<std::string> vals = {"1", "0", "-5", "on", "off", "abc", "1e9", "RM_m", "c_m", "list_size", "border_node_mask", "permutations", "0101", "3.25"};
  Item e; e.t.push_back(s.pick(names));
  if (s.chance(1, 2)) {
    e.t.push_back("{");
    for (int n = (int)s.i(0, 5); n > 0; n--) e.t.push_back(s.pick(vals));
    e.t.push_back("}");
  }
  else e.t.push_back(s.pick(vals));
  return e;
}
Cfg valid_cfg(Ctx &c) {
  Src &s = c.src;
  Cfg f = some_cfg(c, s.chance(1, 5) ? 9 : 5, 40);
  if (f.codec == GLP && s.chance(1, 3)) { // full RM code with real permutations
    f.mask = std::string(binom(f.m, f.r), '1'); f.perms.clear();
    for (int n = (int)s.i(1, 6); n > 0; n--) f.perms.push_back(gen_perm(s, f.m));
  }
  return f;
}
void shuffle(Src &s, std::vector<Item> &v) { for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[i - s.i(0, i)]); }
std::string text(const std::vector<std::string> &t) { std::string r; for (auto &x : t) r += (r.empty() ? "" : " ") + (x.size() > 90 ? x.substr(0, 80) + strf("..(%zu)", x.size()) : x); return r.substr(0, 700); }
// A rejected configuration leaves no allocated memory behind.
void no_leak(Ctx &c, int codec, const std::vector<std::string> &t, const char *why) {
  struct L { long *live; int (*init)(char *, void **); void (*close)(void *); };
  static std::map<int, L> m;
  if (!m.count(codec)) {
    std::string lib = std::string("live_") + codec_name[codec];
    m[codec] = {(long *)lib_sym(lib, "ecv_live"), (int (*)(char *, void **))lib_sym(lib, "cdc_init"), (void (*)(void *))lib_sym(lib, "cdc_close")};
  }
  L &l = m[codec];
  std::string par = join_params(t);
  std::vector<char> p(par.begin(), par.end()); p.push_back(0);
  long before = *l.live;
  void *inst = nullptr;
  if (l.init(p.data(), &inst) == 0) l.close(inst);
  if (*l.live != before) c.fail("%s: %ld blocks are left allocated", why, *l.live - before);
}
void must_reject(Ctx &c, int codec, const std::vector<std::string> &t, const char *why) {
  Inst in(api(codec), join_params(t));
  int msgs = in.a.ui_msgs();
  if (in.rc == 0) c.fail("%s: accepted (n = %d, k = %d)", why, in.n(), in.k());
  if (msgs == 0) c.fail("%s: rejected without a message", why);
}
void must_honour(Ctx &c, const Cfg &f, const std::vector<std::string> &t) {
  Src &s = c.src;
  Inst in(api(f.codec), join_params(t));
  if (!in.ok()) c.fail("rejected: %s", in.a.ui_text());
  if (in.n() != f.n() || in.k() != f.k()) c.fail("n = %d, k = %d; expected %d, %d", in.n(), in.k(), f.n(), f.k());
  Bits x = gen_bits(s, f.k()), xd;
  Vec y = in.enc(x, f.n()), z = bpsk(ref_code(f, x));
  if (y != z) c.fail("encoded %s, expected %s", show(y).c_str(), show(z).c_str());
  in.sg(0.1);
  int rc = in.dec(z, xd, f.k());
  if (rc || xd != x) c.fail("noiseless word decoded to %s (code %d), sent %s", show(xd).c_str(), rc, show(x).c_str());
}
}  // namespace

SUB("C17", "honoured", "plain", 480000, 28800000, "parameters reordered or mixed with unknown ones") {
  Src &s = c.src;
  Cfg f = valid_cfg(c);
  auto v = items(f);
  bool moved = s.chance(3, 4);
  if (moved) shuffle(s, v);
  int extra = (int)s.small(0, 4);
  for (int i = 0; i < extra; i++) v.insert(v.begin() + s.i(0, (long)v.size()), unknown(s));
  if (s.chance(1, 6)) {   // a mask longer than needed
    int i = find(v, f.codec == POLAR ? "info_bits_mask" : "border_node_mask");
    if (i >= 0) { int n = (int)s.small(1, 30); for (int q = 0; q < n; q++) v[i].t[1] += s.coin() ? '1' : '0'; c.label("longer mask"); }
  }
  int pm = find(v, f.codec == POLAR ? "c_m" : "RM_m"), pp = find(v, "permutations");
  bool before = pp >= 0 && pp < pm;
  auto t = flat(v);
  if (s.chance(1, 10)) { t.push_back("foo"); c.label("last without a value"); }
  c.note("%s: %s", codec_name[f.codec], text(t).c_str());
  c.label(codec_name[f.codec]);
  if (before) {
    Inst in(api(f.codec), join_params(t));
    if (!in.ok()) { if (!in.a.ui_msgs()) c.fail("rejected without a message"); c.label("permutations before m, rejected"); return; }
  }
  must_honour(c, f, t);
  c.nontrivial(moved || extra);
}

// An invalid configuration.
static std::vector<std::string> gen_invalid(Ctx &c, int &codec, std::string &why) {
  Src &s = c.src;
  Cfg f = valid_cfg(c);
  codec = f.codec;
  auto v = items(f);
  std::string km = f.codec == POLAR ? "c_m" : "RM_m", kmask = f.codec == POLAR ? "info_bits_mask" : "border_node_mask",
              kl = f.codec == POLAR ? "list_size" : "border_node_lsize";
  auto num = [&](const std::string &k, long val) { v[find(v, k)].t[1] = std::to_string(val); };
  bool rm = f.codec != POLAR, lists = f.codec >= GLP, noorder = false;
  int kind = (int)s.draw(lists ? 11 : 5);
  switch (kind) {
    case 0: { long m = s.oneof({0L, -1L, -3L, 31L, 32L, 33L, 62L, 63L, 64L, 65L, 127L, 1000000L, 2147483647L, -2147483647L}); num(km, m); why = "m out of range"; break; }
    case 1:
      if (rm) { long r = s.chance(1, 2) ? f.m + s.small(1, 40) : s.oneof({0L, -1L, -7L, 1000000L, 2147483647L}); num("RM_r", r); why = "r out of range"; }
      else { num(km, s.oneof({0L, -2L})); why = "m out of range"; }
      break;
    case 2: { std::vector<std::string> keys = {km}; if (rm) keys.push_back("RM_r"); if (lists) { keys.push_back(kmask); keys.push_back(kl); }
      std::string k = s.pick(keys); v.erase(v.begin() + find(v, k)); why = k + " is missing"; break; }
    case 3: { std::vector<std::string> keys = {km}; if (rm) keys.push_back("RM_r"); if (lists) { keys.push_back(kmask); keys.push_back(kl); }
      std::string k = s.pick(keys); int i = find(v, k); Item e = v[i]; v.erase(v.begin() + i); e.t.resize(1); v.push_back(e); noorder = true; why = k + " has no value"; break; }
    case 4: { v.clear(); int n = (int)s.i(0, 4); for (int i = 0; i < n; i++) v.push_back(unknown(s)); why = "nothing is specified"; break; }
    case 5: { auto &m = v[find(v, kmask)].t[1]; int n = (int)s.i(1, (long)m.size()); if (n == (int)m.size()) n--; if (n < 1) { num(kl, 0); why = "zero list size"; break; } m.resize(m.size() - n); why = "short mask"; break; }
    case 6: { auto &m = v[find(v, kmask)].t[1]; std::fill(m.begin(), m.end(), '0'); if (s.coin()) m += std::string((size_t)s.i(1, 9), '1'); why = "mask without information bits"; break; }
    case 7: { static const std::vector<std::string> l = {"0", "-1", "-4", "-2147483648", "-2147483647", "abc", "-"}; v[find(v, kl)].t[1] = s.pick(l); why = "list size"; break; }
    case 8: {   // permutations
      int i = find(v, "permutations");
      if (i >= 0) v.erase(v.begin() + i);
      Item e; e.t = {"permutations", "{"};
      int np = (int)s.i(1, 4), bad = (int)s.i(0, np - 1), how = (int)s.draw(f.m >= 2 ? 6 : 4);
      for (int p = 0; p < np; p++) {
        std::vector<int> q(f.m);
        if (s.coin()) q = gen_perm(s, f.m); else for (int j = 0; j < f.m; j++) q[j] = j;
        if (p == bad) {
          int at = (int)s.i(0, f.m - 1);
          if (how == 0) q[at] = f.m + (int)s.small(0, 40);
          if (how == 1) q[at] = -1 - (int)s.small(0, 40);
          if (how == 4) {   // repeated
            int b = (at + (int)s.i(1, f.m - 1)) % f.m, kind = (int)s.draw(3);
            if (kind == 1 && f.m > 2) {   // with the same sum
              int lo = (int)s.i(0, f.m - 2), hi = (int)s.i(lo + 1, f.m - 1);
              std::vector<int> w = q;
              for (int &x : w) { if (x == lo) x = lo + 1; else if (x == hi) x = hi - 1; }
              std::vector<int> z = w; std::sort(z.begin(), z.end());
              if (std::adjacent_find(z.begin(), z.end()) != z.end()) q = w; else q[at] = q[b];
            }
            else if (kind == 2) { Rng r = s.bulk(); q[at] = q[b]; for (int n = (int)s.i(0, f.m); n > 0; n--) q[r.below(f.m)] = q[b]; }
            else q[at] = q[b];
          }
        }
        for (int x : q) e.t.push_back(std::to_string(x));
      }
      if (how == 5) { e.t.resize(e.t.size() - (size_t)s.i(1, f.m - 1)); }   // incomplete
      if (how == 2) { for (int j = 0; j < (int)s.i(1, 3); j++) e.t.push_back("0"); noorder = true; }      // no end, and the last
      if (how == 3) {   // not a group
        if (s.coin()) e.t = {"permutations", "0"};
        else {
          if (bad >= 0 && s.coin()) { e.t.resize(2); for (int p = 0; p < np; p++) for (int x : gen_perm(s, f.m)) e.t.push_back(std::to_string(x)); }
          e.t[1] = s.pick(std::vector<std::string>{"0", "on", "(", "1", "["});
          if (s.coin()) e.t.push_back("}");
        }
      }
      else if (how != 2) e.t.push_back("}");
      v.push_back(e);
      why = strf("permutations (%d)", how);
      if (how != 2) { noorder = true; if (s.coin() && how != 3) { v.push_back(unknown(s)); } }
      else if (how == 2) noorder = true;
      break;
    }
    case 9: {
      if (f.codec == GLP) {   // staged lists
        for (auto k : {"use_variable_list", "distance_threshold"}) { int i = find(v, k); if (i >= 0) v.erase(v.begin() + i); }
        v.push_back({{"use_variable_list", "on"}});
        int how = (int)s.draw(5);
        if (how == 1) v.push_back({{"distance_threshold", "{", "}"}});
        if (how == 2) { int n = (int)s.i(1, 5), b = (int)s.i(0, n - 1); Item e; e.t = {"distance_threshold", "{"}; for (int i = 0; i < n; i++) { e.t.push_back(std::to_string(i == b ? -s.i(0, 3) : s.i(1, 9))); e.t.push_back("2.5"); } e.t.push_back("}"); v.push_back(e); }
        if (how == 3) { v.push_back({{"distance_threshold", s.coin() ? "5" : "on"}}); }
        if (how == 4) { Item e; e.t = {"distance_threshold", "{"}; for (int i = 0; i < (int)s.i(0, 3); i++) { e.t.push_back("2"); e.t.push_back("2.5"); } v.push_back(e); noorder = true; }
        why = strf("staged lists (%d)", how);
      }
      else {  // too long CRC
        for (auto k : {"ca_polar_crc"}) { int i = find(v, k); if (i >= 0) v.erase(v.begin() + i); }
        int l = f.ktot() + (int)s.small(0, 40);
        std::string p; for (int i = 0; i < l; i++) p += s.coin() ? '1' : '0';
        v.push_back({{"ca_polar_crc", p}}); why = "CRC leaves no information bits";
      }
      break;
    }
    case 10: {   // a permutation of variables which does not keep the code
      if (f.m < 2 || f.codec == POLAR) { num(kl, 0); why = "zero list size"; break; }
      num(km, -f.m); why = "negative m with permutations";
      int i = find(v, "permutations"); if (i < 0) { v.push_back({{"permutations", "{", "0", "}"}}); }
      break;
    }
  }
  if (!noorder && s.chance(2, 3)) shuffle(s, v);
  int extra = (int)s.small(0, 3);
  for (int i = 0; i < extra; i++) v.insert(v.begin() + s.i(0, noorder ? std::max(0L, (long)v.size() - 1) : (long)v.size()), unknown(s));
  auto t = flat(v);
  c.note("%s: %s: %s", why.c_str(), codec_name[f.codec], text(t).c_str());
  return t;
}
SUB("C17", "rejected", "plain", 640000, 38400000, "the configuration is invalid") {
  int codec; std::string why;
  auto t = gen_invalid(c, codec, why);
  c.label(why.substr(0, 24));
  must_reject(c, codec, t, why.c_str());
  c.nontrivial();
}

// Permutations which do not keep a subcode or a polar code are rejected, or the words are nevertheless recovered.
SUB("C17", "other_permutations", "plain", 120000, 7200000, "a permutation is not trivial") {
  Src &s = c.src;
  CfgLim l; l.mmax = 6; l.perms = false; l.Lmax = 8;
  Cfg f = gen_cfg(c, s.coin() ? GLP : POLAR, l);
  int np = (int)s.i(1, 4); bool triv = true;
  for (int i = 0; i < np; i++) { f.perms.push_back(gen_perm(s, f.m)); for (int j = 0; j < f.m; j++) triv &= f.perms.back()[j] == j; }
  c.note("%s", f.str().substr(0, 300).c_str());
  Inst in(f);
  c.nontrivial(!triv);
  if (!in.ok()) {
    if (!in.a.ui_msgs()) c.fail("rejected without a message");
    bool full = f.codec == GLP && f.ktot() == (int)rm_coeffs(f.m, f.r).size();
    if (triv || full) c.fail("valid permutations are rejected: %s", in.a.ui_text());
    c.label("rejected"); return;
  }
  c.label("accepted");
  must_honour(c, f, f.tokens());
}

// Any sequence of parameters is either accepted, and then works, or rejected with a message.
static std::string soup_token(Src &s) {
  static const std::vector<std::string> keys = {"RM_m", "RM_r", "c_m", "border_node_mask", "border_node_lsize", "info_bits_mask", "list_size", "ca_polar_crc", "permutations", "use_variable_list", "distance_threshold", "{", "}", "on", "off"};
  switch (s.weighted({6, 5, 2, 1})) {
    case 0: return s.pick(keys);
    case 1: return std::to_string(s.i(0, 7));
    case 2: { std::string m; for (int n = (int)s.i(1, 70); n > 0; n--) m += s.chance(2, 3) ? '1' : '0'; return m; }
    default: return s.oneof({std::string("-1"), std::string("1e3"), std::string("2147483648"), std::string("99999999999999999999"), std::string("x{"), std::string("}}"), std::string("}x"), std::string("0.5"), std::string("nan")});
  }
}
static std::vector<std::string> gen_soup(Ctx &c, int &codec) {
  Src &s = c.src;
  codec = (int)s.draw(4);
  std::vector<std::string> t;
  if (s.coin()) { Cfg f = valid_cfg(c); if (f.m > 7) f = Cfg(); codec = f.codec; t = f.tokens();
    for (int n = (int)s.i(1, 4); n > 0 && !t.empty(); n--) {
      size_t p = (size_t)s.i(0, (long)t.size() - 1);
      switch (s.draw(4)) { case 0: t.erase(t.begin() + p); break; case 1: t[p] = soup_token(s); break; case 2: t.insert(t.begin() + p, soup_token(s)); break; case 3: std::swap(t[p], t[(size_t)s.i(0, (long)t.size() - 1)]); break; }
    }
  }
  else for (int n = (int)s.i(0, 16); n > 0; n--) t.push_back(soup_token(s));
  // Codes and lists of moderate size only.
  for (auto &x : t) { char *e; long v = strtol(x.c_str(), &e, 10); if (v >= 8 && v <= 1000 && x.size() < 4) x = "7"; }
  c.note("%s: %s", codec_name[codec], text(t).c_str());
  return t;
}
static void soup(Ctx &c) {
  Src &s = c.src;
  int codec;
  auto t = gen_soup(c, codec);
  Inst in(api(codec), join_params(t));
  if (!in.ok()) { if (!in.a.ui_msgs()) c.fail("rejected without a message"); c.label("rejected"); c.nontrivial(t.size() > 2); return; }
  int n = in.n(), k = in.k();
  c.label("accepted");
  if (k < 1 || n < 2 || (n & (n - 1)) || k > n) c.fail("accepted with n = %d, k = %d", n, k);
  c.nontrivial();
  // List sizes beyond what the code can have use memory only.
  for (size_t i = 0; i < t.size(); i++) if (t[i].size() > 4 && t[i].size() < 12 && strtol(t[i].c_str(), nullptr, 10) > 100000) return;
  if (n > 256) return;
  in.sg(0.7);
  Bits x = gen_bits(s, k), xd;
  Vec y = in.enc(x, n);
  for (double v : y) if (v != 1.0 && v != -1.0) c.fail("encoded symbol %g", v);
  int rc = in.dec(y, xd, k);
  if (rc || xd != x) c.fail("noiseless word decoded to %s (code %d), sent %s", show(xd).c_str(), rc, show(x).c_str());
}
SUB("C17", "any_sequence", "plain", 800000, 48000000, "at least three parameters or an accepted sequence") { soup(c); }
SUB("C17", "any_sequence_asan", "asan", 240000, 14400000, "at least three parameters or an accepted sequence") { soup(c); }

// ----------------------------------------------------------------- C27

namespace {
Vec finite_vector(Ctx &c, const Cfg &f, double &sg) {
  Src &s = c.src;
  int n = f.n();
  Vec y(n);
  switch (s.weighted({4, 2, 2, 1, 1})) {
    case 0: { Bits x = gen_bits(s, f.k()); Rx rx = gen_rx(c, ref_code(f, x), (double)f.k() / n); sg = rx.sg; return rx.y; }
    case 1: { Rng r = s.bulk(); double top = s.real(-300, 300); sg = std::pow(10, s.real(-6, 6)); for (double &v : y) v = r.gauss() * std::pow(10, top * r.u()); c.label("any magnitude"); break; }
    case 2: { Bits x = gen_bits(s, f.k()); y = bpsk(ref_code(f, x)); double g = std::pow(10, s.real(-300, 300)); for (double &v : y) v *= g; sg = std::pow(10, s.real(-6, 6)); c.label("any gain"); break; }
    case 3: { Rng r = s.bulk(); static const double e[] = {0.0, -0.0, 1e-308, 5e-324, -5e-324, 1e300, -1e300, 1.0, -1.0, 709.0, -745.0}; for (double &v : y) v = e[r.below(11)]; sg = s.oneof({1.0, 1e-3, 1e3}); c.label("special values"); break; }
    default: { double v0 = s.oneof({0.0, 1.0, -1.0, 1e150, -1e150}); for (double &v : y) v = v0; sg = 1; c.label("constant"); }
  }
  return y;
}
Cfg big_cfg(Ctx &c) {
  Src &s = c.src;
  int mtop = s.chance(1, 20) ? 12 : s.chance(1, 6) ? 10 : 7;
  CfgLim l; l.mmax = mtop; l.Lmax = mtop > 10 ? 4 : mtop > 7 ? 12 : 64; l.perms = mtop <= 7;
  Cfg f = gen_cfg(c, (int)s.draw(4), l);
  if (s.chance(1, 3)) f.r = std::min(f.m, (int)s.i(1, 3));     // low rate
  if (f.codec == GLP && f.mask.size() != (size_t)binom(f.m, f.r)) { f.mask = gen_node_mask(s, f.m, f.r); f.perms.clear(); }
  if (f.codec == GLP && f.m <= 7 && s.chance(1, 4)) add_stages(s, f, 20);
  return f;
}
void exercise(Ctx &c, const Cfg &f) {
  Src &s = c.src;
  c.note("%s", f.str().substr(0, 220).c_str());
  c.label(codec_name[f.codec]); c.label(f.m > 9 ? "m > 9" : f.m > 6 ? "m 7..9" : "m <= 6");
  Api &a = api(f.codec);
  std::string par = f.params();
  char *p = (char *)malloc(par.size() + 1); memcpy(p, par.c_str(), par.size() + 1);
  void *inst = nullptr;
  a.ui_reset();
  int rc = a.init(p, &inst);
  free(p);
  if (rc || !inst) c.fail("not accepted: %s", a.ui_text());
  int n = f.n(), k = f.k(), reps = (int)s.i(1, 3);
  for (int q = 0; q < reps; q++) {
    double sg = 1;
    Vec y = finite_vector(c, f, sg);
    Bits x = gen_bits(s, k);
    // Exact-size blocks.
    int *hx = (int *)malloc(k * sizeof(int)), *hd = (int *)malloc(k * sizeof(int));
    double *hy = (double *)malloc(n * sizeof(double)), *he = (double *)malloc(n * sizeof(double));
    std::copy(x.begin(), x.end(), hx); std::copy(y.begin(), y.end(), hy);
    a.set_sg(inst, sg);
    if (a.set_csnrn) a.set_csnrn(inst, 0);
    a.enc(inst, hx, he);
    rc = a.dec(inst, hy, hd);
    int bad = 0;
    for (int i = 0; i < k; i++) bad |= hd[i] != 0 && hd[i] != 1;
    c.note(" | %s sg=%.3g", show(y, 4).c_str(), sg);
    free(hx); free(hd); free(hy); free(he);
    if (rc != 0 && !(rc == 1 && !f.crc.empty())) c.fail("return code %d", rc);
    if (bad) c.fail("a decoded bit is neither 0 nor 1");
  }
  a.close(inst);
  c.nontrivial();
}
}  // namespace

SUB("C27", "bounds", "asan", 37500, 2250000, "every configuration is exercised") { exercise(c, big_cfg(c)); }
SUB("C27", "bounds_small", "asan", 120000, 7200000, "every configuration is exercised") { exercise(c, some_cfg(c, 4, 70)); }
// The largest codes.
SUB("C27", "bounds_long", "asan", 1200, 72000, "every configuration is exercised") {
  Src &s = c.src;
  Cfg f; f.codec = (int)s.draw(4); f.m = (int)s.i(10, 12); f.r = (int)s.i(1, f.m);
  if (f.codec == GLP) { f.mask = s.coin() ? std::string(binom(f.m, f.r), '1') : gen_node_mask(s, f.m, f.r); f.L = (int)s.small(1, 16); }
  if (f.codec == POLAR) { f.mask = gen_polar_mask(s, f.m); f.r = f.m; f.L = (int)s.small(1, 16); if (f.ktot() > 30 && s.coin()) f.crc = "00000111"; }
  exercise(c, f);
}
// Lengths up to 2^20, with the usual stack.
SUB("C27", "very_long", "plain", 480, 28800, "every configuration is exercised") {
  Src &s = c.src;
  Cfg f; f.codec = (int)s.draw(4);
  f.m = f.codec == POLAR ? (int)s.i(13, 15) : s.chance(1, 4) ? (int)s.i(17, 20) : (int)s.i(13, 17);
  f.r = s.coin() ? (int)s.i(1, 2) : s.coin() ? f.m - (int)s.i(1, 2) : (int)s.i(1, f.m);
  while (f.codec == GLP && (f.r > 15 || rm_dim(f.m, f.r) > 16000)) f.r--;
  if (f.codec == GLP) f.mask = s.coin() ? std::string(binom(f.m, f.r), '1') : gen_node_mask(s, f.m, f.r);
  if (f.codec == POLAR) { f.mask = gen_polar_mask(s, f.m); f.r = f.m; }
  if (f.codec >= 2) f.L = f.m > 16 ? 1 : (int)s.small(1, 4);
  exercise(c, f);
}
SUB("C27", "bounds_permutations", "asan", 3750, 225000, "at least two permutations") {
  Src &s = c.src;
  Cfg f; f.codec = GLP; f.m = (int)s.i(2, 8); f.r = (int)s.i(1, f.m); f.mask = std::string(binom(f.m, f.r), '1');
  f.L = (int)s.small(1, 40);
  int np = (int)s.small(2, f.m > 6 ? 20 : 120);
  for (int i = 0; i < np; i++) f.perms.push_back(gen_perm(s, f.m));
  exercise(c, f);
}

// Long lists of (nearly) equally likely paths: cutting them takes neither quadratic time nor deep recursion.
SUB("C27", "tied_lists", "asan", 20, 1200, "more than two received values are equal") {
  Src &s = c.src;
  Cfg f; f.codec = s.coin() ? GLP : POLAR; f.m = f.codec == GLP ? 6 : 5; f.r = f.codec == GLP ? (int)s.i(2, 4) : 5;
  f.mask = f.codec == GLP ? std::string(binom(f.m, f.r), '1') : std::string((int)s.i(0, 12), '0');
  if (f.codec == POLAR) f.mask += std::string(32 - f.mask.size(), '1');
  f.L = (int)s.i(50000, 80000);
  int kind = (int)s.draw(5);
  Rng q = s.bulk();
  Vec y(f.n());
  for (double &v : y) v = kind == 0 ? 0 : kind == 1 ? -1 : kind == 2 ? (q.below(2) ? 1.0 : -1.0) : kind == 3 ? q.below(3) - 1.0 : q.below(2) * 0.7;
  if (kind == 4) for (int j = 0; j < f.n(); j++) y[j] = -1 - 0.01 * j;   // in order
  static const char *kn[] = {"erased", "noiseless", "signs", "signs with erasures", "in order"};
  c.label(codec_name[f.codec]); c.label(kn[kind]);
  c.note("%s | %s y=%s", f.str().substr(0, 260).c_str(), kn[kind], show(y, 8).c_str());
  Inst in(f); if (!in.ok()) c.fail("not accepted: %s", in.a.ui_text());
  in.sg(1);
  Bits x;
  int rc = in.dec(y, x, f.k());
  if (rc) c.fail("return code %d", rc);
  if (kind == 1) for (int b : x) if (b) c.fail("a noiseless word of zeros is decoded to %s", show(x).c_str());
  c.nontrivial(kind < 4);
}

// Memory is released, and contents of allocated memory do not matter.
SUB("C27", "released", "plain", 60000, 3600000, "every configuration is exercised") {
  Src &s = c.src;
  Cfg f = some_cfg(c, s.chance(1, 5) ? 9 : 6, 20);
  c.note("%s", f.str().substr(0, 260).c_str());
  double sg = 1;
  Vec y = finite_vector(c, f, sg);
  Bits x = gen_bits(s, f.k());
  y.resize(f.n());
  Bits d[2] = {Bits(f.k() + 4, 5), Bits(f.k() + 4, -1)}; int rc[2];
  Vec e(f.n() + 4);
  std::string par = f.params();
  std::string lib = std::string("live_") + codec_name[f.codec];
#define LS(t, n) t n##_ = (t)lib_sym(lib, #n)
  LS(long *, ecv_live); LS(unsigned char *, ecv_fill);
  int (*init)(char *, void **) = (int (*)(char *, void **))lib_sym(lib, "cdc_init");
  void (*sgf)(void *, double) = (void (*)(void *, double))lib_sym(lib, "cdc_set_sg");
  int (*enc)(void *, int *, double *) = (int (*)(void *, int *, double *))lib_sym(lib, "enc_bpsk");
  int (*dec)(void *, double *, int *) = (int (*)(void *, double *, int *))lib_sym(lib, "dec_bpsk");
  void (*cl)(void *) = (void (*)(void *))lib_sym(lib, "cdc_close");
  for (int t = 0; t < 2; t++) {
    std::vector<char> p(par.begin(), par.end()); p.push_back(0);
    *ecv_fill_ = t ? 0xFF : 0x3C;
    long l0 = *ecv_live_;
    void *inst = nullptr;
    if (init(p.data(), &inst)) c.fail("not accepted");
    sgf(inst, sg);
    enc(inst, x.data(), e.data());
    rc[t] = dec(inst, y.data(), d[t].data());
    cl(inst);
    if (*ecv_live_ != l0) c.fail("%ld blocks are still allocated after closing", *ecv_live_ - l0);
  }
  if (rc[0] != rc[1] || !std::equal(d[0].begin(), d[0].begin() + f.k(), d[1].begin())) c.fail("the result depends on the contents of allocated memory: %d %s, %d %s", rc[0], show(d[0]).c_str(), rc[1], show(d[1]).c_str());
  c.nontrivial();
}

// Uses of uninitialised memory, under MemorySanitizer in a process of its own.
SUB("C27", "initialised", "plain", 12000, 720000, "every configuration is exercised") {
  Src &s = c.src;
  Cfg f = s.coin() ? some_cfg(c, 5, 20) : big_cfg(c);
  if (f.m > 10) f.m = 10, f.r = std::min(f.r, 10), f.mask = f.codec == POLAR ? gen_polar_mask(s, 10) : gen_node_mask(s, 10, f.r), f.crc = "", f.perms.clear();
  c.note("%s", f.str().substr(0, 260).c_str());
  c.label(codec_name[f.codec]);
  std::string par = f.params(), fn = scratch() + "/msan.in", er = scratch() + "/msan.err";
  FILE *o = fopen(fn.c_str(), "wb"); if (!o) _Exit(76);
  int len = (int)par.size(), dim[2] = {f.n(), f.k()}, nv = (int)s.i(1, 3);
  fwrite(&len, sizeof len, 1, o); fwrite(par.data(), 1, len, o); fwrite(dim, sizeof(int), 2, o); fwrite(&nv, sizeof nv, 1, o);
  for (int i = 0; i < nv; i++) {
    double sg = 1; Vec y = finite_vector(c, f, sg); Bits x = gen_bits(s, f.k());
    fwrite(&sg, sizeof sg, 1, o); fwrite(y.data(), sizeof(double), y.size(), o); fwrite(x.data(), sizeof(int), x.size(), o);
  }
  fclose(o);
  std::string exe = g_libdir + "/msan_" + codec_name[f.codec];
  pid_t p = fork();
  if (p == 0) {
    int fd = open(er.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1);
    alarm(120);
    setenv("MSAN_OPTIONS", "exitcode=99:symbolize=0:allocator_may_return_null=1", 1);
    execl(exe.c_str(), exe.c_str(), fn.c_str(), (char *)0);
    _exit(98);
  }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { c.nontrivial(); return; }
  std::string t; FILE *g = fopen(er.c_str(), "rb"); char b[1500] = ""; if (g) { size_t n = fread(b, 1, 1400, g); b[n] = 0; fclose(g); }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) c.fail("use of uninitialised memory: %s", b);
  c.fail("exit status 0x%x under MemorySanitizer: %s", st, b);
}

// Configurations which are rejected, or give a parameter twice.
SUB("C27", "rejected_released", "plain", 160000, 9600000, "rejected, or a parameter is given twice") {
  Src &s = c.src;
  int codec; std::string why = "any parameters";
  std::vector<std::string> t;
  switch (s.draw(3)) {
    case 0: t = gen_invalid(c, codec, why); break;
    case 1: t = gen_soup(c, codec); break;
    case 2: {
      Cfg f = valid_cfg(c);
      auto v = items(f);
      codec = f.codec; why = "a parameter given twice";
      for (int n = (int)s.i(1, 3); n > 0; n--) v.push_back(v[s.draw(v.size())]);
      t = flat(v);
      c.note("%s: %s", codec_name[codec], text(t).c_str());
    }
  }
  no_leak(c, codec, t, why.c_str());
  c.nontrivial();
}
