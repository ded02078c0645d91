#include "codec.hpp"
#include <dlfcn.h>
#include <algorithm>
#include <memory>
using namespace pbt;

const char *codec_name[4] = {"dtrm0", "dtrm1", "dtrm_glp", "polar"};

static void *open_lib(const std::string &lib) {
  static std::map<std::string, void *> libs;
  auto it = libs.find(lib);
  if (it != libs.end()) return it->second;
  std::string p = g_libdir + "/" + lib + ".so";
  void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror()); _Exit(77); }
  libs[lib] = h;
  return h;
}
void *lib_sym(const std::string &lib, const char *sym) { return dlsym(open_lib(lib), sym); }
void *Api::sym(const char *s) const { return dlsym(h, s); }

Api &api(int codec, const std::string &fmt) {
  static std::map<std::string, std::unique_ptr<Api>> m;
  std::string nm = std::string(codec_name[codec]) + (fmt.empty() ? "" : "_" + fmt);
  auto &p = m[nm];
  if (!p) {
    p.reset(new Api);
    Api &a = *p;
    a.name = nm;
    a.h = open_lib(nm);
    auto g = [&](const char *s, bool need = true) {
      void *x = dlsym(a.h, s);
      if (!x && need) { fprintf(stderr, "%s: no %s\n", nm.c_str(), s); _Exit(77); }
      return x;
    };
    a.init = (int (*)(char *, void **))g("cdc_init");
    a.get_n = (int (*)(void *))g("cdc_get_n");
    a.get_k = (int (*)(void *))g("cdc_get_k");
    a.set_sg = (void (*)(void *, double))g("cdc_set_sg");
    a.set_csnrn = (void (*)(void *, int))g("cdc_set_csnrn", false);
    a.enc = (int (*)(void *, int *, double *))g("enc_bpsk");
    a.dec = (int (*)(void *, double *, int *))g("dec_bpsk");
    a.close = (void (*)(void *))g("cdc_close");
    a.ui_errs = (int (*)())g("ecv_ui_errs");
    a.ui_msgs = (int (*)())g("ecv_ui_msgs");
    a.ui_text = (const char *(*)())g("ecv_ui_text");
    a.ui_reset = (void (*)())g("ecv_ui_reset");
  }
  return *p;
}

std::string join_params(const std::vector<std::string> &t) {
  std::string s;
  for (auto &x : t) { s += x; s += '\1'; }
  return s;
}

static std::string num(double d) { return strf("%.17g", d); }

std::vector<std::string> Cfg::tokens() const {
  std::vector<std::string> t;
  if (codec == POLAR) {
    t = {"c_m", std::to_string(m), "info_bits_mask", mask};
    if (!crc.empty()) { t.push_back("ca_polar_crc"); t.push_back(crc); }
    t.push_back("list_size"); t.push_back(std::to_string(L));
  }
  else {
    t = {"RM_m", std::to_string(m), "RM_r", std::to_string(r)};
    if (codec == GLP) {
      t.push_back("border_node_mask"); t.push_back(mask);
      t.push_back("border_node_lsize"); t.push_back(std::to_string(L));
      if (var) { t.push_back("use_variable_list"); t.push_back("on"); }
      if (!stages.empty()) {
        t.push_back("distance_threshold"); t.push_back("{");
        for (auto &s : stages) { t.push_back(std::to_string(s.first)); t.push_back(num(s.second)); }
        t.push_back("}");
      }
    }
  }
  if (!perms.empty() && (codec == GLP || codec == POLAR)) {
    t.push_back("permutations"); t.push_back("{");
    for (auto &p : perms) for (int x : p) t.push_back(std::to_string(x));
    t.push_back("}");
  }
  return t;
}
std::string Cfg::params() const { return join_params(tokens()); }
std::string Cfg::str() const {
  std::string s = codec_name[codec];
  for (auto &t : tokens()) s += " " + t;
  return s;
}

int popcnt(unsigned x) { return __builtin_popcount(x); }
std::vector<unsigned> rm_coeffs(int m, int r) {
  std::vector<unsigned> v;
  for (long c = (1L << m) - 1; c >= 0; c--) if (popcnt((unsigned)c) <= r) v.push_back((unsigned)c);
  return v;
}
long rm_dim(int m, int r) { long s = 0; for (int i = 0; i <= r; i++) s += binom(m, i); return s; }
long binom(int n, int k) {
  if (k < 0 || k > n) return 0;
  double b = 1;
  for (int i = 1; i <= k; i++) b = b * (n - k + i) / i;
  return (long)(b + 0.5);
}
// The border node of a monomial: walk its bits from the top, a set bit goes to the v part.
std::vector<BorderNode> border_nodes(int m, int r) {
  std::vector<BorderNode> out;
  std::vector<std::pair<unsigned, int>> key;  // (prefix bits, depth) of nodes in visiting order
  unsigned lastp = 0; int lastd = -1;
  for (unsigned c : rm_coeffs(m, r)) {   // descending order is the visiting order
    int R = r, M = m;
    while (R != 0 && R != M) {
      M--;
      if ((c >> M) & 1) R--;
    }
    unsigned p = M >= 31 ? 0 : c >> M;
    if (lastd != M || lastp != p || out.empty()) { out.push_back({R, M, {}}); lastd = M; lastp = p; }
    out.back().coeffs.push_back(c);
  }
  return out;
}
std::vector<unsigned> Cfg::coeffs() const {
  if (codec == POLAR) {
    std::vector<unsigned> v;
    for (int t = 0; t < n() && t < (int)mask.size(); t++) if (mask[t] != '0') v.push_back(n() - 1 - t);
    return v;
  }
  if (codec != GLP) return rm_coeffs(m, r);
  std::vector<unsigned> v;
  auto nodes = border_nodes(m, r);
  for (size_t i = 0; i < nodes.size(); i++)
    if (i < mask.size() && mask[i] != '0') v.insert(v.end(), nodes[i].coeffs.begin(), nodes[i].coeffs.end());
  return v;
}

// y[j] = XOR_i x[i] [coeffs[i] & j == 0], by a subset-sum transform.
Bits ref_encode(int m, const std::vector<unsigned> &coeffs, const Bits &x) {
  size_t n = (size_t)1 << m;
  // Term c contributes at all j inside the complement of c.
  Bits f(n, 0);
  for (size_t i = 0; i < coeffs.size(); i++) f[(n - 1) ^ coeffs[i]] ^= x[i] & 1;
  // y[j] = XOR of f[s] over supersets s of j.
  for (int b = 0; b < m; b++)
    for (size_t j = 0; j < n; j++)
      if (!((j >> b) & 1)) f[j] ^= f[j | ((size_t)1 << b)];
  return f;
}
// Schoolbook remainder over GF(2): process the message bit by bit through Horner's rule.
Bits ref_crc(const Bits &x, const std::string &poly) {
  size_t r = poly.size();
  Bits rem(r, 0);
  if (!r) return rem;
  for (int b : x) {
    int top = rem[0];
    for (size_t j = 0; j + 1 < r; j++) rem[j] = rem[j + 1];
    rem[r - 1] = b & 1;
    if (top) for (size_t j = 0; j < r; j++) rem[j] ^= poly[j] != '0';
  }
  return rem;
}
Bits ref_code(const Cfg &c, const Bits &x) {
  Bits w = x;
  if (!c.crc.empty()) { Bits k = ref_crc(x, c.crc); w.insert(w.end(), k.begin(), k.end()); }
  return ref_encode(c.m, c.coeffs(), w);
}
Vec bpsk(const Bits &b) { Vec v(b.size()); for (size_t i = 0; i < b.size(); i++) v[i] = b[i] ? 1.0 : -1.0; return v; }
Bits random_bits(Rng &r, int n) { Bits b(n); for (int &x : b) x = r.next() >> 63; return b; }
Bits gen_bits(Src &s, int n) {
  Bits b(n, 0);
  switch (s.weighted({1, 1, 1, 2, 6})) {
    case 0: break;
    case 1: if (n) b[s.i(0, n - 1)] = 1; break;
    case 2: std::fill(b.begin(), b.end(), 1); break;
    case 3: if (n <= 64) { for (int &x : b) x = s.coin(); break; }  // fall through
    default: { Rng r = s.bulk(); b = random_bits(r, n); }
  }
  return b;
}

Inst::Inst(const Cfg &c, const std::string &fmt) : Inst(api(c.codec, fmt), c.params()) {}
Inst::Inst(Api &a_, const std::string &params) : a(a_) {
  std::vector<char> b(params.begin(), params.end()); b.push_back(0);
  a.ui_reset();
  inst = nullptr;
  rc = a.init(b.data(), &inst);
}
Inst::~Inst() { if (rc == 0 && inst) a.close(inst); }
Vec Inst::enc(const Bits &x, int n) {
  Vec y(n + 8, 7.25);
  Bits xx = x; xx.resize(x.size() + 8, 1);
  a.enc(inst, xx.data(), y.data());
  y.resize(n);
  return y;
}
int Inst::dec(const Vec &y, Bits &xd, int k) {
  Vec yy = y; yy.resize(y.size() + 8, 0.5);
  xd.assign(k + 8, -99);
  int r = a.dec(inst, yy.data(), xd.data());
  xd.resize(k);
  return r;
}

// ----- Generators.

std::vector<int> gen_perm(Src &s, int m) {
  std::vector<int> p(m);
  for (int i = 0; i < m; i++) p[i] = i;
  switch (s.weighted({1, 1, 3})) {
    case 0: break;
    case 1: { int sh = s.i(0, m - 1); for (int i = 0; i < m; i++) p[i] = (i + sh) % m; break; }
    default: for (int i = m - 1; i > 0; i--) std::swap(p[i], p[i - s.i(0, i)]);
  }
  return p;
}
std::string gen_node_mask(Src &s, int m, int r) {
  long nn = binom(m, r);
  std::string k(nn, '1');
  switch (s.weighted({2, 4, 3, 5, 1})) {
    case 0: break;
    case 1: { long z = nn < 2 ? 0 : s.coin() ? s.small(1, nn - 1) : s.i(1, nn - 1); for (long i = 0; i < z; i++) k[i] = '0'; break; }  // the worst channels
    case 2: { Rng q = s.bulk(); unsigned d = s.i(1, 9); for (char &c : k) if (q.below(10) < d) c = '0'; break; }
    // A few nodes only: what they decide is judged by the frozen ones after them, so every candidate counts.
    case 3: { std::fill(k.begin(), k.end(), '0'); for (long w = s.small(1, 5); w > 0; w--) k[s.i(0, nn - 1)] = '1'; break; }
    case 4: { k[s.i(0, nn - 1)] = '0'; break; }
  }
  if (k.find('1') == std::string::npos) k[s.i(0, nn - 1)] = '1';
  return k;
}
std::string gen_polar_mask(Src &s, int m) {
  int n = 1 << m;
  std::string k(n, '0');
  switch (s.weighted({1, 4, 3, 1, 1, 4})) {
    case 0: k[n - 1] = '1'; break;
    case 1: {  // polarization weight order
      int K = s.i(1, n);
      double beta = 1.0 + 0.05 * s.i(1, 8);
      std::vector<std::pair<double, int>> w;
      // position t is decoded t-th; later positions with many ones are better
      for (int t = 0; t < n; t++) { double q = 0; for (int b = 0; b < m; b++) if ((t >> b) & 1) q += std::pow(beta, b); w.push_back({-q, t}); }
      std::sort(w.begin(), w.end());
      for (int i = 0; i < K; i++) k[w[i].second] = '1';
      break;
    }
    case 2: { Rng q = s.bulk(); unsigned d = s.i(1, 9); for (char &c : k) if (q.below(10) < d) c = '1'; break; }
    case 3: std::fill(k.begin(), k.end(), '1'); break;
    case 4: { int r = s.i(0, m); for (int t = 0; t < n; t++) if (popcnt(n - 1 - t) <= r) k[t] = '1'; break; }
    case 5: for (long w = s.small(1, 8); w > 0; w--) k[s.i(0, n - 1)] = '1'; break;
  }
  if (k.find('1') == std::string::npos) k[s.i(0, n - 1)] = '1';
  return k;
}
Cfg gen_cfg(Ctx &c, int codec, const CfgLim &lim) {
  Src &s = c.src;
  Cfg f; f.codec = codec;
  f.m = (int)s.i(1, lim.mmax);
  f.r = (int)s.i(1, f.m);
  if (codec == POLAR) {
    f.mask = gen_polar_mask(s, f.m);
    f.r = f.m;
    int kt = f.ktot();
    if (kt >= 2 && s.chance(1, 2)) {
      int cl = (int)s.i(1, std::min(kt - 1, 16));
      std::string p(cl, '0');
      for (char &ch : p) ch = s.coin() ? '1' : '0';
      if (s.chance(3, 4)) p[cl - 1] = '1';
      f.crc = p;
    }
  }
  else if (codec == GLP) f.mask = gen_node_mask(s, f.m, f.r);
  if (codec == GLP || codec == POLAR) {
    f.L = (int)s.small(1, lim.Lmax);
    bool full = codec == GLP && f.ktot() == (int)rm_coeffs(f.m, f.r).size();
    if (lim.perms && s.chance(1, codec == GLP ? 3 : 12)) {
      int np = (int)s.i(1, codec == GLP && full ? std::min(12, 2 + 2 * f.L) : 3);
      for (int i = 0; i < np; i++) {
        if (full) f.perms.push_back(gen_perm(s, f.m));
        else { std::vector<int> id(f.m); for (int j = 0; j < f.m; j++) id[j] = j; f.perms.push_back(id); }
      }
    }
  }
  return f;
}

std::string show(const Bits &b, size_t max) {
  std::string s;
  for (size_t i = 0; i < b.size() && i < max; i++) s += (b[i] == 0 || b[i] == 1) ? (char)('0' + b[i]) : '?';
  if (b.size() > max) s += strf("..(%zu)", b.size());
  return s;
}
std::string show(const Vec &v, size_t max) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < max; i++) s += strf("%s%.6g", i ? " " : "", v[i]);
  if (v.size() > max) s += strf(" ..(%zu)", v.size());
  return s + "]";
}

Rx gen_rx(Ctx &c, const Bits &cw, double rate) {
  Src &s = c.src;
  Rx o;
  int n = (int)cw.size();
  Vec b = bpsk(cw);
  o.y.resize(n);
  switch (s.weighted({1, 10, 3, 2, 2, 2, 2})) {
    case 0: o.mode = "noiseless"; o.y = b; o.sg = 1; break;
    case 1: {  // AWGN
      o.mode = "awgn";
      double db = s.real(-3, 7);
      if (rate <= 0) rate = 0.5;
      o.sg = 1 / std::sqrt(2 * rate * std::pow(10, db / 10));
      Rng r = s.bulk();
      for (int i = 0; i < n; i++) o.y[i] = b[i] + o.sg * r.gauss();
      break;
    }
    case 2: {  // element-wise choices for small shrinkable cases
      o.mode = "elementwise";
      o.sg = s.real(0.4, 2);
      if (n <= 64) for (int i = 0; i < n; i++) o.y[i] = b[i] + o.sg * s.gauss();
      else { Rng r = s.bulk(); for (int i = 0; i < n; i++) o.y[i] = b[i] + o.sg * r.gauss(); }
      break;
    }
    case 3: {  // pure noise, unrelated to the code
      o.mode = "noise";
      o.sg = s.real(0.5, 2);
      Rng r = s.bulk();
      for (int i = 0; i < n; i++) o.y[i] = 1.3 * r.gauss();
      break;
    }
    case 4: {  // a few sign errors of nearly equal reliability
      o.mode = "flips";
      o.sg = s.real(0.7, 1.5);
      Rng r = s.bulk();
      for (int i = 0; i < n; i++) o.y[i] = b[i] * (1 + 0.01 * r.gauss());
      int w = (int)s.i(0, n / 2);
      for (int k = 0; k < w; k++) { int i = (int)r.below(n); o.y[i] = -o.y[i]; }
      break;
    }
    case 5: {  // reliabilities of different orders of magnitude
      o.mode = "mixed";
      o.sg = 1;
      Rng r = s.bulk();
      for (int i = 0; i < n; i++) o.y[i] = (b[i] + 1.2 * r.gauss()) * std::pow(10, -2 * r.u());
      break;
    }
    case 6: {  // anything in a cube
      o.mode = "uniform";
      o.sg = s.real(0.3, 2);
      double a = s.real(0.3, 2.5);
      Rng r = s.bulk();
      for (int i = 0; i < n; i++) o.y[i] = a * (2 * r.u() - 1);
      break;
    }
  }
  switch (s.weighted({14, 1, 1})) {
    case 1: {  // erased positions
      double p = s.coin() ? 0.5 : s.real(0, 0.5);
      int z = (int)s.i(0, n - 1);
      Rng r = s.bulk();
      for (int i = 0; i < n; i++) if (i == z || r.u() < p) o.y[i] = r.u() < 0.1 ? -0.0 : 0;
      o.mode += " with erasures";
      break;
    }
    case 2: {  // a few levels
      double q = s.oneof({0.25, 0.5, 1.0, 2.0});
      for (double &v : o.y) v = std::max(-4.0, std::min(4.0, std::round(v / q) * q));
      o.mode += " quantized";
      break;
    }
  }
  return o;
}
