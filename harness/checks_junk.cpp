// C29: arbitrary parameter and results files.
#include "sim.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <memory>
using namespace pbt;

namespace {

// The code under test only reaches files of its working directory.
int contain(int, const char *path, const char *) { return path && strchr(path, '/') ? EACCES : 0; }
struct Contained {
  SimApi &a;
  Contained(SimApi &a_) : a(a_) { install_vtime(a); a.hooks->pre = contain; }
  ~Contained() { clear_hooks(a); }
};

// ----- Texts.

const std::vector<std::string> &dict() {
  static const std::vector<std::string> d = {
    "res_file", "SNR_val_trn", "EbNo_values", "min_trials_per_snr", "min_errors_per_snr", "ml_lb", "ml_lb_hard", "random_codeword", "fixed_R", "on", "off", "include",
    "RM_m", "RM_r", "c_m", "info_bits_mask", "list_size", "ca_polar_crc", "permutations", "border_node_mask", "border_node_lsize", "use_variable_list", "distance_threshold", "subcode_masks",
    "SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl", "WER", "ERR", "MLER", "code_n", "code_k", "code_name", "code_G_binary",
    "{", "}", "{}", "}{", "{{", "}}", "{ }", "%", "\n", "\r\n", ",", "\t", " ", "x{", "}x", "{x", "x}", "\1", "\1\1",
    "0", "1", "2", "3", "5", "-1", "1e5", "1e400", "-1e400", "nan", "inf", "-0", "0.5", "999999999", "0x10", "1.5.2", "+", "-", ".", "e", "..", "p.spf", "r.srf", "i1", "i2", "nofile", "a b"};
  return d;
}
std::string junk_word(Src &s) {
  switch (s.weighted({6, 2, 2, 1, 1, 1})) {
    case 0: return s.pick(dict());
    case 1: return strf("%ld", s.i(-3, 20));
    case 2: return strf("%.3g", s.real(-20, 60));
    case 3: { std::string t; for (int n = (int)s.i(1, 8); n > 0; n--) t += (char)s.i(0, 255); return t; }
    case 4: return std::string((size_t)s.small(1, 3000), (char)s.oneof({'0', '1', 'a', '{', '}', '9'}));
    default: return strf("%d", (int)s.oneof({INT_MAX, INT_MIN, 24, 25, 50, 51, 1000, 1024}));
  }
}
std::string junk_tokens(Src &s, int top) {
  std::string t;
  for (int n = (int)s.small(0, top); n > 0; n--) { t += junk_word(s); if (!s.chance(1, 10)) t += s.oneof({" ", " ", "\n", ",", "\t"}); }
  return t;
}
std::string junk_bytes(Src &s, int top) {
  std::string t; long n = s.small(0, top);
  int mode = (int)s.draw(3);
  Rng r = s.bulk();
  for (; n > 0; n--) t += mode == 0 ? (char)r.below(256) : mode == 1 ? (char)(32 + r.below(96)) : "{} %\n,0123456789eN-. \1"[r.below(23)];
  return t;
}
void mutate(Src &s, std::string &t, int top = 8) {
  for (int n = (int)s.small(1, top); n > 0; n--) {
    size_t p = t.empty() ? 0 : (size_t)s.draw(t.size());
    size_t l = (size_t)s.small(1, 40);
    switch (s.weighted({3, 3, 2, 3, 2, 1, 2, 1, 1})) {
      case 0: if (!t.empty()) t[p] = s.oneof({'{', '}', ' ', '%', '\n', '\1', '0', '9', '-', 'x', '\0', ','}); break;
      case 1: t.erase(p, l); break;
      case 2: if (!t.empty()) t.insert(p, t.substr((size_t)s.draw(t.size()), l)); break;
      case 3: t.insert(p, " " + junk_word(s) + " "); break;
      case 4: t.resize(p); break;
      case 5: if (!t.empty()) t[p] = (char)(t[p] ^ (1 << s.draw(8))); break;
      case 6: {   // a word is replaced, removed or repeated
        size_t b = t.find_last_of(" ,\t\r\n", p); b = b == std::string::npos ? 0 : b + 1;
        size_t e = t.find_first_of(" ,\t\r\n", b); if (e == std::string::npos) e = t.size();
        std::string w = t.substr(b, e - b);
        t.replace(b, e - b, s.oneof({std::string(), w + " " + w, junk_word(s)}));
        break;
      }
      case 7: t.insert(p, junk_word(s)); break;
      case 8: std::rotate(t.begin(), t.begin() + p, t.end()); break;
    }
    if (t.size() > 300000) t.resize(300000);
  }
}
std::string show(const std::string &t, size_t top = 500) {
  std::string o;
  for (size_t i = 0; i < t.size() && i < top; i++) { unsigned char ch = (unsigned char)t[i]; if (ch == '\n') o += "$"; else if (ch < 32 || ch > 126) o += strf("\\x%02x", ch); else o += (char)ch; }
  if (t.size() > top) o += strf("..(%zu)", t.size());
  return o;
}
// No number beyond 9 digits, so sums of counters stay in range.
void short_numbers(std::string &t) {
  size_t run = 0;
  for (size_t i = 0; i < t.size(); i++) {
    run = isdigit((unsigned char)t[i]) ? run + 1 : 0;
    if (run > 9) { t[i] = ' '; run = 0; }
  }
}
std::string valid_spf(Src &s) {
  std::vector<std::string> p = {"res_file r.srf"};
  if (s.coin()) { std::string t = "SNR_val_trn {"; for (int n = (int)s.small(1, 50); n > 0; n--) t += strf(" %g %ld", s.i(-20, 60) * 0.25, s.small(1, 200)); p.push_back(t + " }"); }
  else { std::string t = "EbNo_values {"; for (int n = (int)s.small(1, 50); n > 0; n--) t += strf(" %g", s.i(-20, 60) * 0.25); p.push_back(t + " }"); p.push_back(strf("min_trials_per_snr %ld", s.small(1, 30))); }
  if (s.coin()) p.push_back(strf("min_errors_per_snr %ld", s.small(1, 20)));
  if (s.coin()) p.push_back("ml_lb on");
  if (s.coin()) p.push_back("ml_lb_hard on");
  if (s.coin()) p.push_back("random_codeword on");
  if (s.coin()) p.push_back("fixed_R 0.5");
  if (s.chance(1, 4)) p.push_back("% a comment");
  if (s.chance(1, 4)) p.push_back("unknown { 1 2 3 }");
  if (s.chance(1, 8)) p.push_back("include i1");
  if (s.chance(1, 20)) p.push_back("include i2");
  for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[s.draw(i)]);
  std::string t;
  for (auto &x : p) t += x + "\n";
  return t;
}
std::string gen_spf(Ctx &c, const std::function<std::string()> &valid) {
  Src &s = c.src;
  std::string t;
  switch (s.weighted({40, 12, 8, 8, 1})) {
    case 0: t = valid(); mutate(s, t); c.label("mutated"); break;
    case 1: t = junk_tokens(s, 60); c.label("tokens"); break;
    case 2: t = junk_bytes(s, 2000); c.label("bytes"); break;
    case 3: t = valid(); c.label("valid"); break;
    case 4: {   // about the size limit
      std::string v = valid(), f;
      std::string unit = s.oneof({std::string("% c\n"), std::string(" "), std::string("x "), std::string("a{ "), std::string("{}"), std::string("} "), std::string("{ "), std::string("{"), std::string("}"), std::string("w"), std::string("u 1 ")});
      long total = s.oneof({140000L, 139999L, 70000L, 46667L, 120000L, 280000L}) + s.i(-5, 5);
      while ((long)(f.size() + v.size()) < total) f += unit;
      if (s.coin()) f.resize((size_t)std::max(0L, total - (long)v.size()));
      t = s.coin() ? v + f : f + v;
      if (s.chance(1, 3)) mutate(s, t, 2);
      c.label("size limit");
      break;
    }
  }
  return t;
}
// Included files: arbitrary as well, possibly missing, empty, a directory or including each other.
void gen_includes(Ctx &c) {
  Src &s = c.src;
  for (const char *n : {"i1", "i2"}) {
    switch (s.weighted({6, 10, 2, 1, 2, 4, 1})) {
      case 0: break;                                                  // missing
      case 1: write_file(n, "min_trials_per_snr 3\n"); break;
      case 2: write_file(n, ""); break;
      case 3: mkdir(n, 0755); break;
      case 4: write_file(n, s.oneof({"include i1", "include i2\n", "x include i1 include i1", "include p.spf", "include"})); c.label("recursive include"); break;
      case 5: { std::string t = junk_tokens(s, 20); write_file(n, t); break; }
      case 6: write_file(n, std::string((size_t)(s.oneof({140000L, 139998L, 70000L}) + s.i(-3, 3)), s.coin() ? ' ' : 'y')); break;
    }
  }
}

// Initialises, runs for a while, saves. Returns whether it was accepted.
bool drive(Ctx &c, SimApi &A, int slices) {
  Src &s = c.src;
  Sim sim(A, "p.spf", -1);
  if (sim.rc != 0) {
    if (!A.ui_errs()) c.fail("rejected (%d) without a message", sim.rc);
    return false;
  }
  if (!sim.inst) c.fail("accepted without an instance");
  int end = 0;
  for (int q = 0; q < slices; q++) {
    A.ui_reset();
    int rc = sim.run();
    if (rc == SIM_NOT_COMPLETED) {
      if (q % 8 == 0) { State st; if (sim.state().empty()) c.fail("no state"); sim.res(); }
      if (s.chance(1, 8)) A.control(sim.inst, s.coin() ? SIM_NEXT : SIM_LESS);
      continue;
    }
    end = 1;
    if (rc != 0 && !A.ui_errs()) c.fail("failed (%d) without a message", rc);
    break;
  }
  if (end == 0) sim.state();
  sim.res();
  for (int t = (int)s.i(1, 2); t > 0; t--) {
    bool was; std::string before = read_file("r.srf", &was);
    int rc = sim.save();
    if (rc != 0 && !A.ui_errs()) c.fail("saving failed (%d) without a message", rc);
    if (rc == 0 && A.ui_errs()) c.fail("saved with an error message: %s", A.ui_text());
    for (auto &f : list_dir(".")) if (f.size() > 4 && f.substr(f.size() - 4) == ".bsy") c.fail("%s is left", f.c_str());
    if (rc != 0) { bool is; std::string after = read_file("r.srf", &is); if (was != is || before != after) c.fail("saving failed but the file was changed"); }
  }
  return true;
}
}  // namespace

SUB("C29", "params_stub", "asan", 20000, 1500000, "a file different from a valid one that was accepted, or rejected after its first word") {
  Src &s = c.src;
  SimApi &A = sim_api(s.chance(1, 4) ? "sim_csnrn" : "sim");
  Script sc; sc.n = 2 * (int)s.i(1, 4); sc.k = (int)s.i(1, sc.n);
  Rng r = s.bulk();
  sc.decide = [&](const Bits &, const double *, double, Bits &xd) { if (r.below(3) == 0) xd[0] ^= 1; return r.below(5) == 0 ? 1 : 0; };
  install_script(A, &sc);
  fresh_dir();
  std::string t = gen_spf(c, [&]() { return valid_spf(s); });
  gen_includes(c);
  write_file("p.spf", t);
  c.note("%s", show(t).c_str());
  Contained ct(A);
  bool ok = drive(c, A, 30);
  c.label(ok ? "accepted" : "rejected");
  c.nontrivial(t.size() > 3);
}

// ----- Long names.

namespace {
// Only files of the working directory; "./" may be repeated.
int contain_dots(int, const char *path, const char *) {
  if (!path) return 0;
  while (path[0] == '.' && path[1] == '/') { path += 2; while (*path == '/') path++; }
  return strchr(path, '/') || !strcmp(path, "..") ? EACCES : 0;
}
}  // namespace

SUB("C29", "long_names", "asan", 6000, 360000, "a name of more than 500 characters was accepted") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  Script sc; sc.n = 4; sc.k = 2;
  Rng r = s.bulk();
  sc.decide = [&](const Bits &, const double *, double, Bits &xd) { if (r.below(3) == 0) xd[0] ^= 1; return 0; };
  install_script(A, &sc);
  fresh_dir();
  auto name = [&](const char *base) {
    long len = s.weighted({6, 1, 1}) == 0 ? s.oneof({1000L, 1000L, 1000L, 1024L, 512L, 996L, 260L, 2048L}) + s.i(-6, 6) : s.i(1, 3000);
    std::string n = base;
    if ((len - (long)n.size()) % 2) n = "x" + n;
    while ((long)n.size() < len) n = "./" + n;
    return n;
  };
  std::string res = name("r.srf"), inc = name("i1");
  auto last = [](const std::string &n) { return n.substr(n.rfind('/') == std::string::npos ? 0 : n.rfind('/') + 1); };
  bool with_inc = s.coin();
  int trials = (int)s.i(2, 9);
  std::string t;
  if (with_inc) { write_file(last(inc), "SNR_val_trn { 1 " + std::to_string(trials) + " }\nres_file " + res + "\n"); t = "include " + inc + "\n"; }
  else t = "res_file " + res + "\nSNR_val_trn { 1 " + std::to_string(trials) + " }\n";
  std::string spf = s.chance(1, 3) ? name("p.spf") : "p.spf";
  write_file(last(spf), t);
  c.note("res_file %zu, include %zu, parameter file %zu characters", res.size(), with_inc ? inc.size() : 0, spf.size());
  install_vtime(A); A.hooks->pre = contain_dots;
  struct Clear { SimApi &a; ~Clear() { clear_hooks(a); } } clr{A};
  Sim sim(A, spf, -1);
  if (sim.rc != 0) {
    if (!A.ui_errs()) c.fail("rejected (%d) without a message", sim.rc);
    if (res.size() < 500 && spf.size() < 500 && (!with_inc || inc.size() < 500)) c.fail("rejected: %s", A.ui_text());
    c.label("rejected");
    return;
  }
  int rc = SIM_NOT_COMPLETED;
  for (int q = 0; q < 10000 && rc == SIM_NOT_COMPLETED; q++) rc = sim.run();
  if (rc != 0) c.fail("run: %d", rc);
  if (sim.save() != 0) c.fail("not saved: %s", A.ui_text());
  for (auto &f : list_dir(".")) if (f != last(res) && f != last(spf) && (!with_inc || f != last(inc))) c.fail("there is %s", f.substr(0, 300).c_str());
  Results q = parse_results(read_file(last(res)));
  if (!q.ok || q.pt.size() != 1 || q.pt[0].trn < trials) c.fail("the results: %s", q.why.c_str());
  c.label("saved");
  c.nontrivial(res.size() > 500 || (with_inc && inc.size() > 500));
}

// ----- With the codecs.

namespace {
std::vector<std::string> words(const std::string &t) {
  std::vector<std::string> v; std::string w; bool com = false;
  auto flush = [&]() { if (!w.empty()) v.push_back(w); w.clear(); };
  for (char ch : t) {
    if (com) { if (ch == '\n') { com = false; flush(); } continue; }
    if (ch == '%') { com = true; continue; }
    if (strchr(" ,\t\r\n\1", ch)) { flush(); continue; }
    w += ch;
    if (ch == '{' || ch == '}') flush();
  }
  flush();
  return v;
}
// Is a code asked for that takes long or much memory?
bool too_large(const std::string &t) {
  auto v = words(t);
  for (size_t i = 0; i + 1 < v.size(); i++) {
    long x = atol(v[i + 1].c_str());
    const std::string &w = v[i];
    if ((w == "RM_m" || w == "c_m") && x > 10) return true;
    if ((w.find("size") != std::string::npos) && x > 300) return true;
  }
  // List sizes of stages.
  bool st = false;
  for (auto &w : v) { if (w.find("distance") != std::string::npos || w.find("threshold") != std::string::npos) st = true; if (st && atol(w.c_str()) > 300 && atol(w.c_str()) < 100000000) return true; }
  return false;
}
}  // namespace

SUB("C29", "params_codec", "asan", 20000, 1200000, "a changed configuration that was judged") {
  Src &s = c.src;
  int codec = (int)s.draw(4);
  SimApi &A = sim_api(std::string("sim_") + codec_name[codec]);
  fresh_dir();
  std::string t = gen_spf(c, [&]() {
    CfgLim l; l.mmax = 6; l.Lmax = 12;
    Cfg f = gen_cfg(c, codec, l);
    std::string v;
    if (f.codec == GLP && s.chance(1, 3)) { f.var = true; for (int q = (int)s.i(1, 4); q > 0; q--) f.stages.push_back({(int)s.small(1, 12), f.n() * s.real(0.2, 2.2)}); }
    bool nl = true;
    for (auto &w : f.tokens()) { v += w + (nl ? " " : "\n"); }
    std::string p = valid_spf(s);
    return s.coin() ? v + "\n" + p : p + v;
  });
  gen_includes(c);
  // Extreme SNRs now and then.
  if (s.chance(1, 10)) { size_t p = t.find("_values {"); if (p == std::string::npos) p = t.find("val_trn {"); if (p != std::string::npos) t.insert(p + 9, s.oneof({" 4000 ", " -4000 ", " nan ", " 1e308 ", " -1e308 ", " 300 300 ", " inf "})); }
  write_file("p.spf", t);
  c.note("%s: %s", codec_name[codec], show(t).c_str());
  c.label(codec_name[codec]);
  if (too_large(t)) { c.label("large"); return; }
  Contained ct(A);
  bool ok = drive(c, A, 3);
  c.label(ok ? "accepted" : "rejected");
  c.nontrivial(true);
}

// ----- Results files.

namespace {
typedef std::map<double, Point> Data;
const char *LISTS[] = {"SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl"};
struct Grp { std::string key; std::vector<std::string> v; bool open = true, close = true, present = true; };
std::vector<Grp> groups_of(Src &s, const Data &d) {
  std::vector<Grp> g;
  long Point::*fl[] = {nullptr, &Point::trn, &Point::en_bit, &Point::en_bl, &Point::er, &Point::ml_trn, &Point::enml};
  for (int q = 0; q < 7; q++) {
    Grp x; x.key = LISTS[q];
    for (auto &p : d) x.v.push_back(q == 0 ? strf("%.15g", p.first) : strf("%ld", p.second.*fl[q]));
    g.push_back(x);
  }
  if (s.coin()) { Grp x; x.key = "WER"; for (auto &p : d) x.v.push_back(strf("%.3e", (double)p.second.en_bl / p.second.trn)); g.push_back(x); }
  if (s.chance(1, 4)) { Grp x; x.key = "note"; x.v = {"a", "b"}; g.push_back(x); }
  for (size_t i = g.size(); i > 1; i--) if (s.coin()) std::swap(g[i - 1], g[s.draw(i)]);
  return g;
}
// The text; ends[i] is where the closing brace of the i-th list is.
std::string text_of(Src &s, long n, long k, const std::vector<Grp> &g, size_t &first_key_end, size_t &last_list) {
  std::string o;
  first_key_end = last_list = 0;
  if (!s.chance(1, 4)) o = strf("code_n %ld\ncode_k %ld\n", n, k);
  bool glue = s.chance(1, 4);
  for (auto &x : g) {
    if (!x.present) continue;
    bool list = false; for (auto l : LISTS) list |= x.key == l;
    o += x.key;
    if (list && !first_key_end) first_key_end = o.size() + 1;
    if (x.open) o += glue ? " {" : " { "; else o += " ";
    for (size_t i = 0; i < x.v.size(); i++) { if (i) o += " "; o += x.v[i]; }
    if (x.close) o += glue && !x.v.empty() ? "}" : " }";
    if (list) last_list = o.size();
    o += "\n";
  }
  return o;
}
Data gen_data(Src &s, int m, long k) {
  Data d;
  while ((int)d.size() < m) {
    Point p; p.trn = s.small(1, 100000); p.en_bl = s.i(0, p.trn); p.en_bit = p.en_bl ? p.en_bl * s.i(1, k) : 0; p.er = s.coin() ? 0 : s.i(0, p.trn);
    p.ml_trn = s.coin() ? 0 : p.trn; p.enml = p.ml_trn ? s.i(0, p.en_bl) : 0;
    d[atof(strf("%.2f", s.i(-200, 400) * 0.05).c_str()) + 0.0] = p;
  }
  return d;
}
enum Verdict { ANY, GOOD, BAD };
// A results file and what is to be expected of it.
Verdict gen_results(Ctx &c, long n, long k, Data &d, std::string &t, bool &er_gone) {
  Src &s = c.src;
  er_gone = false;
  int m = (int)s.small(1, 12); if (s.chance(1, 16)) m = 49;
  d = gen_data(s, m, k);
  auto g = groups_of(s, d);
  size_t fk, ll;
  switch (s.weighted({2, 10, 4, 6, 2, 2})) {
    case 0: t = text_of(s, n, k, g, fk, ll); c.label("good"); return GOOD;
    case 1: {   // one list is damaged
      std::vector<size_t> ix; for (size_t i = 0; i < g.size(); i++) for (auto l : LISTS) if (g[i].key == l) ix.push_back(i);
      Grp &x = g[s.pick(ix)];
      const char *what = "";
      switch (s.draw(8)) {
        case 0: x.v.erase(x.v.begin() + (long)s.draw(x.v.size())); what = "one less"; break;
        case 1: x.v.insert(x.v.begin() + (long)s.draw(x.v.size() + 1), strf("%ld", s.i(0, 99))); what = "one more"; break;
        case 2: x.v[s.draw(x.v.size())] = s.oneof({std::string("abc"), std::string("x1"), std::string("-"), std::string("1x"), std::string("2.5.1"), std::string("<<<<"), std::string("1;2"), std::string("="), std::string("0x"), std::string("12o")}); what = "not a number"; break;
        case 3: x.present = false; er_gone = x.key == "erasures_num"; what = "missing"; break;
        case 4: x.close = false; what = "no end"; break;
        case 5: x.open = false; what = "no begin"; break;
        case 6: x.v.clear(); what = "empty"; break;
        case 7: x.key += s.oneof({"_", "x", "1"}); er_gone = x.key.substr(0, 12) == "erasures_num"; what = "another name"; break;
      }
      if (x.key == "erasures_num" && x.v.empty()) er_gone = true;   // the loader takes it for a missing list
      c.label(strf("%s", what));
      t = text_of(s, n, k, g, fk, ll);
      return BAD;
    }
    case 2: {   // cut
      t = text_of(s, n, k, g, fk, ll);
      size_t at = (size_t)s.i((long)fk, (long)ll - 1);
      t.resize(at);
      c.label("cut");
      er_gone = true;     // the loader accepts files without this list; not judged
      return BAD;
    }
    case 3: t = text_of(s, n, k, g, fk, ll); mutate(s, t); short_numbers(t); c.label("mutated"); return ANY;
    case 4: t = s.coin() ? junk_tokens(s, 60) : junk_bytes(s, 3000); short_numbers(t); c.label("junk"); return ANY;
    case 5: {   // too many points
      d = gen_data(s, (int)s.i(51, 70), k);
      g = groups_of(s, d);
      t = text_of(s, n, k, g, fk, ll);
      c.label("too many");
      return BAD;
    }
  }
  return ANY;
}
}  // namespace

static void results_junk(Ctx &c) {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  Script sc; sc.n = 2 * (int)s.small(1, 4); sc.k = (int)s.i(1, sc.n);
  Rng r = s.bulk();
  Data mine; std::vector<double> snr; Point pend;
  sc.decide = [&](const Bits &, const double *, double, Bits &xd) {
    Point p; p.trn = 1;
    if (r.below(2)) { xd[0] ^= 1; p.en_bit = p.en_bl = 1; }
    pend = p;
    return 0;
  };
  install_script(A, &sc);
  fresh_dir();
  Data old; std::string t; bool eg;
  Verdict v = gen_results(c, sc.n, sc.k, old, t, eg);
  for (int q = (int)s.small(1, 4); q > 0; q--) {
    double x = s.chance(1, 3) && !old.empty() ? std::next(old.begin(), (long)s.draw(old.size()))->first : atof(strf("%.2f", s.i(-200, 400) * 0.05).c_str()) + 0.0;
    if (std::find(snr.begin(), snr.end(), x) == snr.end()) snr.push_back(x);
  }
  std::string p = "res_file r.srf EbNo_values {";
  for (double x : snr) p += strf(" %.15g", x);
  long mt = s.small(1, 6);
  write_file("p.spf", p + strf(" } min_trials_per_snr %ld", mt));
  c.note("%s snr %zu x %ld; %s", v == GOOD ? "good" : v == BAD ? "bad" : "any", snr.size(), mt, show(t, 700).c_str());
  for (double &x : snr) x = atof(strf("%.15g", x).c_str());
  Contained ct(A);
  Sim sim(A, "p.spf", -1);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  long tr = s.i(1, mt * (long)snr.size());
  for (long q = 0; q < tr; q++) {
    pend = Point();
    int rc = sim.run();
    State st; st.i = (long)snr.size();
    if (rc == SIM_NOT_COMPLETED && !parse_state(sim.state(), st)) c.fail("state '%s'", sim.state().c_str());
    if (rc != 0 && rc != SIM_NOT_COMPLETED) c.fail("run: %d", rc);
    if (pend.trn) { Point &z = mine[snr.at((size_t)st.i - 1)]; z = z + pend; }
    if (rc == 0) break;
  }
  if (t.empty()) v = ANY;
  write_file("r.srf", t);
  auto same = [&](const Results &res, const Data &want, const char *what) {
    if (!res.ok) c.fail("%s: %s", what, res.why.c_str());
    if (res.snr.size() != want.size()) c.fail("%s: %zu points instead of %zu", what, res.snr.size(), want.size());
    size_t i = 0;
    std::vector<std::pair<double, Point>> got; for (; i < res.snr.size(); i++) got.push_back({res.snr[i], res.pt[i]});
    for (auto &g : got) { auto w = want.find(g.first); if (w == want.end() || !(w->second == g.second)) c.fail("%s: %.15g: %s, expected %s", what, g.first, g.second.str().c_str(), w == want.end() ? "nothing" : w->second.str().c_str()); }
  };
  int rc = sim.save();
  bool ok; std::string after = read_file("r.srf", &ok);
  if (rc != 0) {
    if (!A.ui_errs()) c.fail("saving failed (%d) without a message", rc);
    if (!ok || after != t) c.fail("saving failed (%d), the file is %s", rc, ok ? show(after, 300).c_str() : "gone");
  }
  else {
    if (A.ui_errs()) c.fail("saved with an error message: %s", A.ui_text());
    Results res = parse_results(after);
    if (!res.ok) c.fail("saved, but: %s in %s", res.why.c_str(), show(after, 300).c_str());
    long have = 0;
    for (auto &w : mine) for (size_t i = 0; i < res.snr.size(); i++) if (res.snr[i] == w.first) { have++; break; }
    if (have != (long)mine.size()) c.fail("saved, but only %ld of %zu points are there", have, mine.size());
  }
  for (auto &f : list_dir(".")) if (f != "r.srf" && f != "p.spf") c.fail("%s is left", f.c_str());
  if (v == BAD && rc == 0) c.fail("the file was accepted and overwritten with %s", show(after, 300).c_str());
  if (v == GOOD) {
    Data want = old; for (auto &w : mine) want[w.first] = want[w.first] + w.second;
    if (want.size() <= 50) { if (rc != 0) c.fail("a good file is not accepted: %s", A.ui_text()); same(parse_results(after), want, "good file"); }
    else if (rc == 0) c.fail("more than 50 points were accepted");
  }
  c.label(rc ? "refused" : "saved");
  if (rc != 0) {
    // Nothing was lost: without the file, or with a good one, everything is saved.
    Data want = mine;
    if (s.coin()) unlink("r.srf");
    else {
      Data g = gen_data(s, 3, sc.k); size_t a, b;
      auto gg = groups_of(s, g);
      write_file("r.srf", text_of(s, sc.n, sc.k, gg, a, b));
      for (auto &w : g) want[w.first] = want[w.first] + w.second;
    }
    if (sim.save() != 0) c.fail("not saved after the file was repaired: %s", A.ui_text());
    same(parse_results(read_file("r.srf")), want, "after the file was repaired");
  }
  c.nontrivial(v != GOOD && rc != 0);
}
SUB("C29", "results_junk", "asan", 60000, 3600000, "a damaged file that was refused") { results_junk(c); }

SUB("C29", "octave_junk", "asan", 60000, 3600000, "a damaged file from which nothing was loaded") {
  Src &s = c.src;
  typedef int (*load_t)(const char *, void (*)(void *, const char *, size_t, size_t, const double *), void *);
  static load_t load = (load_t)lib_sym("octave", "ecv_load");
  static void (*reset)() = (void (*)())lib_sym("octave", "ecv_ui_reset");
  static int (*errs)() = (int (*)())lib_sym("octave", "ecv_ui_errs");
  if (!load || !reset || !errs) { fprintf(stderr, "octave: no ecv_load\n"); _Exit(77); }
  if (s.chance(1, 200)) {
    static int (*odd)(int) = (int (*)(int))lib_sym("octave", "ecv_load_odd");
    fresh_dir();
    reset();
    if (odd((int)s.draw(3))) c.fail("something is returned without a file");
    if (!errs()) c.fail("nothing is returned, without a message");
    return;
  }
  long n = s.i(1, 64), k = s.i(1, n);
  fresh_dir();
  Data d; std::string t; bool er_gone;
  Verdict v = gen_results(c, n, k, d, t, er_gone);
  // Without the dimensions nothing can be loaded.
  bool dims = t.find("code_n") != std::string::npos;
  // The loader follows includes; only inside the scratch directory.
  for (size_t p = t.find("include"); p != std::string::npos; p = t.find("include", p)) t[p] = 'I';
  write_file("f.srf", t);
  c.note("%s", show(t, 700).c_str());
  reset();
  size_t vals = 0; std::map<std::string, std::vector<double>> f;
  auto cb = [](void *a, const char *key, size_t r, size_t cc, const double *q) { (*(std::map<std::string, std::vector<double>> *)a)[key].assign(q, q + r * cc); };
  int nf = load("f.srf", cb, &f);
  if (nf < 0 && !errs()) c.fail("nothing is returned, without a message");
  if (nf >= 0 && errs()) c.fail("returned with an error message");
  if (v == BAD && !er_gone && nf >= 0) c.fail("something is returned");
  if (v == GOOD && dims && nf < 0) c.fail("a good file is not loaded");
  if (v == GOOD && nf >= 0) {
    if (f["n"].size() != 1 || f["n"][0] != n || f["k"][0] != k || f["EbNo"].size() != d.size()) c.fail("wrong values");
    size_t i = 0;
    std::vector<double> e = f["EbNo"];
    for (auto &p : d) { if (std::fabs(e[i] - p.first) > 1e-9 || f["WER"].size() <= i || std::fabs(f["WER"][i] - (double)p.second.en_bl / p.second.trn) > 1e-12) c.fail("point %zu", i); i++; }
  }
  if (nf >= 0) for (const char *key : {"BER", "WER", "ERR", "MLER"}) if (f[key].size() != f["EbNo"].size()) c.fail("%zu values of %s, %zu points", f[key].size(), key, f["EbNo"].size());
  c.label(nf < 0 ? "refused" : "loaded");
  c.nontrivial(v != GOOD && nf < 0);
}
