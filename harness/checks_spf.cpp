// C18: parameter files.
#include "sim.hpp"
#include <sys/stat.h>
#include <algorithm>
using namespace pbt;

namespace {
typedef std::vector<std::string> Toks;

struct Files {
  std::vector<std::pair<std::string, std::string>> f;   // name, text
  size_t total = 0;
  size_t maxf = 12; int maxd = 4, again = 0;
  std::vector<std::pair<std::string, Toks>> done;   // files whose text is complete, and their tokens
  void write() const {
    for (auto &x : f) {
      for (size_t p = x.first.find('/'); p != std::string::npos; p = x.first.find('/', p + 1)) mkdir(x.first.substr(0, p).c_str(), 0755);
      write_file(x.first, x.second);
    }
  }
  std::string show() const {
    std::string s;
    for (auto &x : f) s += "<" + x.first + ">" + x.second.substr(0, 160) + (x.second.size() > 160 ? strf("..(%zu)", x.second.size()) : "");
    for (char &c : s) if (c == '\n') c = '$';
    return s.substr(0, 900);
  }
};

std::string gen_comment(Src &s) {
  std::string t = "%";
  switch (s.weighted({2, 2, 3, 1})) {
    case 0: break;
    case 1: t += s.oneof({std::string("%"), std::string(" include nothing"), std::string("{"), std::string("}"), std::string(" a, b { c }"), std::string("include"), std::string("\t\r x"), std::string(" RM_m 7")}); break;
    case 2: { static const std::string cs = "abc {}%,\t\r#/\\0123"; for (int n = (int)s.i(1, 12); n > 0; n--) t += cs[s.draw(cs.size())]; break; }
    case 3: t += std::string((size_t)s.i(1, 2000), 'c'); break;
  }
  return t;
}
// Something that separates two tokens.
std::string gen_sep(Src &s) {
  std::string t;
  int n = 1 + (int)s.weighted({6, 2, 1, 1});
  for (int i = 0; i < n; i++) switch (s.weighted({6, 3, 1, 1, 1, 1, 2})) {
    case 0: t += ' '; break;
    case 1: t += '\n'; break;
    case 2: t += '\t'; break;
    case 3: t += ','; break;
    case 4: t += "\r\n"; break;
    case 5: t += ", "; break;
    case 6: t += gen_comment(s) + "\n"; break;
  }
  return t;
}
std::string gen_word(Src &s) {
  static const std::string first = "abcxyzRM_0123456789.+-$#&*()[]\"'\\/:;<=>?@^`|~!";
  switch (s.weighted({5, 3, 2, 1, 1})) {
    case 0: { std::string t; for (int n = (int)s.i(1, 6); n > 0; n--) t += first[s.draw(first.size())]; return t; }
    case 1: return s.oneof({std::string("RM_m"), std::string("1"), std::string("0.5"), std::string("on"), std::string("includes"), std::string("Include"), std::string("xinclude"), std::string("SNR"), std::string("a{b"), std::string("a}b"), std::string("x{"), std::string("}x"), std::string("#"), std::string("-1e5")});
    case 2: { std::string t; for (int n = (int)s.i(1, 300); n > 0; n--) t += s.coin() ? '1' : '0'; return t; }
    case 3: { std::string t; for (int n = (int)s.i(1, 5); n > 0; n--) t += (char)s.i(0x80, 0xff); return t; }
    default: return std::string((size_t)s.i(1, 4000), 'w');
  }
}

// Writes a sequence of tokens ("{" and "}" are braces) into files with random layout and includes.
// Returns the text; included files are added to `fs`.
std::string layout(Src &s, Files &fs, const Toks &t, int depth, bool root) {
  std::string o;
  if (s.chance(1, 3)) o += gen_sep(s);
  size_t i = 0;
  bool need = false;       // a separator is needed before the next word
  int last = 0;            // the text ends in a word (1) or an opening brace (2)
  bool glue = false;       // the next word may be attached (after an opening brace)
  while (i < t.size()) {
    // A file already written, again.
    const std::pair<std::string, Toks> *again = nullptr;
    for (auto &d : fs.done) if (!again && i + d.second.size() <= t.size() && std::equal(d.second.begin(), d.second.end(), t.begin() + i) && s.chance(1, d.second.empty() ? 8 : 2)) again = &d;
    if (again && fs.again < 40) {
      fs.again++; fs.total += again->first.size();
      if (need && !glue) o += gen_sep(s);
      o += "include" + gen_sep(s) + again->first;
      need = true; glue = false; last = 0;
      i += again->second.size();
      if (!again->second.empty()) continue;
      if (i >= t.size()) break;
    }
    if (depth < fs.maxd && fs.f.size() < fs.maxf && s.chance(1, fs.maxd > 4 ? 3 : 8)) {   // include the next tokens
      size_t j = (size_t)s.i((long)i, (long)std::min(t.size(), i + (fs.maxd > 4 ? 60 : 12)));
      std::string name = s.oneof({std::string("inc"), std::string("sub/inc"), std::string("a/b/inc"), std::string("./inc"), std::string("i-")}) + std::to_string(fs.f.size()) + s.oneof({std::string(""), std::string(".spf"), std::string(".inc")});
      size_t at = fs.f.size();
      fs.f.push_back({name, ""});
      std::string body = layout(s, fs, Toks(t.begin() + i, t.begin() + j), depth + 1, false);
      if (body.empty()) body = s.oneof({std::string("\n"), std::string(" "), std::string("% nothing"), std::string("%\n")});
      fs.f[at].second = body; fs.total += body.size();
      fs.done.push_back({name, Toks(t.begin() + i, t.begin() + j)});
      if (need && !glue) o += gen_sep(s);
      o += "include" + gen_sep(s) + name;
      need = true; glue = false; last = 0;
      i = j;
      continue;
    }
    const std::string &w = t[i];
    if (w == "{") {
      if (need && !(glue && s.coin())) o += gen_sep(s);
      o += "{"; need = true; glue = s.chance(1, 2); last = 2;
    }
    else if (w == "}") {
      // May be attached to an ordinary word or to an opening brace.
      bool att = last != 0 && s.chance(1, 2);
      if (need && !att) o += gen_sep(s);
      o += "}"; need = true; glue = false; last = 0;
    }
    else {
      if (need && !glue) o += gen_sep(s);
      o += w; need = true; glue = false; last = 1;
    }
    i++;
  }
  switch (s.weighted({3, 2, 2})) { case 0: break; case 1: o += gen_sep(s); break; case 2: if (need || !root) o += gen_comment(s); break; }
  fs.total += o.size();
  return o;
}
Files make_files(Src &s, const Toks &t) {
  Files fs;
  if (s.chance(1, 8)) { fs.maxd = 30; fs.maxf = 40; }   // deep includes
  fs.f.push_back({"top.spf", ""});
  std::string o = layout(s, fs, t, 0, true);
  if (o.empty()) o = "\n";
  fs.f[0].second = o;
  return fs;
}
// Reads with the code under test; false if it reports an error.
bool read_tokens(const char *lib, const std::string &name, Toks &out, std::string *raw = nullptr) {
  auto rd = (int (*)(char *, char **))lib_sym(lib, "spf_read_preparse");
  ((void (*)())lib_sym(lib, "ecv_ui_reset"))();
  std::vector<char> b(name.begin(), name.end()); b.push_back(0);
  char *o = nullptr;
  if (rd(b.data(), &o) != 0) return false;
  std::string s = o;
  free(o);
  if (raw) *raw = s;
  out.clear();
  std::string w;
  for (char ch : s) if (ch == '\1') { if (!w.empty()) out.push_back(w); w.clear(); } else w += ch;
  if (!w.empty()) out.push_back(w);
  return true;
}
int messages(const char *lib) { return ((int (*)())lib_sym(lib, "ecv_ui_msgs"))(); }
std::string diff(const Toks &a, const Toks &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return strf("token %zu of %zu / %zu: read '%s', expected '%s'", i, a.size(), b.size(), i < a.size() ? a[i].substr(0, 60).c_str() : "(end)", i < b.size() ? b[i].substr(0, 60).c_str() : "(end)");
}
Toks gen_tokens(Src &s, int lo, int hi) {
  Toks t;
  for (int n = (int)s.small(lo, hi); n > 0; n--) switch (s.weighted({8, 1, 1})) {
    case 0: t.push_back(gen_word(s)); break;
    case 1: t.push_back("{"); break;
    case 2: t.push_back("}"); break;
  }
  // Repeated parts, which may be the same included file.
  if (t.size() >= 2 && s.chance(1, 4)) for (int n = (int)s.i(1, 4); n > 0; n--) {
    size_t a = (size_t)s.i(0, (long)t.size() - 1), l = (size_t)s.i(1, (long)std::min<size_t>(6, t.size() - a));
    Toks part(t.begin() + a, t.begin() + a + l);
    t.insert(t.begin() + s.i(0, (long)t.size()), part.begin(), part.end());
  }
  return t;
}
}  // namespace

SUB("C18", "tokens", "plain", 60000, 1200000, "a comment, an attached brace or an included file is present") {
  Src &s = c.src;
  Toks t = gen_tokens(s, 0, 60), got;
  Files fs = make_files(s, t);
  fresh_dir();
  fs.write();
  c.note("%s", fs.show().c_str());
  if (fs.f.size() > 1) c.label("includes");
  if (fs.again) c.label("a file included again");
  if (fs.f.size() > 12) c.label("many files");
  if (fs.total > 50000) { c.label("too long"); return; }
  if (!read_tokens("util", fs.f[0].first, got)) c.fail("not read");
  if (got != t) c.fail("%s", diff(got, t).c_str());
  bool cm = false; for (auto &x : fs.f) cm |= x.second.find('%') != std::string::npos;
  c.nontrivial(fs.f.size() > 1 || cm);
}
SUB("C18", "tokens_asan", "asan", 3000, 180000, "a comment, an attached brace or an included file is present") {
  Src &s = c.src;
  Toks t = gen_tokens(s, 0, 60), got;
  Files fs = make_files(s, t);
  fresh_dir();
  fs.write();
  c.note("%s", fs.show().c_str());
  if (fs.total > 50000) return;
  if (!read_tokens("util", fs.f[0].first, got)) c.fail("not read");
  if (got != t) c.fail("%s", diff(got, t).c_str());
  bool cm = false; for (auto &x : fs.f) cm |= x.second.find('%') != std::string::npos;
  c.nontrivial(fs.f.size() > 1 || cm);
}

// Files near the limits of the reader are read completely or refused with a message.
static void huge(Ctx &c) {
  Src &s = c.src;
  Toks t, got;
  long target = s.chance(1, 3) ? s.i(60000, 150000) : s.i(135000, 146000);
  long len = 0;
  int kind = (int)s.draw(4);
  Rng r = s.bulk();
  while (len < target) {
    std::string w;
    if (kind == 0) w = strf("%d", (int)r.below(10));
    else if (kind == 1) w = std::string(1 + r.below(3000), 'a' + r.below(26));
    else if (kind == 2) w = r.below(2) ? "{" : "}";
    else w = std::string(1 + r.below(8), 'b');
    t.push_back(w); len += (long)w.size() + 1;
  }
  // Split into a few files.
  int nf = (int)s.i(1, 4);
  Files fs; fs.f.push_back({"top.spf", ""});
  size_t per = t.size() / nf + 1;
  std::string top;
  for (int i = 0; i < nf; i++) {
    std::string body;
    for (size_t j = i * per; j < std::min(t.size(), (i + 1) * per); j++) { body += t[j]; body += i + 1 == nf && j + 1 == t.size() ? (s.coin() ? "" : " ") : " "; }
    if (body.empty()) body = " ";
    if (i == 0) top += body;
    else { std::string nm = strf("part%d", i); fs.f.push_back({nm, body}); top += "include " + nm + "\n"; }
  }
  if (s.chance(1, 3)) top += "%" + std::string((size_t)s.i(0, 3000), 'z');
  fs.f[0].second = top;
  fresh_dir(); fs.write();
  size_t total = 0; for (auto &x : fs.f) total += x.second.size();
  c.note("%d files, %zu characters, %zu tokens, kind %d", nf, total, t.size(), kind);
  bool ok = read_tokens("util", "top.spf", got);
  if (!ok) { c.label("refused"); if (!messages("util")) c.fail("refused without a message"); }
  else { c.label("read"); if (got != t) c.fail("%s", diff(got, t).c_str()); }
  c.nontrivial();
}
SUB("C18", "huge", "plain", 160, 9600, "every file is near the limits") { huge(c); }
SUB("C18", "huge_asan", "asan", 40, 2400, "every file is near the limits") { huge(c); }

// Files which cannot be included.
SUB("C18", "missing_include", "plain", 1500, 90000, "an include names a file that does not exist") {
  Src &s = c.src;
  Toks t = gen_tokens(s, 0, 20), got;
  Files fs = make_files(s, t);
  size_t f = (size_t)s.i(0, (long)fs.f.size() - 1);
  std::string &x = fs.f[f].second;
  int how = (int)s.draw(3);
  if (how == 0) { x += gen_sep(s) + "\ninclude" + gen_sep(s) + "nothing.spf" + gen_sep(s); }
  else if (how == 1) x = "include" + gen_sep(s) + "./absent/file " + x;
  else { f = 0; fs.f[0].second += "\n include"; if (s.coin()) fs.f[0].second += gen_sep(s); }
  fresh_dir(); fs.write();
  c.note("%s", fs.show().c_str());
  if (read_tokens("util", "top.spf", got)) {
    // Unless the place is not reached, because the include is the name of another.
    c.fail("read without an error");
  }
  if (!messages("util")) c.fail("no message");
  c.nontrivial();
}

// The codec and the simulator are configured identically.
SUB("C18", "codec_configuration", "plain", 4000, 240000, "two different layouts") {
  Src &s = c.src;
  CfgLim l; l.mmax = 6; l.Lmax = 8;
  Cfg f = gen_cfg(c, (int)s.draw(4), l);
  Files fs = make_files(s, f.tokens());
  fresh_dir(); fs.write();
  c.note("%s as %s", f.str().substr(0, 200).c_str(), fs.show().c_str());
  if (fs.total > 50000) return;
  Toks got; std::string raw;
  if (!read_tokens(codec_name[f.codec], "top.spf", got, &raw)) c.fail("not read");
  Inst a(api(f.codec), raw);
  if (!a.ok()) c.fail("rejected: %s", a.a.ui_text());
  if (a.n() != f.n() || a.k() != f.k()) c.fail("n = %d, k = %d", a.n(), a.k());
  Bits x = gen_bits(s, f.k()), xd;
  Vec y = a.enc(x, f.n());
  if (y != bpsk(ref_code(f, x))) c.fail("another code");
  Rx rx = gen_rx(c, ref_code(f, x), 0.5);
  a.sg(rx.sg);
  int rc = a.dec(rx.y, xd, f.k());
  Inst b(f); b.sg(rx.sg); Bits xe;
  int re = b.dec(rx.y, xe, f.k());
  if (rc != re || xd != xe) c.fail("another decoder");
  c.nontrivial();
}
SUB("C18", "simulator_configuration", "plain", 1500, 90000, "two different layouts") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  int ns = (int)s.i(1, 5);
  Toks t = {"res_file", "res.srf"};
  auto add = [&](Toks x) { t.insert(s.coin() ? t.begin() : t.end(), x.begin(), x.end()); };
  Toks sn = {"SNR_val_trn", "{"};
  for (int i = 0; i < ns; i++) { sn.push_back(strf("%g", s.i(-8, 20) * 0.25)); sn.push_back(std::to_string(s.i(0, 12))); }
  sn.push_back("}"); add(sn);
  if (s.coin()) add({"random_codeword", s.coin() ? "on" : "off"});
  if (s.coin()) add({"ml_lb", s.coin() ? "on" : "off"});
  if (s.coin()) add({"ml_lb_hard", s.coin() ? "on" : "off"});
  if (s.coin()) add({"min_trials_per_snr", std::to_string(s.i(1, 9))});
  if (s.coin()) add({"min_errors_per_snr", std::to_string(s.i(1, 4))});
  if (s.coin()) add({"fixed_R", "0.25"});
  if (s.coin()) add({"foo", "bar"});
  std::string res[2];
  for (int q = 0; q < 2; q++) {
    fresh_dir();
    Files fs;
    if (q == 0) { std::string x; for (auto &w : t) x += w + " "; fs.f.push_back({"top.spf", x}); }
    else fs = make_files(s, t);
    fs.write();
    if (q) c.note("%s", fs.show().c_str());
    if (fs.total > 50000) return;
    Script sc; sc.n = 4; sc.k = 2;
    sc.decide = [](const Bits &x, const double *y, double, Bits &xd) { if (y[0] * y[1] < 0.2 * y[2]) xd[0] ^= 1; return y[3] > 1.5 ? 1 : 0; };
    auto *rw = &sc.rndcw; *rw = false;
    install_script(A, &sc);
    srand(7);
    Sim sim(A, "top.spf", 100000);
    if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
    if (sim.run() != 0) c.fail("the simulation failed");
    if (sim.save() != 0) c.fail("not saved: %s", A.ui_text());
    res[q] = read_file("res.srf");
  }
  if (res[0].empty()) c.fail("no results");
  if (res[0] != res[1]) c.fail("other results: %s / %s", res[0].c_str(), res[1].c_str());
  c.nontrivial();
}
