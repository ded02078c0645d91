// C32: the shipped simulation files (work/*.spf and the files they include).
#include "sim.hpp"
#include "codec.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
using namespace pbt;

namespace pbt { extern std::string g_libdir, g_repo; }

namespace {

typedef std::vector<std::string> Toks;
const char *prog_name[4] = {"dtrm0_bg", "dtrm1_bg", "dtrm_glp_bg", "ca_polar_scl_bg"};

// An independent reading of the files: comments from % to the end of the line, braces are words.
void words_of(const std::string &text, const std::string &dir, Toks &out, bool expand, int depth = 0) {
  std::string t; bool com = false;
  for (char ch : text) {
    if (ch == '%') com = true;
    if (ch == '\n' || ch == '\r') com = false;
    if (com) continue;
    if (ch == '{' || ch == '}') { t += ' '; t += ch; t += ' '; } else t += ch;
  }
  Toks v; std::string w;
  for (char ch : t + " ") if (isspace((unsigned char)ch)) { if (!w.empty()) v.push_back(w); w.clear(); } else w += ch;
  for (size_t i = 0; i < v.size(); i++) {
    if (expand && v[i] == "include" && i + 1 < v.size() && depth < 20) { words_of(read_file(dir + "/" + v[i + 1]), dir, out, expand, depth + 1); i++; }
    else out.push_back(v[i]);
  }
}
std::vector<std::string> files(const std::string &dir, const std::string &suffix) {
  std::vector<std::string> r;
  if (DIR *d = opendir(dir.c_str())) {
    while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n.size() > suffix.size() && n.compare(n.size() - suffix.size(), suffix.size(), suffix) == 0) r.push_back(n); }
    closedir(d);
  }
  std::sort(r.begin(), r.end());
  return r;
}
struct Ship { std::string stem; Toks words; Cfg f; long k = -1, np = 1; };
std::string value(const Toks &t, const char *key) { for (size_t i = 0; i + 1 < t.size(); i++) if (t[i] == key) return t[i + 1]; return ""; }
// What the name of a file says, and its words.
std::vector<Ship> &shipped() {
  static std::vector<Ship> v;
  static bool done;
  if (done) return v;
  done = true;
  std::string dir = g_repo + "/work";
  for (auto &n : files(dir, ".spf")) {
    Ship s; s.stem = n.substr(0, n.size() - 4);
    int a, b, l = 0, k = 0, crc = 0;
    const std::string &t = s.stem;
    auto L = [&]() { size_t p = t.rfind("_L"); return p == std::string::npos ? 0 : atoi(t.c_str() + p + 2); };
    if (sscanf(t.c_str(), "bg_polar%2d_ca%d_CF_k%d_L%d", &a, &crc, &k, &l) == 4) { s.f.codec = POLAR; s.f.m = s.f.r = a; s.f.L = l; s.k = k; }
    else if (sscanf(t.c_str(), "bg_rm%2d%2d_", &a, &b) == 2) {
      s.f.r = a; s.f.m = b;
      s.f.codec = t.find("_dtrm_glp") != std::string::npos ? GLP : t.find("_dtrm1") != std::string::npos ? DTRM1 : DTRM0;
      s.f.L = std::max(1, L());
      if (t.find("_Pcyclic") != std::string::npos) s.np = b;
      if (t.find("_PmCr") != std::string::npos) s.np = binom(b, a);
      if (t.find("_tr") == std::string::npos) s.k = rm_dim(b, a);
    }
    else continue;
    words_of(read_file(dir + "/" + n), dir, s.words, true);
    s.f.mask = value(s.words, s.f.codec == POLAR ? "info_bits_mask" : "border_node_mask");
    s.f.crc = value(s.words, "ca_polar_crc");
    for (size_t i = 0; i + 1 < s.words.size(); i++) if (s.words[i] == "permutations" && s.words[i + 1] == "{") {
      Toks p(s.words.begin() + i + 2, std::find(s.words.begin() + i, s.words.end(), "}"));
      for (size_t q = 0; q + s.f.m <= p.size(); q += s.f.m) { std::vector<int> z; for (int j = 0; j < s.f.m; j++) z.push_back(atoi(p[q + j].c_str())); s.f.perms.push_back(z); }
    }
    if (crc && (int)s.f.crc.size() != crc) s.f.crc = "?";
    v.push_back(s);
  }
  return v;
}
std::string enter() {
  std::string d = fresh_dir();
  if (symlink((g_repo + "/work/codes").c_str(), "codes")) {}
  mkdir("results", 0755);
  return d;
}
Ship pick(Ctx &c) {
  auto &v = shipped();
  if (v.empty()) { c.label("nothing is shipped"); return Ship(); }
  Ship s = c.src.pick(v);
  c.label(s.stem);
  return s;
}

SUB("C32", "codes", "plain", 12000, 720000, "a received word with wrong hard decisions, decoded") {
  Src &s = c.src;
  Ship q = pick(c);
  if (q.stem.empty()) return;
  Cfg &f = q.f;
  c.note("%s", q.stem.c_str());
  // The file agrees with its name.
  bool polar = f.codec == POLAR;
  if (atoi(value(q.words, polar ? "c_m" : "RM_m").c_str()) != f.m) c.fail("another m than its name");
  if (!polar && atoi(value(q.words, "RM_r").c_str()) != f.r) c.fail("another r than its name");
  if (f.codec >= 2 && atoi(value(q.words, polar ? "list_size" : "border_node_lsize").c_str()) != f.L) c.fail("another list size than its name");
  if (f.codec == GLP && (long)std::max<size_t>(1, f.perms.size()) != q.np) c.fail("%zu permutations, its name says %ld", f.perms.size(), q.np);
  if (value(q.words, "res_file") != "results/" + q.stem + ".srf") c.fail("another results file than its name");
  if (q.k >= 0 && f.k() != q.k) c.fail("dimension %d, its name says %ld", f.k(), q.k);
  enter();
  write_file("p.spf", read_file(g_repo + "/work/" + q.stem + ".spf"));
  auto rd = (int (*)(char *, char **))lib_sym("util", "spf_read_preparse");
  char name[] = "p.spf", *o = nullptr;
  if (rd(name, &o) != 0) c.fail("cannot be read");
  std::string par = o; free(o);
  {
    Toks t; std::string w;
    for (char ch : par) if (ch == '\1') { if (!w.empty()) t.push_back(w); w.clear(); } else w += ch;
    if (t != q.words) c.fail("read as %zu words instead of %zu", t.size(), q.words.size());
  }
  Inst in(api(f.codec), par);
  if (!in.ok()) c.fail("not accepted: %s", in.a.ui_text());
  if (in.n() != f.n() || in.k() != f.k()) c.fail("the code is [%d,%d] instead of [%d,%d]", in.n(), in.k(), f.n(), f.k());
  Bits x = gen_bits(s, f.k()), cw = ref_code(f, x), d;
  Vec y = in.enc(x, f.n());
  for (int j = 0; j < f.n(); j++) if ((y[j] > 0) != (cw[j] != 0)) c.fail("symbol %d of the code word of %s is wrong", j, show(x, 300).c_str());
  double sg = s.real(0.3, 1.2);
  in.sg(sg);
  if (in.dec(y, d, f.k()) || d != x) c.fail("noiseless word: decoded %s, sent %s", show(d, 300).c_str(), show(x, 300).c_str());
  // Few errors: less than half of the minimum distance of the code, at weak positions.
  int dmin = polar ? 0 : 1 << (f.m - f.r), wrong = 0;
  Rng r = s.bulk();
  int e = dmin > 2 ? (int)s.i(1, (dmin - 1) / 2) : 0;
  for (; e > 0; e--) { int j = (int)r.below(y.size()); if ((y[j] > 0) == (cw[j] != 0)) { y[j] *= -0.1; wrong++; } }
  int rc = in.dec(y, d, f.k());
  if (!polar && (rc || d != x)) c.fail("%d weak errors: decoded %s, sent %s", wrong, show(d, 300).c_str(), show(x, 300).c_str());
  // The same decoder with the independently read parameters.
  Inst own(f); if (!own.ok()) c.fail("not accepted: %s", own.a.ui_text());
  own.sg(sg);
  for (int t = 0; t < 2; t++) {
    for (double &v : y) v += r.gauss() * sg;
    Bits a, b;
    int ra = in.dec(y, a, f.k()), rb = own.dec(y, b, f.k());
    if (ra != rb || a != b) c.fail("decoded %s, with the parameters of its name %s", show(a, 300).c_str(), show(b, 300).c_str());
    if (f.codec < 2 || (f.L <= 8 && f.perms.size() <= 1) || s.chance(1, 40 * (int)std::max<size_t>(1, f.perms.size()))) {
      Ref ref;
      if (!ref_sure(eps5(), f, y, sg, ref)) { c.label("near tie, not judged"); continue; }
      if (ra != ref.rc || a != ref.x) c.fail("decoded %s, expected %s", show(a, 300).c_str(), show(ref.x, 300).c_str());
      c.label("judged by the reference");
    }
  }
  c.nontrivial(wrong > 0 || polar);
}
SUB("C32", "runs", "plain", 1200, 72000, "several trials at each point") {
  Src &s = c.src;
  Ship q = pick(c);
  if (q.stem.empty()) return;
  Cfg &f = q.f;
  enter();
  Toks t;
  words_of(read_file(g_repo + "/work/" + q.stem + ".spf"), "", t, false);
  // Other points; everything else stays.
  int trials = (int)s.small(1, f.L > 64 ? 6 : 40);
  std::string text;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == "SNR_val_trn" || t[i] == "EbNo_values") { while (t[i] != "}") i++; continue; }
    if (t[i] == "min_trials_per_snr" || t[i] == "min_errors_per_snr") { i++; continue; }
    text += t[i] + (s.chance(1, 4) ? "\n" : " ");
    if (t[i] == "include") { text += t[++i] + "\n"; }
  }
  double lo = s.i(-40, -13), hi = s.i(-12, -5);   // low: each point runs until it has a word error
  text += strf("SNR_val_trn { %g %d %g %d }\n", lo, trials, hi, trials);
  write_file(q.stem + ".spf", text);
  c.note("%s: SNR %g and %g, %d trials", q.stem.c_str(), lo, hi, trials);
  std::string out[2];
  for (int run = 0; run < 2; run++) {
    Toks a = {q.stem + ".spf", "-nr"};
    if (run) { a.push_back("-ri"); a.push_back("-1"); }
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { fprintf(stderr, "fork\n"); _Exit(76); }
    if (p == 0) {
      std::string exe = g_libdir + "/" + prog_name[f.codec];
      std::vector<char *> av = {(char *)prog_name[f.codec]};
      for (auto &x : a) av.push_back((char *)x.c_str());
      av.push_back(nullptr);
      int fd = open("out.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 1); dup2(fd, 2); close(fd);
      int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
      rlimit rl = {60, 60}; setrlimit(RLIMIT_CPU, &rl);
      signal(SIGPROF, SIG_DFL);
      execv(exe.c_str(), av.data());
      _exit(126);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("run %d: status 0x%x: %s", run, st, read_file("out.txt").substr(0, 400).c_str());
    out[run] = read_file("results/" + q.stem + ".srf");
    unlink(("results/" + q.stem + ".srf").c_str());
  }
  if (out[0] != out[1]) c.fail("first:\n%s\nsecond:\n%s", out[0].c_str(), out[1].c_str());
  Results r = parse_results(out[0]);
  if (!r.ok || r.n != f.n() || r.k != f.k() || r.pt.size() != 2) c.fail("results: %s\n%s", r.why.c_str(), out[0].c_str());
  std::string e = check_rates(r);
  if (!e.empty()) c.fail("%s", e.c_str());
  for (auto &p : r.pt) if (p.trn < trials || p.en_bl < 1) c.fail("%ld trials and %ld errors, requested are %d and 1", (long)p.trn, (long)p.en_bl, trials);
  c.nontrivial(trials > 1);
}

}  // namespace
