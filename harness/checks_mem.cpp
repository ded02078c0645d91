// C30: the simulator on valid input: memory, files, uninitialised values.
#include "sim.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
using namespace pbt;

namespace {

struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } };
const char *prog_name[4] = {"dtrm0_bg", "dtrm1_bg", "dtrm_glp_bg", "ca_polar_scl_bg"};

struct Valid { Cfg f; std::string text, res; std::vector<double> snr; std::map<std::string, std::string> inc; };
// A valid parameter file; the noise is such that errors come soon.
Valid gen_valid(Ctx &c, int codec, int mmax, long trials) {
  Src &s = c.src;
  Valid v;
  CfgLim l; l.mmax = mmax; l.Lmax = 6;
  v.f = gen_cfg(c, codec, l);
  v.res = s.chance(1, 6) ? std::string((size_t)s.i(200, 250), 'r') : "out.srf";
  if (s.chance(1, 8)) { std::string d; for (long q = s.i(1, 490); q > 0 && d.size() + v.res.size() < 998; q--) d += "./"; v.res = d + v.res; }
  std::vector<std::string> part = {"res_file " + v.res};
  int m = s.chance(1, 5) ? (s.coin() ? 50 : (int)s.i(10, 50)) : (int)s.small(1, 6);
  if (m > 8) trials = 2;
  std::vector<std::string> w; std::set<double> seen;
  for (int t = 0; (int)w.size() < m && t < 6 * m; t++) { std::string x = s.chance(1, 4) ? strf("%.9g", s.real(-20, 20)) : strf("%g", s.i(-40, 40) * 0.25); if (seen.insert(atof(x.c_str())).second) w.push_back(x); }
  if (s.chance(1, 8) && w.size() < 50) w.push_back(w[0]);
  bool vt = s.coin();
  std::string t = vt ? "SNR_val_trn {" : "EbNo_values {";
  double top = -1e9;
  for (auto &x : w) { t += " " + x; if (vt) t += strf(" %ld", s.small(0, trials)); v.snr.push_back(atof(x.c_str())); top = std::max(top, v.snr.back()); }
  part.push_back(t + " }");
  if (!vt || s.coin()) part.push_back(strf("min_trials_per_snr %ld", s.small(1, trials)));
  if (s.coin()) part.push_back(strf("min_errors_per_snr %ld", s.small(1, 4)));
  if (s.coin()) part.push_back(s.coin() ? "random_codeword on" : "random_codeword 1");
  if (s.coin()) part.push_back(s.coin() ? "ml_lb on" : "ml_lb_hard on");
  part.push_back(strf("fixed_R %g", s.oneof({0.05, 0.3, 1.0}) / (v.f.n() * std::pow(10, top / 10))));
  std::string cod; for (auto &x : v.f.tokens()) cod += x + " ";
  part.push_back(cod);
  if (s.chance(1, 4)) part.push_back("unknown 5");
  for (size_t i = part.size(); i > 1; i--) std::swap(part[i - 1], part[s.draw(i)]);
  // Some of it in included files, which may include others; and comments.
  std::string cur = "p.spf";
  int level = 0;
  for (auto &p : part) {
    if (level < 3 && s.chance(1, 8)) { std::string nm = strf("inc%d.spf", ++level); (level == 1 ? v.text : v.inc[cur]) += "include " + nm + (s.coin() ? "\n" : " % included\n"); cur = nm; }
    (level ? v.inc[cur] : v.text) += p + (s.chance(1, 8) ? " % a comment\n" : "\n");
    if (level && s.chance(1, 4)) v.text += "% back\n";
  }
  return v;
}
// Results of earlier simulations: none, or some of the SNRs and others.
std::string gen_old(Src &s, const Valid &v) {
  std::vector<std::pair<double, Point>> o;
  std::set<double> own(v.snr.begin(), v.snr.end()), all;
  for (double d : v.snr) if (s.coin()) all.insert(d);
  for (long e = s.small(0, 50 - (long)own.size()); e > 0; e--) { double d = 100 + e; all.insert(s.coin() ? d : -d); }
  while (all.size() > 50) all.erase(all.begin());
  for (double d : all) { Point p; p.trn = s.small(1, 100000000); p.en_bl = s.small(0, p.trn); p.en_bit = s.small(p.en_bl, 200000000); p.er = s.small(0, p.trn); p.ml_trn = s.small(0, p.trn); p.enml = s.small(0, p.ml_trn); o.push_back({d, p}); }
  return format_results(v.f.n(), v.f.k(), o);
}
int open_files() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
  return n;
}
// A whole life of one or several simulators.
long lives(Ctx &c, const std::string &prefix, const std::function<void()> &after) {
  Src &s = c.src;
  int codec = (int)s.draw(4);
  SimApi &A = sim_api(prefix + codec_name[codec]);
  Valid v = gen_valid(c, codec, s.chance(1, 8) ? 7 : 4, 12);
  fresh_dir();
  write_file("p.spf", v.text);
  for (auto &i : v.inc) write_file(i.first, i.second);
  if (s.coin()) write_file(v.res, gen_old(s, v));
  c.note("%s", v.text.substr(0, 400).c_str());
  clear_hooks(A); install_vtime(A); Clr clr{A};
  g_vtime = 1000;
  long steps = 0, saves = 0;
  std::vector<std::unique_ptr<Sim>> sims;
  int num = s.chance(1, 5) ? 2 : 1;
  for (int i = 0; i < num; i++) {
    sims.emplace_back(new Sim(A, "p.spf", s.chance(3, 4) ? -1 : 1000000, 1));
    if (!sims.back()->ok()) c.fail("not initialised: %s", A.ui_text());
  }
  // The program's buffer.
  std::unique_ptr<char[]> buf(new char[10000]);
  auto show = [&](Sim &x) { A.state_str(x.inst, buf.get()); if (strlen(buf.get()) == 0) c.fail("empty state"); };
  auto res = [&](Sim &x) { A.cur_res_str(x.inst, buf.get()); if (strlen(buf.get()) == 0) c.fail("empty results"); };
  bool wait = false;
  for (auto &p : sims) {
    Sim &x = *p;
    int rc;
    while ((rc = x.run()) == SIM_NOT_COMPLETED) {
      if (++steps > 100000) c.fail("does not complete");
      if (steps > 60 && steps % 16) continue;
      switch (s.draw(8)) {
        case 1: show(x); break;
        case 2: res(x); break;
        case 3: if (x.save()) c.fail("not saved: %s", A.ui_text()); saves++; break;
        case 4: A.control(x.inst, (int)s.i(1, 3)); break;
        case 5: wait = s.chance(1, 4); if (wait) { write_file(v.res + ".bsy", "Busy"); if (!x.save()) c.fail("saved in spite of a lock"); unlink((v.res + ".bsy").c_str()); } break;
      }
    }
    if (rc) c.fail("return code %d: %s", rc, A.ui_text());
    if (s.coin()) res(x);
    if (s.chance(3, 4)) { if (x.save()) c.fail("not saved: %s", A.ui_text()); saves++; }
  }
  sims.clear();
  if (after) after();
  return steps * 100 + saves;
}
}  // namespace

SUB("C30", "bounds", "asan", 8000, 480000, "several slices and a save") {
  long r = lives(c, "sim_", nullptr);
  c.nontrivial(r >= 200 && r % 100 > 0);
}
SUB("C30", "released", "plain", 16000, 960000, "several slices and a save") {
  // Memory is filled with garbage when allocated and counted; files are counted.
  static const char *libs[4] = {"live_sim_dtrm0", "live_sim_dtrm1", "live_sim_dtrm_glp", "live_sim_polar"};
  long before = 0;
  for (auto l : libs) { before += *(long *)lib_sym(l, "ecv_live"); *(unsigned char *)lib_sym(l, "ecv_fill") = (unsigned char)c.src.oneof({0xFF, 0x3C, 0x7F}); }
  int fb = open_files();
  long r = lives(c, "live_sim_", [&] {
    long now = 0; for (auto l : libs) now += *(long *)lib_sym(l, "ecv_live");
    if (now != before) c.fail("%ld blocks are still allocated after closing", now - before);
    int fa = open_files();
    if (fa != fb) c.fail("%d files are still open after closing", fa - fb);
  });
  c.nontrivial(r >= 200 && r % 100 > 0);
}
// Initialisations and saves which are refused give everything back too.
SUB("C30", "rejected_released", "plain", 40000, 2400000, "an initialisation or a save was refused") {
  Src &s = c.src;
  int codec = (int)s.draw(4);
  std::string lib = std::string("live_sim_") + codec_name[codec];
  SimApi &A = sim_api(lib);
  Valid v = gen_valid(c, codec, 3, 4);
  fresh_dir();
  // The words of all files together, with some damage.
  std::vector<std::string> w;
  {
    std::string all = v.text; for (auto &i : v.inc) all += "\n" + i.second;
    std::string x; bool com = false;
    for (char ch : all + "\n") { if (ch == '%') com = true; if (ch == '\n') com = false; if (com || isspace((unsigned char)ch)) { if (!x.empty()) w.push_back(x); x.clear(); } else x += ch; }
    for (size_t i = 0; i + 1 < w.size(); ) if (w[i] == "include") w.erase(w.begin() + i, w.begin() + i + 2); else i++;
  }
  for (int n = (int)s.i(0, 3); n > 0 && !w.empty(); n--) {
    size_t i = s.draw(w.size());
    switch (s.draw(7)) {
      case 0: w.resize(i); break;
      case 1: w.erase(w.begin() + i); break;
      case 2: w[i] = s.oneof({"}", "{", "x", "-1", "0", "1e9", "nan"}); break;
      case 3: w.insert(w.begin() + i, s.oneof({"}", "{", "EbNo_values", "SNR_val_trn", "res_file", "permutations", "border_node_mask", "7"})); break;
      case 4: { auto p = std::find(w.begin(), w.end(), s.oneof({"res_file", "SNR_val_trn", "EbNo_values", "RM_m", "c_m", "list_size", "border_node_mask", "info_bits_mask"})); if (p != w.end()) *p = "unknown"; break; }
      case 5: { auto p = std::find(w.begin(), w.end(), "res_file"); if (p != w.end() && p + 1 != w.end()) p[1] = std::string((size_t)s.i(990, 1010), 'r'); break; }
      case 6: { auto p = std::find_if(w.begin(), w.end(), [](auto &x) { return x == "SNR_val_trn" || x == "EbNo_values"; });
        if (p != w.end() && p + 1 != w.end()) { std::vector<std::string> more; for (int q = (int)s.i(40, 110); q > 0; q--) more.push_back("1"); w.insert(p + 2, more.begin(), more.end()); } break; }
    }
  }
  if (s.chance(1, 4)) {
    auto at = w.begin() + (s.coin() ? (long)w.size() : s.i(0, (long)w.size()));
    std::string f = "inc.spf";
    switch (s.draw(7)) {
      case 0: f = "missing.spf"; break;
      case 1: f = ""; at = w.end(); break;
      case 2: write_file(f, ""); break;
      case 3: write_file(f, std::string((size_t)s.i(139980, 140010), s.coin() ? ' ' : 'x')); break;
      case 4: mkdir(f.c_str(), 0755); break;
      case 5: { std::string z; for (int q = 0; q < 20; q++) z += std::string(400, 'x') + " "; write_file(f, z + "include inc.spf"); break; }
      case 6: { std::string z; for (long q = s.i(40, 139); q > 0; q--) z += std::string(999, 'x') + " "; write_file(f, z); at = w.insert(at, f); at = w.insert(at, "include"); break; }
    }
    if (!f.empty()) at = w.insert(at, f);
    w.insert(at, "include");
  }
  std::string text; for (auto &x : w) text += x + " ";
  bool none = s.chance(1, 30);   // no file, or an empty or an overlong one
  if (none) { if (s.coin()) write_file("p.spf", s.coin() ? "" : std::string((size_t)s.i(139990, 140010), s.coin() ? ' ' : 'x')); }
  else write_file("p.spf", text);
  c.note("%s", text.substr(0, 500).c_str());
  clear_hooks(A); install_vtime(A); Clr clr{A};
  g_vtime = 1000;
  *(unsigned char *)lib_sym(lib, "ecv_fill") = 0x3C;
  long *live = (long *)lib_sym(lib, "ecv_live"), before = *live;
  int fb = open_files();
  bool refused = false;
  {
    Sim x(A, "p.spf", -1, 1);
    if (!x.ok()) {
      refused = true;
      if (*live != before) c.fail("refused, %ld blocks stay allocated", *live - before);
    }
    else {
      for (int t = (int)s.i(0, 3); t > 0; t--) if (x.run() != SIM_NOT_COMPLETED) break;
      for (int t = (int)s.i(1, 3); t > 0; t--) {
        std::string o = gen_old(s, v);
        switch (s.draw(4)) {
          case 0: o.resize(s.draw(o.size() + 1)); break;
          case 1: { size_t i = s.draw(o.size()); o.replace(i, 1, s.oneof({"x", "}", "{", " ", "9", "%"})); break; }
          case 2: { size_t i = o.find('}'); if (i != std::string::npos) o.insert(i, s.oneof({"5 ", "x ", "{ "})); break; }
          case 3: if (s.coin()) o = std::string((size_t)s.i(139990, 140010), ' '); break;
        }
        write_file(v.res, o);
        if (x.save()) { refused = true; c.note(" | old: %s", o.substr(0, 400).c_str()); }
      }
    }
  }
  if (*live != before) c.fail("%ld blocks are still allocated after closing", *live - before);
  if (open_files() != fb) c.fail("%d files are still open", open_files() - fb);
  c.nontrivial(refused);
}
SUB("C30", "programs_msan", "plain", 1600, 96000, "several slices and a save, or an earlier results file") {
  Src &s = c.src;
  int codec = (int)s.draw(4);
  Valid v = gen_valid(c, codec, s.chance(1, 8) ? 7 : 4, 12);
  fresh_dir();
  write_file("p.spf", v.text);
  for (auto &i : v.inc) write_file(i.first, i.second);
  bool old = s.coin();
  if (old) write_file(v.res, gen_old(s, v));
  std::vector<std::string> a = {"p.spf"};
  if (s.chance(3, 4)) a.push_back("-nr");
  bool slices = s.chance(3, 4);
  if (slices) { a.push_back("-ri"); a.push_back("-1"); if (s.coin()) { a.push_back("-si"); a.push_back("-1"); } }
  c.note("%s", v.text.substr(0, 400).c_str());
  std::string exe = g_libdir + "/msan_" + prog_name[codec], er = scratch() + "/msan.err";
  std::vector<char *> av; av.push_back((char *)prog_name[codec]);
  for (auto &x : a) av.push_back((char *)x.c_str());
  av.push_back(nullptr);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(er.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); close(fd);
    signal(SIGPROF, SIG_DFL);
    alarm(120);
    setenv("MSAN_OPTIONS", "exitcode=99:symbolize=0:allocator_may_return_null=1", 1);
    execv(exe.c_str(), av.data());
    _exit(98);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { c.nontrivial(old || slices); return; }
  std::string t = read_file(er);
  size_t k = t.find("WARNING");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) c.fail("use of an uninitialised value: %s", t.substr(k == std::string::npos ? 0 : k, 1200).c_str());
  c.fail("exit status 0x%x under MemorySanitizer: %s", st, t.substr(0, 1200).c_str());
}
