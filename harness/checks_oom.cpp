// C33: running out of memory.
#include "sim.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <sstream>
using namespace pbt;

namespace pbt { extern std::string g_libdir; }

namespace {

// Allocations of one library.
struct Mem {
  long *live, *fail, *failed; int *all; unsigned char *fill;
  Mem(const std::string &lib)
    : live((long *)lib_sym(lib, "ecv_live")), fail((long *)lib_sym(lib, "ecv_fail")), failed((long *)lib_sym(lib, "ecv_failed")),
      all((int *)lib_sym(lib, "ecv_fail_all")), fill((unsigned char *)lib_sym(lib, "ecv_fill")) { *fail = 0; }
  ~Mem() { *fail = 0; }
  // Runs f while the j-th allocation (and all later ones) fails. Returns the number of failed ones.
  long with(long j, bool rest, const std::function<void()> &f) {
    long n = *failed;
    *all = rest; *fail = j;
    f();
    *fail = 0;
    return *failed - n;
  }
};
struct When { long j; bool rest; std::string str() const { return strf("allocation %ld%s fails", j, rest ? " and all later" : ""); } };
When gen_when(Src &s, long max) { When w; w.rest = s.coin(); w.j = s.small(1, max); return w; }

SUB("C33", "codec", "plain", 240000, 14400000, "an allocation failed while encoding or decoding") {
  Src &s = c.src;
  CfgLim l; l.mmax = s.chance(1, 8) ? 8 : 5; l.Lmax = 8;
  Cfg f = gen_cfg(c, (int)s.draw(4), l);
  Api &A = api(f.codec, "oom");
  Mem M(std::string(codec_name[f.codec]) + "_oom");
  *M.fill = (unsigned char)s.oneof({0xFF, 0x3C, 0x00});
  c.note("%s", f.str().substr(0, 400).c_str());
  long base = *M.live;
  std::string par = f.params();
  auto msg = [&]() { return A.ui_errs() + A.ui_msgs() > 0; };
  // Initialisation.
  void *inst = nullptr;
  for (int t = (int)s.i(1, 3); t > 0 && !inst; t--) {
    When w = gen_when(s, 12);
    std::string b = par; b += '\0';
    int rc = 0; void *p = nullptr;
    A.ui_reset();
    long n = M.with(w.j, w.rest, [&] { rc = A.init(b.data(), &p); });
    if (!rc) { inst = p; break; }
    if (!n) c.fail("not accepted: %s", A.ui_text());
    if (!msg()) c.fail("init, %s: no message", w.str().c_str());
    if (*M.live != base) c.fail("init, %s: %ld blocks stay allocated", w.str().c_str(), *M.live - base);
  }
  std::string b = par; b += '\0';
  if (!inst && (A.init(b.data(), &inst) || !inst)) c.fail("not accepted after a failed initialisation: %s", A.ui_text());
  void *twin = nullptr;
  b = par; b += '\0';
  if (A.init(b.data(), &twin) || !twin) c.fail("not accepted: %s", A.ui_text());
  long hits = 0;
  for (long ops = s.i(1, 5); ops > 0; ops--) {
    Bits x = gen_bits(s, f.k());
    Vec y[2] = {Vec(f.n(), 7), Vec(f.n(), 8)};
    When w = gen_when(s, 6);
    int rc[2] = {0, 0};
    A.ui_reset();
    rc[0] = A.enc(twin, x.data(), y[0].data());
    if (s.chance(1, 3)) {
      long n = M.with(w.j, w.rest, [&] { rc[1] = A.enc(inst, x.data(), y[1].data()); });
      hits += n;
      c.note(" | enc, %s", w.str().c_str());
      if (rc[1] != rc[0]) {
        if (!n) c.fail("encoder: return code %d", rc[1]);
        if (!msg()) c.fail("encoder: no message");
      }
      else if (y[0] != y[1]) c.fail("encoder: success with another word %s", show(y[1], 300).c_str());
      rc[1] = A.enc(inst, x.data(), y[1].data());
      if (rc[1] != rc[0] || y[0] != y[1]) c.fail("encoder after the failure: code %d, %s", rc[1], show(y[1], 300).c_str());
      continue;
    }
    double sg = s.real(0.3, 1.3);
    Rng q = s.bulk();
    for (double &v : y[0]) v += sg * q.gauss();
    A.set_sg(twin, sg); A.set_sg(inst, sg);
    if (A.set_csnrn) { A.set_csnrn(twin, 0); A.set_csnrn(inst, 0); }
    Bits d[2] = {Bits(f.k(), 5), Bits(f.k(), 6)};
    Vec in = y[0];
    rc[0] = A.dec(twin, in.data(), d[0].data());
    in = y[0];
    A.ui_reset();
    long n = M.with(w.j, w.rest, [&] { rc[1] = A.dec(inst, in.data(), d[1].data()); });
    hits += n;
    c.note(" | dec at %g, %s", sg, w.str().c_str());
    if (rc[1] < 0) {
      if (!n) c.fail("decoder: return code %d", rc[1]);
      if (!msg()) c.fail("decoder: no message");
    }
    else if (rc[0] != rc[1] || d[0] != d[1]) c.fail("decoder: code %d with %s, with enough memory %d with %s", rc[1], show(d[1], 300).c_str(), rc[0], show(d[0], 300).c_str());
    in = y[0];
    rc[1] = A.dec(inst, in.data(), d[1].data());
    if (rc[0] != rc[1] || d[0] != d[1]) c.fail("decoder after the failure: code %d with %s, expected %d with %s", rc[1], show(d[1], 300).c_str(), rc[0], show(d[0], 300).c_str());
  }
  A.close(inst); A.close(twin);
  if (*M.live != base) c.fail("%ld blocks are still allocated after closing", *M.live - base);
  c.nontrivial(hits > 0);
}

struct Conf { Cfg f; std::string text; std::vector<double> snr; };
Conf gen_conf(Ctx &c, int codec, long trials) {
  Src &s = c.src;
  Conf v;
  CfgLim l; l.mmax = 5; l.Lmax = 6;
  v.f = gen_cfg(c, codec, l);
  std::vector<std::string> w; std::set<double> seen;
  int m = (int)s.small(1, 4);
  for (int t = 0; (int)w.size() < m && t < 6 * m; t++) { std::string x = strf("%g", s.i(-20, 20) * 0.5); if (seen.insert(atof(x.c_str())).second) w.push_back(x); }
  bool vt = s.coin();
  double top = -1e9;
  v.text = "res_file out.srf\n"; v.text += vt ? "SNR_val_trn {" : "EbNo_values {";
  for (auto &x : w) { v.text += " " + x; if (vt) v.text += strf(" %ld", s.small(1, trials)); v.snr.push_back(atof(x.c_str())); top = std::max(top, v.snr.back()); }
  v.text += " }\n";
  if (!vt) v.text += strf("min_trials_per_snr %ld\n", s.small(1, trials));
  if (s.coin()) v.text += "random_codeword on\n";
  if (s.coin()) v.text += s.coin() ? "ml_lb on\n" : "ml_lb_hard on\n";
  v.text += strf("fixed_R %g\n", s.oneof({0.05, 0.3, 1.0}) / (v.f.n() * std::pow(10, top / 10)));
  for (auto &x : v.f.tokens()) v.text += x + " ";
  v.text += "\n";
  return v;
}
std::string gen_old(Src &s, const Conf &v, long *trials = nullptr) {
  std::vector<std::pair<double, Point>> o;
  for (double d : v.snr) if (s.coin()) { Point p; p.trn = s.small(1, 100000); p.en_bl = s.small(0, p.trn); p.en_bit = s.small(p.en_bl, 200000); p.er = s.small(0, p.trn); p.ml_trn = s.small(0, p.trn); p.enml = s.small(0, p.ml_trn); o.push_back({d, p}); if (trials) *trials += p.trn; }
  std::sort(o.begin(), o.end(), [](const auto &a, const auto &b) { return a.first < b.first; });
  return format_results(v.f.n(), v.f.k(), o);
}
uint64_t g_rnd;
int rnd() { g_rnd = g_rnd * 6364136223846793005ull + 1442695040888963407ull; return (int)(g_rnd >> 33); }
struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } };
long total(const std::string &t) { long n = 0; for (auto &p : parse_results(t).pt) n += p.trn; return n; }

SUB("C33", "simulation", "plain", 16000, 960000, "an allocation failed while running or saving") {
  Src &s = c.src;
  int codec = (int)s.draw(4);
  std::string lib = std::string("live_sim_") + codec_name[codec];
  SimApi &A = sim_api(lib);
  Conf v = gen_conf(c, codec, 12);
  fresh_dir();
  write_file("p.spf", v.text);
  std::string old;
  long before = 0;
  bool has_old = s.coin();
  if (has_old) { old = gen_old(s, v, &before); write_file("out.srf", old); }
  c.note("%s", v.text.substr(0, 500).c_str());
  clear_hooks(A); install_vtime(A); Clr clr{A};
  A.hooks->rand_fn = rnd;
  Mem M(lib);
  *M.fill = (unsigned char)s.oneof({0xFF, 0x3C, 0x7F});
  uint64_t seed = 12345 + s.draw(1000);
  g_vtime = 1000;
  long base = *M.live;
  // Undisturbed.
  std::vector<std::string> shown; std::string want;
  {
    g_rnd = seed;
    Sim u(A, "p.spf", -1);
    if (!u.ok()) c.fail("not accepted: %s", A.ui_text());
    int rc;
    shown.push_back(u.state() + u.res());
    while ((rc = u.run()) == SIM_NOT_COMPLETED) { shown.push_back(u.state() + u.res()); if (shown.size() > 3000) { c.label("too long"); return; } }
    if (rc || u.save()) c.fail("code %d: %s", rc, A.ui_text());
    want = read_file("out.srf");
  }
  unlink("out.srf");
  if (has_old) write_file("out.srf", old);
  g_rnd = seed;
  auto msg = [&]() { return A.ui_errs() + A.ui_msgs() > 0; };
  // Initialisation.
  void *inst = nullptr;
  std::string name = "p.spf";
  SimInitParams p; p.spf_name = name.data(); p.ret_int = -1; p.dont_randomize = 1;
  for (int t = (int)s.i(0, 2); t > 0 && !inst; t--) {
    When w = gen_when(s, 20);
    int rc = 0; void *q = nullptr;
    A.ui_reset();
    long n = M.with(w.j, w.rest, [&] { rc = A.init(&p, &q); });
    if (!rc) { inst = q; break; }
    if (!n) c.fail("not initialised: %s", A.ui_text());
    if (!msg()) c.fail("init, %s: no message", w.str().c_str());
    if (*M.live != base) c.fail("init, %s: %ld blocks stay allocated", w.str().c_str(), *M.live - base);
    if (exists("out.srf") != has_old || (has_old && read_file("out.srf") != old)) c.fail("init, %s: the results file changed", w.str().c_str());
  }
  if (!inst && (A.init(&p, &inst) || !inst)) c.fail("not initialised after a failure: %s", A.ui_text());
  std::vector<char> buf(1 << 18);
  auto show = [&]() { A.state_str(inst, buf.data()); std::string r = buf.data(); A.cur_res_str(inst, buf.data()); return r + buf.data(); };
  long done = 0, errs = 0, hits = 0, disturb = 0;
  for (int guard = 0; ; guard++) {
    if (guard > 20000) c.fail("does not complete");
    int rc;
    if (disturb < 40 && s.chance(1, 4)) {
      disturb++;
      When w = gen_when(s, 12);
      if (s.chance(1, 3)) {   // a save
        std::string f0 = read_file("out.srf"); bool ex = exists("out.srf");
        A.ui_reset();
        long n = M.with(w.j, w.rest, [&] { rc = A.save(inst); });
        hits += n;
        c.note(" | after %ld trials save, %s", done, w.str().c_str());
        if (exists("out.srf.bsy")) c.fail("the lock is left");
        if (rc) {
          if (!n) c.fail("not saved: %s", A.ui_text());
          if (!msg()) c.fail("not saved without a message");
          if (ex != exists("out.srf") || read_file("out.srf") != f0) c.fail("not saved, but the file changed from\n%s\nto\n%s", f0.c_str(), read_file("out.srf").c_str());
        }
        else if (total(read_file("out.srf")) != before + done) c.fail("saved %ld trials instead of %ld", total(read_file("out.srf")) - before, done);
        continue;
      }
      // The simulation may have gone on to the next point, which has no trials yet.
      auto counted = [&]() {
        A.cur_res_str(inst, buf.data());
        std::istringstream in(buf.data()); std::string r, q;
        while (std::getline(in, q)) if (q.find("nan") == std::string::npos) r += q + "\n";
        return r;
      };
      auto now = [&]() { A.state_str(inst, buf.data()); return std::string(buf.data()); };
      std::string s0 = counted(), t0 = now();
      A.ui_reset();
      long n = M.with(w.j, w.rest, [&] { rc = A.run(inst); });
      hits += n;
      c.note(" | trial %ld, %s", done + 1, w.str().c_str());
      if (rc != 0 && rc != SIM_NOT_COMPLETED) {
        if (!n) c.fail("code %d: %s", rc, A.ui_text());
        if (!msg()) c.fail("code %d without a message", rc);
        if (counted() != s0) c.fail("a failed trial changed the results from\n%s\nto\n%s", s0.c_str(), counted().c_str());
        State a, b;
        if (!parse_state(t0, a) || !parse_state(now(), b)) c.fail("state: %s", now().c_str());
        if (a.i == b.i ? t0 != now() : b.i != a.i + 1 || b.trn || b.en || b.ml) c.fail("a failed trial changed the state from %s to %s", t0.c_str(), now().c_str());
        errs++;
        continue;
      }
    }
    else rc = A.run(inst);
    if (rc == 0) break;
    if (rc != SIM_NOT_COMPLETED) c.fail("code %d: %s", rc, A.ui_text());
    done++;
    if (!errs && (done >= (long)shown.size() || show() != shown[done])) c.fail("after %ld trials\n%s\nundisturbed\n%s", done, show().c_str(), done < (long)shown.size() ? shown[done].c_str() : "completed");
  }
  A.ui_reset();
  if (A.save(inst)) c.fail("not saved: %s", A.ui_text());
  std::string got = read_file("out.srf");
  A.close(inst);
  if (!errs && got != want) c.fail("results\n%s\nundisturbed\n%s", got.c_str(), want.c_str());
  Results r = parse_results(got);
  if (!r.ok) c.fail("results: %s\n%s", r.why.c_str(), got.c_str());
  if (total(got) != before + done) c.fail("%ld trials are stored, %ld were done", total(got) - before, done);
  std::string e = check_rates(r);
  if (!e.empty()) c.fail("%s", e.c_str());
  if (*M.live != base) c.fail("%ld blocks are still allocated after closing", *M.live - base);
  c.nontrivial(hits > 0);
}

SUB("C33", "programs", "plain", 4000, 240000, "the program ended with an error") {
  Src &s = c.src;
  static const char *prog_name[4] = {"dtrm0_bg", "dtrm1_bg", "dtrm_glp_bg", "ca_polar_scl_bg"};
  int codec = (int)s.draw(4);
  Conf v = gen_conf(c, codec, 8);
  fresh_dir();
  write_file("p.spf", v.text);
  std::string old;
  bool has_old = s.coin();
  if (has_old) old = gen_old(s, v);
  std::vector<std::string> a = {"p.spf", "-nr"};
  if (s.coin()) { a.push_back("-ri"); a.push_back("-1"); if (s.coin()) { a.push_back("-si"); a.push_back("-1"); } }
  std::string when = strf("%ld %d", s.chance(1, 3) ? s.i(1, 300) : s.small(1, 60), (int)s.coin());
  c.note("%s | %s", v.text.substr(0, 500).c_str(), when.c_str());
  std::string f[2], out[2]; int st[2] = {0, 0}; bool ex = false;
  for (int t = 0; t < 2; t++) {
    unlink("out.srf");
    if (has_old) write_file("out.srf", old);
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { fprintf(stderr, "fork\n"); _Exit(76); }
    if (p == 0) {
      std::string exe = g_libdir + "/" + prog_name[codec];
      std::vector<char *> av = {(char *)prog_name[codec]};
      for (auto &x : a) av.push_back((char *)x.c_str());
      av.push_back(nullptr);
      int fd = open("text", O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 1); dup2(fd, 2); close(fd);
      int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
      rlimit rl = {40, 40}; setrlimit(RLIMIT_CPU, &rl);
      signal(SIGPROF, SIG_DFL);
      if (t) { setenv("NOMEM", when.c_str(), 1); setenv("LD_PRELOAD", (g_libdir + "/nomem.so").c_str(), 1); }
      execv(exe.c_str(), av.data());
      _exit(126);
    }
    while (waitpid(p, &st[t], 0) < 0 && errno == EINTR) {}
    f[t] = read_file("out.srf"); ex = exists("out.srf");
    out[t] = read_file("text");
    if (WIFEXITED(st[t]) && WEXITSTATUS(st[t]) == 126) { fprintf(stderr, "cannot execute\n"); _Exit(77); }
  }
  if (!WIFEXITED(st[0]) || WEXITSTATUS(st[0])) c.fail("status 0x%x: %s", st[0], out[0].substr(0, 400).c_str());
  if (!WIFEXITED(st[1])) c.fail("killed by signal %d: %s", WTERMSIG(st[1]), out[1].substr(0, 400).c_str());
  if (exists("out.srf.bsy")) c.fail("the lock is left");
  if (WEXITSTATUS(st[1]) == 0) {
    if (f[0] != f[1]) c.fail("success, with enough memory:\n%s\nnow:\n%s", f[0].c_str(), f[1].c_str());
    c.label("not disturbed");
    return;
  }
  if (out[1].find("rror") == std::string::npos && out[1].find("emory") == std::string::npos) c.fail("exit %d without a message: %s", WEXITSTATUS(st[1]), out[1].c_str());
  if (ex != has_old && !ex) c.fail("the results file is deleted");
  if (ex && f[1] != old) {
    Results r = parse_results(f[1]), w = parse_results(f[0]);
    if (!r.ok) c.fail("results: %s\n%s", r.why.c_str(), f[1].c_str());
    std::string e = check_rates(r);
    if (!e.empty()) c.fail("%s", e.c_str());
    for (size_t i = 0; i < r.snr.size(); i++) {
      size_t j = std::find(w.snr.begin(), w.snr.end(), r.snr[i]) - w.snr.begin();
      if (j >= w.snr.size() || r.pt[i].trn > w.pt[j].trn || r.pt[i].en_bit > w.pt[j].en_bit) c.fail("SNR %g: %s, with enough memory:\n%s", r.snr[i], r.pt[i].str().c_str(), f[0].c_str());
    }
    c.label("some results are stored");
  }
  c.nontrivial();
}
}  // namespace
