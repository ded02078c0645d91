// C23: concurrent and failing saves.
#include "sim.hpp"
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
using namespace pbt;

namespace {

struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } };
typedef std::map<double, Point> Data;
const int PMAX = 8;

double num(const std::string &s) { return atof(s.c_str()) + 0.0; }
std::vector<std::string> pool_of(Src &s) {
  std::vector<std::string> v; std::set<double> seen;
  int m = (int)s.i(1, PMAX);
  for (int t = 0; (int)v.size() < m && t < 40; t++) { std::string x = strf("%g", s.i(-8, 16) * 0.25); if (seen.insert(num(x)).second) v.push_back(x); }
  return v;
}
Data gen_data(Src &s, const std::vector<std::string> &pool, long k) {
  Data d;
  int m = (int)s.i(1, 6);
  for (int q = 0; q < m; q++) {
    Point p; p.trn = s.small(1, 100000); p.en_bl = s.small(0, p.trn); p.en_bit = p.en_bl ? s.i(p.en_bl, p.en_bl * k) : 0; p.er = s.small(0, p.trn);
    d[s.coin() ? num(pool[s.draw(pool.size())]) : s.i(-40, 40) * 0.5] = p;
  }
  return d;
}
std::string differs(const std::string &txt, const Data &want) {
  Results r = parse_results(txt);
  if (!r.ok) return "results file: " + r.why;
  if (r.snr.size() != want.size()) return strf("%zu points, expected %zu", r.snr.size(), want.size());
  size_t i = 0;
  for (auto &w : want) {
    if (r.snr[i] != w.first) return strf("SNR %.17g, expected %.17g", r.snr[i], w.first);
    if (!(r.pt[i] == w.second)) return strf("SNR %g: %s, expected %s", w.first, r.pt[i].str().c_str(), w.second.str().c_str());
    i++;
  }
  return check_rates(r);
}
void add(Data &d, const Data &e) { for (auto &p : e) if (p.second.trn > 0) d[p.first] = d[p.first] + p.second; }

// A simulation whose trials are recorded.
struct Rec {
  Script sc;
  std::vector<std::string> snr;
  Data total;
  std::vector<Point> pend;
  Rng r;
  std::unique_ptr<Sim> sim;
  SimApi &A;
  std::string why;
  Rec(SimApi &a, int n, int k, u64 seed) : r(seed), A(a) {
    sc.n = n; sc.k = k;
    sc.decide = [this](const Bits &, const double *, double, Bits &xd) {
      Point p; p.trn = 1;
      int rc = r.u() < 0.2;
      p.er = rc;
      if (r.u() < 0.6) { int w = 1 + (int)r.below(xd.size()); for (int q = 0; q < w; q++) xd[q] ^= 1; p.en_bl = 1; p.en_bit = w; }
      pend.push_back(p);
      return rc;
    };
  }
  ~Rec() { g_script = &sc; sim.reset(); }
  bool open(const std::string &spf, const std::string &res, const std::vector<std::string> &v, long mt) {
    snr = v;
    std::string t = "res_file " + res + " SNR_val_trn {";
    for (auto &x : v) t += strf(" %s %ld", x.c_str(), mt);
    write_file(spf, t + " }");
    install_script(A, &sc);
    sim.reset(new Sim(A, spf, -1));
    return sim->ok();
  }
  void run(long cnt) {
    install_script(A, &sc);
    for (long q = 0; q < cnt; q++) {
      int rc = sim->run();
      size_t pt = snr.size() - 1;
      if (rc == SIM_NOT_COMPLETED) { State st; if (!parse_state(sim->state(), st)) { why = "state " + sim->state(); return; } pt = (size_t)st.i - 1; }
      else if (rc != 0) { why = strf("run returned %d", rc); return; }
      if (pt >= snr.size()) { why = "point out of range"; return; }
      for (auto &p : pend) { Point &t = total[num(snr[pt])]; t = t + p; }
      pend.clear();
      if (rc == 0) return;
    }
  }
};

bool is_lock(const char *p) { size_t n = strlen(p); return n >= 4 && !strcmp(p + n - 4, ".bsy"); }

// Faults of a single saver.
struct Plan {
  long at = -1; int err = 0;
  long n = 0; bool hit = false; int op = 0; std::string path, mode;
} g_plan;
int fault_pre(int op, const char *path, const char *mode) {
  if (op == OP_REMOVE || op == OP_UNLINK || op == OP_RMDIR) return 0;
  if (g_plan.n++ != g_plan.at) return 0;
  g_plan.hit = true; g_plan.op = op; g_plan.path = path; g_plan.mode = mode;
  return g_plan.err;
}
const char *opname(int op) { static const char *n[] = {"?", "fopen", "fclose", "remove", "rename", "open", "close", "mkdir", "rmdir", "link", "clock", "unlink"}; return op > 0 && op < 12 ? n[op] : "?"; }
}  // namespace

SUB("C23", "faults", "plain", 120000, 7200000, "a file operation failed during a save with new trials") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  install_vtime(A); Clr clr{A};
  fresh_dir();
  int n = 2 * (int)s.small(1, 4), k = (int)s.i(1, n);
  std::vector<std::string> pool = pool_of(s);
  Data file; bool present = s.chance(3, 4);
  if (present) { file = gen_data(s, pool, k); write_file("res", format_results(n, k, {file.begin(), file.end()})); }
  Rec R(A, n, k, s.draw(1 << 20));
  if (!R.open("p.spf", "res", pool, s.i(1, 6))) c.fail("not initialised: %s", A.ui_text());
  Data saved;
  srand((unsigned)s.draw(1 << 16));
  int rounds = (int)s.i(1, 4);
  c.note("n=%d k=%d %zu points in the file;", n, k, file.size());
  for (int q = 0; q < rounds; q++) {
    R.run(s.small(0, 30));
    if (!R.why.empty()) c.fail("%s", R.why.c_str());
    bool fresh = false; Data delta;
    bool ok0; std::string before = read_file("res", &ok0);
    if (!ok0 || before.empty()) saved.clear();
    for (auto &p : R.total) { Point d = p.second - saved[p.first]; if (d.trn) { delta[p.first] = d; fresh = true; } }
    g_plan = Plan();
    if (q + 1 < rounds || rounds == 1) { g_plan.at = s.i(0, 9); g_plan.err = s.oneof({EACCES, EIO, EMFILE, ENOSPC, ENOMEM, EROFS}); }
    A.hooks->pre = fault_pre;
    int rc = R.sim->save();
    A.hooks->pre = nullptr;
    bool wclose = g_plan.hit && (g_plan.op == OP_FCLOSE || g_plan.op == OP_CLOSE) && g_plan.mode[0] != 'r' && !is_lock(g_plan.path.c_str());
    if (g_plan.hit) c.note(" %s(%s,%s)=%s", opname(g_plan.op), g_plan.path.c_str(), g_plan.mode.c_str(), strerror(g_plan.err));
    c.note(" save=%d", rc);
    if (exists("res.bsy")) c.fail("the lock is left, the save returned %d", rc);
    for (auto &f : list_dir(".")) if (f != "res" && f != "p.spf") c.fail("%s is left", f.c_str());
    if (rc != 0 && !A.ui_errs()) c.fail("failed without a message");
    bool ok1; std::string after = read_file("res", &ok1);
    if (rc == 0) {
      if (wclose) c.fail("a failed write is not reported");
      Data nf = file; if (!ok0 || before.empty()) nf.clear();
      add(nf, delta);
      std::string e = ok1 ? differs(after, nf) : "no file";
      if (!e.empty()) c.fail("saved, but %s", e.c_str());
      file = nf; present = true; saved = R.total;
      if (g_plan.hit && fresh) c.label("fault without consequence");
    }
    else {
      if (!g_plan.hit) c.fail("failed without a fault: %s", A.ui_text());
      if (ok0 != ok1 || before != after) c.fail("failed at %s(%s), the file changed", opname(g_plan.op), g_plan.path.c_str());
      if (wclose) c.label("failed write");
    }
    if (g_plan.hit && fresh) c.nontrivial();
  }
}

// Faults of the file system itself, locks of others and damaged files.
SUB("C23", "obstacles", "plain", 40000, 2400000, "an obstacle with new trials") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  install_vtime(A); Clr clr{A};
  fresh_dir();
  int n = 2 * (int)s.small(1, 4), k = (int)s.i(1, n);
  std::vector<std::string> pool = pool_of(s);
  int kind = (int)s.draw(6);
  // Names of any length.
  std::string base, path;
  if (s.chance(1, 4)) for (long q = s.i(1, 496); q > 0; q--) base += "./";
  path = base + (kind == 1 ? "no/res" : "res");
  Data file; bool present = kind == 4 || (kind != 0 && kind != 1 && s.coin());
  if (present) { file = gen_data(s, pool, k); if (kind != 4) write_file(path, format_results(n, k, {file.begin(), file.end()})); }
  Rec R(A, n, k, s.draw(1 << 20));
  if (!R.open("p.spf", path, pool, s.i(1, 6))) c.fail("not initialised: %s", A.ui_text());
  srand((unsigned)s.draw(1 << 16));
  R.run(s.small(1, 30));
  if (!R.why.empty()) c.fail("%s", R.why.c_str());
  auto save_ok = [&](const char *what) {
    int rc = R.sim->save();
    if (rc != 0) c.fail("%s: not saved: %s", what, A.ui_text());
    Data nf = file; add(nf, R.total);
    std::string e = differs(read_file(path), nf);
    if (!e.empty()) c.fail("%s: %s", what, e.c_str());
    if (exists(path + ".bsy")) c.fail("%s: the lock is left", what);
  };
  auto save_bad = [&](const char *what, const std::string &lock) {
    bool a, b; std::string t0 = read_file(path, &a);
    int rc = R.sim->save();
    if (rc == 0) c.fail("%s: success is reported", what);
    if (!A.ui_errs()) c.fail("%s: no message", what);
    std::string t1 = read_file(path, &b);
    if (a != b || t0 != t1) c.fail("%s: the file changed", what);
    if (lock.empty() ? exists(path + ".bsy") : read_file(path + ".bsy") != lock) c.fail("%s: the lock is %s", what, lock.empty() ? "left" : "not that of the other saver");
  };
  c.nontrivial();
  switch (kind) {
    case 0: {
      c.note("the results file is a directory");
      mkdir("res", 0755);
      int rc = R.sim->save();
      if (rc == 0 || !A.ui_errs()) c.fail("saving over a directory: %d", rc);
      if (exists("res.bsy")) c.fail("the lock is left");
      rmdir("res");
      if (exists("res")) c.fail("the directory is gone");
      save_ok("after the directory is removed");
      break;
    }
    case 1:
      c.note("the directory does not exist");
      save_bad("no directory", "");
      mkdir("no", 0755);
      save_ok("after the directory is made");
      break;
    case 2: {
      c.note("the file is locked by another saver");
      std::string lk = s.oneof({"Busy", "x", "by another"});
      write_file(path + ".bsy", lk);
      save_bad("locked", lk);
      if (s.coin()) save_bad("locked", lk);
      unlink((path + ".bsy").c_str());
      save_ok("after the lock is removed");
      break;
    }
    case 3: {
      static long ticks, when; static std::string lockfile;
      ticks = 0; when = s.small(1, 25); lockfile = path + ".bsy";
      write_file(path + ".bsy", "Busy");
      c.note("the lock is removed after %ld attempts", when);
      A.hooks->post = [](int op, const char *path, const char *, int ok) {
        if ((op == OP_FOPEN || op == OP_OPEN || op == OP_LINK || op == OP_MKDIR) && !ok && is_lock(path) && ++ticks == when) unlink(lockfile.c_str());
      };
      int rc = R.sim->save();
      A.hooks->post = nullptr;
      if (ticks < when) { unlink((path + ".bsy").c_str()); c.label("gave up earlier"); }
      else if (rc != 0) c.fail("the lock was removed after %ld attempts, not saved: %s", when, A.ui_text());
      if (rc == 0) { Data nf = file; add(nf, R.total); std::string e = differs(read_file("res"), nf); if (!e.empty()) c.fail("%s", e.c_str()); file.clear(); file = nf; for (auto &p : R.total) p.second = Point(); }
      save_ok("again");
      break;
    }
    case 4: {
      std::string good = format_results(n, k, {file.begin(), file.end()}), bad = good;
      // One list shorter or longer than the others, or cut off.
      static const char *key[] = {"SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl"};
      const char *kk = key[s.draw(7)];
      size_t a = bad.find(std::string(kk) + " {"), e = bad.find("}", a);
      switch (s.draw(4)) {
        case 0: bad.insert(e, s.coin() ? "7 " : "7 8 9 "); c.note("longer %s", kk); break;
        case 1: { size_t b0 = bad.find("{", a) + 2, b1 = bad.find(' ', b0); bad.erase(b0, b1 - b0 + 1); c.note("shorter %s", kk); break; }
        case 2: bad.erase(a, e + 2 - a); c.note("no %s", kk); break;
        case 3: bad.erase(e + (s.coin() ? 0 : -1)); c.note("cut off in %s", kk); if (bad.empty()) bad = "x"; break;
      }
      write_file(path, bad);
      save_bad("damaged file", "");
      write_file(path, good);
      save_ok("after the file is restored");
      break;
    }
    case 5: {
      // A limit of the file size in place of a full disk.
      Data nf = file; add(nf, R.total);
      std::unique_ptr<Rec> R2(new Rec(A, n, k, 1));
      bool a; std::string t0 = read_file("res", &a);
      if (R.sim->save() != 0) c.fail("not saved: %s", A.ui_text());
      std::string full = read_file("res");
      std::string e = differs(full, nf); if (!e.empty()) c.fail("%s", e.c_str());
      // Again, by a second simulation with the same trials to save.
      long lim = s.i(0, (long)full.size() + 40);
      if (a) write_file("res", t0); else unlink("res");
      if (!R2->open("q.spf", path, pool, 3)) c.fail("not initialised");
      R2->run(20);
      Data nf2 = file; add(nf2, R2->total);
      signal(SIGXFSZ, SIG_IGN);
      rlimit old, now; getrlimit(RLIMIT_FSIZE, &old); now = old; now.rlim_cur = (rlim_t)lim; setrlimit(RLIMIT_FSIZE, &now);
      int rc = R2->sim->save();
      setrlimit(RLIMIT_FSIZE, &old);
      c.note("file size limited to %ld, %zu needed about", lim, full.size());
      std::string t1 = read_file("res");
      if (exists("res.bsy")) c.fail("the lock is left");
      if (rc == 0) { e = differs(t1, nf2); if (!e.empty()) c.fail("success is reported, but %s", e.c_str()); }
      else {
        if (!A.ui_errs()) c.fail("no message");
        c.label("did not fit");
        bool b = exists("res");
        if (a != b || t1 != t0) c.fail("no room, the file changed");
      }
      break;
    }
  }
}

// A saver which ends before any of its file operations.
namespace {
struct Crash { long at = -1, n = 0; int prev = 0; std::string prevpath, prevmode; int fd = -1; } g_crash;
struct CrashMsg { int op, prev; char path[64], mode[8], prevpath[64], prevmode[8]; };
int crash_pre(int op, const char *path, const char *mode) {
  if (g_crash.n++ == g_crash.at) {
    CrashMsg m; memset(&m, 0, sizeof m);
    m.op = op; m.prev = g_crash.prev;
    snprintf(m.path, sizeof m.path, "%s", path); snprintf(m.mode, sizeof m.mode, "%s", mode);
    snprintf(m.prevpath, sizeof m.prevpath, "%s", g_crash.prevpath.c_str()); snprintf(m.prevmode, sizeof m.prevmode, "%s", g_crash.prevmode.c_str());
    fflush(nullptr);
    if (write(g_crash.fd, &m, sizeof m) != (ssize_t)sizeof m) _exit(3);
    _exit(0);
  }
  g_crash.prev = op; g_crash.prevpath = path; g_crash.prevmode = mode;
  return 0;
}
}  // namespace

SUB("C23", "crash", "plain", 24000, 1400000, "a saver with new trials ended within a save") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  install_vtime(A); Clr clr{A};
  fresh_dir();
  int n = 2 * (int)s.small(1, 4), k = (int)s.i(1, n);
  std::vector<std::string> pool = pool_of(s);
  Data base;
  if (s.chance(3, 4)) { base = gen_data(s, pool, k); write_file("res", format_results(n, k, {base.begin(), base.end()})); }
  Rec R(A, n, k, s.draw(1 << 20));
  if (!R.open("p.spf", "res", pool, s.i(1, 6))) c.fail("not initialised: %s", A.ui_text());
  srand((unsigned)s.draw(1 << 16));
  Data all = base;
  // A complete save before it?
  if (s.coin()) {
    R.run(s.small(1, 20));
    if (!R.why.empty()) c.fail("%s", R.why.c_str());
    if (R.sim->save() != 0) c.fail("not saved: %s", A.ui_text());
    add(all, R.total);
  }
  bool ok0; std::string t0 = read_file("res", &ok0);
  R.run(s.small(0, 20));
  if (!R.why.empty()) c.fail("%s", R.why.c_str());
  Data now = base; add(now, R.total);
  int at = (int)s.i(0, 9);
  int fds[2];
  if (pipe(fds)) { fprintf(stderr, "pipe\n"); _Exit(76); }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { fprintf(stderr, "fork\n"); _Exit(76); }
  if (pid == 0) {
    close(fds[0]);
    g_crash = Crash(); g_crash.at = at; g_crash.fd = fds[1];
    A.hooks->pre = crash_pre;
    int rc = R.sim->save();
    _exit(rc ? 5 : 4);
  }
  close(fds[1]);
  CrashMsg m; memset(&m, 0, sizeof m);
  ssize_t got = read(fds[0], &m, sizeof m);
  close(fds[0]);
  int st; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) c.fail("killed by signal %d", WTERMSIG(st));
  bool crashed = got == (ssize_t)sizeof m;
  if (!crashed && WEXITSTATUS(st) != 4) c.fail("the save failed (exit %d)", WEXITSTATUS(st));
  if (crashed) c.note("n=%d k=%d %zu points; ended before %s(%s,%s), after %s(%s,%s)", n, k, base.size(), opname(m.op), m.path, m.mode, opname(m.prev), m.prevpath, m.prevmode);
  else c.note("n=%d k=%d %zu points; completed", n, k, base.size());
  bool closing = crashed && m.op == OP_FCLOSE && !is_lock(m.path) && m.mode[0] == 'w';
  if (closing) {
    // Any part of it may have been written.
    std::string t = read_file(m.path);
    long keep = s.i(0, (long)t.size());
    if (truncate(m.path, keep)) c.fail("truncate");
    c.label("ended while writing");
    c.note(", %ld of %zu bytes written", keep, t.size());
  }
  bool ok1; std::string t1 = read_file("res", &ok1);
  bool old = ok0 == ok1 && t0 == t1, upd = ok1 && differs(t1, now).empty();
  if (!crashed && !upd && !(now.empty() && !ok1)) c.fail("saved, but %s", differs(t1, now).c_str());
  if (!old && !upd) c.fail("ended before %s(%s,%s), the results are lost", opname(m.op), m.path, m.mode);
  if (!crashed && exists("res.bsy")) c.fail("the lock is left");
  unlink("res.bsy");
  // Another one saves afterwards.
  Rec R2(A, n, k, 7);
  if (!R2.open("q.spf", "res", pool, s.i(1, 6))) c.fail("not initialised: %s", A.ui_text());
  R2.run(s.small(1, 20));
  if (!R2.why.empty()) c.fail("%s", R2.why.c_str());
  int rc = R2.sim->save();
  if (exists("res.bsy")) c.fail("the lock is left after the next save");
  std::string t2 = read_file("res");
  Data want = old ? all : now; add(want, R2.total);
  if (rc != 0) c.fail("the next save failed: %s", A.ui_text());
  std::string e = differs(t2, want);
  if (!e.empty()) c.fail("the next save: %s", e.c_str());
  if (crashed) c.nontrivial();
}

// ----- Several savers in any interleaving of their file operations.

namespace {
const int CMAX = 4, RMAX = 3;
struct Shared {
  struct Child {
    int rounds, rc[RMAX + 1];
    int done;                 // rounds finished
    int started;              // rounds whose save has begun
    Point at[RMAX + 1][PMAX]; // total trials when the save of a round begins
    char why[200];
  } ch[CMAX];
};
struct Msg { int op; char path[64]; char mode[8]; };   // op 0: end of the rounds, -1: final save done
Shared *g_sh;
int g_fd = -1;
int gate_pre(int op, const char *path, const char *mode) {
  Msg m; memset(&m, 0, sizeof m); m.op = op; snprintf(m.path, sizeof m.path, "%s", path); snprintf(m.mode, sizeof m.mode, "%s", mode);
  if (write(g_fd, &m, sizeof m) != (ssize_t)sizeof m) _exit(3);
  unsigned char e;
  if (read(g_fd, &e, 1) != 1) _exit(3);
  return e;
}
}  // namespace

SUB("C23", "interleavings", "plain", 32000, 1920000, "a saver met the lock of another, or failed, or was killed") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  clear_hooks(A); install_vtime(A); Clr clr{A};
  fresh_dir();
  int n = 2 * (int)s.small(1, 3), k = (int)s.i(1, n);
  std::vector<std::string> pool = pool_of(s);
  int nc = (int)s.weighted({5, 3, 2}) + 2;
  Data base;
  if (s.coin()) { base = gen_data(s, pool, k); write_file("res", format_results(n, k, {base.begin(), base.end()})); }
  if (!g_sh) g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(g_sh, 0, sizeof *g_sh);
  struct Ch { pid_t pid = 0; int fd = -1; bool waiting = false, ended = false, killed = false, writing = false, holds = false, blocked = false; Msg m; std::vector<std::string> snr; long trn; long cnt[RMAX]; u64 seed; };
  std::vector<Ch> ch(nc);
  struct Reap { std::vector<Ch> &v; ~Reap() { for (auto &x : v) { if (x.fd >= 0) close(x.fd); if (x.pid > 0) { kill(x.pid, SIGKILL); waitpid(x.pid, nullptr, 0); } } } } reap{ch};
  c.note("n=%d k=%d, %zu points in the file;", n, k, base.size());
  for (int j = 0; j < nc; j++) {
    Ch &x = ch[j];
    for (auto &p : pool) if (s.chance(3, 4)) x.snr.push_back(p);
    if (x.snr.empty()) x.snr.push_back(pool[0]);
    g_sh->ch[j].rounds = (int)s.weighted({3, 2, 1}) + 1;
    x.trn = s.small(1, 6); x.seed = s.draw(1 << 20);
    for (int q = 0; q < RMAX; q++) x.cnt[q] = s.small(1, 15);
    c.note(" saver %d: %zu points, %d rounds;", j, x.snr.size(), g_sh->ch[j].rounds);
  }
  for (int j = 0; j < nc; j++) {
    Ch &x = ch[j];
    int sp[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) { fprintf(stderr, "socketpair\n"); _Exit(76); }
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { fprintf(stderr, "fork\n"); _Exit(76); }
    if (p == 0) {
      for (int q = 0; q < j; q++) close(ch[q].fd);
      close(sp[0]); g_fd = sp[1];
      Shared::Child &me = g_sh->ch[j];
      auto index = [&](double v) { for (size_t i = 0; i < pool.size(); i++) if (num(pool[i]) == v) return (int)i; return 0; };
      try {
        Rec *R = new Rec(A, n, k, x.seed);
        srand((unsigned)x.seed);
        if (!R->open(strf("p%d.spf", j), "res", x.snr, x.trn)) { snprintf(me.why, sizeof me.why, "not initialised: %s", A.ui_text()); _exit(2); }
        for (int q = 0; q <= me.rounds; q++) {
          bool last = q == me.rounds;
          if (!last) { R->run(x.cnt[q]); if (!R->why.empty()) { snprintf(me.why, sizeof me.why, "%s", R->why.c_str()); _exit(2); } }
          for (auto &d : R->total) me.at[q][index(d.first)] = d.second;
          if (last) { Msg m; memset(&m, 0, sizeof m); unsigned char e; if (write(g_fd, &m, sizeof m) != (ssize_t)sizeof m || read(g_fd, &e, 1) != 1) _exit(3); }
          me.started = q + 1;
          A.hooks->pre = last ? nullptr : gate_pre;
          int rc = R->sim->save();
          A.hooks->pre = nullptr;
          if (rc != 0 && !A.ui_errs()) { snprintf(me.why, sizeof me.why, "save failed without a message"); _exit(2); }
          me.rc[q] = rc; me.done = q + 1;
        }
        Msg m; memset(&m, 0, sizeof m); m.op = -1;
        if (write(g_fd, &m, sizeof m) != (ssize_t)sizeof m) _exit(3);
      }
      catch (...) { _exit(4); }
      _exit(0);
    }
    close(sp[1]);
    x.pid = p; x.fd = sp[0];
  }
  // Receives the next message of a saver. False: nothing came (blocked).
  auto receive = [&](int j, int ms) -> bool {
    Ch &x = ch[j];
    pollfd pf = {x.fd, POLLIN, 0};
    int r;
    while ((r = poll(&pf, 1, ms)) < 0 && errno == EINTR) {}
    if (r <= 0) { x.blocked = true; return false; }
    size_t got = 0;
    while (got < sizeof x.m) {
      ssize_t z = read(x.fd, (char *)&x.m + got, sizeof x.m - got);
      if (z <= 0) {
        int st = 0; waitpid(x.pid, &st, 0); x.pid = 0;
        if (WIFSIGNALED(st)) c.fail("saver %d was killed by signal %d", j, WTERMSIG(st));
        c.fail("saver %d: %s (exit %d)", j, g_sh->ch[j].why, WEXITSTATUS(st));
      }
      got += z;
    }
    x.blocked = false; x.waiting = true;
    if (x.m.op <= 0) x.ended = true;
    return true;
  };
  for (int j = 0; j < nc; j++) if (!receive(j, 20000)) c.fail("saver %d does not start", j);
  bool faults = s.chance(1, 3), kills = s.chance(1, 5);
  int cur = 0; long steps = 0; bool met = false, failed = false; int nkill = 0;
  auto contrib = [&](int j, int q, Data &d) { for (size_t i = 0; i < pool.size(); i++) { Point &p = g_sh->ch[j].at[q][i]; if (p.trn) d[num(pool[i])] = d[num(pool[i])] + p; } };
  auto lastok = [&](int j) { int q = g_sh->ch[j].done - 1; while (q >= 0 && g_sh->ch[j].rc[q] != 0) q--; return q; };
  auto quiescent_check = [&]() {
    // Nobody holds the lock: the file is complete.
    if (exists("res.bsy")) return;
    for (auto &x : ch) if (x.blocked) return;
    bool ok; std::string t = read_file("res", &ok);
    Data lo = base, hi = base;
    bool any = false;
    for (int j = 0; j < nc; j++) {
      int q = lastok(j);
      if (q >= 0) { contrib(j, q, lo); any = true; }
      int h = g_sh->ch[j].started > g_sh->ch[j].done ? g_sh->ch[j].started - 1 : q;
      if (h >= 0) contrib(j, h, hi);
    }
    if (!ok) { if (any || !base.empty()) c.fail("no lock, and no results file"); return; }
    if (!any && !base.empty() && hi == lo) return;
    Results r = parse_results(t);
    if (t == "" || (!r.ok && !(t == format_results(n, k, {base.begin(), base.end()})))) c.fail("no lock is held and the file is incomplete: %s", r.why.c_str());
    if (!r.ok) return;
    Data got; for (size_t i = 0; i < r.snr.size(); i++) got[r.snr[i]] = r.pt[i];
    for (auto &p : lo) if (p.second.trn && got[p.first].trn < p.second.trn) c.fail("no lock is held and saved trials are missing: SNR %g %s, at least %s", p.first, got[p.first].str().c_str(), p.second.str().c_str());
    for (auto &p : got) if (p.second.trn > hi[p.first].trn) c.fail("trials are counted twice: SNR %g %s, at most %s", p.first, p.second.str().c_str(), hi[p.first].str().c_str());
  };
  while (true) {
    std::vector<int> w;
    for (int j = 0; j < nc; j++) if (ch[j].waiting && !ch[j].ended && !ch[j].killed) w.push_back(j);
    if (w.empty()) {
      bool bl = false;
      for (int j = 0; j < nc; j++) if (ch[j].blocked && !ch[j].killed) { bl = true; receive(j, 20000); }
      if (!bl) break;
      if (std::none_of(ch.begin(), ch.end(), [](const Ch &x) { return x.waiting && !x.ended && !x.killed; }) && std::any_of(ch.begin(), ch.end(), [](const Ch &x) { return x.blocked && !x.killed; })) c.fail("the savers block each other");
      continue;
    }
    int j = w[0];
    bool sw = s.chance(1, 3) || std::find(w.begin(), w.end(), cur) == w.end();
    if (steps > 3000) j = w[steps % w.size()]; else j = sw ? w[s.draw(w.size())] : cur;
    cur = j; steps++;
    if (steps > 20000) c.fail("the savers do not finish");
    Ch &x = ch[j];
    // Killed before the operation?
    if (kills && nkill == 0 && s.chance(1, 12)) {
      c.note(" kill %d before %s(%s)", j, opname(x.m.op), x.m.path);
      kill(x.pid, SIGKILL); waitpid(x.pid, nullptr, 0); x.pid = 0; x.killed = true; x.waiting = false; nkill++;
      continue;
    }
    unsigned char e = 0;
    bool inject = faults && (x.m.op == OP_FOPEN || x.m.op == OP_OPEN) && s.chance(1, 12);
    if (inject) { e = (unsigned char)s.oneof({EIO, EACCES, EMFILE}); failed = true; }
    c.note(" %d:%s%s", j, x.m.op == OP_FOPEN ? (is_lock(x.m.path) ? "L" : x.m.mode[0] == 'r' ? "r" : "w") : x.m.op == OP_FCLOSE ? "c" : opname(x.m.op), inject ? "!" : "");
    if ((x.m.op == OP_FOPEN || x.m.op == OP_OPEN) && is_lock(x.m.path) && exists("res.bsy")) met = true;
    if (!inject && !is_lock(x.m.path) && (x.m.op == OP_FOPEN || x.m.op == OP_OPEN) && x.m.mode[0] != 'r') {
      x.writing = true;
      int wr = 0; for (auto &y : ch) wr += y.writing && !y.killed;
      if (wr > 1) c.fail("two savers write the results at the same time");
      if (!exists("res.bsy")) c.fail("saver %d writes the results without the lock", j);
    }
    if (!inject && x.m.op == OP_RENAME && !exists("res.bsy")) c.fail("saver %d renames the results without the lock", j);
    bool wclosing = x.writing && (x.m.op == OP_FCLOSE || x.m.op == OP_CLOSE) && !is_lock(x.m.path) && x.m.mode[0] != 'r';
    if (x.writing && !wclosing && (x.m.op == OP_REMOVE || x.m.op == OP_UNLINK) && is_lock(x.m.path)) c.fail("saver %d removes the lock before the results are written", j);
    x.waiting = false;
    if (write(x.fd, &e, 1) != 1) c.fail("saver %d is gone", j);
    receive(j, 3000);
    if (wclosing) x.writing = false;
    quiescent_check();
  }
  // Everybody has finished the rounds; those that failed save again, one after another.
  bool stale = exists("res.bsy");
  if (stale && !nkill) c.fail("the lock is left");
  if (stale) unlink("res.bsy");
  for (int j = 0; j < nc; j++) if (!ch[j].killed) {
    unsigned char e = 0;
    int q = g_sh->ch[j].rounds;
    for (int z = 0; z < q; z++) if (g_sh->ch[j].rc[z] != 0) failed = true;
    if (write(ch[j].fd, &e, 1) != 1) c.fail("saver %d is gone", j);
    ch[j].ended = false;
    if (!receive(j, 20000) || ch[j].m.op != -1) c.fail("saver %d does not finish", j);
    if (g_sh->ch[j].rc[q] != 0) c.fail("the last save of saver %d failed", j);
    int st = 0; waitpid(ch[j].pid, &st, 0); ch[j].pid = 0;
    if (exists("res.bsy")) c.fail("the lock is left after the last save of saver %d", j);
  }
  // The file is the sum of everything; a killed saver's last round may be missing.
  Data want = base; std::vector<Data> alt;
  int kj = -1;
  for (int j = 0; j < nc; j++) { if (ch[j].killed) { kj = j; continue; } contrib(j, g_sh->ch[j].rounds, want); }
  std::string txt = read_file("res"), err;
  if (kj >= 0) {
    Data w1 = want, w2 = want;
    int q = lastok(kj); if (q >= 0) contrib(kj, q, w1);
    int h = g_sh->ch[kj].started > g_sh->ch[kj].done ? g_sh->ch[kj].started - 1 : q;
    if (h >= 0) contrib(kj, h, w2);
    err = differs(txt, w1);
    if (!err.empty() && differs(txt, w2).empty()) err.clear();
    if (!err.empty() && w1 == base && w1.empty() && txt.empty()) err.clear();
  }
  else err = differs(txt, want);
  if (!err.empty()) c.fail("%s", err.c_str());
  if (met) c.label("met a lock");
  if (failed) c.label("failed saves");
  if (nkill) c.label("killed");
  if (stale) c.label("stale lock");
  c.nontrivial(met || failed || nkill);
}
