#include "pbt.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

namespace pbt {

std::vector<Sub> &registry() { static std::vector<Sub> r; return r; }
std::string g_libdir, g_repo, g_scratch_root;

std::string strf(const char *fmt, ...) {
  va_list a, b;
  va_start(a, fmt); va_copy(b, a);
  int n = vsnprintf(nullptr, 0, fmt, a); va_end(a);
  std::string s(n, 0);
  vsnprintf(&s[0], n + 1, fmt, b); va_end(b);
  return s;
}
static std::string vstrf(const char *fmt, va_list a) {
  va_list b; va_copy(b, a);
  int n = vsnprintf(nullptr, 0, fmt, a);
  std::string s(n, 0);
  vsnprintf(&s[0], n + 1, fmt, b); va_end(b);
  return s;
}
void Ctx::note(const char *fmt, ...) {
  va_list a; va_start(a, fmt); descr += vstrf(fmt, a); va_end(a);
}
void Ctx::fail(const char *fmt, ...) {
  va_list a; va_start(a, fmt); std::string m = vstrf(fmt, a); va_end(a);
  throw Fail{m};
}

void Ctx::known(const char *id, const char *fmt, ...) {
  static const char *list = getenv("ECV_KNOWN");
  va_list a; va_start(a, fmt); std::string m = vstrf(fmt, a); va_end(a);
  if (!list || (" " + std::string(list) + " ").find(strf(" %s ", id)) == std::string::npos) throw Fail{m};
  label(strf("known: %s", id));
}

static std::string g_scratch;
std::string scratch() {
  if (g_scratch.empty()) {
    g_scratch = g_scratch_root + strf("/p%d", (int)getpid());
    mkdir(g_scratch.c_str(), 0755);
  }
  return g_scratch;
}
static void rm_rf(const std::string &d) {
  if (d.size() < 8) return;
  DIR *dp = opendir(d.c_str());
  if (!dp) return;
  while (dirent *e = readdir(dp)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p);
    else unlink(p.c_str());
  }
  closedir(dp);
  rmdir(d.c_str());
}

// ----- Shared state of the workers.

enum Kind { OK = 0, FAILED = 1, CRASH = 2, HANG = 3 };
static const int MAXW = 64;

struct Slot {
  volatile long cur;        // case being run, -1 if none
  volatile int failed;
  char msg[4096];
  char descr[8192];
  Tape tape;
};
struct Shared {
  volatile long stop_after;  // no case beyond this index needs to be run
  Slot slot[MAXW];
};
static Shared *sh;

static int g_hang_s = 25;
static double g_deadline = 0;   // no case is started after this time
static void on_prof(int) { _exit(78); }
static void arm(int s) {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// Run one case; the slot gets its description and message.
static int run_case(const Sub &sub, Src &src, Slot *sl, bool thorough, Stats *st, std::set<u64> *seen, std::vector<std::string> *samples) {
  Ctx c(src, thorough);
  int res = OK;
  sl->msg[0] = 0; sl->descr[0] = 0;
  arm(g_hang_s);
  try {
    // What fresh memory contains: in a part of the cases known bytes, so that reading it shows, and shows again.
    static const int fill[] = {85, 255, 254, 0, 0, 0, 0, 0};
    // (Not where configurations of any size are accepted, whose memory is never touched.)
    bool huge = sub.prop == std::string("C17") || sub.name == std::string("rejected_released") || sub.prop == std::string("C29");
    int v = fill[src.draw(8)];
    mallopt(M_PERTURB, huge ? 0 : v);
    sub.fn(c);
  }
  catch (Fail &f) { res = FAILED; snprintf(sl->msg, sizeof sl->msg, "%s", f.msg.c_str()); }
  catch (Overrun &) { c.label("overrun"); c.nontriv = false; }
  mallopt(M_PERTURB, 0);
  arm(0);
  snprintf(sl->descr, sizeof sl->descr, "%s", c.descr.c_str());
  if (st) {
    st->evaluations++;
    for (auto &l : c.labs) st->labels[l]++;
    if (c.nontriv) {
      u64 h = hash_str(c.descr);
      for (size_t k = 0; k < sl->tape.n; k++) h = mix(h ^ sl->tape.v[k]);
      if (seen->insert(h).second) {
        st->nontrivial++;
        if (samples->size() < 3) samples->push_back(c.descr.substr(0, 900));
      }
    }
  }
  return res;
}

static u64 case_seed(u64 seed, const Sub &s, long k) {
  return mix(mix(seed * 1000003 + 17) ^ hash_str(s.prop + "/" + s.name)) ^ mix((u64)k + 12345);
}

struct Plan { std::vector<const Sub *> subs; std::vector<long> n; long total = 0, mult = 1; };
// The cases of the sub-properties are interleaved.
static long coprime_mult(long total) {
  auto gcd = [](long a, long b) { while (b) { long t = a % b; a = b; b = t; } return a; };
  long m = (long)(total * 0.6180339887) | 1;
  while (total > 2 && gcd(m, total) != 1) m += 2;
  return m;
}
static void locate(const Plan &p, long idx, const Sub *&s, long &k, size_t &si) {
  idx = (long)((unsigned __int128)idx * p.mult % p.total);
  for (si = 0; si < p.subs.size(); si++) {
    if (idx < p.n[si]) { s = p.subs[si]; k = idx; return; }
    idx -= p.n[si];
  }
  s = nullptr;
}
static bool g_verbose = false;

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) o += strf("\\u%04x", ch);
    else o += ch;
  }
  return o + "\"";
}

struct SubRes { Stats st; std::set<u64> seen; std::vector<std::string> samples; };

// Worker: runs cases from, from+step, ... and writes its statistics to a file.
static void worker(int w, const Plan &plan, u64 seed, bool thorough, long from, long step, const std::string &statf) {
  Slot *sl = &sh->slot[w];
  std::vector<SubRes> res(plan.subs.size());
  signal(SIGPROF, on_prof);
  int rc = 0;
  for (long idx = from; idx < plan.total; idx += step) {
    if (idx > sh->stop_after) break;
    if (g_deadline > 0 && now() > g_deadline) break;
    const Sub *s; long k; size_t si;
    locate(plan, idx, s, k, si);
    Src src(&sl->tape, case_seed(seed, *s, k));
    sl->cur = idx;
    if (run_case(*s, src, sl, thorough, &res[si].st, &res[si].seen, &res[si].samples) != OK) {
      sl->failed = 1; rc = 1; break;
    }
  }
  if (!rc) sl->cur = -1;
  FILE *f = fopen(statf.c_str(), "wb");
  if (f) {
    for (auto &r : res) {
      u64 a[3] = {r.st.evaluations, r.seen.size(), r.st.labels.size()};
      fwrite(a, 8, 3, f);
      for (u64 h : r.seen) fwrite(&h, 8, 1, f);
      auto ws = [&](const std::string &x) { u64 l = x.size(); fwrite(&l, 8, 1, f); fwrite(x.data(), 1, l, f); };
      for (auto &l : r.st.labels) { ws(l.first); u64 c = l.second; fwrite(&c, 8, 1, f); }
      u64 m = r.samples.size(); fwrite(&m, 8, 1, f);
      for (auto &x : r.samples) ws(x);
    }
    fclose(f);
  }
  fflush(nullptr);
  _exit(rc);
}
static void read_stats(const std::string &fn, std::vector<SubRes> &res) {
  FILE *f = fopen(fn.c_str(), "rb");
  if (!f) return;
  auto rd = [&](u64 &x) { return fread(&x, 8, 1, f) == 1; };
  auto rs = [&](std::string &x) { u64 l; if (!rd(l)) return; x.resize(l); if (fread(&x[0], 1, l, f) != l) x.clear(); };
  for (auto &r : res) {
    u64 a, b, c;
    if (!rd(a) || !rd(b) || !rd(c)) break;
    r.st.evaluations += a;
    while (b--) { u64 h; if (rd(h)) r.seen.insert(h); }
    while (c--) { std::string l; u64 n = 0; rs(l); rd(n); r.st.labels[l] += n; }
    u64 m = 0; rd(m);
    while (m--) { std::string x; rs(x); r.samples.push_back(x); }
  }
  fclose(f);
}

static int classify(int status) {
  if (WIFEXITED(status)) {
    int e = WEXITSTATUS(status);
    if (e == 0) return OK;
    if (e == 1) return FAILED;
    if (e == 78) return HANG;
    return CRASH;
  }
  return CRASH;
}
static std::string status_str(int status) {
  if (WIFSIGNALED(status)) return strf("killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
  if (WIFEXITED(status) && WEXITSTATUS(status) == 78) return "does not terminate (CPU time limit)";
  if (WIFEXITED(status) && WEXITSTATUS(status) == 99) return "sanitizer report (memory error or undefined behaviour)";
  return strf("unexpected exit, status 0x%x", status);
}

// Run a choice sequence in a child. Returns its kind; the slot keeps tape, message, description.
static Slot *rs() { return &sh->slot[MAXW - 1]; }
static int run_choices(const Sub &s, const std::vector<u64> &ch, bool thorough, std::string *what = nullptr, const char *errf = nullptr) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    g_scratch.clear();
    signal(SIGPROF, on_prof);
    int fd = open(errf ? errf : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    Src src(&rs()->tape, &ch);
    int r = run_case(s, src, rs(), thorough, nullptr, nullptr, nullptr);
    fflush(nullptr);
    _exit(r == OK ? 0 : 1);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  rm_rf(g_scratch_root + strf("/p%d", (int)p));
  if (what) *what = classify(st) == FAILED ? rs()->msg : status_str(st);
  return classify(st);
}
static int run_prefix(const Plan &plan, u64 seed, bool thorough, long from, long step, long upto, std::string *what) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    g_scratch.clear();
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1);
    sh->stop_after = upto;
    worker(MAXW - 1, plan, seed, thorough, from, step, "/dev/null");
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  rm_rf(g_scratch_root + strf("/p%d", (int)p));
  if (what) *what = classify(st) == FAILED ? rs()->msg : status_str(st);
  return classify(st);
}

static std::vector<u64> shrink(const Sub &s, std::vector<u64> best, int kind, bool thorough, double budget) {
  double t0 = now();
  long runs = 0;
  int save = g_hang_s;
  if (kind == HANG) { g_hang_s = 10; budget = 60; }
  auto attempt = [&](const std::vector<u64> &c) {
    if (now() - t0 > budget || runs > 6000) return false;
    runs++;
    int k = run_choices(s, c, thorough);
    if (k == OK) return false;
    if ((k == FAILED) != (kind == FAILED)) return false;
    if ((k == HANG) != (kind == HANG)) return false;
    std::vector<u64> r(rs()->tape.v, rs()->tape.v + rs()->tape.n);
    if (kind == FAILED && (r.size() < best.size() || (r.size() == best.size() && r < best))) best = r;
    else if (kind != FAILED && (c.size() < best.size() || (c.size() == best.size() && c < best))) best = c;
    else return false;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t len : {64, 16, 8, 4, 2, 1})
      for (long p = (long)best.size() - (long)len; p >= 0; p -= (len > 1 ? len / 2 : 1)) {
        if ((size_t)p + len > best.size()) continue;
        std::vector<u64> c = best; c.erase(c.begin() + p, c.begin() + p + len);
        if (attempt(c)) progress = true;
      }
    for (size_t len : {32, 8, 2})
      for (size_t p = 0; p + len <= best.size(); p += len) {
        std::vector<u64> c = best; bool any = false;
        for (size_t q = p; q < p + len; q++) { any |= c[q] != 0; c[q] = 0; }
        if (any && attempt(c)) progress = true;
      }
    for (size_t p = 0; p < best.size(); p++) {
      if (best[p] == 0) continue;
      std::vector<u64> c = best; c[p] = 0;
      if (attempt(c)) { progress = true; continue; }
      u64 lo = 0, hi = p < best.size() ? best[p] : 0;
      for (int it = 0; it < 24 && hi - lo > 1 && p < best.size(); it++) {
        u64 mid = lo + (hi - lo) / 2;
        c = best; c[p] = mid;
        if (attempt(c)) { progress = true; hi = p < best.size() ? std::min(best[p], mid) : 0; } else lo = mid;
      }
    }
  }
  g_hang_s = save;
  return best;
}

static int do_replay(const std::string &fn, bool quiet);

struct Args { std::string cmd, prop, out, replaydir, tier = "quick", sub, file; u64 seed = 1; double scale = 1; int W = 8; long only = -1; };

static void write_replay(const std::string &fn, const Sub &s, bool thorough, const std::string &mode, const std::vector<u64> &ch,
                         u64 seed, long from, long step, long idx, const std::string &what, const std::string &descr, double scale) {
  FILE *f = fopen(fn.c_str(), "wt");
  if (!f) return;
  fprintf(f, "property %s\nsub %s\nvariant %s\ntier %s\nmode %s\n", s.prop.c_str(), s.name.c_str(), s.variant.c_str(), thorough ? "thorough" : "quick", mode.c_str());
  if (mode == "choices") {
    fprintf(f, "choices %zu", ch.size());
    for (u64 x : ch) fprintf(f, " %llu", (unsigned long long)x);
    fprintf(f, "\n");
  }
  else fprintf(f, "prefix %llu %ld %ld %ld %g\n", (unsigned long long)seed, from, step, idx, scale);
  std::string w = what, d = descr;
  for (auto *p : {&w, &d}) for (char &x : *p) if (x == '\n') x = ' ';
  fprintf(f, "# what: %s\n# case: %s\n", w.c_str(), d.c_str());
  fclose(f);
}

static Plan make_plan(const Args &a, bool thorough) {
  Plan plan;
  for (auto &s : registry()) {
    if (s.prop != a.prop) continue;
    if (!a.sub.empty() && s.name != a.sub) continue;
#ifdef ASAN_VARIANT
    if (s.variant != "asan") continue;
#else
    if (s.variant != "plain") continue;
#endif
    long n = thorough ? s.thorough : s.quick;
    n = (long)std::ceil(n * a.scale);
    plan.subs.push_back(&s); plan.n.push_back(n); plan.total += n;
  }
  plan.mult = coprime_mult(plan.total);
  return plan;
}

static int do_run(const Args &a) {
  bool thorough = a.tier == "thorough";
  double t0 = now();
  Plan plan = make_plan(a, thorough);
  int W = std::min(a.W, MAXW - 2);
  // Violations found by the sub-properties are collected; each sub-property is stopped at its first one.
  std::string errdir = g_scratch_root + "/err";
  mkdir(errdir.c_str(), 0755);
  std::vector<SubRes> res(plan.subs.size());
  std::string viol;
  int nviol = 0, inconcl = 0;
  std::string notes;

  std::vector<pid_t> pid(W, 0);
  std::vector<long> from(W);
  std::vector<int> gen(W, 0);
  struct F { long idx; int w; int kind; std::string what, descr; std::vector<u64> ch; };
  std::vector<F> fails;
  sh->stop_after = plan.total;
  auto spawn = [&](int w, long start) {
    sh->slot[w].cur = -1; sh->slot[w].failed = 0;
    std::string sf = g_scratch_root + strf("/stat.%d.%d", w, gen[w]), ef = errdir + strf("/%d.%d", w, gen[w]);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
      g_scratch.clear();
      worker(w, plan, a.seed, thorough, start, W, sf);
    }
    pid[w] = p; from[w] = start;
  };
  for (int w = 0; w < W; w++) spawn(w, w);
  int alive = W;
  while (alive > 0) {
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    int w = -1;
    for (int k = 0; k < W; k++) if (pid[k] == p) w = k;
    if (w < 0) continue;
    rm_rf(g_scratch_root + strf("/p%d", (int)p));
    read_stats(g_scratch_root + strf("/stat.%d.%d", w, gen[w]), res);
    int k = classify(st);
    alive--;
    if (k == OK) continue;
    Slot *sl = &sh->slot[w];
    F f; f.idx = sl->cur; f.w = w; f.kind = k;
    f.what = k == FAILED ? sl->msg : status_str(st);
    f.descr = k == FAILED ? sl->descr : "";
    f.ch.assign(sl->tape.v, sl->tape.v + sl->tape.n);
    if (f.idx < 0) { notes += "worker died outside a case; "; inconcl++; continue; }
    fails.push_back(f);
    if (f.idx < sh->stop_after) sh->stop_after = f.idx;
  }
  std::sort(fails.begin(), fails.end(), [](const F &x, const F &y) { return x.idx < y.idx; });
  for (auto &f : fails) {
    const Sub *s; long k; size_t si;
    locate(plan, f.idx, s, k, si);
    // Confirm.
    std::string what, mode;
    std::vector<u64> ch = f.ch;
    auto confirm = [&](const std::vector<u64> &c) {
      for (int t = 0; t < 3; t++) if (run_choices(*s, c, thorough, &what) == OK) return false;
      return true;
    };
    long pfrom = f.w, pstep = W;
    if (confirm(ch)) {
      mode = "choices";
      std::vector<u64> sm = shrink(*s, ch, run_choices(*s, ch, thorough), thorough, 45);
      std::string keep = what;
      if (confirm(sm)) ch = sm; else { what = keep; confirm(ch); }
    }
    else {
      // The failure depends on what ran before in the same process.
      bool ok = true;
      for (int t = 0; t < 3 && ok; t++) {
        int kk = run_prefix(plan, a.seed, thorough, pfrom, pstep, f.idx, &what);
        if (kk == OK || rs()->cur != f.idx) ok = false;
      }
      // Damaged memory shows at a slightly different point in each process.
      if (!ok && f.kind == CRASH) {
        f.idx = std::min(plan.total, 4 * f.idx + 2000 * (long)W);
        ok = true;
        for (int t = 0; t < 4 && ok; t++) ok = run_prefix(plan, a.seed, thorough, pfrom, pstep, f.idx, &what) == CRASH;
      }
      if (!ok && f.kind == FAILED) {
        // A result which differs from run to run.
        int bad = 0;
        std::string w;
        for (int t = 0; t < 40 && bad < 3; t++) if (run_choices(*s, ch, thorough, &w) == FAILED) { bad++; what = w; }
        if (bad >= 3) mode = "random";
        if (bad >= 3) what += " (not in every run)";
      }
      if (!ok && mode.empty()) { notes += strf("case %s/%ld failed once (%s) and did not fail again; ", s->name.c_str(), k, f.what.c_str()); inconcl++; continue; }
      if (mode.empty()) mode = "prefix";
    }
    std::string rf = a.replaydir + strf("/%s-%s-%s-%llu-%ld.txt", s->prop.c_str(), s->name.c_str(), s->variant.c_str(), (unsigned long long)a.seed, k);
    std::string descr = rs()->descr[0] ? rs()->descr : f.descr;
    write_replay(rf, *s, thorough, mode, ch, a.seed, pfrom, pstep, f.idx, what, descr, a.scale);
    printf("failed: %s/%s: %s\n  case: %s\n", s->prop.c_str(), s->name.c_str(), what.c_str(), descr.c_str());
    if (mode == "choices" && (f.kind == CRASH || s->variant == "asan")) {
      std::string ef = errdir + "/replay";
      run_choices(*s, ch, thorough, nullptr, ef.c_str());
      FILE *fp = fopen(ef.c_str(), "rt"); char buf[400]; int ln = 0;
      if (fp) { while (fgets(buf, sizeof buf, fp) && ln++ < 14) printf("  | %s", buf); fclose(fp); }
    }
    printf("VIOLATION property=%s replay=%s\n", s->prop.c_str(), rf.c_str());
    fflush(stdout);
    nviol++;
    break;
  }
  // Statistics.
  FILE *o = fopen(a.out.c_str(), "wt");
  if (!o) { perror("out"); return 2; }
  fprintf(o, "{\"property\": %s, \"tier\": %s, \"seed\": %llu, \"violations\": %d, \"inconclusive\": %d, \"notes\": %s, \"wall_s\": %.2f, \"subs\": [",
          jstr(a.prop).c_str(), jstr(a.tier).c_str(), (unsigned long long)a.seed, nviol, inconcl, jstr(notes).c_str(), now() - t0);
  for (size_t k = 0; k < plan.subs.size(); k++) {
    auto &r = res[k];
    fprintf(o, "%s{\"name\": %s, \"variant\": %s, \"rule\": %s, \"planned\": %ld, \"evaluations\": %llu, \"distinct_nontrivial\": %zu, \"labels\": {", k ? ", " : "",
            jstr(plan.subs[k]->name).c_str(), jstr(plan.subs[k]->variant).c_str(), jstr(plan.subs[k]->rule).c_str(), plan.n[k], (unsigned long long)r.st.evaluations, r.seen.size());
    bool first = true;
    for (auto &l : r.st.labels) { fprintf(o, "%s%s: %llu", first ? "" : ", ", jstr(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(o, "}, \"samples\": [");
    for (size_t m = 0; m < r.samples.size() && m < 3; m++) fprintf(o, "%s%s", m ? ", " : "", jstr(r.samples[m]).c_str());
    fprintf(o, "]}");
  }
  fprintf(o, "]}\n");
  fclose(o);
  if (nviol) return 1;
  if (inconcl) { printf("inconclusive: %s\n", notes.c_str()); return 3; }
  return 0;
}

static int do_replay(const Args &a0) {
  FILE *f = fopen(a0.file.c_str(), "rt");
  if (!f) { perror("replay"); return 2; }
  Args a = a0;
  std::string sub, mode; std::vector<u64> ch; long from = 0, step = 1, idx = 0;
  char key[64];
  while (fscanf(f, "%63s", key) == 1) {
    std::string k = key; char v[512];
    if (k == "#") break;
    if (k == "choices") { size_t n; if (fscanf(f, "%zu", &n) != 1) break; ch.resize(n); for (auto &x : ch) { unsigned long long y; if (fscanf(f, "%llu", &y) == 1) x = y; } continue; }
    if (k == "prefix") { unsigned long long sd; if (fscanf(f, "%llu %ld %ld %ld %lg", &sd, &from, &step, &idx, &a.scale) != 5) return 2; a.seed = sd; continue; }
    if (fscanf(f, "%511s", v) != 1) break;
    if (k == "property") a.prop = v; else if (k == "sub") sub = v; else if (k == "tier") a.tier = v; else if (k == "mode") mode = v;
  }
  fclose(f);
  bool thorough = a.tier == "thorough";
  const Sub *s = nullptr;
  for (auto &x : registry()) if (x.prop == a.prop && x.name == sub) {
#ifdef ASAN_VARIANT
    if (x.variant == "asan") s = &x;
#else
    if (x.variant == "plain") s = &x;
#endif
  }
  if (!s) { printf("no such sub-property in this variant\n"); return 2; }
  std::string what; int kind;
  if (mode == "prefix") { Plan plan = make_plan(a, thorough); kind = run_prefix(plan, a.seed, thorough, from, step, idx, &what); }
  else { std::string ef = g_scratch_root + "/replay.err";
    for (int t = mode == "random" ? 60 : 1; t > 0; t--) if ((kind = run_choices(*s, ch, thorough, &what, ef.c_str())) != OK) break;
    FILE *fp = fopen(ef.c_str(), "rt"); char buf[400]; if (fp) { while (fgets(buf, sizeof buf, fp)) printf("| %s", buf); fclose(fp); } }
  printf("case: %s\n", rs()->descr);
  if (kind == OK) { printf("the case passes\n"); return 0; }
  printf("what: %s\nVIOLATION property=%s replay=%s\n", what.c_str(), a.prop.c_str(), a.file.c_str());
  return 1;
}

}  // namespace pbt

using namespace pbt;

extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_odr_violation=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=1"; }

int main(int argc, char **argv) {
  Args a;
  if (argc > 1) a.cmd = argv[1];
  for (int i = 2; i < argc; i++) {
    std::string k = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (k == "--prop") a.prop = val();
    else if (k == "--sub") a.sub = val();
    else if (k == "--tier") a.tier = val();
    else if (k == "--seed") a.seed = strtoull(val().c_str(), nullptr, 10);
    else if (k == "--out") a.out = val();
    else if (k == "--replaydir") a.replaydir = val();
    else if (k == "--lib") g_libdir = val();
    else if (k == "--repo") g_repo = val();
    else if (k == "--scale") a.scale = atof(val().c_str());
    else if (k == "--workers") a.W = atoi(val().c_str());
    else if (k == "--deadline") g_deadline = now() + atof(val().c_str());
    else if (k == "--hang") g_hang_s = atoi(val().c_str());
    else a.file = k;
  }
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }
  // Memory-backed if possible.
  std::vector<char> b; bool made = false;
  const char *td = getenv("TMPDIR");
  for (std::string base : {std::string("/dev/shm"), std::string(td ? td : "/tmp"), std::string("/tmp")}) {
    std::string tmpl = base + "/ecv.XXXXXX";
    b.assign(tmpl.begin(), tmpl.end()); b.push_back(0);
    if (mkdtemp(b.data())) { made = true; break; }
  }
  if (!made) { perror("mkdtemp"); return 2; }
  g_scratch_root = b.data();
  setvbuf(stdout, nullptr, _IOLBF, 0);
  int rc = 2;
  if (a.cmd == "run") rc = do_run(a);
  else if (a.cmd == "replay") rc = do_replay(a);
  else if (a.cmd == "list") { for (auto &s : registry()) printf("%s %s %s %ld %ld\n", s.prop.c_str(), s.name.c_str(), s.variant.c_str(), s.quick, s.thorough); rc = 0; }
  rm_rf(g_scratch_root);
  return rc;
}
