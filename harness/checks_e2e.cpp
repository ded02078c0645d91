// C25: the programs as a whole; C26: error rates known in theory.
#include "sim.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
using namespace pbt;

namespace {

struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } };
const char *prog_name[4] = {"dtrm0_bg", "dtrm1_bg", "dtrm_glp_bg", "ca_polar_scl_bg"};

struct Exit { int code = -1; int sig = 0; std::string out; };
// Runs a program in the current directory.
Exit run_prog(int codec, const std::vector<std::string> &args, const std::string &fault = "", long shift = 0) {
  std::string exe = g_libdir + "/" + prog_name[codec];
  std::vector<char *> av; av.push_back((char *)prog_name[codec]);
  for (auto &a : args) av.push_back((char *)a.c_str());
  av.push_back(nullptr);
  std::string of = scratch() + "/prog.out";
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { fprintf(stderr, "fork\n"); _Exit(76); }
  if (p == 0) {
    int fd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 1); dup2(fd, 2); close(fd);
    int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
    rlimit rl = {40, 40}; setrlimit(RLIMIT_CPU, &rl);
    signal(SIGPROF, SIG_DFL);
    if (!fault.empty() || shift) setenv("LD_PRELOAD", (g_libdir + "/fault.so").c_str(), 1);
    if (!fault.empty()) setenv("FAULT", fault.c_str(), 1);
    if (shift) setenv("TIME_SHIFT", std::to_string(shift).c_str(), 1);
    execv(exe.c_str(), av.data());
    _exit(126);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Exit e;
  if (WIFSIGNALED(st)) e.sig = WTERMSIG(st); else e.code = WEXITSTATUS(st);
  e.out = read_file(of);
  if (e.code == 126) { fprintf(stderr, "cannot execute %s\n", exe.c_str()); _Exit(77); }
  return e;
}
std::vector<std::string> snrs(Src &s, int m) {
  std::vector<std::string> v; std::set<double> seen;
  for (int t = 0; (int)v.size() < m && t < 4 * m; t++) { std::string x = strf("%g", s.i(-10, 16) * 0.5); if (seen.insert(atof(x.c_str())).second) v.push_back(x); }
  return v;
}
struct Params { Cfg f; std::string codec, sim; };
Params gen_params(Ctx &c, int codec, int mmax, long trials) {
  Src &s = c.src;
  Params p;
  CfgLim l; l.mmax = mmax; l.Lmax = 6;
  p.f = gen_cfg(c, codec, l);
  for (auto &w : p.f.tokens()) p.codec += w + " ";
  auto v = snrs(s, (int)s.small(1, 5));
  if (s.coin()) { p.sim += "SNR_val_trn {"; for (auto &x : v) p.sim += strf(" %s %ld", x.c_str(), s.small(1, trials)); p.sim += " }\n"; }
  else { p.sim += "EbNo_values {"; for (auto &x : v) p.sim += " " + x; p.sim += strf(" }\nmin_trials_per_snr %ld\n", s.small(1, trials)); }
  if (s.coin()) p.sim += strf("min_errors_per_snr %ld\n", s.small(1, 5));
  if (s.chance(2, 3)) p.sim += "random_codeword on\n";
  if (s.coin()) p.sim += s.coin() ? "ml_lb on\n" : "ml_lb_hard on\n";
  // Not too long: the noise is such that errors come soon.
  double top = -1e9; for (auto &x : v) top = std::max(top, atof(x.c_str()));
  double R = s.oneof({0.1, 0.3, 1.0}) / (p.f.n() * std::pow(10, top / 10));
  if (s.coin() || 2 * p.f.k() * std::pow(10, top / 10) > 3) p.sim += strf("fixed_R %g\n", R);
  return p;
}
}  // namespace

// ----------------------------------------------------------------- C25

SUB("C25", "slices", "plain", 60000, 3600000, "at least 3 slices with saves or displays between them, and a word error") {
  Src &s = c.src;
  int codec = (int)s.draw(4);
  SimApi &A = sim_api(std::string("sim_") + codec_name[codec]);
  Params p = gen_params(c, codec, 4, 60);
  std::string dir = fresh_dir();
  write_file("a.spf", "res_file a.srf " + p.sim + p.codec);
  write_file("b.spf", "res_file b.srf " + p.sim + p.codec);
  c.note("%s %s", p.f.str().substr(0, 300).c_str(), p.sim.c_str());
  clear_hooks(A); install_vtime(A); Clr clr{A};
  unsigned seed = (unsigned)s.draw(1 << 16);
  {
    Sim a(A, "a.spf", 1000000);
    if (!a.ok()) c.fail("not initialised: %s", A.ui_text());
    srand(seed);
    if (a.run() != 0) c.fail("the simulation failed");
    if (a.save() != 0) c.fail("not saved: %s", A.ui_text());
  }
  static Rng tr; tr = s.bulk();
  static int speed; speed = (int)s.weighted({1, 3, 4, 4});
  g_vtime = 100000;
  A.hooks->time_fn = []() -> time_t { if (speed && tr.below(speed == 1 ? 12 : speed == 2 ? 3 : 1) == 0) g_vtime += 1 + tr.below(9); return (time_t)g_vtime; };
  int ri = s.oneof({-1, 0, 0, 1, 3, 10});
  long slices = 0, between = 0;
  {
    Sim b(A, "b.spf", ri);
    if (!b.ok()) c.fail("not initialised: %s", A.ui_text());
    srand(seed);
    int rc;
    while ((rc = b.run()) == SIM_NOT_COMPLETED) {
      slices++;
      if (slices > 200000) c.fail("does not complete");
      if (slices > 40 && slices % 16) continue;
      switch (s.draw(4)) {
        case 1: b.state(); between++; break;
        case 2: b.res(); between++; break;
        case 3: if (b.save() != 0) c.fail("not saved: %s", A.ui_text()); between++; break;
      }
    }
    if (rc != 0) c.fail("return code %d", rc);
    if (b.save() != 0) c.fail("not saved: %s", A.ui_text());
  }
  std::string a = read_file("a.srf"), b = read_file("b.srf");
  c.note(" ri %d, %ld slices", ri, slices);
  if (a != b) c.fail("in one piece:\n%s\nin %ld slices:\n%s", a.c_str(), slices, b.c_str());
  Results r = parse_results(a);
  if (!r.ok || r.n != p.f.n() || r.k != p.f.k()) c.fail("results: %s", a.c_str());
  bool en = false; for (auto &q : r.pt) en |= q.en_bl > 0;
  c.nontrivial(en && slices >= 3 && between > 0);
}

SUB("C25", "programs", "plain", 5000, 300000, "a word error, and different intervals") {
  Src &s = c.src;
  int codec = (int)s.draw(4);
  Params p = gen_params(c, codec, 5, 40);
  fresh_dir();
  std::string res = s.chance(1, 4) ? "d/out.srf" : "out.srf";
  if (res[0] == 'd') mkdir("d", 0755);
  // The parameters may be in an included file.
  if (s.coin()) write_file("p.spf", "res_file " + res + "\n" + p.sim + p.codec);
  else { write_file("inc", p.codec); write_file("p.spf", "res_file " + res + "\n" + p.sim + "include inc\n"); }
  c.note("%s %s", p.f.str().substr(0, 300).c_str(), p.sim.c_str());
  long shift = 1 + s.draw(100000);   // of the time of each run
  auto go = [&](std::vector<std::string> a) {
    a.insert(a.begin(), "p.spf");
    std::string t; for (auto &x : a) t += " " + x;
    c.note(" |%s", t.c_str());
    Exit e = run_prog(codec, a, "", shift *= 3);
    if (e.code != 0) c.fail("%s%s: exit %d, signal %d: %s", prog_name[codec], t.c_str(), e.code, e.sig, e.out.substr(0, 400).c_str());
    if (exists(res + ".bsy")) c.fail("the lock is left");
    return read_file(res);
  };
  auto opts = [&]() {
    std::vector<std::vector<std::string>> o = {{"-nr"}};
    if (s.coin()) o.push_back({"-ri", s.oneof({"-1", "0", "1", "100"})});
    if (s.coin()) o.push_back({"-si", s.oneof({"-1", "0", "1000"})});
    std::vector<std::string> f;
    for (size_t i = o.size(); i > 0; i--) { size_t q = s.draw(i); f.insert(f.end(), o[q].begin(), o[q].end()); o.erase(o.begin() + q); }
    return f;
  };
  std::string a = go({"-nr"});
  Results r = parse_results(a);
  if (!r.ok || r.n != p.f.n() || r.k != p.f.k()) c.fail("results: %s\n%s", r.why.c_str(), a.c_str());
  std::string e = check_rates(r);
  if (!e.empty()) c.fail("%s", e.c_str());
  auto o = opts();
  unlink(res.c_str());
  std::string b = go(o);
  if (a != b) c.fail("first:\n%s\nsecond:\n%s", a.c_str(), b.c_str());
  // Once more into the same file: everything doubles.
  std::string d = go(opts());
  Results q = parse_results(d);
  if (!q.ok || q.snr != r.snr) c.fail("results after a second run: %s\n%s", q.why.c_str(), d.c_str());
  bool en = false;
  for (size_t i = 0; i < r.pt.size(); i++) { if (!(q.pt[i] == r.pt[i] + r.pt[i])) c.fail("SNR %g: %s, after a second run %s", r.snr[i], r.pt[i].str().c_str(), q.pt[i].str().c_str()); en |= r.pt[i].en_bl > 0; }
  c.nontrivial(en && o.size() > 1);
}

SUB("C25", "failing_saves", "plain", 3000, 180000, "some saves failed, the last one did not") {
  // Intermediate saves which fail for a while do not change what is simulated and what is stored at the end.
  Src &s = c.src;
  int codec = (int)s.draw(4);
  Params p = gen_params(c, codec, 4, 12);
  fresh_dir();
  write_file("p.spf", "res_file out.srf\n" + p.sim + p.codec);
  c.note("%s %s", p.f.str().substr(0, 300).c_str(), p.sim.c_str());
  Exit e = run_prog(codec, {"p.spf", "-nr"});
  if (e.code != 0) c.fail("exit %d, signal %d: %s", e.code, e.sig, e.out.substr(0, 400).c_str());
  std::string a = read_file("out.srf");
  unlink("out.srf");
  long total = 0; for (auto &q : parse_results(a).pt) total += q.trn;
  bool each = !s.chance(1, 6);    // after each trial a save, which opens each file at least once
  long skip = s.small(0, 3), num = s.chance(1, 6) ? s.i(1, 40) : s.i(1, std::max(1L, total - skip));
  std::string fault = strf("out.srf%s %ld %ld", s.oneof({".bsy a", " a", " r", " w"}), skip, num);
  c.note(" | %s", fault.c_str());
  std::vector<std::string> o = {"p.spf", "-nr", "-ri", "-1"};
  if (each) { o.push_back("-si"); o.push_back("-1"); }
  e = run_prog(codec, o, fault);
  if (e.sig) c.fail("killed by signal %d", e.sig);
  if (exists("out.srf.bsy")) c.fail("the lock is left");
  if (e.code == 0 && read_file("out.srf") != a) c.fail("undisturbed:\n%s\nwith failing saves:\n%s", a.c_str(), read_file("out.srf").c_str());
  bool said = e.out.find("rror") != std::string::npos;
  if (e.code != 0 && each && skip + num <= total) c.fail("exit %d: %s", e.code, e.out.c_str());
  if (e.code != 0) { if (e.out.find_first_not_of(" \r\n") == std::string::npos) c.fail("no message"); c.label("the last save failed"); }
  c.nontrivial(e.code == 0 && said);
}

SUB("C25", "exit_status", "plain", 5000, 300000, "something is wrong with the parameters, the options or the results file") {
  Src &s = c.src;
  int codec = (int)s.draw(4);
  Params p = gen_params(c, codec, 4, 10);
  fresh_dir();
  std::string res = "out.srf", head = "res_file out.srf\n", sim = p.sim, cod = p.codec;
  std::vector<std::string> args = {"p.spf"};
  if (s.coin()) args.push_back("-nr");
  int kind = (int)s.draw(17);
  bool file = false, spf = true;
  std::string before;
  switch (kind) {
    case 0: c.note("nothing"); break;
    case 1: c.note("no arguments"); args.clear(); break;
    case 2: c.note("no such file"); args[0] = "q.spf"; break;
    case 3: c.note("empty parameter file"); head = sim = cod = ""; break;
    case 4: c.note("no value of the last option"); args.push_back(s.oneof({"-si", "-ri"})); break;
    case 5: c.note("no res_file"); head = ""; break;
    case 6: c.note("no SNR values"); sim = "min_trials_per_snr 3\n"; break;
    case 7: c.note("no SNR values in the group"); sim = s.coin() ? "EbNo_values { }\n" : "SNR_val_trn { }\n"; break;
    case 8: c.note("no parameters of the code"); cod = ""; break;
    case 9: { c.note("51 SNR values"); sim = "EbNo_values {"; for (int i = 0; i < 51; i++) sim += strf(" %g", i * 0.1); sim += " }\n"; break; }
    case 10: c.note("no directory"); head = "res_file no/out.srf\n"; res = "no/out.srf"; break;
    case 11: c.note("a directory in place of the results"); mkdir("out.srf", 0755); break;
    case 12: c.note("locked"); write_file("out.srf.bsy", "Busy"); if (s.coin()) { file = true; Point q; q.trn = 5; write_file("out.srf", format_results(p.f.n(), p.f.k(), {{1, q}})); } break;
    case 13: { c.note("damaged results"); file = true; Point q; q.trn = 5; std::string t = format_results(p.f.n(), p.f.k(), {{1, q}}); t.insert(t.find("en_bl {") + 7, " 3"); write_file("out.srf", t); break; }
    case 14: { c.note("50 other SNR values in the results"); file = true; std::vector<std::pair<double, Point>> v; Point q; q.trn = 5; for (int i = 0; i < 50; i++) v.push_back({100 + i, q}); write_file("out.srf", format_results(p.f.n(), p.f.k(), v)); break; }
    case 15: c.note("res_file without a name at the end"); head = ""; cod += " res_file"; break;
    case 16: { c.note("a parameter without a value at the end"); cod += s.oneof({" min_trials_per_snr", " ml_lb", " fixed_R", " random_codeword", " min_errors_per_snr"}); break; }
  }
  if (spf) write_file("p.spf", head + sim + cod);
  if (file) before = read_file("out.srf");
  Exit e = run_prog(codec, args);
  if (e.sig) c.fail("killed by signal %d", e.sig);
  if (kind == 0) { if (e.code != 0) c.fail("exit %d: %s", e.code, e.out.c_str()); if (!parse_results(read_file("out.srf")).ok) c.fail("no results"); }
  else {
    if (e.code == 0) c.fail("success is reported: %s", e.out.c_str());
    if (e.out.find_first_not_of(" \r\n") == std::string::npos) c.fail("no message");
    if (file && read_file("out.srf") != before) c.fail("the results file changed");
    if (kind == 12) { if (read_file("out.srf.bsy") != "Busy") c.fail("the lock of the other saver is changed"); }
    else if (exists(res + ".bsy")) c.fail("the lock is left");
    c.nontrivial();
  }
}

// ----------------------------------------------------------------- C26

namespace {
Rng g_rand;
int good_rand() { return (int)(g_rand.next() % ((u64)RAND_MAX + 1)); }
void good_srand(unsigned x) { g_rand = Rng(mix(x)); }

double Q(double x) { return 0.5 * std::erfc(x / std::sqrt(2.0)); }
double phi(double x) { return std::exp(-x * x / 2) / std::sqrt(2 * M_PI); }

// Bernstein: deviation of a sum of N independent terms of range [0, top], variance v each, exceeded with probability < 1e-10.
double dev(double N, double top, double v) { double L = 23.8; return top * L / 3 + std::sqrt(top * top * L * L / 9 + 2 * L * N * v); }

struct Theory { double wer, bits, var; };   // word error rate, bit errors per word, their variance

// Every bit is decided on its own.
Theory uncoded(const Cfg &f, double sg) {
  double q = Q(1 / sg), rho = 1 - 2 * q;
  auto co = f.coeffs(); unsigned full = (1u << f.m) - 1;
  Theory t; t.wer = 1 - std::pow(1 - q, f.n()); t.bits = t.var = 0;
  auto P = [&](double e) { return std::pow(rho, e); };
  for (unsigned a : co) {
    double na = std::pow(2, popcnt(a));
    t.bits += (1 - P(na)) / 2;
    for (unsigned b : co) {
      double nb = std::pow(2, popcnt(b)), both = std::pow(2, f.m - popcnt((~a & full) | (~b & full)));
      t.var += (P(na + nb - 2 * both) - P(na) * P(nb)) / 4;
    }
  }
  return t;
}
Theory repetition(int n, double sg) { double q = Q(std::sqrt((double)n) / sg); return {q, q, q * (1 - q)}; }
// Biorthogonal code RM(1, m).
Theory biorthogonal(int m, double sg) {
  int n = 1 << m, k = m + 1; double a = std::sqrt((double)n) / sg, M = n - 1;
  double pc = 0, pa = 0, h = 1e-3;
  for (double x = h / 2; x < a + 10; x += h) { double z = std::pow(1 - 2 * Q(x), M); pc += phi(x - a) * z * h; pa += phi(x + a) * z * h; }
  double rest = 1 - pc - pa;
  double tot = std::pow(2, k), s1 = (k * tot / 2 - 1) / (tot - 2), s2 = ((double)k * (k + 1) * tot / 4 - 1) / (tot - 2);
  Theory t; t.wer = 1 - pc; t.bits = pa + rest * s1; t.var = pa + rest * s2 - t.bits * t.bits;
  return t;
}
}  // namespace

struct Rates { Point p; Results r; };
static std::vector<Point> simulate(Ctx &c, const Cfg &f, const std::vector<std::string> &snr, long trn, double fixedR, bool rnd, const char *ml) {
  Src &s = c.src;
  SimApi &A = sim_api(std::string("sim_") + codec_name[f.codec]);
  fresh_dir();
  std::string t = "res_file r ";
  for (auto &w : f.tokens()) t += w + " ";
  if (rnd) t += "random_codeword on ";
  if (fixedR) t += strf("fixed_R %.17g ", fixedR);
  t += ml;
  t += " SNR_val_trn {"; for (auto &x : snr) t += strf(" %s %ld", x.c_str(), trn); t += " }";
  write_file("p.spf", t);
  c.note("%s", t.substr(0, 700).c_str());
  clear_hooks(A); install_vtime(A); Clr clr{A};
  A.hooks->rand_fn = good_rand; A.hooks->srand_fn = good_srand;
  unsigned sd = (unsigned)s.draw(1 << 30);
  good_srand(sd); srand(sd);
  Sim sim(A, "p.spf", 1000000);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  if (sim.run() != 0) c.fail("the simulation failed");
  if (sim.save() != 0) c.fail("not saved");
  Results r = parse_results(read_file("r"));
  if (!r.ok || r.snr.size() != snr.size()) c.fail("results: %s", r.why.c_str());
  std::vector<Point> o;
  for (auto &x : snr) for (size_t i = 0; i < r.snr.size(); i++) if (r.snr[i] == atof(x.c_str())) o.push_back(r.pt[i]);
  if (o.size() != snr.size()) c.fail("points of the results");
  return o;
}
static std::vector<std::string> rate_snrs(Src &s, int lo, int hi) {
  std::vector<std::string> v; std::set<long> seen; int m = (int)s.i(1, 3);
  while ((int)v.size() < m) { long x = s.i(lo * 10, hi * 10); if (seen.insert(x).second) v.push_back(strf("%g", x * 0.1)); }
  return v;
}
// wexact: the decoder is ML, so the ML bound is the word error rate.
static void compare(Ctx &c, const Cfg &f, const std::vector<std::string> &snr, const std::vector<Point> &p, double R, std::function<Theory(double)> th, bool mlb) {
  bool nt = false;
  for (size_t i = 0; i < snr.size(); i++) {
    double sg = sigma_of(R, atof(snr[i].c_str()));
    Theory t = th(sg);
    double N = (double)p[i].trn, top = f.k();
    if (std::fabs(p[i].en_bl - N * t.wer) > dev(N, 1, t.wer * (1 - t.wer))) c.fail("SNR %s: word error rate %g in %g trials, in theory %g", snr[i].c_str(), p[i].en_bl / N, N, t.wer);
    if (std::fabs(p[i].en_bit - N * t.bits) > dev(N, top, t.var)) c.fail("SNR %s: bit error rate %g in %g trials, in theory %g", snr[i].c_str(), p[i].en_bit / (N * top), N, t.bits / top);
    if (p[i].er) c.fail("%ld erasures", p[i].er);
    if (mlb && (p[i].ml_trn != p[i].trn || std::labs(p[i].enml - p[i].en_bl) > 1 + p[i].en_bl / 200)) c.fail("SNR %s: %ld words are wrong, %ld of them closer than the sent one", snr[i].c_str(), p[i].en_bl, p[i].enml);
    if (N * t.wer > 200 && t.wer < 0.99) nt = true;
  }
  c.nontrivial(nt);
}

SUB("C26", "uncoded", "plain", 300, 18000, "more than 200 word errors, rate below 0.99") {
  Src &s = c.src;
  Cfg f; f.codec = (int)s.draw(4); f.m = (int)s.i(1, 5); f.r = f.m;
  if (f.codec == GLP) f.mask = std::string(border_nodes(f.m, f.r).size(), '1');
  if (f.codec == POLAR) f.mask = std::string(1 << f.m, '1');
  f.L = f.codec >= 2 ? (int)s.small(1, 4) : 1;
  auto v = rate_snrs(s, -2, 8);
  double fr = s.chance(1, 4) ? s.oneof({0.5, 0.75, 1.5}) : 0;
  bool ml = s.coin();
  auto p = simulate(c, f, v, s.i(5000, c.thorough ? 200000 : 20000), fr, s.coin(), ml ? "ml_lb on" : "");
  compare(c, f, v, p, fr ? fr : 1.0, [&](double sg) { return uncoded(f, sg); }, ml);
}
SUB("C26", "repetition", "plain", 300, 18000, "more than 200 word errors, rate below 0.99") {
  Src &s = c.src;
  Cfg f; f.codec = s.coin() ? POLAR : GLP; f.m = (int)s.i(1, 6);
  if (f.codec == POLAR) { f.r = f.m; f.mask = std::string(f.n(), '0'); f.mask[f.n() - 1] = '1'; }
  else {
    // The all-one word alone.
    f.r = (int)s.i(1, f.m); auto nodes = border_nodes(f.m, f.r); f.mask = std::string(nodes.size(), '0');
    for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].coeffs.size() == 1 && nodes[i].coeffs[0] == 0) f.mask[i] = '1';
    if (f.coeffs().size() != 1) { f.r = 1; f.mask = ""; f.codec = POLAR; f.r = f.m; f.mask = std::string(f.n(), '0'); f.mask[f.n() - 1] = '1'; }
  }
  f.L = (int)s.i(2, 4);
  auto v = rate_snrs(s, -8, 5);
  double R = 1.0 / f.n(), fr = s.chance(1, 4) ? R * s.oneof({0.5, 2.0}) : 0;
  bool ml = s.coin();
  auto p = simulate(c, f, v, s.i(5000, c.thorough ? 200000 : 20000), fr, s.coin(), ml ? "ml_lb on" : "");
  compare(c, f, v, p, fr ? fr : R, [&](double sg) { return repetition(f.n(), sg); }, ml);
}
SUB("C26", "biorthogonal", "plain", 300, 18000, "more than 200 word errors, rate below 0.99") {
  Src &s = c.src;
  Cfg f; f.codec = s.oneof({DTRM1, GLP, POLAR}); f.m = (int)s.i(1, f.codec == DTRM1 ? 6 : 5); f.r = 1;
  if (f.codec == GLP) { f.mask = std::string(border_nodes(f.m, 1).size(), '1'); f.L = 1 << (f.m + 1); }
  if (f.codec == POLAR) {
    f.r = f.m; f.mask = std::string(f.n(), '0');
    for (int i = 0; i < f.n(); i++) if (popcnt((f.n() - 1) & ~i) <= 1) f.mask[i] = '1';
    f.L = 1 << (f.m + 1);
  }
  auto v = rate_snrs(s, -4, 5);
  double R = (f.m + 1.0) / f.n(), fr = s.chance(1, 4) ? R * s.oneof({0.5, 1.5}) : 0;
  bool ml = s.coin();
  auto p = simulate(c, f, v, s.i(5000, c.thorough ? 100000 : 15000), fr, s.coin(), ml ? "ml_lb on" : "");
  if (f.k() != f.m + 1) c.fail("dimension %d", f.k());
  compare(c, f, v, p, fr ? fr : R, [&](double sg) { return biorthogonal(f.m, sg); }, ml);
}

// Small codes with a list that makes the decoder ML, against an exhaustive decoder simulated here.
SUB("C26", "small_ml", "plain", 250, 15000, "more than 200 word errors, rate below 0.99") {
  Src &s = c.src;
  Cfg f; f.codec = POLAR; f.m = (int)s.i(1, 4); f.r = f.m;
  int K = (int)s.i(1, std::min(f.n(), 6));
  f.mask = std::string(f.n(), '0');
  Rng q = s.bulk();
  for (int b = 0; b < K;) { int i = (int)q.below(f.n()); if (f.mask[i] == '0') { f.mask[i] = '1'; b++; } }
  f.L = 1 << K;
  std::string snr = strf("%g", s.i(-30, 60) * 0.1);
  long N = s.i(4000, c.thorough ? 60000 : 12000);
  auto p = simulate(c, f, {snr}, N, 0, true, "ml_lb on")[0];
  std::vector<Bits> w; std::vector<Bits> xs;
  for (int i = 0; i < 1 << K; i++) { Bits x(K); for (int b = 0; b < K; b++) x[b] = (i >> b) & 1; xs.push_back(x); w.push_back(ref_code(f, x)); }
  double sg = sigma_of((double)K / f.n(), atof(snr.c_str()));
  double en = 0, eb = 0, eb2 = 0;
  std::vector<double> y(f.n());
  for (long t = 0; t < N; t++) {
    int tx = (int)q.below(w.size());
    for (int j = 0; j < f.n(); j++) y[j] = (w[tx][j] ? 1 : -1) + sg * q.gauss();
    int best = 0; double bd = -1e300;
    for (size_t i = 0; i < w.size(); i++) { double d = 0; for (int j = 0; j < f.n(); j++) d += w[i][j] ? y[j] : -y[j]; if (d > bd) { bd = d; best = (int)i; } }
    int e = 0; for (int b = 0; b < K; b++) e += xs[best][b] != xs[tx][b];
    en += best != tx; eb += e; eb2 += (double)e * e;
  }
  double n1 = (double)p.trn, pw = (p.en_bl + en + 5) / (n1 + N), vb = (eb2 + 5.0 * K) / N;
  if (std::fabs(p.en_bl / n1 - en / N) > 7 * std::sqrt(pw * (1 - pw + 1e-3) * (1 / n1 + 1.0 / N))) c.fail("word error rate %g, of an exhaustive decoder %g (%ld trials)", p.en_bl / n1, en / N, N);
  if (std::fabs(p.en_bit / n1 - eb / N) > 7 * std::sqrt(vb * (1 / n1 + 1.0 / N))) c.fail("bit errors per word %g, of an exhaustive decoder %g (%ld trials)", p.en_bit / n1, eb / N, N);
  if (std::labs(p.enml - p.en_bl) > 1 + p.en_bl / 200) c.fail("%ld words are wrong, %ld of them closer than the sent one", p.en_bl, p.enml);
  c.nontrivial(p.en_bl > 200 && p.en_bl < 0.99 * n1);
}
