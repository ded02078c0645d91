// C22, C24: the results file and what is shown of it.
#include "sim.hpp"
#include <malloc.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <climits>
#include <memory>
#include <sstream>
using namespace pbt;

namespace {

struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } };

// SNR values of a pool, some very close to each other.
std::vector<std::string> gen_pool(Src &s, int m) {
  std::vector<std::string> v;
  std::set<double> seen;
  double base = s.i(-8, 40) * 0.25;
  for (int t = 0; (int)v.size() < m && t < 5 * m; t++) {
    std::string x;
    switch (s.weighted({5, 2, 2, 1, 1})) {
      case 0: x = strf("%g", s.i(-40, 200) * 0.05); break;
      case 1: x = strf("%.3f", s.i(-9999, 12000) * 0.001); break;
      case 2: x = strf("%.15g", base + (double)s.i(-4, 4) * std::pow(10, -(double)s.i(3, 13))); break;
      case 3: x = strf("%.15g", s.real(-10, 12)); break;
      case 4: x = s.oneof({"0", "1e-9", "-1e-9", "1e1", "12.50", "+3", "003", "-0.0", "1.00000000000001", "0.1", "0.3"}); break;
    }
    if (seen.insert(atof(x.c_str()) + 0.0).second) v.push_back(x);
  }
  return v;
}
double num(const std::string &s) { return atof(s.c_str()) + 0.0; }
typedef std::map<double, Point> Data;

// The same data in another layout, as a user or another tool may have left it.
std::string relayout(Src &s, long n, long k, const Data &d) {
  struct Grp { std::string key, body; };
  std::vector<Grp> g;
  std::string b;
  int style = (int)s.draw(3);
  for (auto &p : d) b += (style == 0 ? strf("%.15g", p.first) : style == 1 ? strf("%.17g", p.first) : strf("%.16e", p.first)) + " ";
  g.push_back({"SNR", b});
  struct { const char *k; long Point::*f; } fl[] = {{"tr_num", &Point::trn}, {"en_bit", &Point::en_bit}, {"en_bl", &Point::en_bl}, {"erasures_num", &Point::er}, {"ml_tr_num", &Point::ml_trn}, {"enml_bl", &Point::enml}};
  for (auto &f : fl) { b = ""; for (auto &p : d) b += strf("%ld ", p.second.*f.f); g.push_back({f.k, b}); }
  if (s.coin()) g.push_back({"WER", "0.5 0.25 "});
  if (s.chance(1, 4)) g.push_back({"note", "x y z "});
  if (s.coin()) for (size_t i = g.size(); i > 1; i--) std::swap(g[i - 1], g[s.draw(i)]);
  std::string o;
  if (s.chance(1, 3)) o += "% some remark { } code_n 7\n";
  std::string head = strf("code_n %ld%scode_k %ld\n", n, s.coin() ? "\n" : "\t ", k);
  bool at_end = s.chance(1, 4);
  if (!at_end) o += head;
  const char *nl = s.chance(1, 4) ? "\r\n" : "\n";
  for (auto &x : g) {
    o += x.key;
    o += s.oneof({" ", "\t", "\n"});
    o += "{";
    o += s.oneof({" ", "\n", "\t"});
    std::istringstream is(x.body); std::string w;
    bool first = true;
    while (is >> w) { if (!first) o += s.chance(1, 8) ? nl : " "; first = false; o += w; }
    o += " }";
    if (s.chance(1, 5)) o += " % remark }";
    o += nl;
  }
  if (at_end) o += head;
  if (s.chance(1, 3)) o += "% SNR   BER        WER        ERR        ML LB\n% 1.00  0.5 0.5 0.5 0.5";
  return o;
}

Point gen_counts(Src &s, long k, bool large) {
  Point p;
  long top = large ? INT_MAX - 1000000L : 100000;
  p.trn = s.small(1, top);
  if (large && s.coin()) p.trn = s.i(top / 2, top);
  p.en_bl = s.coin() ? s.small(0, p.trn) : s.i(0, p.trn);
  long bt = p.en_bl * k; // possibly beyond int
  p.en_bit = p.en_bl ? std::max(p.en_bl, s.i(0, bt)) : 0;
  p.er = s.coin() ? 0 : s.small(0, p.trn);
  p.ml_trn = s.coin() ? 0 : p.trn - p.er;
  p.enml = p.ml_trn ? s.small(0, std::min(p.en_bl, p.ml_trn)) : 0;
  return p;
}

// One simulation with its scripted decoder.
struct SimInst {
  Script sc;
  std::vector<std::string> snr;
  bool ml = false;
  Data total, saved;
  std::vector<Point> pend;
  std::unique_ptr<Sim> sim;
  Rng r;
  double pe = 0.5, per = 0;
  bool done = false;
  ~SimInst() { g_script = &sc; sim.reset(); }
};
}  // namespace

// ----------------------------------------------------------------- C22

SUB("C22", "histories", "plain", 240000, 14400000, "two saves with new trials, and a restart, a second simulation or a change of the file") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  int n = 2 * (int)s.small(1, 4), k = (int)s.i(1, n);
  int psize = (int)s.small(1, 12);
  if (s.chance(1, 10)) psize = (int)s.i(48, 70);
  std::vector<std::string> pool = gen_pool(s, psize);
  int ni = (int)s.weighted({3, 2, 1}) + 1;
  bool anyml = s.coin();
  std::string dir = fresh_dir(), path = "res.srf";
  switch (s.weighted({6, 1, 1, 1})) {
    case 1: path = "./a b.c.srf"; path = "./ab.c.srf"; break;
    case 2: mkdir("d", 0755); path = "d/res"; break;
    case 3: { std::string q; long len = s.i(60, 800); while ((long)q.size() < len) { q += std::string(50, 'q'); mkdir(q.c_str(), 0755); q += "/"; } path = q + "res.srf"; break; }
  }
  std::string fdir = path.find('/') == std::string::npos ? "." : path.substr(0, path.rfind('/'));
  install_vtime(A);
  Clr clr{A};
  srand((unsigned)s.draw(1 << 16));
  c.note("n=%d k=%d pool %zu, %s;", n, k, pool.size(), path.substr(0, 30).c_str());

  std::vector<std::unique_ptr<SimInst>> in(ni);
  bool present = false, empty = true;   // the file
  Data file;
  std::string raw;                      // its text, if not written by the simulator
  long saves = 0; bool restart = false, foreign = false;

  auto open_inst = [&](int j) {
    in[j].reset(new SimInst);
    SimInst &I = *in[j];
    I.sc.n = n; I.sc.k = k;
    I.ml = anyml && s.coin();
    int m = (int)s.small(1, (long)std::min<size_t>(pool.size(), 50));
    if (pool.size() >= 48 && s.chance(3, 4)) m = (int)std::min<size_t>(pool.size(), 50);
    std::vector<std::string> left = pool;
    for (int q = 0; q < m; q++) { size_t z = s.chance(1, 3) ? s.draw(left.size()) : 0; I.snr.push_back(left[z]); left.erase(left.begin() + z); }
    if (I.snr.size() < 50 && s.chance(1, 5)) I.snr.push_back(I.snr[s.draw(I.snr.size())]);   // the same value again
    I.pe = s.oneof({0.5, 0.9, 0.2}); I.per = s.oneof({0.0, 0.3}); I.r = s.bulk();
    I.sc.decide = [&I](const Bits &, const double *, double, Bits &xd) {
      Point p; p.trn = 1;
      int rc = I.r.u() < I.per ? 1 : 0;
      p.er = rc;
      if (I.r.u() < I.pe) {
        int w = 1 + (int)I.r.below(xd.size());
        for (int q = 0; q < w; q++) xd[q] ^= 1;
        p.en_bl = 1; p.en_bit = w;
      }
      if (I.ml && !rc) p.ml_trn = 1;
      I.pend.push_back(p);
      return rc;
    };
    std::string t = "res_file " + path + "\n";
    long mt = s.small(1, I.snr.size() > 12 ? 2 : 12);
    if (s.coin()) { t += "SNR_val_trn {"; for (auto &x : I.snr) t += strf(" %s %ld", x.c_str(), mt); t += " }\n"; }
    else { t += "EbNo_values {"; for (auto &x : I.snr) t += " " + x; t += strf(" }\nmin_trials_per_snr %ld\n", mt); }
    if (I.ml) t += "ml_lb on\n";
    if (s.coin()) t += "random_codeword on\n", I.sc.rndcw = true;
    write_file(strf("p%d.spf", j), t);
    install_script(A, &I.sc);
    I.sim.reset(new Sim(A, strf("p%d.spf", j), -1));
    if (!I.sim->ok()) c.fail("not initialised: %s", A.ui_text());
    c.note(" open%d[", j); for (auto &x : I.snr) c.note(" %s", x.c_str()); c.note(" ]x%ld%s", mt, I.ml ? "ml" : "");
  };
  auto use = [&](int j) -> SimInst & { install_script(A, &in[j]->sc); return *in[j]; };
  auto check = [&](const char *what) {
    bool ok; std::string txt = read_file(path, &ok);
    if (ok != present) c.fail("%s: the results file %s", what, present ? "disappeared" : "appeared");
    auto l = list_dir(fdir);
    for (auto &f : l) if (f.find("bsy") != std::string::npos) c.fail("%s: %s is left", what, f.c_str());
    size_t mine = fdir == "." ? ni + 1 : 1;
    if (l.size() > mine) c.fail("%s: %zu files in the directory", what, l.size());
    if (!present) return;
    if (empty) { if (!txt.empty()) c.fail("%s: the file is not empty", what); return; }
    if (!raw.empty()) { if (txt != raw) c.fail("%s: the file was changed", what); return; }
    Results r = parse_results(txt);
    if (!r.ok) c.fail("%s: %s in:\n%s", what, r.why.c_str(), txt.c_str());
    if (r.n != n || r.k != k) c.fail("%s: code_n %ld code_k %ld", what, r.n, r.k);
    std::string got;
    for (size_t i = 0; i < r.snr.size(); i++) if (i && !(r.snr[i - 1] < r.snr[i])) c.fail("%s: SNR %.17g after %.17g", what, r.snr[i], r.snr[i - 1]);
    if (r.snr.size() != file.size()) c.fail("%s: %zu points in the file, expected %zu:\n%s", what, r.snr.size(), file.size(), txt.c_str());
    size_t i = 0;
    for (auto &w : file) {
      if (r.snr[i] != w.first) c.fail("%s: SNR %.17g, expected %.17g", what, r.snr[i], w.first);
      Point p = r.pt[i]; bool mlok = true;
      p.enml = w.second.enml;      // (the ML-bound events are C20's)
      mlok = r.pt[i].enml >= 0 && r.pt[i].enml <= r.pt[i].ml_trn;
      if (!(p == w.second) || !mlok) c.fail("%s: SNR %.17g: %s, expected %s", what, w.first, r.pt[i].str().c_str(), w.second.str().c_str());
      i++;
    }
    std::string e = check_rates(r);
    if (!e.empty()) c.fail("%s: %s", what, e.c_str());
  };

  for (int j = 0; j < ni; j++) open_inst(j);
  int nops = (int)s.i(2, 24);
  for (int op = 0; op < nops; op++) {
    int j = (int)s.draw(ni);
    switch (s.weighted({8, 7, 1, 2, 1, 1, 2})) {
      case 0: {  // run
        SimInst &I = use(j);
        long cnt = s.coin() ? s.small(1, 8) : s.small(1, 120);
        c.note(" run%dx%ld", j, cnt);
        for (long q = 0; q < cnt && !I.done; q++) {
          int rc = I.sim->run();
          size_t pt = I.snr.size() - 1;
          if (rc == SIM_NOT_COMPLETED) {
            State st; if (!parse_state(I.sim->state(), st)) c.fail("state '%s'", I.sim->state().c_str());
            pt = (size_t)st.i - 1;
          }
          else if (rc == 0) I.done = true;
          else c.fail("return code %d", rc);
          if (pt >= I.snr.size()) c.fail("point %zu", pt);
          for (auto &p : I.pend) { Point &t = I.total[num(I.snr[pt])]; t = t + p; }
          I.pend.clear();
          if (!I.done && s.chance(1, pool.size() > 40 ? 2 : 10)) A.control(I.sim->inst, SIM_NEXT);
        }
        break;
      }
      case 1: case 2: {  // save
        SimInst &I = use(j);
        long bs = s.weighted({4, 1});
        for (int t = 0; t <= bs; t++) {
          if (!present || empty) I.saved.clear();
          Data nf = present && !empty ? file : Data(); bool fresh = false;
          for (auto &p : I.total) { Point d = p.second - I.saved[p.first]; if (d.trn > 0) { nf[p.first] = nf[p.first] + d; fresh = true; } }
          int rc = I.sim->save();
          if (nf.size() > 50) {
            c.label("too many SNR values");
            if (rc == 0 || !A.ui_errs()) c.fail("saving %zu SNR values: %d", nf.size(), rc);
          }
          else {
            if (rc != 0) c.fail("not saved: %s", A.ui_text());
            if (A.ui_errs()) c.fail("error message on success: %s", A.ui_text());
            file = nf; I.saved = I.total; present = true; empty = false; raw.clear();
            saves += fresh;
          }
          c.note(" save%d", j);
          check("after a save");
        }
        break;
      }
      case 3: {  // restart; trials not saved are gone
        open_inst(j);
        restart = true;
        break;
      }
      case 4: if (present) { c.note(" delete"); unlink(path.c_str()); present = false; file.clear(); foreign = true; } break;
      case 5: c.note(" empty"); write_file(path, ""); present = true; empty = true; raw.clear(); file.clear(); foreign = true; break;
      case 6: {  // another program or user leaves the file in another layout, perhaps with other data
        if (s.coin()) {
          bool large = s.coin();
          file.clear();
          int m = (int)s.small(1, 8);
          for (int q = 0; q < m; q++) file[num(s.chance(2, 3) ? pool[s.draw(pool.size())] : strf("%g", s.i(-100, 100) * 0.1))] = gen_counts(s, k, large);
          c.note(" data%d%s", m, large ? "large" : "");
        }
        if (file.empty()) break;
        raw = relayout(s, n, k, file);
        write_file(path, raw);
        c.note(" layout(%zu bytes)", raw.size());
        present = true; empty = false; foreign = true;
        break;
      }
    }
    if (op + 1 == nops || s.coin()) check("after an operation");
  }
  c.nontrivial(saves >= 2 && (restart || foreign || ni > 1));
}

// ML-bound counters accumulate too: two savings in one file against the same trials in one piece.
SUB("C22", "ml_counters", "plain", 20000, 1200000, "ML-bound events in both parts") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  int n = 2 * (int)s.i(2, 5), k = (int)s.i(1, n / 2);
  long t1 = s.i(20, 150); int hard = (int)s.draw(2);
  double snr = s.i(-8, 2);
  u64 sd[2] = {s.draw(1 << 20), s.draw(1 << 20)};
  Script sc; sc.n = n; sc.k = k; sc.rndcw = true;
  Rng r(1);
  sc.decide = [&](const Bits &, const double *, double, Bits &xd) { if (r.u() < 0.8) xd[r.below(k)] ^= 1; return 0; };
  install_vtime(A); Clr clr{A};
  std::string dir = fresh_dir();
  Point got[3];
  for (int q = 0; q < 3; q++) {
    // 0: the first part, 1: the second, 2: both in one file.
    std::string f = strf("r%d", q);
    write_file("p.spf", strf("res_file %s random_codeword on %s SNR_val_trn { %g %ld }", f.c_str(), hard ? "ml_lb_hard on" : "ml_lb on", snr, t1));
    for (int h = 0; h < 2; h++) {
      if (q < 2 && h != q) continue;
      install_script(A, &sc);
      sc.last_enc.clear();
      Sim sim(A, "p.spf", 1000000);
      if (!sim.ok()) c.fail("not initialised");
      srand((unsigned)sd[h]); r = Rng(sd[h]);
      if (sim.run() != 0) c.fail("run");
      if (sim.save() != 0) c.fail("save");
    }
    Results res = parse_results(read_file(f));
    if (!res.ok || res.pt.size() != 1) c.fail("%s", res.why.c_str());
    got[q] = res.pt[0];
  }
  c.note("n=%d k=%d trials %ld SNR %g hard %d", n, k, t1, snr, hard);
  if (!(got[0] + got[1] == got[2])) c.fail("parts %s and %s, together %s", got[0].str().c_str(), got[1].str().c_str(), got[2].str().c_str());
  c.nontrivial(got[0].enml > 0 && got[1].enml > 0);
}

// ----------------------------------------------------------------- C24

SUB("C24", "file_rates", "plain", 120000, 7200000, "a product of trials and dimension beyond the integer range") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  int n = 1 << s.i(1, 12), k = (int)s.i(1, n);
  Data d;
  int m = (int)s.small(1, 20);
  if (s.chance(1, 20)) m = 50;
  for (int q = 0; q < m; q++) d[num(strf("%g", s.i(-400, 800) * 0.05))] = gen_counts(s, k, s.chance(2, 3));
  fresh_dir();
  write_file("res.srf", relayout(s, n, k, d));
  std::string x = strf("%.15g", s.chance(2, 3) || d.size() >= 50 ? d.begin()->first : 3.01);
  write_file("p.spf", "res_file res.srf SNR_val_trn { " + x + " 3 }");
  Script sc; sc.n = n; sc.k = k;
  Point add;
  sc.decide = [&](const Bits &, const double *, double, Bits &xd) { add.trn++; if (add.trn % 2) { xd[0] ^= 1; add.en_bit++; add.en_bl++; } return 0; };
  install_script(A, &sc); install_vtime(A); Clr clr{A};
  c.note("n=%d k=%d", n, k);
  for (auto &p : d) c.note(" %g:{%s}", p.first, p.second.str().c_str());
  {
    Sim sim(A, "p.spf", 1000000);
    if (!sim.ok() || sim.run() != 0) c.fail("not run");
    if (sim.save() != 0) c.fail("not saved: %s", A.ui_text());
  }
  d[num(x)] = d[num(x)] + add;
  std::string txt = read_file("res.srf");
  Results r = parse_results(txt);
  if (!r.ok) c.fail("%s", r.why.c_str());
  if (r.n != n || r.k != k || r.snr.size() != d.size()) c.fail("code_n %ld code_k %ld, %zu points", r.n, r.k, r.snr.size());
  size_t i = 0;
  for (auto &p : d) { if (r.snr[i] != p.first || !(r.pt[i] == p.second)) c.fail("SNR %.17g: %s, expected %s", r.snr[i], r.pt[i].str().c_str(), p.second.str().c_str()); i++; }
  std::string e = check_rates(r);
  if (!e.empty()) c.fail("%s", e.c_str());
  bool big = false; for (auto &p : d) big |= (double)p.second.trn * k > INT_MAX;
  c.nontrivial(big);
}

static bool sci(const std::string &w, double want) {
  char *e; double v = strtod(w.c_str(), &e);
  return !w.empty() && !*e && std::fabs(v - want) <= 0.000501 * std::fabs(want);
}
static void current(Ctx &c) {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  Script sc;
  sc.n = 2 * (int)s.small(1, 8);
  sc.k = (int)s.i(1, sc.n);
  std::vector<std::string> pool = gen_pool(s, (int)s.small(1, 14));
  bool ml = s.coin();
  size_t m = pool.size();
  std::vector<Point> pt(m); std::vector<Point> pend; Rng r = s.bulk();
  double pe = s.oneof({0.5, 0.9, 0.15, 0.05}), per = s.oneof({0.0, 0.3, 1.0});
  sc.decide = [&](const Bits &, const double *, double, Bits &xd) {
    Point p; p.trn = 1; int rc = r.u() < per ? 1 : 0;
    p.er = rc;
    if (r.u() < pe) { int w = 1 + (int)r.below(xd.size()); for (int q = 0; q < w; q++) xd[q] ^= 1; p.en_bl = 1; p.en_bit = w; }
    if (ml && !rc) p.ml_trn = 1;
    pend.push_back(p);
    return rc;
  };
  fresh_dir();
  long mt = s.small(1, 60);
  std::string t = strf("res_file r%s SNR_val_trn {", ml ? " ml_lb on" : "");
  for (auto &x : pool) t += strf(" %s %ld", x.c_str(), mt);
  write_file("p.spf", t + " }");
  c.note("%s } n=%d k=%d", t.c_str(), sc.n, sc.k);
  install_script(A, &sc); install_vtime(A); Clr clr{A};
  Sim sim(A, "p.spf", -1);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  bool lastml = false;
  for (long it = 0;; it++) {
    int rc = sim.run();
    size_t at = m - 1;
    State st; st.ml = 0;
    if (rc == SIM_NOT_COMPLETED) { if (!parse_state(sim.state(), st)) c.fail("state '%s'", sim.state().c_str()); at = st.i - 1; }
    else if (rc != 0) c.fail("return code %d", rc);
    if (at >= m) c.fail("point %zu", at);
    for (auto &p : pend) pt[at] = pt[at] + p;
    pend.clear();
    if (rc == SIM_NOT_COMPLETED) {
      pt[at].enml = st.ml;      // judged by C20
      lastml |= st.ml > 0;
      if (std::fabs(st.snr - num(pool[at])) > 0.0051 + 1e-9 * std::fabs(num(pool[at])) || st.num != (long)m || st.trn != pt[at].trn || st.en != pt[at].en_bl || st.has_ml != ml || st.req < st.trn) c.fail("state '%s', happened: %s", sim.state().c_str(), pt[at].str().c_str());
    }
    if (rc == 0 || it % 9 == 0) {
      std::string txt = sim.res();
      std::istringstream is(txt); std::string line;
      std::getline(is, line);
      std::istringstream hs(line); std::vector<std::string> h; std::string w; while (hs >> w) h.push_back(w);
      if (h.size() != (ml ? 4u : 3u)) c.fail("header '%s'", line.c_str());
      size_t row = 0;
      while (std::getline(is, line)) {
        if (line.find_first_not_of(" \t\r") == std::string::npos) continue;
        std::istringstream ls(line); std::vector<std::string> v; while (ls >> w) v.push_back(w);
        if (row > at) c.fail("row for a point that has not begun: %s", line.c_str());
        const Point &p = pt[row];
        if (v.size() != h.size()) c.fail("row '%s'", line.c_str());
        if (std::fabs(atof(v[0].c_str()) - num(pool[row])) > 0.0051 + 1e-9 * std::fabs(num(pool[row]))) c.fail("SNR in '%s'", line.c_str());
        if (p.trn > 0) {
          if (!sci(v[1], (double)p.en_bit / ((double)p.trn * sc.k))) c.fail("BER in '%s': %s, k=%d", line.c_str(), p.str().c_str(), sc.k);
          if (!sci(v[2], (double)p.en_bl / p.trn)) c.fail("WER in '%s': %s", line.c_str(), p.str().c_str());
          if (ml && !sci(v[3], p.ml_trn ? (double)p.enml / p.ml_trn : 0)) c.fail("ML bound in '%s': %s", line.c_str(), p.str().c_str());
        }
        row++;
      }
      if (row != at + 1) c.fail("%zu rows at point %zu:\n%s", row, at, txt.c_str());
    }
    if (rc == 0) break;
    if (it > 100000) c.fail("does not complete");
  }
  c.nontrivial(m > 1 && (!ml || lastml || per == 1));
}
SUB("C24", "current", "plain", 80000, 4800000, "more than one point, ML-bound events if counted") { current(c); }

// The same for numbers of trials that take too long to simulate: the count is raised where the simulation keeps it
// (if it is found in exactly one place and the status line follows).
SUB("C24", "current_large", "plain", 24000, 1440000, "the count was found and its product with the dimension is beyond the integer range") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  Script sc; sc.n = 1 << s.i(1, 6); sc.k = (int)s.i(1, sc.n);
  long t1 = s.i(150, 600), want = s.coin() ? s.i(INT_MAX / 2, INT_MAX - 10) : s.small(700, INT_MAX - 10), bit = 0, bl = 0;
  bool ml = s.coin();
  Rng r = s.bulk();
  sc.decide = [&](const Bits &, const double *, double, Bits &xd) {
    if (r.u() < 0.3) { int w = 1 + (int)r.below(xd.size()); for (int q = 0; q < w; q++) xd[q] ^= 1; bl++; bit += w; }
    return 0;
  };
  fresh_dir();
  write_file("p.spf", strf("res_file r%s SNR_val_trn { 1.5 1000 }", ml ? " ml_lb on" : ""));
  c.note("n=%d k=%d: %ld trials raised to %ld%s", sc.n, sc.k, t1, want, ml ? ", ML bound" : "");
  install_script(A, &sc); install_vtime(A); Clr clr{A};
  Sim sim(A, "p.spf", -1);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  for (long t = 0; t < t1; t++) if (sim.run() != SIM_NOT_COMPLETED) c.fail("finished early");
  State st;
  if (!parse_state(sim.state(), st) || st.trn != t1) c.fail("state '%s'", sim.state().c_str());
  size_t sz = malloc_usable_size(sim.inst) / sizeof(int);
  int *mem = (int *)sim.inst, at = -1, found = 0;
  for (size_t q = 0; q < sz; q++) if (mem[q] == t1) { at = (int)q; found++; }
  if (ml && found == 2) {
    // Trials of the ML bound as well: the first is the one of the status line or not at all.
    found = 0;
    for (size_t q = 0; q < sz && !found; q++) if (mem[q] == t1) {
      mem[q] = (int)want;
      if (parse_state(sim.state(), st) && st.trn == want) { at = (int)q; found = 1; }
      mem[q] = (int)t1;
    }
  }
  if (found != 1) { c.label("count not found"); return; }
  mem[at] = (int)want;
  if (!parse_state(sim.state(), st) || st.trn != want) { mem[at] = (int)t1; c.label("count not found"); return; }
  std::string txt = sim.res();
  mem[at] = (int)t1;
  size_t nl = txt.find('\n');
  if (nl == std::string::npos) c.fail("'%s'", txt.c_str());
  std::istringstream is(txt.substr(nl)); std::string v[3]; is >> v[0] >> v[1] >> v[2];
  if (!sci(v[1], bit / ((double)want * sc.k))) c.fail("BER %s, %ld bit errors, k=%d", v[1].c_str(), bit, sc.k);
  if (!sci(v[2], bl / (double)want)) c.fail("WER %s, %ld word errors", v[2].c_str(), bl);
  c.nontrivial((double)want * sc.k > INT_MAX);
}

SUB("C24", "octave", "plain", 160000, 9600000, "a product of trials and dimension beyond the integer range, or no trials") {
  Src &s = c.src;
  typedef int (*load_t)(const char *, void (*)(void *, const char *, size_t, size_t, const double *), void *);
  static load_t load = (load_t)lib_sym("octave", "ecv_load");
  static void (*reset)() = (void (*)())lib_sym("octave", "ecv_ui_reset");
  static const char *(*text)() = (const char *(*)())lib_sym("octave", "ecv_ui_text");
  if (!load || !reset || !text) { fprintf(stderr, "octave: no ecv_load\n"); _Exit(77); }
  long n = 1L << s.i(1, 15), k = s.i(1, n);
  Data d; int m = (int)s.small(1, 20);
  if (s.chance(1, 20)) m = 50;
  bool zero = false;
  for (int q = 0; q < m; q++) {
    Point p = gen_counts(s, k, s.chance(2, 3));
    if (s.chance(1, 12)) { p = Point(); zero = true; }
    d[num(strf("%g", s.i(-400, 800) * 0.05))] = p;
  }
  std::string t = relayout(s, n, k, d);
  bool noer = s.chance(1, 5);
  if (noer) { size_t a = t.find("erasures_num"), b = t.find("}", a); t.erase(a, b + 1 - a); }
  fresh_dir(); write_file("f.srf", t);
  for (auto &p : d) c.note(" %g:{%s}", p.first, p.second.str().c_str());
  c.note(" n=%ld k=%ld", n, k);
  struct Out { std::map<std::string, std::vector<double>> f; std::map<std::string, size_t> rows; } o;
  reset();
  int nf = load("f.srf", [](void *a, const char *key, size_t rr, size_t cc, const double *v) { Out &q = *(Out *)a; q.f[key].assign(v, v + rr * cc); q.rows[key] = rr; }, &o);
  if (nf < 0) c.fail("nothing is returned: %s", text());
  auto get = [&](const char *key, size_t len) -> std::vector<double> & { auto it = o.f.find(key); if (it == o.f.end()) c.fail("no field %s", key); if (it->second.size() != len || o.rows[key] != 1) c.fail("%zu values of %s", it->second.size(), key); return it->second; };
  if (get("n", 1)[0] != n || get("k", 1)[0] != k) c.fail("n %g k %g", get("n", 1)[0], get("k", 1)[0]);
  size_t i = 0; bool big = false;
  auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-12 * std::fabs(b); };
  for (auto &q : d) {
    const Point &p = q.second; double tr = (double)p.trn;
    if (get("EbNo", d.size())[i] != q.first) c.fail("EbNo %.17g, expected %.17g", get("EbNo", d.size())[i], q.first);
    if (!near(get("BER", d.size())[i], p.trn ? p.en_bit / (tr * k) : 0)) c.fail("BER %.15g of %s, k=%ld", get("BER", d.size())[i], p.str().c_str(), k);
    if (!near(get("WER", d.size())[i], p.trn ? p.en_bl / tr : 0)) c.fail("WER %.15g of %s", get("WER", d.size())[i], p.str().c_str());
    if (!near(get("ERR", d.size())[i], p.trn && !noer ? p.er / tr : 0)) c.fail("ERR %.15g of %s", get("ERR", d.size())[i], p.str().c_str());
    if (!near(get("MLER", d.size())[i], p.ml_trn ? p.enml / (double)p.ml_trn : 0)) c.fail("MLER %.15g of %s", get("MLER", d.size())[i], p.str().c_str());
    big |= tr * k > INT_MAX;
    i++;
  }
  c.nontrivial(big || zero);
}
