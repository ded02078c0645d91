// C19, C20, C21: the simulation loop, with a scripted codec.
#include "sim.hpp"
#include <algorithm>
using namespace pbt;

namespace {

struct Setup {
  int n = 4, k = 2;
  bool vt = false;                     // SNR_val_trn or EbNo_values
  std::vector<std::string> snr;
  std::vector<long> trn;
  long min_trn = 0, min_err = 0;       // 0: not given
  bool rnd = false, ml = false, hard = false;
  double fixedR = 0;
  std::string text() const {
    std::string s = "res_file res.srf\n";
    if (vt) { s += "SNR_val_trn {\n"; for (size_t i = 0; i < snr.size(); i++) s += strf("%s %ld\n", snr[i].c_str(), trn[i]); s += "}\n"; }
    else { s += "EbNo_values {"; for (auto &x : snr) s += " " + x; s += " }\n"; }
    if (min_trn) s += strf("min_trials_per_snr %ld\n", min_trn);
    if (min_err) s += strf("min_errors_per_snr %ld\n", min_err);
    if (rnd) s += "random_codeword on\n";
    if (ml) s += "ml_lb on\n";
    if (hard) s += "ml_lb_hard on\n";
    if (fixedR) s += strf("fixed_R %.17g\n", fixedR);
    return s;
  }
  long req(size_t i) const { return vt && trn[i] >= 1 ? trn[i] : min_trn > 0 ? min_trn : 1; }
  long errs() const { return min_err > 0 ? min_err : 1; }
  double rate() const { return fixedR ? fixedR : (double)k / n; }
  double db(size_t i) const { return atof(snr[i].c_str()); }
};
std::string gen_snr(Src &s) {
  switch (s.weighted({5, 2, 1, 1})) {
    case 0: return strf("%g", s.i(-16, 40) * 0.25);
    case 1: return strf("%.3f", s.i(-9999, 12000) * 0.001);
    case 2: return strf("%.15g", s.real(-10, 12));
    default: return strf("%ld", s.i(-8, 12));
  }
}
std::vector<std::string> distinct_snrs(Src &s, int m) {
  std::vector<std::string> v;
  std::set<double> seen;
  for (int t = 0; (int)v.size() < m && t < 4 * m; t++) { std::string x = gen_snr(s); if (seen.insert(atof(x.c_str()) + 0.0).second) v.push_back(x); }
  switch (s.weighted({2, 2, 1})) {
    case 0: break;
    case 1: std::sort(v.begin(), v.end(), [](const std::string &a, const std::string &b) { return atof(a.c_str()) < atof(b.c_str()); }); break;
    case 2: std::sort(v.begin(), v.end(), [](const std::string &a, const std::string &b) { return atof(a.c_str()) > atof(b.c_str()); }); break;
  }
  return v;
}
void gen_code(Src &s, Setup &u) { u.n = 2 * (int)s.small(1, 8); u.k = (int)s.i(1, u.n); }
}  // namespace

// ----------------------------------------------------------------- C19

SUB("C19", "stopping_rule", "plain", 120000, 7200000, "at least one point whose errors come late or in bursts, or a control") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  Setup u; gen_code(s, u);
  int m = (int)s.small(1, 12);
  if (s.chance(1, 40)) m = 50;
  u.snr = distinct_snrs(s, m); m = (int)u.snr.size();
  long rtop = m > 8 ? 40 : s.chance(1, 6) ? 3000 : 300;
  u.vt = s.coin();
  for (int i = 0; i < m; i++) u.trn.push_back(s.chance(1, 5) ? 0 : s.small(1, rtop));
  if (s.chance(2, 3)) u.min_trn = s.small(1, rtop);
  if (s.chance(2, 3)) u.min_err = s.small(1, m > 8 ? 10 : 80);
  u.rnd = s.chance(1, 4); u.ml = s.chance(1, 6);
  // How errors arrive at each point: each gets a rule.
  struct Pat { int kind; long a, b; double p; u64 seed; };
  std::vector<Pat> pat(m);
  for (auto &p : pat) {
    p.kind = (int)s.weighted({3, 2, 2, 1, 1});
    p.a = s.small(1, rtop); p.b = s.small(1, 60); p.p = s.oneof({0.9, 0.5, 0.2, 0.1, 0.05}); p.seed = s.draw(1 << 20);
    if (p.kind == 4 && m > 8) p.kind = 0;
  }
  auto fails = [&](int i, long t) -> bool {   // t from 1
    Pat &p = pat[i];
    switch (p.kind) {
      case 0: return (double)(mix(p.seed + 7919 * t) >> 11) / 9007199254740992.0 < p.p;
      case 1: return t >= p.a;                         // nothing, then always
      case 2: return t % p.b == 0;                     // regular
      case 3: return t <= p.b / 2 || t % 16 == 0;      // a burst at first
      default: return (t / 37) % 3 == 2;               // bursts
    }
  };
  // Erasures: none, of wrong words (some or all), of any words.
  int eras = (int)s.weighted({3, 1, 1, 1});
  u64 eseed = s.draw(1 << 20);
  auto erased = [&](long t, bool bad) { u64 v = mix(eseed + 104729 * t); return eras == 1 ? bad && v % 3 == 0 : eras == 2 ? bad : eras == 3 && v % 3 == 0; };
  bool controls = s.chance(1, 2);
  int slice = (int)s.draw(3);
  struct { int pt = -1; double sg = -1; } cur;
  std::vector<std::vector<char>> hist(m);          // outcomes of the trials of each point
  Script sc; sc.n = u.n; sc.k = u.k; sc.rndcw = u.rnd;
  std::string order;
  sc.decide = [&](const Bits &, const double *, double sg, Bits &xd) {
    int i = -1;
    for (int j = 0; j < m; j++) if (std::fabs(sg - sigma_of(u.rate(), u.db(j))) <= 1e-12 * sg) i = j;
    if (i < 0) { order = strf("noise level %g of no point", sg); return 0; }
    if (i != cur.pt) {
      if (i < cur.pt) order = strf("point %d after point %d", i, cur.pt);
      cur.pt = i;
    }
    hist[i].push_back(fails(i, (long)hist[i].size() + 1));
    if (hist[i].back()) xd[0] ^= 1;
    g_vtime += slice == 1 ? 1 : 0;
    if (hist[i].size() > 400000) order = "does not stop";
    return erased((long)hist[i].size(), hist[i].back() != 0) ? 1 : 0;
  };
  fresh_dir();
  write_file("p.spf", u.text());
  c.note("%s n=%d k=%d", u.text().c_str(), u.n, u.k);
  for (auto &p : pat) c.note(" (%d %ld %ld %g)", p.kind, p.a, p.b, p.p);
  install_script(A, &sc); install_vtime(A);
  struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } } clr{A};
  g_vtime = 1000;
  srand((unsigned)s.draw(1 << 16));
  Sim sim(A, "p.spf", slice == 0 ? 1000000 : slice == 1 ? (int)s.i(1, 50) : -1);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  if (slice == 0) controls = false;
  std::vector<char> ended(m, 0), less(m, 0), more(m, 0);
  std::vector<long> final_req(m, -1);
  int nctl = 0;
  std::vector<size_t> fin(m, 0);
  for (long it = 0;; it++) {
    int rc = sim.run();
    if (!order.empty()) c.fail("%s", order.c_str());
    if (rc == 0) break;
    if (rc != SIM_NOT_COMPLETED) c.fail("return code %d", rc);
    if (it > 500000) c.fail("does not complete");
    State st;
    if (!parse_state(sim.state(), st)) c.fail("state '%s'", sim.state().c_str());
    int p = (int)st.i - 1;
    if (p < 0 || p >= m || st.num != m) c.fail("state: point %ld of %ld", st.i, st.num);
    if (p != cur.pt && !hist[p].empty()) c.fail("state: point %d, the last trial was of %d", p, cur.pt);
    long en = 0; for (char e : hist[p]) en += e;
    if (st.trn != (long)hist[p].size() || st.en != en) c.fail("state %s after %zu trials with %ld errors", sim.state().c_str(), hist[p].size(), en);
    for (int j = 0; j < m; j++) if (j < p) { if (fin[j] && fin[j] != hist[j].size()) c.fail("point %d changed after it was finished", j); fin[j] = hist[j].size(); }
    for (int j = 0; j < m; j++) if (ended[j] && (size_t)final_req[j] != hist[j].size()) c.fail("point %d had %ld trials when it was skipped, %zu were run", j, final_req[j], hist[j].size());
    if (controls && nctl < 12 && s.chance(1, 6)) {
      nctl++;
      int code = (int)s.i(1, 3);
      A.control(sim.inst, code);
      State a; if (!parse_state(sim.state(), a)) c.fail("state after a control");
      long want = code == SIM_MORE ? st.req + st.req / 2 : code == SIM_LESS ? std::max(st.req - st.req / 3, st.trn) : st.trn;
      if (a.req != want || a.trn != st.trn || a.i != st.i) c.fail("control %d: %s -> %s (expected %ld)", code, "before", sim.state().c_str(), want);
      c.note(" ctl%d@%d:%ld", code, p, st.trn);
      if (code == SIM_NEXT) { ended[p] = 1; final_req[p] = st.trn; }
      else if (ended[p]) { ended[p] = 0; }
      if (code != SIM_NEXT) { (code == SIM_LESS ? less : more)[p] = 1; ended[p] = 0; if (en >= u.errs()) final_req[p] = want; else final_req[p] = -1; }
    }
  }
  long decs = sc.decs;
  if (sim.run() != 0 || sc.decs != decs) c.fail("a finished simulation runs further trials");
  bool nt = nctl > 0;
  for (int i = 0; i < m; i++) {
    long N = (long)hist[i].size(), en = 0, T = 0, R = u.req(i), E = u.errs();
    for (long t = 0; t < N; t++) { en += hist[i][t]; if (!T && en >= E) T = t + 1; }
    if (ended[i]) { if (N != final_req[i]) c.fail("point %d was skipped at %ld, %ld trials were run", i, final_req[i], N); continue; }
    if (less[i] || more[i]) {
      if (final_req[i] >= 0 && N != std::max(final_req[i], 0L)) c.fail("point %d: %ld trials requested by a control when the errors were met, %ld run", i, final_req[i], N);
      if (!less[i] && (N < R || en < E)) c.fail("point %d: %ld trials of at least %ld, %ld errors of %ld", i, N, R, en, E);
      continue;
    }
    if (N < R) c.fail("point %d: %ld trials, %ld requested", i, N, R);
    if (en < E) c.fail("point %d: %ld errors of at least %ld in %ld trials", i, en, E, N);
    if (N > 2 * std::max(R, T) + 2) c.fail("point %d: %ld trials, requested %ld, errors met at %ld", i, N, R, T);
    if (T <= R / 2 && N != R) c.fail("point %d: %ld trials instead of %ld, errors met at %ld", i, N, R, T);
    if (T > R / 2) { nt = true; c.label("errors late"); }
  }
  c.nontrivial(nt);
}

SUB("C19", "controls_of_large_counts", "plain", 20000, 1200000, "a request above a million trials was increased") {
  // Requested numbers of trials over the whole range of int, changed between short slices.
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  Setup u; gen_code(s, u);
  u.vt = s.coin();
  int m = (int)s.i(1, 3);
  u.snr = distinct_snrs(s, m); m = (int)u.snr.size();
  auto big = [&]() -> long { return s.chance(1, 4) ? 2147483647L - s.small(0, 1000) : s.chance(1, 3) ? s.i(1, 2147483647L) : (long)std::pow(2.0, s.real(0, 31)) - 1; };
  for (int i = 0; i < m; i++) u.trn.push_back(std::max(1L, big()));
  if (s.coin()) u.min_trn = std::max(1L, big());
  if (s.chance(1, 3)) u.min_err = std::max(1L, big());
  double perr = s.oneof({0.0, 0.3, 1.0});
  int er = (int)s.draw(2);   // failures with or without an erasure
  Script sc; sc.n = u.n; sc.k = u.k;
  long errs = 0;
  sc.decide = [&](const Bits &, const double *, double, Bits &xd) {
    if ((double)(mix(77 * sc.decs + 5) >> 11) / 9007199254740992.0 < perr) { xd[0] ^= 1; errs++; return er; }
    return 0;
  };
  fresh_dir();
  write_file("p.spf", u.text());
  c.note("%s n=%d k=%d errors %g:", u.text().c_str(), u.n, u.k, perr);
  install_script(A, &sc); install_vtime(A);
  struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } } clr{A};
  g_vtime = 1000;
  srand(1);
  Sim sim(A, "p.spf", -1);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  bool nt = false;
  int steps = (int)s.i(1, 40);
  for (int it = 0; it < steps; it++) {
    int rc = sim.run();
    if (rc == 0) break;
    if (rc != SIM_NOT_COMPLETED) c.fail("return code %d", rc);
    State st;
    if (!parse_state(sim.state(), st)) c.fail("state '%s'", sim.state().c_str());
    if (st.i == 1 && st.trn != it + 1) c.fail("%d trials were run: '%s'", it + 1, sim.state().c_str());
    if (it == 0 && u.req(0) > 2 && st.req != u.req(0)) c.fail("%ld trials requested, the state shows '%s'", u.req(0), sim.state().c_str());
    if (!s.chance(1, 2)) continue;
    int code = s.weighted({6, 2, 1}) + 1;
    A.control(sim.inst, code);
    State a; if (!parse_state(sim.state(), a)) c.fail("state after a control");
    long want = code == SIM_MORE ? std::min(st.req + st.req / 2, 2147483647L) : code == SIM_LESS ? std::max(st.req - st.req / 3, st.trn) : st.trn;
    c.note(" %d@%ld", code, st.trn);
    if (a.req != want || a.trn != st.trn || a.i != st.i) c.fail("control %d: %ld trials requested, %ld afterwards, expected %ld", code, st.req, a.req, want);
    if (code == SIM_MORE && st.req > 1000000) nt = true;
  }
  c.nontrivial(nt);
}

SUB("C19", "many_trials", "plain", 12, 720, "more than a million trials were run") {
  // Millions of trials of a point, some more than numbers of single precision tell apart.
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  Setup u; u.n = 2; u.k = (int)s.i(1, 2); u.vt = s.coin(); u.snr = {gen_snr(s)};
  long big = s.chance(1, 3) ? (1L << 24) + s.i(1, 9) : s.i(1000000, 6000000), small = s.small(1, 1000);
  bool by_err = s.coin();
  long R = by_err ? small : big, period = by_err ? (big > 10000000 ? 1 : s.i(1, 3)) : s.i(1, 5);
  if (u.vt) u.trn.push_back(R); else u.min_trn = R;
  u.min_err = by_err ? std::max(1L, big / period) : small;
  if (by_err && big > 10000000) u.min_err = big;
  Script sc; sc.n = u.n; sc.k = u.k;
  long N = 0, en = 0, T = 0, E = u.errs();
  sc.decide = [&](const Bits &, const double *, double, Bits &xd) {
    N++;
    if (N % period == 0) { xd[0] ^= 1; if (++en == E) T = N; }
    return 0;
  };
  fresh_dir();
  write_file("p.spf", u.text());
  c.note("%s every %ldth word is wrong", u.text().c_str(), period);
  install_script(A, &sc); install_vtime(A);
  struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } } clr{A};
  g_vtime = 1000;
  srand(1);
  Sim sim(A, "p.spf", 1000000);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  if (sim.run() != 0) c.fail("not completed");
  if (N < R) c.fail("%ld trials, %ld requested", N, R);
  if (en < E) c.fail("%ld errors of at least %ld in %ld trials", en, E, N);
  if (N > 2 * std::max(R, T) + 2) c.fail("%ld trials, requested %ld, errors met at %ld", N, R, T);
  if (T <= R / 2 && N != R) c.fail("%ld trials instead of %ld, errors met at %ld", N, R, T);
  State st;
  if (!parse_state(sim.state(), st)) c.fail("state '%s'", sim.state().c_str());
  c.nontrivial(N > 1000000);
}

// ----------------------------------------------------------------- C20

namespace {
struct Tally {
  std::vector<Point> pt;
  bool tie = false;
};
std::string cmp_results(const Results &r, const Setup &u, const std::vector<Point> &pt) {
  std::map<double, Point> want;
  for (size_t i = 0; i < u.snr.size(); i++) if (pt[i].trn > 0) { auto &w = want[u.db(i)]; w = w + pt[i]; }
  if (!r.ok) return "results file: " + r.why;
  if (r.n != u.n || r.k != u.k) return strf("code_n %ld code_k %ld", r.n, r.k);
  if (r.snr.size() != want.size()) return strf("%zu points, expected %zu", r.snr.size(), want.size());
  size_t i = 0;
  for (auto &w : want) {
    if (r.snr[i] != w.first) return strf("SNR %.17g, expected %.17g", r.snr[i], w.first);
    if (!(r.pt[i] == w.second)) return strf("SNR %g: %s, expected %s", w.first, r.pt[i].str().c_str(), w.second.str().c_str());
    i++;
  }
  return check_rates(r);
}
}  // namespace

SUB("C20", "counts", "plain", 160000, 9600000, "word errors occurred, and erasures or ML-bound events if they could") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  Setup u; gen_code(s, u);
  u.snr = distinct_snrs(s, (int)s.small(1, 6));
  int m = (int)u.snr.size();
  u.vt = s.coin();
  for (int i = 0; i < m; i++) u.trn.push_back(s.small(1, 120));
  u.min_trn = s.small(1, 60); u.min_err = s.small(1, 12);
  // Long words with up to all information bits wrong.
  bool lng = s.chance(1, 60);
  if (lng) {
    u.n = 2 * (int)(s.chance(1, 12) ? s.i(32768, 40000) : s.i(64, 2048)); u.k = u.n - (int)s.i(0, 4);
    m = std::min(m, 2); u.snr.resize(m); u.trn.resize(m);
    for (auto &x : u.trn) x = s.small(1, 6);
    u.min_trn = s.small(1, 6); u.min_err = s.small(1, 3);
    c.label("long words");
  }
  u.rnd = s.coin();
  int mlm = (int)s.weighted({1, 4, 3, 1});
  u.ml = mlm == 1 || mlm == 3; u.hard = mlm >= 2;
  bool ml = u.ml || u.hard;
  double pe = s.real(0.05, 0.9), per = s.chance(2, 3) ? s.real(0.02, 0.6) : 0, pf = s.chance(1, 4) ? 0.05 : 0;
  Rng r = s.bulk();
  std::vector<Point> pt(m);
  bool tie = false; int cur = 0;
  std::string err;
  Script sc; sc.n = u.n; sc.k = u.k; sc.rndcw = u.rnd;
  sc.decide = [&](const Bits &x, const double *y, double sg, Bits &xd) {
    for (int j = 0; j < m; j++) if (std::fabs(sg - sigma_of(u.rate(), u.db(j))) <= 1e-12 * sg) cur = j;
    if (u.rnd && !sc.enc_since_dec) err = "no word was encoded";
    if (pf > 0 && r.u() < pf) { for (int &b : xd) b = r.next() & 1; return -1; }
    Point &p = pt[cur];
    p.trn++;
    if (r.u() < pe || p.trn > 3000) switch (lng ? 4 + r.below(3) : r.below(4)) {
      case 4: case 5: { // numbers of errors around powers of two
        static const int cnt[] = {1, 2, 127, 128, 255, 256, 257, 512, 768, 1024, 32767, 32768, 65535, 65536, 65792};
        int e = cnt[r.below(15)]; while (e > u.k) e = cnt[r.below(15)];
        for (int q = 0; q < e; q++) xd[u.k - 1 - q] ^= 1;
        break; }
      case 6: for (int &b : xd) b ^= 1; break;
      case 0: xd[r.below(u.k)] ^= 1; break;
      case 1: for (int &b : xd) b ^= 1; break;
      case 2: for (int &b : xd) b = r.next() & 1; break;
      case 3: { // the closest of a few words
        Bits best = xd; double bd = 1e300;
        for (int q = 0; q < 6; q++) { Bits z = x; if (q) for (int &b : z) if (r.below(3) == 0) b ^= 1; Bits w = sc.code(z); double d = 0; for (int j = 0; j < u.n; j++) d += std::pow((w[j] ? 1 : -1) - y[j], 2); if (d < bd) { bd = d; best = z; } }
        xd = best; break; }
    }
    int rc = r.u() < per ? 1 : 0;
    int e = 0; for (int j = 0; j < u.k; j++) e += xd[j] != x[j];
    if (e) { p.en_bl++; p.en_bit += e; }
    if (rc == 1) p.er++;
    if (ml && rc == 0) {
      p.ml_trn++;
      Bits a = sc.code(x), b = sc.code(xd);
      double d1 = 0, d2 = 0;
      for (int j = 0; j < u.n; j++) {
        double v = u.hard ? (y[j] > 0 ? 1.0 : -1.0) : y[j];
        d1 += std::pow((a[j] ? 1 : -1) - v, 2); d2 += std::pow((b[j] ? 1 : -1) - v, 2);
      }
      if (d1 > d2) p.enml++;
      if (a != b && !u.hard && std::fabs(d1 - d2) < 1e-9 * (d1 + d2)) tie = true;
    }
    return rc;
  };
  fresh_dir();
  write_file("p.spf", u.text());
  c.note("%s n=%d k=%d pe=%.2f per=%.2f pf=%.2f", u.text().c_str(), u.n, u.k, pe, per, pf);
  install_script(A, &sc); install_vtime(A);
  struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } } clr{A};
  srand((unsigned)s.draw(1 << 16));
  int ri = s.coin() ? -1 : 1000000;
  Sim sim(A, "p.spf", ri);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  int rc, nfail = 0;
  for (long it = 0; (rc = sim.run()) != 0; it++) {
    if (!err.empty()) c.fail("%s", err.c_str());
    if (rc == -1) { if (pf == 0 || ++nfail > 100000) c.fail("the simulation failed"); }
    else if (rc != SIM_NOT_COMPLETED) c.fail("return code %d", rc);
    if (it % 7 == 0 || rc == -1) {
      State st; if (!parse_state(sim.state(), st)) c.fail("state '%s'", sim.state().c_str());
      Point &p = pt[st.i - 1];
      if (st.trn != p.trn || st.en != p.en_bl || (st.has_ml != ml) || (ml && !tie && st.ml != p.enml)) c.fail("state '%s', happened: %s", sim.state().c_str(), p.str().c_str());
    }
    if (it % 50 == 49) {
      if (sim.save() != 0) c.fail("not saved: %s", A.ui_text());
      if (tie) return;
      std::string w = cmp_results(parse_results(read_file("res.srf")), u, pt);
      if (!w.empty()) c.fail("after %ld slices: %s", it + 1, w.c_str());
    }
    if (it > 200000) c.fail("does not complete");
  }
  if (tie) { c.label("tie of distances, not judged"); return; }
  if (sim.save() != 0) c.fail("not saved: %s", A.ui_text());
  std::string w = cmp_results(parse_results(read_file("res.srf")), u, pt);
  if (!w.empty()) c.fail("%s", w.c_str());
  Point all; for (auto &p : pt) all = all + p;
  if (nfail) c.label("failed trials");
  c.nontrivial(all.en_bl > 0 && (ml || per > 0) && (all.er > 0 || per == 0) && (all.enml > 0 || !ml || u.k > 4));
}

SUB("C20", "many_trials", "plain", 16, 960, "more than a million trials, errors and erasures were counted") {
  // Millions of events of every kind, some more than numbers of single precision tell apart.
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  Setup u; u.n = 2; u.k = (int)s.i(1, 2); u.vt = s.coin();
  u.snr = distinct_snrs(s, (int)s.i(1, 2));
  int m = (int)u.snr.size();
  bool huge = s.chance(1, 2);
  u.min_trn = u.min_err = 1;
  for (int i = 0; i < m; i++) u.trn.push_back(huge && i == 0 ? (1L << 24) + s.i(1, 9) : s.i(1000000, 3000000));
  if (!u.vt) { u.min_trn = u.trn[0]; if (huge) { m = 1; u.snr.resize(1); u.trn.resize(1); } }
  u.rnd = s.coin(); u.ml = s.coin();
  // Nearly every trial is an error, or an erasure, or both.
  int what = (int)s.draw(3);
  uint32_t rare = (uint32_t)s.i(2, 1000);
  Rng r = s.bulk();
  std::vector<Point> pt(m);
  bool tie = false; int cur = 0; double last = 0;
  Script sc; sc.n = u.n; sc.k = u.k; sc.rndcw = u.rnd;
  sc.decide = [&](const Bits &x, const double *y, double sg, Bits &xd) {
    if (sg != last) { last = sg; for (int j = 0; j < m; j++) if (std::fabs(sg - sigma_of(u.rate(), u.db(j))) <= 1e-12 * sg) cur = j; }
    Point &p = pt[cur];
    p.trn++;
    bool e = what != 1, er = what != 0;
    if (r.below(rare) == 0) e = !e;
    if (r.below(rare) == 0) er = !er;
    if (e) { for (int &b : xd) b ^= 1; p.en_bl++; p.en_bit += u.k; }
    if (er) p.er++;
    if (u.ml && !er) {
      p.ml_trn++;
      if (e) {
        Bits a = sc.code(x), b = sc.code(xd);
        double d1 = 0, d2 = 0;
        for (int j = 0; j < u.n; j++) { d1 += std::pow((a[j] ? 1 : -1) - y[j], 2); d2 += std::pow((b[j] ? 1 : -1) - y[j], 2); }
        if (d1 > d2) p.enml++;
        if (a != b && std::fabs(d1 - d2) < 1e-9 * (d1 + d2)) tie = true;
      }
    }
    return er ? 1 : 0;
  };
  fresh_dir();
  write_file("p.spf", u.text());
  c.note("%s kind %d, rare 1/%u", u.text().c_str(), what, rare);
  install_script(A, &sc); install_vtime(A);
  struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } } clr{A};
  g_vtime = 1000;
  srand((unsigned)s.draw(1 << 16));
  Sim sim(A, "p.spf", 1000000);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  if (sim.run() != 0) c.fail("not completed");
  Point all; for (auto &p : pt) all = all + p;
  c.nontrivial(all.trn > 1000000 && all.en_bl > 0 && all.er > 0);
  if (sim.save() != 0) c.fail("not saved: %s", A.ui_text());
  if (tie) { c.label("tie of distances, not judged"); return; }
  std::string w = cmp_results(parse_results(read_file("res.srf")), u, pt);
  if (!w.empty()) c.fail("%s", w.c_str());
}

// Real codecs: relations between the counts.
static void relations(Ctx &c, int codec) {
  Src &s = c.src;
  SimApi &A = sim_api(std::string("sim_") + codec_name[codec]);
  CfgLim l; l.mmax = 4; l.Lmax = 6;
  Cfg f = gen_cfg(c, codec, l);
  std::string t = "res_file res.srf random_codeword on ml_lb on min_trials_per_snr " + std::to_string(s.small(1, 200)) + " EbNo_values { " + gen_snr(s) + " }\n";
  for (auto &w : f.tokens()) t += w + " ";
  fresh_dir(); write_file("p.spf", t);
  c.note("%s", t.substr(0, 300).c_str());
  install_vtime(A);
  struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } } clr{A};
  srand((unsigned)s.draw(1 << 16));
  Sim sim(A, "p.spf", -1);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  long it = 0;
  while (sim.run() == SIM_NOT_COMPLETED && it++ < 3000) {}
  if (sim.save() != 0) c.fail("not saved");
  Results r = parse_results(read_file("res.srf"));
  if (!r.ok || r.pt.size() != 1) c.fail("results: %s", r.why.c_str());
  Point p = r.pt[0];
  if (r.n != f.n() || r.k != f.k()) c.fail("code_n %ld code_k %ld", r.n, r.k);
  if (p.en_bl > p.trn || p.en_bit < p.en_bl || p.en_bit > p.en_bl * f.k() || p.er > p.trn || p.ml_trn != p.trn - p.er || p.enml > p.en_bl) c.fail("impossible counts: %s", p.str().c_str());
  if (p.er && f.crc.empty()) c.fail("erasures without a CRC: %s", p.str().c_str());
  c.nontrivial(p.en_bl > 0);
}
SUB("C20", "relations", "plain", 40000, 2400000, "a word error occurred") { relations(c, (int)c.src.draw(4)); }

// ----------------------------------------------------------------- C21

namespace {
// A good generator behind rand(): the one of the C library is correlated at distances 3 and 31.
Rng g_rand; long g_rands;
int good_rand() { g_rands++; return (int)(g_rand.next() % ((u64)RAND_MAX + 1)); }
void good_srand(unsigned x) { g_rand = Rng(mix(x)); }
}

// own: the simulator built without USE_STDLIB_RND.
static void channel(Ctx &c, bool own) {
  Src &s = c.src;
  bool csn = !own && s.coin(), lng = false;
  SimApi &A = sim_api(own ? "sim_ownrnd" : csn ? "sim_csnrn" : "sim");
  Setup u; gen_code(s, u);
  u.snr = distinct_snrs(s, (int)s.small(1, 5));
  int m = (int)u.snr.size();
  if (s.chance(1, 3) && m > 1) u.snr[m - 1] = u.snr[0];   // the same SNR again
  u.vt = true;
  if (s.chance(1, 40)) { u.n = 2 * (int)s.i(8, 1024); u.k = (int)s.i(1, u.n); lng = true; c.label("long words"); }
  long per = lng ? s.i(1, 20) : s.chance(1, 3) ? s.i(400, 4000) : s.i(1, 400);
  for (int i = 0; i < m; i++) u.trn.push_back(per);
  u.rnd = s.coin(); u.ml = s.coin();
  if (u.rnd && s.chance(1, 6)) u.hard = true;
  if (s.chance(1, 3)) u.fixedR = s.oneof({0.5, 0.25, 1.0, 0.1, 1.7, 2.0, 3.5});
  std::vector<double> z;          // normalised noise
  std::vector<int> bits, sent;    // information and code bits
  std::string bad;
  std::vector<int> cnt(m, 0);
  int pt = 0; long inpt = 0;
  double last_sg = -1; long sgcalls = 0;
  Script sc; sc.n = u.n; sc.k = u.k; sc.rndcw = u.rnd;
  sc.on_sg = [&](double sg) { sgcalls++; last_sg = sg; };
  sc.decide = [&](const Bits &x, const double *y, double sg, Bits &xd) {
    if (inpt >= per && pt + 1 < m) { pt++; inpt = 0; }
    inpt++;
    double want = sigma_of(u.rate(), u.db(pt));
    if (std::fabs(sg - want) > 1e-9 * want && bad.empty()) bad = strf("trial %ld of point %d: the decoder was told sigma %.15g, expected %.15g", inpt, pt, sg, want);
    if (csn && sc.csnrn != pt && bad.empty()) bad = strf("the decoder was told SNR number %d at point %d", sc.csnrn, pt);
    if (u.rnd && !sc.enc_since_dec && bad.empty()) bad = "no word was encoded for this trial";
    Bits w = sc.code(x);
    if (!u.rnd) for (int &b : w) b = 0;
    for (int j = 0; j < u.n; j++) z.push_back((y[j] - (w[j] ? 1.0 : -1.0)) / want);
    if (u.rnd) { bits.insert(bits.end(), x.begin(), x.end()); sent.insert(sent.end(), w.begin(), w.end()); }
    xd[0] ^= 1;      // the errors are met at once
    return 0;
  };
  fresh_dir(); write_file("p.spf", u.text());
  c.note("%s n=%d k=%d", u.text().c_str(), u.n, u.k);
  install_script(A, &sc); install_vtime(A);
  struct Clr { SimApi &a; ~Clr() { clear_hooks(a); } } clr{A};
  A.hooks->rand_fn = good_rand; A.hooks->srand_fn = good_srand;
  good_srand((unsigned)s.draw(1 << 30)); g_rands = 0;
  if (own) g_vtime = 1 + s.i(0, 2147483000);
  Sim sim(A, "p.spf", s.coin() ? -1 : 100000, own ? 0 : 1);
  if (!sim.ok()) c.fail("not initialised: %s", A.ui_text());
  int rc; while ((rc = sim.run()) == SIM_NOT_COMPLETED) {}
  if (rc) c.fail("return code %d", rc);
  if (!bad.empty()) c.fail("%s", bad.c_str());
  size_t N = z.size();
  c.nontrivial(N >= 2000);
  double m1 = 0, m2 = 0, m3 = 0, m4 = 0, ac1 = 0, acn = 0, mx = 0;
  for (size_t i = 0; i < N; i++) {
    double v = z[i]; m1 += v; m2 += v * v; m3 += v * v * v; m4 += v * v * v * v; mx = std::max(mx, std::fabs(v));
    if (i) ac1 += v * z[i - 1];
    if (i >= (size_t)u.n) acn += v * z[i - u.n];
  }
  double q = std::sqrt((double)N), L = 6.2, slack = g_rands ? 0 : 0.04 * q;
  if (std::fabs(m1) / q > L) c.fail("mean of the normalised noise %g over %zu samples", m1 / N, N);
  if (N >= 200 && std::fabs(m2 / N - 1) * q / std::sqrt(2.0) > (N > 2000 ? L : 8)) c.fail("variance of the normalised noise %g over %zu samples", m2 / N, N);
  if (N >= 4000 && std::fabs(m4 / N - 3) * q / std::sqrt(96.0) > 9) c.fail("4th moment of the normalised noise %g over %zu samples", m4 / N, N);
  if (N >= 1000 && std::fabs(m3 / N) * q / std::sqrt(15.0) > 8) c.fail("3rd moment of the normalised noise %g over %zu samples", m3 / N, N);
  if (N >= 500 && std::fabs(ac1) / q > 7 + slack) c.fail("noise samples are correlated: %g over %zu", ac1 / N, N);
  if (N >= 500 && std::fabs(acn) / q > 7 + slack) c.fail("noise samples are correlated at the distance of the word length: %g over %zu", acn / N, N);
  if (!(mx < 8)) c.fail("noise sample of %g sigma", mx);
  // Any other distance, of the samples and of their magnitudes.
  for (int q2 = 0; q2 < 3; q2++) {
    size_t lag = (size_t)(q2 ? s.i(2, 250) : s.i(2, 6));
    if (N < 500 + lag) continue;
    double a = 0, b = 0;
    for (size_t i = lag; i < N; i++) { a += z[i] * z[i - lag]; b += (z[i] * z[i] - 1) * (z[i - lag] * z[i - lag] - 1); }
    if (std::fabs(a) / q > 7 + slack) c.fail("noise samples are correlated at distance %zu: %g over %zu", lag, a / N, N);
    if (N >= 4000 && std::fabs(b) / (2 * q) > 14) c.fail("magnitudes of noise samples are correlated at distance %zu: %g over %zu", lag, b / N, N);
  }
  // The noise does not depend on the word.
  if (u.rnd && N >= 500 && sent.size() == N) {
    double a = 0, v = 0; for (size_t i = 0; i < N; i++) { int w = sent[i] ? 1 : -1; a += w * z[i]; v += w * (z[i] * z[i] - 1); }
    if (std::fabs(a) / q > 7) c.fail("noise is correlated with the sent symbols: %g over %zu", a / N, N);
    if (std::fabs(v) / (q * std::sqrt(2.0)) > 8) c.fail("the variance of the noise depends on the sent symbols: %g over %zu", v / N, N);
  }
  // Even and odd positions, and the distribution.
  std::vector<double> o = z; std::sort(o.begin(), o.end());
  double D = 0;
  for (size_t i = 0; i < N; i++) { double F = 0.5 * std::erfc(-o[i] / std::sqrt(2.0)); D = std::max(D, std::max(std::fabs(F - (double)i / N), std::fabs(F - (double)(i + 1) / N))); }
  if (D * q > 3.4) c.fail("the noise is not Gaussian: Kolmogorov-Smirnov distance %g over %zu samples", D, N);
  for (int par = 0; par < 2; par++) {
    double v2 = 0; size_t k = 0; for (size_t i = par; i < N; i += 2) { v2 += z[i] * z[i]; k++; }
    if (k >= 200 && std::fabs(v2 / k - 1) * std::sqrt(k / 2.0) > 8) c.fail("variance at %s positions %g", par ? "odd" : "even", v2 / k);
  }
  if (N >= 200) { size_t dup = 0; for (size_t i = 1; i < N; i++) dup += o[i] == o[i - 1]; if (dup > N / 20) c.fail("%zu of %zu noise samples are repeated", dup, N); }
  if (bits.size() >= 40) {
    double b = 0, p = 0; size_t nb = bits.size();
    for (size_t i = 0; i < nb; i++) { b += bits[i] ? 1 : -1; if (i) p += bits[i] == bits[i - 1] ? 1 : -1; if (bits[i] != 0 && bits[i] != 1) c.fail("information symbol %d", bits[i]); }
    if (std::fabs(b) / std::sqrt((double)nb) > 6.2) c.fail("%g of the information bits are ones", (b / nb + 1) / 2);
    if (std::fabs(p) / std::sqrt((double)nb) > 6.2) c.fail("information bits are correlated: %g", p / nb);
    // Bits at a distance: in the same word, in the next ones.
    for (int q2 = 0; q2 < 6; q2++) {
      size_t lag = q2 == 0 ? u.k : q2 == 1 ? 2 * u.k : (size_t)s.i(1, 4 * u.k);
      if (nb < lag + 40) continue;
      double a = 0; for (size_t i = lag; i < nb; i++) a += bits[i] == bits[i - lag] ? 1 : -1;
      if (std::fabs(a) / std::sqrt((double)(nb - lag)) > 6.5) c.fail("information bits at distance %zu are correlated: %g over %zu", lag, a / (nb - lag), nb);
    }
    // Two bits of a word, and its parity.
    if (nb / u.k >= 40) {
      size_t W = nb / u.k; double par = 0;
      for (size_t t = 0; t < W; t++) { int e = 0; for (int j = 0; j < u.k; j++) e ^= bits[t * u.k + j]; par += e ? 1 : -1; }
      if (std::fabs(par) / std::sqrt((double)W) > 6.5) c.fail("the parity of the information word is 1 with frequency %g over %zu", (par / W + 1) / 2, W);
      for (int q2 = 0; q2 < 4 && u.k > 1; q2++) {
        int a = (int)s.i(0, u.k - 2), b = (int)s.i(a + 1, u.k - 1); double w = 0;
        for (size_t t = 0; t < W; t++) w += bits[t * u.k + a] == bits[t * u.k + b] ? 1 : -1;
        if (std::fabs(w) / std::sqrt((double)W) > 6.5) c.fail("information bits %d and %d are equal with frequency %g over %zu", a, b, (w / W + 1) / 2, W);
      }
    }
    for (int j = 0; j < u.k; j++) { double w = 0; long t = 0; for (size_t i = j; i < nb; i += u.k) { w += bits[i] ? 1 : -1; t++; } if (std::fabs(w) / std::sqrt((double)t) > 6.5) c.fail("information bit %d is 1 with frequency %g", j, (w / t + 1) / 2); }
  }
}
SUB("C21", "channel", "plain", 60000, 3600000, "at least 2000 noise samples") { channel(c, false); }
SUB("C21", "own_generator", "plain", 12000, 720000, "at least 2000 noise samples") { channel(c, true); }

// Randomisation by time, and none with the option.
SUB("C21", "randomisation", "plain", 10000, 600000, "two simulations at different times") {
  Src &s = c.src;
  SimApi &A = sim_api("sim");
  Setup u; u.n = 8; u.k = 4; u.snr = {"1"}; u.trn = {20}; u.vt = true; u.rnd = s.coin();
  long t0 = 1600000000 + s.i(0, 100000000), dt = s.small(1, 100000);
  c.note("times %ld and %ld later", t0, dt);
  auto run = [&](long t, int nr, unsigned seed) {
    Vec all;
    Script sc; sc.n = u.n; sc.k = u.k; sc.rndcw = u.rnd;
    sc.decide = [&](const Bits &, const double *y, double, Bits &xd) { all.insert(all.end(), y, y + u.n); xd[0] ^= 1; return 0; };
    fresh_dir(); write_file("p.spf", u.text());
    install_script(A, &sc); install_vtime(A);
    g_vtime = t;
    srand(seed);
    Sim sim(A, "p.spf", 100000, nr);
    if (!sim.ok() || sim.run() != 0) { clear_hooks(A); c.fail("the simulation failed"); }
    clear_hooks(A);
    return all;
  };
  unsigned sd = (unsigned)s.draw(1 << 20);
  Vec a = run(t0, 0, sd), b = run(t0 + dt, 0, sd);
  size_t same = 0; for (size_t i = 0; i < a.size() && i < b.size(); i++) same += a[i] == b[i];
  if (a.size() != b.size() || same > a.size() / 4) c.fail("runs at different times have %zu of %zu equal received values", same, a.size());
  Vec d = run(t0, 1, sd), e = run(t0 + dt, 1, sd);
  if (d != e) c.fail("without randomisation the runs differ");
  c.nontrivial();
}
