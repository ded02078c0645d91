#include "sim.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
#include <sstream>
using namespace pbt;

SimApi &sim_api(const std::string &lib) {
  static std::map<std::string, std::unique_ptr<SimApi>> m;
  auto &p = m[lib];
  if (!p) {
    p.reset(new SimApi);
    auto g = [&](const char *s, bool need = true) {
      void *x = lib_sym(lib, s);
      if (!x && need) { fprintf(stderr, "%s: no %s\n", lib.c_str(), s); _Exit(77); }
      return x;
    };
    SimApi &a = *p;
    a.init = (int (*)(SimInitParams *, void **))g("sim_init");
    a.close = (void (*)(void *))g("sim_close");
    a.run = (int (*)(void *))g("sim_run");
    a.state_str = (void (*)(void *, char *))g("sim_state_str");
    a.cur_res_str = (void (*)(void *, char *))g("sim_cur_res_str");
    a.save = (int (*)(void *))g("sim_save_res");
    a.control = (void (*)(void *, int))g("sim_control");
    a.ui_errs = (int (*)())g("ecv_ui_errs");
    a.ui_msgs = (int (*)())g("ecv_ui_msgs");
    a.ui_text = (const char *(*)())g("ecv_ui_text");
    a.ui_reset = (void (*)())g("ecv_ui_reset");
    a.hooks = (SimHooks *)g("ecv_hooks");
    a.stub = (StubHooks *)g("ecv_stub", false);
  }
  return *p;
}

// ----- Files.

std::string read_file(const std::string &p, bool *ok) {
  FILE *f = fopen(p.c_str(), "rb");
  if (ok) *ok = f != nullptr;
  std::string s;
  if (!f) return s;
  char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
void write_file(const std::string &p, const std::string &s) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); _Exit(76); }
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
bool exists(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
std::vector<std::string> list_dir(const std::string &p) {
  std::vector<std::string> v;
  DIR *d = opendir(p.c_str());
  if (!d) return v;
  while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
  closedir(d);
  std::sort(v.begin(), v.end());
  return v;
}
static void wipe(const std::string &d) {
  for (auto &n : list_dir(d)) {
    std::string p = d + "/" + n; struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0755); wipe(p); rmdir(p.c_str()); }
    else unlink(p.c_str());
  }
}
std::string fresh_dir() {
  std::string d = scratch() + "/w";
  mkdir(d.c_str(), 0755);
  if (d.find("/ecv.") == std::string::npos) _Exit(76);
  wipe(d);
  if (chdir(d.c_str())) _Exit(76);
  return d;
}

// ----- Results files.

Results parse_results(const std::string &text) {
  Results r;
  std::map<std::string, std::vector<std::string>> g;
  std::map<std::string, int> seen;
  std::istringstream in(text);
  std::string line;
  std::string plain;
  while (std::getline(in, line)) {
    size_t c = line.find('%');
    if (c != std::string::npos) {
      std::istringstream ls(line.substr(c + 1)); std::string w; std::vector<std::string> row;
      while (ls >> w) row.push_back(w);
      if (!row.empty() && row[0] != "SNR") r.table.push_back(row);
      line.resize(c);
    }
    plain += line + "\n";
  }
  std::istringstream ts(plain);
  std::string k, w;
  while (ts >> k) {
    if (!(ts >> w)) { r.why = "no value of " + k; return r; }
    if (seen[k]++) { r.why = "second " + k; return r; }
    if (w == "{") {
      std::vector<std::string> v;
      bool end = false;
      while (ts >> w) { if (w == "}") { end = true; break; } v.push_back(w); }
      if (!end) { r.why = "no end of " + k; return r; }
      g[k] = v;
    }
    else g[k] = {w};
  }
  auto num = [&](const std::string &s, long &o) { char *e; o = strtol(s.c_str(), &e, 10); return !s.empty() && !*e; };
  for (const char *key : {"code_n", "code_k", "SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "WER", "ERR", "ml_tr_num", "enml_bl", "MLER"})
    if (!g.count(key)) { r.why = std::string("no ") + key; return r; }
  if (!num(g["code_n"][0], r.n) || !num(g["code_k"][0], r.k)) { r.why = "code parameters"; return r; }
  for (auto &s : g["SNR"]) { char *e; double d = strtod(s.c_str(), &e); if (*e || s.empty()) { r.why = "SNR " + s; return r; } r.snr.push_back(d); }
  size_t m = r.snr.size();
  r.pt.resize(m);
  struct { const char *k; long Point::*f; } fl[] = {{"tr_num", &Point::trn}, {"en_bit", &Point::en_bit}, {"en_bl", &Point::en_bl}, {"erasures_num", &Point::er}, {"ml_tr_num", &Point::ml_trn}, {"enml_bl", &Point::enml}};
  for (auto &f : fl) {
    auto &v = g[f.k];
    if (v.size() != m) { r.why = std::string("length of ") + f.k; return r; }
    for (size_t i = 0; i < m; i++) if (!num(v[i], r.pt[i].*f.f)) { r.why = std::string("number in ") + f.k; return r; }
  }
  r.wer = g["WER"]; r.err = g["ERR"]; r.mler = g["MLER"];
  r.ok = true;
  return r;
}
static bool rate_is(const std::string &s, double num, double den) {
  double want = den > 0 ? num / den : 0;
  char *e; double v = strtod(s.c_str(), &e);
  if (s.empty() || *e) return false;
  // Four significant digits.
  return std::fabs(v - want) <= 0.000501 * std::fabs(want);
}
std::string check_rates(const Results &r) {
  size_t m = r.snr.size();
  if (r.wer.size() != m || r.err.size() != m || r.mler.size() != m) return "lengths of the lists of rates";
  if (r.table.size() != m) return strf("%zu rows of the table, %zu points", r.table.size(), m);
  for (size_t i = 0; i < m; i++) {
    const Point &p = r.pt[i];
    if (!rate_is(r.wer[i], p.en_bl, p.trn)) return strf("WER %s of %s", r.wer[i].c_str(), p.str().c_str());
    if (!rate_is(r.err[i], p.er, p.trn)) return strf("ERR %s of %s", r.err[i].c_str(), p.str().c_str());
    if (!rate_is(r.mler[i], p.enml, p.ml_trn)) return strf("MLER %s of %s", r.mler[i].c_str(), p.str().c_str());
    auto &t = r.table[i];
    if (t.size() != 5) return strf("row %zu of the table", i);
    if (std::fabs(atof(t[0].c_str()) - r.snr[i]) > 0.0051 + 1e-9 * std::fabs(r.snr[i])) return strf("SNR %s in the table", t[0].c_str());
    if (!rate_is(t[1], p.en_bit, (double)p.trn * r.k)) return strf("BER %s in the table, k=%ld %s", t[1].c_str(), r.k, p.str().c_str());
    if (!rate_is(t[2], p.en_bl, p.trn)) return strf("WER %s in the table, %s", t[2].c_str(), p.str().c_str());
    if (!rate_is(t[3], p.er, p.trn)) return strf("ERR %s in the table, %s", t[3].c_str(), p.str().c_str());
    if (!rate_is(t[4], p.enml, p.ml_trn)) return strf("ML LB %s in the table, %s", t[4].c_str(), p.str().c_str());
  }
  return "";
}
std::string format_results(long n, long k, const std::vector<std::pair<double, Point>> &v) {
  std::string s = strf("code_n %ld\ncode_k %ld\n\nSNR { ", n, k);
  for (auto &p : v) s += strf("%.15g ", p.first);
  s += "}\n";
  struct { const char *k; long Point::*f; } fl[] = {{"tr_num", &Point::trn}, {"en_bit", &Point::en_bit}, {"en_bl", &Point::en_bl}, {"erasures_num", &Point::er}, {"ml_tr_num", &Point::ml_trn}, {"enml_bl", &Point::enml}};
  for (auto &f : fl) {
    s += std::string(f.k) + " { ";
    for (auto &p : v) s += strf("%ld ", p.second.*f.f);
    s += "}\n";
  }
  return s;
}

// ----- The stub codec.

Script *g_script;
Bits Script::code(const Bits &x) const {
  Bits w(n, 0);
  for (int i = 0; i < k && i < n; i++) w[i] = x[i];
  for (int j = k; j < n; j++) {
    int b = 0;
    for (int i = 0; i < k; i++) b ^= x[i] & (int)(mix((u64)j * 1009 + i) & 1);
    w[j] = b;
  }
  return w;
}
static int st_init(char *, void **c) { if (g_script->init_rc) return g_script->init_rc; *c = g_script; g_script->open++; return 0; }
static int st_n(void *) { return g_script->n; }
static int st_k(void *) { return g_script->k; }
static void st_sg(void *, double s) { g_script->sg = s; if (g_script->on_sg) g_script->on_sg(s); }
static void st_csnrn(void *, int n) { g_script->csnrn = n; }
static int st_enc(void *, int *x, double *y) {
  Script &s = *g_script;
  s.last_enc.assign(x, x + s.k); s.enc_since_dec = true; s.encs++;
  Bits w = s.code(s.last_enc);
  for (int j = 0; j < s.n; j++) y[j] = w[j] ? 1.0 : -1.0;
  return 0;
}
static int st_dec(void *, double *y, int *xd) {
  Script &s = *g_script;
  Bits x(s.k, 0);
  if (s.rndcw && s.last_enc.size()) x = s.last_enc;
  s.decs++;
  Bits d = x;
  int rc = s.decide ? s.decide(x, y, s.sg, d) : 0;
  for (int i = 0; i < s.k; i++) xd[i] = d[i];
  if (s.seen) s.seen(x, y, s.sg, d, rc);
  s.enc_since_dec = false;
  return rc;
}
static void st_close(void *) { g_script->open--; }
void install_script(SimApi &a, Script *s) {
  g_script = s;
  *a.stub = {st_init, st_n, st_k, st_sg, st_csnrn, st_enc, st_dec, st_close};
}
long g_vtime;
static time_t vt() { return (time_t)g_vtime; }
static clock_t vclock() { static clock_t c; return c += 700; }
void install_vtime(SimApi &a) { a.hooks->time_fn = vt; a.hooks->clock_fn = vclock; }
void clear_hooks(SimApi &a) { memset(a.hooks, 0, sizeof *a.hooks); }

Sim::Sim(SimApi &a_, const std::string &spf, int ret_int, int nr) : a(a_) {
  std::vector<char> b(spf.begin(), spf.end()); b.push_back(0);
  SimInitParams p; p.spf_name = b.data(); p.ret_int = ret_int; p.dont_randomize = nr;
  a.ui_reset();
  rc = a.init(&p, &inst);
}
Sim::~Sim() { if (ok()) a.close(inst); }
std::string Sim::state() { static char b[1 << 16]; memset(b, 0, 16); a.state_str(inst, b); return b; }
std::string Sim::res() { static char b[1 << 18]; memset(b, 0, 16); a.cur_res_str(inst, b); return b; }

bool parse_state(const std::string &s, State &o) {
  o.ml = 0; o.has_ml = true;
  if (sscanf(s.c_str(), "SNR: %lf (%ld / %ld), trn: %ld / %ld, en: %ld, ML en: %ld.", &o.snr, &o.i, &o.num, &o.trn, &o.req, &o.en, &o.ml) == 7) return true;
  o.has_ml = false;
  return sscanf(s.c_str(), "SNR: %lf (%ld / %ld), trn: %ld / %ld, en: %ld.", &o.snr, &o.i, &o.num, &o.trn, &o.req, &o.en) == 6;
}
double sigma_of(double rate, double db) { return 1 / std::sqrt(2 * rate * std::pow(10, db / 10)); }
