// Access to the simulator under test, with scripted codec and intercepted library calls.
#pragma once
#include "codec.hpp"
#include <ctime>

enum { OP_FOPEN = 1, OP_FCLOSE, OP_REMOVE, OP_RENAME, OP_OPEN, OP_CLOSE, OP_MKDIR, OP_RMDIR, OP_LINK, OP_CLOCK, OP_UNLINK };
struct SimHooks {
  time_t (*time_fn)();
  clock_t (*clock_fn)();
  int (*rand_fn)();
  void (*srand_fn)(unsigned);
  int (*pre)(int op, const char *path, const char *mode);
  void (*post)(int op, const char *path, const char *mode, int ok);
};
struct StubHooks {
  int (*init)(char *, void **);
  int (*n)(void *);
  int (*k)(void *);
  void (*sg)(void *, double);
  void (*csnrn)(void *, int);
  int (*enc)(void *, int *, double *);
  int (*dec)(void *, double *, int *);
  void (*close)(void *);
};
struct SimInitParams { char *spf_name; int ret_int; int dont_randomize; };
enum { SIM_MORE = 1, SIM_LESS = 2, SIM_NEXT = 3, SIM_NOT_COMPLETED = 17 };

struct SimApi {
  int (*init)(SimInitParams *, void **);
  void (*close)(void *);
  int (*run)(void *);
  void (*state_str)(void *, char *);
  void (*cur_res_str)(void *, char *);
  int (*save)(void *);
  void (*control)(void *, int);
  int (*ui_errs)();
  int (*ui_msgs)();
  const char *(*ui_text)();
  void (*ui_reset)();
  SimHooks *hooks;
  StubHooks *stub;   // null for the real codecs
};
SimApi &sim_api(const std::string &lib);   // "sim", "sim_csnrn", "sim_dtrm0", ...

// ----- Files.
std::string read_file(const std::string &p, bool *ok = nullptr);
void write_file(const std::string &p, const std::string &s);
bool exists(const std::string &p);
std::vector<std::string> list_dir(const std::string &p);
// Makes an empty directory inside the scratch directory of this process and enters it.
std::string fresh_dir();

// ----- Results files.
struct Point {
  long trn = 0, en_bit = 0, en_bl = 0, er = 0, ml_trn = 0, enml = 0;
  bool operator==(const Point &o) const { return trn == o.trn && en_bit == o.en_bit && en_bl == o.en_bl && er == o.er && ml_trn == o.ml_trn && enml == o.enml; }
  Point operator+(const Point &o) const { Point p = *this; p.trn += o.trn; p.en_bit += o.en_bit; p.en_bl += o.en_bl; p.er += o.er; p.ml_trn += o.ml_trn; p.enml += o.enml; return p; }
  Point operator-(const Point &o) const { Point p = *this; p.trn -= o.trn; p.en_bit -= o.en_bit; p.en_bl -= o.en_bl; p.er -= o.er; p.ml_trn -= o.ml_trn; p.enml -= o.enml; return p; }
  std::string str() const { return pbt::strf("trn=%ld bit=%ld bl=%ld er=%ld mltrn=%ld ml=%ld", trn, en_bit, en_bl, er, ml_trn, enml); }
};
struct Results {
  bool ok = false;
  std::string why;
  long n = -1, k = -1;
  std::vector<double> snr;
  std::vector<Point> pt;
  std::vector<std::string> wer, err, mler;
  std::vector<std::vector<std::string>> table;   // rows of the comment table
};
Results parse_results(const std::string &text);
// Checks the lists of rates and the table; empty if consistent.
std::string check_rates(const Results &r);
// Writes counters in the format of the simulator (only the fields it reads, in a given layout).
std::string format_results(long n, long k, const std::vector<std::pair<double, Point>> &v);

// ----- A scripted simulation.
struct Trial { double sg; int csnrn; Bits x, xd; int rc; bool sent_enc; };

// The stub codec: a systematic code with pseudorandom parity.
struct Script {
  int n = 4, k = 2;
  // Decides a decoding: fills xd (k bits, initially x), returns the code.
  std::function<int(const Bits &x, const double *y, double sg, Bits &xd)> decide;
  std::function<void(const Bits &x, const double *y, double sg, const Bits &xd, int rc)> seen;
  std::function<void(double)> on_sg;
  bool rndcw = false;
  int init_rc = 0;
  // State.
  double sg = -1; int csnrn = -1;
  Bits last_enc; bool enc_since_dec = false;
  long decs = 0, encs = 0;
  int open = 0;
  Bits code(const Bits &x) const;
};
extern Script *g_script;
void install_script(SimApi &a, Script *s);
// Virtual time.
extern long g_vtime;
void install_vtime(SimApi &a);
void clear_hooks(SimApi &a);

class Sim {
 public:
  Sim(SimApi &a, const std::string &spf, int ret_int, int nr = 1);
  ~Sim();
  Sim(const Sim &) = delete;
  bool ok() const { return rc == 0 && inst; }
  int run() { return a.run(inst); }
  int save() { a.ui_reset(); return a.save(inst); }
  std::string state();
  std::string res();
  SimApi &a;
  int rc;
  void *inst = nullptr;
};
struct State { double snr; long i, num, trn, req, en, ml; bool has_ml; };
bool parse_state(const std::string &s, State &o);
double sigma_of(double rate, double db);
