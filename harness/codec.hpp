// Access to the codecs under test (shared objects built from /repo).
#pragma once
#include "pbt.hpp"

enum CodecId { DTRM0 = 0, DTRM1 = 1, GLP = 2, POLAR = 3 };
extern const char *codec_name[4];

struct Api {
  std::string name;
  void *h = nullptr;
  int (*init)(char *, void **) = nullptr;
  int (*get_n)(void *) = nullptr;
  int (*get_k)(void *) = nullptr;
  void (*set_sg)(void *, double) = nullptr;
  void (*set_csnrn)(void *, int) = nullptr;
  int (*enc)(void *, int *, double *) = nullptr;
  int (*dec)(void *, double *, int *) = nullptr;
  void (*close)(void *) = nullptr;
  int (*ui_errs)() = nullptr;
  int (*ui_msgs)() = nullptr;
  const char *(*ui_text)() = nullptr;
  void (*ui_reset)() = nullptr;
  void *sym(const char *s) const;
};
Api &api(int codec, const std::string &fmt = "");   // fmt: "", "rho1", "rho5"
void *lib_sym(const std::string &lib, const char *sym);

typedef std::vector<int> Bits;
typedef std::vector<double> Vec;

// A configuration of a codec.
struct Cfg {
  int codec = DTRM0;
  int m = 1, r = 1;
  std::string mask;                 // border_node_mask / info_bits_mask
  int L = 1;
  std::vector<std::vector<int>> perms;
  bool var = false;
  std::vector<std::pair<int, double>> stages;
  std::string crc;
  std::string str() const;          // human readable
  std::vector<std::string> tokens() const;
  std::string params() const;       // prepared parameter string
  // Unfrozen monomials (bit masks) in the order of the information bits.
  std::vector<unsigned> coeffs() const;
  int n() const { return 1 << m; }
  int ktot() const { return (int)coeffs().size(); }
  int k() const { return ktot() - (int)crc.size(); }
};
std::string join_params(const std::vector<std::string> &t);

// A codec instance.
class Inst {
 public:
  Inst(const Cfg &c, const std::string &fmt = "");
  Inst(Api &a, const std::string &params);
  ~Inst();
  Inst(const Inst &) = delete;
  bool ok() const { return rc == 0 && inst; }
  int rc;
  int n() { return a.get_n(inst); }
  int k() { return a.get_k(inst); }
  void sg(double s) { a.set_sg(inst, s); }
  Vec enc(const Bits &x, int n);
  // Returns the code of the decoder; xd gets k bits (any ints as written).
  int dec(const Vec &y, Bits &xd, int k);
  Api &a;
  void *inst = nullptr;
};

// ----- Reference definitions.

int popcnt(unsigned x);
// All monomials of weight <= r, descending.
std::vector<unsigned> rm_coeffs(int m, int r);
struct BorderNode { int r, m; std::vector<unsigned> coeffs; };
std::vector<BorderNode> border_nodes(int m, int r);
long binom(int n, int k);
long rm_dim(int m, int r);   // dimension of RM(r, m)
// y[j] = XOR of x[i] with coeffs[i] & j == 0
Bits ref_encode(int m, const std::vector<unsigned> &coeffs, const Bits &x);
Bits ref_crc(const Bits &x, const std::string &poly);
// The full encoder of a configuration (adds the CRC).
Bits ref_code(const Cfg &c, const Bits &x);
Vec bpsk(const Bits &b);
Bits random_bits(pbt::Rng &r, int n);
// Information word: simple patterns or random.
Bits gen_bits(pbt::Src &s, int n);

// ----- Generators of configurations.

struct CfgLim { int mmax = 6; long nk = 1L << 40; int Lmax = 16; bool perms = true; int ktot_max = 1 << 20; };
Cfg gen_cfg(pbt::Ctx &c, int codec, const CfgLim &lim);
std::string gen_node_mask(pbt::Src &s, int m, int r);
std::string gen_polar_mask(pbt::Src &s, int m);
std::vector<int> gen_perm(pbt::Src &s, int m);

// ----- Received vectors.
struct Rx { Vec y; double sg = 1; std::string mode; };
// Adds noise to the codeword cw.
Rx gen_rx(pbt::Ctx &c, const Bits &cw, double rate);
std::string show(const Bits &b, size_t max = 72);
std::string show(const Vec &v, size_t max = 20);

// ----- Reference decoders (eps5 arithmetic unless said otherwise).
// Every decision compares quantities; minimal relative gap of all decisions is tracked in `gap`.
struct Ref {
  Bits x;          // decoded information bits of the mother word (with CRC bits if any)
  double gap = 1e9;
  double small = 1e9;     // the smallest magnitude of all soft values
  int rc = 0;
  int pick = 0;           // index of the chosen path in the final list
  double metric = 0;
  std::vector<std::pair<double, Bits>> list;  // final list, best first
};
struct Arith {   // soft arithmetic
  virtual ~Arith() {}
  virtual double from_llr(double l) const = 0;    // l > 0 means bit 1
  virtual double x(double a, double b) const = 0; // XOR
  virtual double add(double a, double b) const = 0;
  virtual double lp0(double e) const = 0;
  virtual double lp1(double e) const = 0;
  virtual double llr(double e) const = 0;
};
const Arith &eps5(); const Arith &rho1(); const Arith &rho5();

Ref ref_dtrm0(const Arith &A, int m, int r, const Vec &llr);
Ref ref_dtrm1(const Arith &A, int m, int r, const Vec &llr);
// List decoding over border nodes of an RM (sub)code.
Ref ref_glp(const Arith &A, const Cfg &c, int L, const Vec &llr);
Ref ref_polar(const Arith &A, const Cfg &c, const Vec &llr);
// Log-probabilities of all words of RM(1, m), pairs of complementary words are adjacent.
std::vector<std::pair<double, Bits>> ref_first_order(const Arith &A, const Vec &e);
// Dispatch; x has the k information bits of the configuration.
Ref ref_decode(const Arith &A, const Cfg &c, const Vec &y, double sg);
// The same, but judged only if unambiguous: small perturbations of the input do not change the result.
bool ref_sure(const Arith &A, const Cfg &c, const Vec &y, double sg, Ref &out, double mingap = 1e-6);

// Maximum correlation over all words; gap is the relative distance to the second.
Ref ref_ml(const Cfg &c, const Vec &y);
