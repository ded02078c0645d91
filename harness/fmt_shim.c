/* The reliability arithmetic of the selected format as functions. */
#include <math.h>
#include "formats/formats.h"
void f_from_llr(const double *y, double *e, int n) { VY_TO_FORMAT(y, e, n); }
double f_xor(double a, double b) { return XOR_EST(a, b); }
double f_add(double a, double b) { double r; ADD_EST(a, b, r); return r; }
double f_inv(double a) { return INV_EST(a); }
double f_lnp0(double a) { return EST_TO_LNP0(a); }
double f_lnp1(double a) { return EST_TO_LNP1(a); }
double f_lnp0_0(double a) { return EST0_TO_LNP0(a); }
double f_lnp1_0(double a) { return EST0_TO_LNP1(a); }
double f_lnp0_1(double a) { return EST1_TO_LNP0(a); }
double f_lnp1_1(double a) { return EST1_TO_LNP1(a); }
double f_sub(double a) { return EST0_ADD_LNP1_SUB_LNP0(a); }
double f_llr(double a) { return EST2LLR(a); }
int f_is0(double a) { return CHECK_EST0(a) ? 1 : 0; }
int f_stronger(double a, double b) { return STRONGER_EST0(a, b) ? 1 : 0; }
double f_strongest(void) { return STRONGEST_EST0; }
double f_dec(int b) { return b ? YLDEC1 : YLDEC0; }
double f_xor_dec(double a, double b) { return XOR_YLDEC(a, b); }
double f_est_xor_dec(double a, double d) { return EST_XOR_YLDEC(a, d); }
