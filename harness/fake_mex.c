/* A stand-in for Octave's MEX interface. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mex.h"
struct mxArray_tag {
  int kind;               /* 0 double, 1 struct, 2 string */
  size_t rows, cols;
  double *d;
  int nf;
  const char **names;
  struct mxArray_tag **f;
  char *s;
};
static mxArray *mk(int kind) { mxArray *a = calloc(1, sizeof *a); a->kind = kind; return a; }
char *mxArrayToString(const mxArray *a) { return a->kind == 2 ? strdup(a->s) : NULL; }
mxArray *mxCreateString(const char *s) { mxArray *a = mk(2); a->s = strdup(s); return a; }
mxArray *mxCreateStructMatrix(mwSize r, mwSize c, int n, const char **k) {
  mxArray *a = mk(1); int i;
  a->rows = r; a->cols = c; a->nf = n; a->f = calloc(n, sizeof *a->f); a->names = calloc(n, sizeof *a->names);
  for (i = 0; i < n; i++) a->names[i] = strdup(k[i]);
  return a;
}
mxArray *mxCreateDoubleMatrix(mwSize r, mwSize c, mxComplexity x) { mxArray *a = mk(0); a->rows = r; a->cols = c; a->d = calloc(r * c + 1, sizeof(double)); return a; }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); a->d[0] = v; return a; }
void mxSetFieldByNumber(mxArray *a, mwIndex i, int n, mxArray *v) { if (a->kind == 1 && i == 0 && n >= 0 && n < a->nf) a->f[n] = v; }
void mxSetField(mxArray *a, mwIndex i, const char *k, mxArray *v) { int n; if (i == 0) for (n = 0; n < a->nf; n++) if (!strcmp(a->names[n], k)) a->f[n] = v; }
double *mxGetPr(const mxArray *a) { return a->d; }
double mxGetScalar(const mxArray *a) { return a->d[0]; }
void mxFree(void *p) { free(p); }
const char *mexFunctionName(void) { return "loadsrf"; }
int mexPrintf(const char *f, ...) { return 0; }
void mexErrMsgTxt(const char *s) { }
void mexWarnMsgTxt(const char *s) { }
static void del(mxArray *a) {
  int i;
  if (!a) return;
  for (i = 0; i < a->nf; i++) { del(a->f[i]); free((void *)a->names[i]); }
  free(a->f); free(a->names); free(a->d); free(a->s); free(a);
}
/* Called without arguments (how == 0), with a number, or with the name of a missing file. Returns whether something is returned. */
int ecv_load_odd(int how) {
  mxArray *in = how == 1 ? mxCreateDoubleScalar(1) : mxCreateString("missing.srf"), *out = NULL;
  const mxArray **rhs = malloc(how ? sizeof *rhs : 1);
  if (how) rhs[0] = in;
  mexFunction(1, &out, how ? 1 : 0, rhs);
  free(rhs);
  del(in);
  if (out) { del(out); return 1; }
  return 0;
}
/* Loads a file; calls back with each field. Returns the number of fields, -1 if nothing is returned. */
int ecv_load(const char *file, void (*cb)(void *, const char *, size_t, size_t, const double *), void *arg) {
  mxArray *in = mxCreateString(file), *out = NULL;
  const mxArray *rhs[1];
  int i, n = -1;
  rhs[0] = in;
  mexFunction(1, &out, 1, rhs);
  if (out && out->kind == 1) {
    n = out->nf;
    for (i = 0; i < out->nf; i++) if (out->f[i]) cb(arg, out->names[i], out->f[i]->rows, out->f[i]->cols, out->f[i]->d);
    del(out);
  }
  del(in);
  return n;
}
