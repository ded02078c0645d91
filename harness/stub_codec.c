/* A codec whose functions are set by the harness. */
#include "interfaces/codec.h"
struct ecv_stub {
  int (*init)(char *, void **);
  int (*n)(void *);
  int (*k)(void *);
  void (*sg)(void *, double);
  void (*csnrn)(void *, int);
  int (*enc)(void *, int *, double *);
  int (*dec)(void *, double *, int *);
  void (*close)(void *);
} ecv_stub;
int cdc_init(char p[], void **c) { return ecv_stub.init(p, c); }
int cdc_get_n(void *c) { return ecv_stub.n(c); }
int cdc_get_k(void *c) { return ecv_stub.k(c); }
void cdc_set_sg(void *c, double s) { ecv_stub.sg(c, s); }
void cdc_set_csnrn(void *c, int n) { if (ecv_stub.csnrn) ecv_stub.csnrn(c, n); }
int enc_bpsk(void *c, int x[], double y[]) { return ecv_stub.enc(c, x, y); }
int dec_bpsk(void *c, double y[], int x[]) { return ecv_stub.dec(c, y, x); }
void cdc_close(void *c) { ecv_stub.close(c); }
