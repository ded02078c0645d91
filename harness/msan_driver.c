/* Runs a codec under MemorySanitizer: parameters, noise level and vectors are read from a file. */
#include <sanitizer/msan_interface.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "interfaces/codec.h"
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb");
  int len, nv, n, k, i, j, rc, dim[2];
  double sg, *y, *e;
  char *p;
  void *c = NULL;
  int *x, *xd;
  if (!f || fread(&len, sizeof len, 1, f) != 1) return 3;
  p = malloc(len + 1);
  if (fread(p, 1, len, f) != len || fread(dim, sizeof(int), 2, f) != 2 || fread(&nv, sizeof nv, 1, f) != 1) return 3;
  p[len] = 0;
  if (cdc_init(p, &c)) return 4;
  n = cdc_get_n(c); k = cdc_get_k(c);
  if (n != dim[0] || k != dim[1]) return 5;
  for (i = 0; i < nv; i++) {
    y = malloc(n * sizeof *y); e = malloc(n * sizeof *e); x = malloc(k * sizeof *x); xd = malloc(k * sizeof *xd);
    if (fread(&sg, sizeof sg, 1, f) != 1 || fread(y, sizeof *y, n, f) != n || fread(x, sizeof *x, k, f) != k) return 3;
    cdc_set_sg(c, sg);
#ifdef DEC_NEEDS_CSNRN
    cdc_set_csnrn(c, 0);
#endif
    enc_bpsk(c, x, e);
    __msan_check_mem_is_initialized(e, n * sizeof *e);
    rc = dec_bpsk(c, y, xd);
    if (rc == 77) return 6;
    __msan_check_mem_is_initialized(xd, k * sizeof *xd);
    for (j = 0; j < k; j++) if (xd[j] != 0 && xd[j] != 1) return 7;
    free(y); free(e); free(x); free(xd);
  }
  cdc_close(c);
  return 0;
}
