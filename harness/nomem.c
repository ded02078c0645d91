/* Preloaded into a program: allocations fail. */
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
/* NOMEM="<number> <all>": this allocation (counted from the loading of this library) fails, and all later ones if <all>. */
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t);
static long nm_left; static int nm_all, nm_on;
__attribute__((constructor)) static void nm_start(void) { const char *e = getenv("NOMEM"); if (e && sscanf(e, "%ld %d", &nm_left, &nm_all) == 2) nm_on = 1; }
static int nm_deny(void) {
  if (!nm_on || nm_left <= 0 || --nm_left > 0) return 0;
  if (nm_all) nm_left = 1;
  errno = ENOMEM;
  return 1;
}
void *malloc(size_t n) { return nm_deny() ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return nm_deny() ? NULL : __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { return nm_deny() ? NULL : __libc_realloc(p, n); }
