/* Counts the live blocks of the code under test (--wrap of the allocation functions), fills them with garbage and lets
   allocations fail. Blocks which come from elsewhere (and are freed by the code) are not counted. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
long ecv_live;
unsigned char ecv_fill;
long ecv_fail;     /* > 0: the allocation with this number (from now on) fails. */
int ecv_fail_all;  /* ... and all later ones. */
long ecv_failed;   /* Number of failed allocations. */
long ecv_allocs;   /* Number of allocations tried. */

/* The set of live blocks. */
static void **tab; static size_t cap, used;   /* used includes deleted entries */
static char gone;
static size_t slot(void *p) { uint64_t x = (uint64_t)(uintptr_t)p * 0x9E3779B97F4A7C15ull; return (size_t)(x >> 20); }
static void put(void *p) {
  if (2 * (used + 1) > cap) {
    void **o = tab; size_t oc = cap, i;
    size_t live = 0;
    for (i = 0; i < oc; i++) if (o[i] && o[i] != &gone) live++;
    cap = 64; while (cap < 8 * (live + 1)) cap *= 2;
    tab = (void **)__real_calloc(cap, sizeof *tab); used = 0;
    if (!tab) abort();
    for (i = 0; i < oc; i++) if (o[i] && o[i] != &gone) { size_t j = slot(o[i]) & (cap - 1); while (tab[j]) j = (j + 1) & (cap - 1); tab[j] = o[i]; used++; }
    __real_free(o);
  }
  size_t j = slot(p) & (cap - 1);
  while (tab[j] && tab[j] != &gone) j = (j + 1) & (cap - 1);
  if (!tab[j]) used++;
  tab[j] = p;
  ecv_live++;
}
static void take(void *p) {
  if (!cap) return;
  size_t j = slot(p) & (cap - 1);
  while (tab[j]) { if (tab[j] == p) { tab[j] = &gone; ecv_live--; return; } j = (j + 1) & (cap - 1); }
}
static int deny(void) {
  ecv_allocs++;
  if (ecv_fail <= 0 || --ecv_fail > 0) return 0;
  if (ecv_fail_all) ecv_fail = 1;
  ecv_failed++;
  return 1;
}
void *__wrap_malloc(size_t n) {
  if (deny()) return NULL;
  void *p = __real_malloc(n);
  if (p) { put(p); if (n < 1u << 24) memset(p, ecv_fill, n); }
  return p;
}
void *__wrap_calloc(size_t n, size_t m) { if (deny()) return NULL; void *p = __real_calloc(n, m); if (p) put(p); return p; }
void *__wrap_realloc(void *q, size_t n) {
  if (deny()) return NULL;
  void *p = __real_realloc(q, n);
  if (p != q) { if (q && (p || !n)) take(q); if (p) put(p); }
  return p;
}
void __wrap_free(void *p) { if (p) take(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __wrap_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
char *__wrap_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = __wrap_malloc(l + 1); if (p) { memcpy(p, s, l); p[l] = 0; } return p; }
void *__real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t);
void *__wrap_aligned_alloc(size_t a, size_t n) { if (deny()) return NULL; void *p = __real_aligned_alloc(a, n); if (p) put(p); return p; }
int __wrap_posix_memalign(void **r, size_t a, size_t n) { if (deny()) return 12; int e = __real_posix_memalign(r, a, n); if (!e && *r) put(*r); return e; }
