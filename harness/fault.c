/* Preloaded into a program: some of the attempts to create the lock or to open the results file fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

/* FAULT="<suffix of the name> <w|r|a> <skip> <number>": opens number skip+1 .. skip+number for writing (reading, any) fail. */
static int deny(const char *name, int write) {
  static char suf[256], mode;
  static long skip, num;
  static int state;
  if (!state) {
    const char *e = getenv("FAULT");
    state = e && sscanf(e, "%200s %c %ld %ld", suf, &mode, &skip, &num) == 4 ? 1 : 2;
  }
  size_t l = strlen(name), k = strlen(suf);
  if (state != 1 || l < k || strcmp(name + l - k, suf)) return 0;
  if ((mode == 'w' && !write) || (mode == 'r' && write)) return 0;
  if (skip > 0) { skip--; return 0; }
  if (num <= 0) return 0;
  num--;
  errno = EACCES;
  return 1;
}
#define FOPEN(N) FILE *N(const char *n, const char *m) { \
  static FILE *(*f)(const char *, const char *); \
  if (!f) f = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, #N); \
  return deny(n, strpbrk(m, "wa+") != NULL) ? NULL : f(n, m); }
FOPEN(fopen)
FOPEN(fopen64)
#define OPEN(N) int N(const char *n, int fl, ...) { \
  static int (*f)(const char *, int, ...); \
  if (!f) f = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, #N); \
  va_list a; va_start(a, fl); mode_t md = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); \
  return deny(n, (fl & (O_WRONLY | O_RDWR)) != 0) ? -1 : f(n, fl, md); }
OPEN(open)
OPEN(open64)

/* TIME_SHIFT=<seconds>: the program runs at another time. */
time_t time(time_t *p) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  const char *e = getenv("TIME_SHIFT");
  time_t t = ts.tv_sec + (e ? atol(e) : 0);
  if (p) *p = t;
  return t;
}
