/* Library calls of the simulator, redirected at link time (--wrap). Without hooks they are the real ones. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

enum { OP_FOPEN = 1, OP_FCLOSE, OP_REMOVE, OP_RENAME, OP_OPEN, OP_CLOSE, OP_MKDIR, OP_RMDIR, OP_LINK, OP_CLOCK, OP_UNLINK };

struct ecv_hooks {
  time_t (*time_fn)(void);
  clock_t (*clock_fn)(void);
  int (*rand_fn)(void);
  void (*srand_fn)(unsigned);
  /* Before an operation on a file: 0 or the error to fail with. */
  int (*pre)(int op, const char *path, const char *mode);
  void (*post)(int op, const char *path, const char *mode, int ok);
} ecv_hooks;

time_t __real_time(time_t *);
clock_t __real_clock(void);
int __real_rand(void);
void __real_srand(unsigned);
FILE *__real_fopen(const char *, const char *);
FILE *__real_fopen64(const char *, const char *);
int __real_fclose(FILE *);
int __real_remove(const char *);
int __real_unlink(const char *);
int __real_rename(const char *, const char *);
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);
int __real_close(int);
int __real_mkdir(const char *, mode_t);
int __real_rmdir(const char *);
int __real_link(const char *, const char *);

time_t __wrap_time(time_t *t) {
  time_t r = ecv_hooks.time_fn ? ecv_hooks.time_fn() : __real_time(NULL);
  if (t) *t = r;
  return r;
}
clock_t __wrap_clock(void) { return ecv_hooks.clock_fn ? ecv_hooks.clock_fn() : __real_clock(); }
int __wrap_rand(void) { return ecv_hooks.rand_fn ? ecv_hooks.rand_fn() : __real_rand(); }
void __wrap_srand(unsigned s) { if (ecv_hooks.srand_fn) ecv_hooks.srand_fn(s); __real_srand(s); }

#define FN 64
static struct { FILE *f; int fd; char path[1200]; char mode[8]; } files[FN];
static int put(FILE *f, int fd, const char *path, const char *mode) {
  int i;
  for (i = 0; i < FN; i++) if (!files[i].path[0]) {
    files[i].f = f; files[i].fd = fd;
    snprintf(files[i].path, sizeof files[i].path, "%s", path);
    snprintf(files[i].mode, sizeof files[i].mode, "%s", mode);
    return i;
  }
  return -1;
}
static int pre(int op, const char *p, const char *m) {
  int e = ecv_hooks.pre ? ecv_hooks.pre(op, p, m) : 0;
  if (e) errno = e;
  return e;
}
static void post(int op, const char *p, const char *m, int ok) {
  int e = errno;
  if (ecv_hooks.post) ecv_hooks.post(op, p, m, ok);
  errno = e;
}
static FILE *do_fopen(const char *p, const char *m, int is64) {
  FILE *f;
  if (pre(OP_FOPEN, p, m)) return NULL;
  f = is64 ? __real_fopen64(p, m) : __real_fopen(p, m);
  if (f) put(f, -1, p, m);
  post(OP_FOPEN, p, m, f != NULL);
  return f;
}
FILE *__wrap_fopen(const char *p, const char *m) { return do_fopen(p, m, 0); }
FILE *__wrap_fopen64(const char *p, const char *m) { return do_fopen(p, m, 1); }
int __wrap_fclose(FILE *f) {
  int i, r, e;
  char path[1200] = "", mode[8] = "";
  for (i = 0; i < FN; i++) if (files[i].path[0] && files[i].f == f) {
    strcpy(path, files[i].path); strcpy(mode, files[i].mode); files[i].path[0] = 0; files[i].f = NULL;
    break;
  }
  e = pre(OP_FCLOSE, path, mode);
  if (e) { __fpurge(f); __real_fclose(f); errno = e; post(OP_FCLOSE, path, mode, 0); return EOF; }
  r = __real_fclose(f);
  post(OP_FCLOSE, path, mode, r == 0);
  return r;
}
int __wrap_remove(const char *p) { int r; if (pre(OP_REMOVE, p, "")) return -1; r = __real_remove(p); post(OP_REMOVE, p, "", r == 0); return r; }
int __wrap_unlink(const char *p) { int r; if (pre(OP_UNLINK, p, "")) return -1; r = __real_unlink(p); post(OP_UNLINK, p, "", r == 0); return r; }
int __wrap_rename(const char *p, const char *q) { int r; if (pre(OP_RENAME, p, q)) return -1; r = __real_rename(p, q); post(OP_RENAME, p, q, r == 0); return r; }
int __wrap_link(const char *p, const char *q) { int r; if (pre(OP_LINK, p, q)) return -1; r = __real_link(p, q); post(OP_LINK, p, q, r == 0); return r; }
int __wrap_mkdir(const char *p, mode_t m) { int r; if (pre(OP_MKDIR, p, "")) return -1; r = __real_mkdir(p, m); post(OP_MKDIR, p, "", r == 0); return r; }
int __wrap_rmdir(const char *p) { int r; if (pre(OP_RMDIR, p, "")) return -1; r = __real_rmdir(p); post(OP_RMDIR, p, "", r == 0); return r; }
static int do_open(const char *p, int fl, mode_t m) {
  int r;
  const char *ms = (fl & O_ACCMODE) == O_RDONLY ? "r" : "w";
  if (pre(OP_OPEN, p, ms)) return -1;
  r = __real_open(p, fl, m);
  if (r >= 0) put(NULL, r, p, ms);
  post(OP_OPEN, p, ms, r >= 0);
  return r;
}
int __wrap_open(const char *p, int fl, ...) { va_list a; mode_t m = 0; if (fl & O_CREAT) { va_start(a, fl); m = va_arg(a, int); va_end(a); } return do_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; mode_t m = 0; if (fl & O_CREAT) { va_start(a, fl); m = va_arg(a, int); va_end(a); } return do_open(p, fl, m); }
int __wrap_close(int fd) {
  int i, r;
  char path[1200] = "", mode[8] = "";
  for (i = 0; i < FN; i++) if (files[i].path[0] && !files[i].f && files[i].fd == fd) {
    strcpy(path, files[i].path); strcpy(mode, files[i].mode); files[i].path[0] = 0;
    break;
  }
  if (pre(OP_CLOSE, path, mode)) { int e = errno; __real_close(fd); errno = e; return -1; }
  r = __real_close(fd);
  post(OP_CLOSE, path, mode, r == 0);
  return r;
}
