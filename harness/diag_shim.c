// For builds with diagnostic output and counted operations: both are collected here.
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

int gl_ops[64];
static long printed;
int ecv_printf(const char *f, ...) {
  static char buf[1 << 16];
  va_list a;
  if (f[0] == '%' && f[1] == '1' && f[2] == 'd' && !f[3]) return ++printed, 1;  // the bits of the lists
  va_start(a, f);
  int r = vsnprintf(buf, sizeof buf, f, a);
  va_end(a);
  if (r > 0) printed += r;
  return r;
}
long ecv_printed(void) { long r = printed; printed = 0; return r; }
void ecv_ops(int *o) { memcpy(o, gl_ops, 8 * sizeof(int)); memset(gl_ops, 0, sizeof gl_ops); }
