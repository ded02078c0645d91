/* User interface functions of the code under test: count and keep the messages. */
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
static int errs, shows;
static char text[4096];
static void keep(const char *s) {
  size_t n = strlen(text), m = strlen(s);
  if (n + m + 2 < sizeof text) { memcpy(text + n, s, m); text[n + m] = '|'; text[n + m + 1] = 0; }
}
void show_msg(char msg[]) { shows++; keep(msg); }
void err_msg(char msg[]) { errs++; keep(msg); }
void msg_printf(char *f, ...) {
  char b[2048]; va_list a;
  va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  keep(b);
}
void msg_flush(void) {}
int ecv_ui_errs(void) { return errs; }
int ecv_ui_msgs(void) { return errs + shows; }
const char *ecv_ui_text(void) { return text; }
void ecv_ui_reset(void) { errs = shows = 0; text[0] = 0; }
