/* Native side of the harness layer: replays an input vector produced by the
 * solver against the real library (real GLib, real CFITSIO). */
#include "vf.h"
#include <stdio.h>
#include <locale.h>

static FILE *fin;
static int exhausted = 0;
static int next_tok(char kind, unsigned long long *bits)
{
  char k[8];
  if (!fin || exhausted) return 0;
  if (fscanf(fin, "%7s %llx", k, bits) != 2) { exhausted = 1; return 0; }
  if (k[0] != kind)
  {
    fprintf(stderr, "REPLAY-DIVERGED wanted %c got %s\n", kind, k);
    exit(78);
  }
  return 1;
}
int in_i(void) { unsigned long long b = 0; next_tok('i', &b); return (int)(unsigned)b; }
char in_c(void) { unsigned long long b = 0; next_tok('c', &b); return (char)b; }
double in_d(void) { unsigned long long b = 0; double d; next_tok('d', &b); memcpy(&d, &b, 8); return d; }
float in_f(void)
{
  unsigned long long b = 0; unsigned u; float d;
  next_tok('f', &b); u = (unsigned)b; memcpy(&d, &u, 4);
  return d;
}
void vf_assume(int c, const char *txt)
{
  if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE %s\n", txt); _Exit(77); }
}
void vf_check(int c, const char *msg, const char *file, int line)
{
  if (!c)
  {
    fprintf(stderr, "REPLAY-VIOLATION %s (%s:%d)\n", msg, file, line);
    fflush(stderr);
    _Exit(42);
  }
}
static void quiet(const gchar *d, GLogLevelFlags l, const gchar *m, gpointer u) { }
int main(int argc, char **argv)
{
  if (argc > 1) fin = fopen(argv[1], "r");
  g_log_set_default_handler(quiet, NULL);
  harness();
  fprintf(stderr, "REPLAY-OK\n");
  return 0;
}
