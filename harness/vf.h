/* Common harness layer.  The same harness source is
 *  - symbolically executed by CBMC (inputs = unconstrained solver variables), and
 *  - compiled natively (gcc, ASan/UBSan, real GLib/CFITSIO) to replay a
 *    counterexample's input vector against the real build.
 */
#ifndef VF_H
#define VF_H
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <math.h>
#include <glib.h>

#ifdef VF_CBMC
int nondet_int(void);
double nondet_double(void);
float nondet_float(void);
char nondet_char(void);
static inline int in_i(void) { int v = nondet_int(); __CPROVER_input("i", v); return v; }
static inline double in_d(void) { double v = nondet_double(); __CPROVER_input("d", v); return v; }
static inline float in_f(void) { float v = nondet_float(); __CPROVER_input("f", v); return v; }
static inline char in_c(void) { char v = nondet_char(); __CPROVER_input("c", v); return v; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), "PROP " msg)
#define REACH(msg) __CPROVER_assert(0, "REACH " msg)
#else
int in_i(void);
double in_d(void);
float in_f(void);
char in_c(void);
void vf_assume(int c, const char *txt);
void vf_check(int c, const char *msg, const char *file, int line);
#define ASSUME(c) vf_assume(!!(c), #c)
#define CHECK(c, msg) vf_check(!!(c), msg, __FILE__, __LINE__)
#define REACH(msg) do { } while (0)
#endif

static inline int in_range(int lo, int hi) { int v = in_i(); ASSUME(v >= lo && v <= hi); return v; }
static inline int in_bool(void) { return in_range(0, 1); }
/* FITS logical */
static inline char in_flag(void) { char c = in_c(); ASSUME(c == 0 || c == 1); return c; }

/* bit-for-bit equality of floating-point values (NaN-safe) */
static inline int same_d(double a, double b) { return a == b || (a != a && b != b); }
static inline int same_f(float a, float b) { return a == b || (a != a && b != b); }

void harness(void);
#endif
