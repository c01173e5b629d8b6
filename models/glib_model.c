/* Executable C model of the part of GLib (and libm/libc formatting) that
 * oifitslib uses.  Linked with the real oifitslib sources for symbolic
 * execution only; native replays use the real libraries.
 */
#include <glib.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

#undef g_str_equal
#undef g_strdup
#undef g_str_has_prefix
#undef g_string_free
#undef g_string_append
#undef g_string_truncate
#undef g_strcmp0
#undef g_free
#undef g_memdup2
#undef g_pattern_spec_match_string

#define VF_ABORT(msg) do { __CPROVER_assert(0, "ABORT " msg); __CPROVER_assume(0); } while (0)

/* ---------- aborts ---------- */
void g_assertion_message_expr(const char *d, const char *f, int l, const char *fn, const char *e)
{ VF_ABORT("g_assert failed"); }
void g_assertion_message(const char *d, const char *f, int l, const char *fn, const char *e)
{ VF_ABORT("g_assert failed"); }
void g_assertion_message_cmpnum(const char *d, const char *f, int l, const char *fn, const char *e,
  long double a, const char *c, long double b, char t)
{ VF_ABORT("g_assert_cmp failed"); }
void g_assertion_message_cmpint(const char *d, const char *f, int l, const char *fn, const char *e,
  guint64 a, const char *c, guint64 b, char t)
{ VF_ABORT("g_assert_cmpint failed"); }
void g_assertion_message_cmpstr(const char *d, const char *f, int l, const char *fn, const char *e,
  const char *a, const char *c, const char *b)
{ VF_ABORT("g_assert_cmpstr failed"); }
void abort(void) { VF_ABORT("abort() called"); }
void __assert_fail(const char *a, const char *f, unsigned l, const char *fn)
{ VF_ABORT("assert() failed"); }
void g_log(const gchar *d, GLogLevelFlags lv, const gchar *fmt, ...)
{ if (lv & G_LOG_LEVEL_ERROR) VF_ABORT("g_error"); }
void g_return_if_fail_warning(const char *d, const char *f, const char *e) {}

/* ---------- memory ---------- */
gpointer g_malloc(gsize n) { return n ? malloc(n) : NULL; }
gpointer g_malloc0(gsize n) { if (!n) return NULL; void *p = malloc(n); memset(p, 0, n); return p; }
gpointer g_malloc_n(gsize n, gsize s) { return g_malloc(n * s); }
gpointer g_malloc0_n(gsize n, gsize s) { return g_malloc0(n * s); }
gpointer g_realloc(gpointer p, gsize n) { if (!n) { free(p); return NULL; } return realloc(p, n); }
void g_free(gpointer p) { free(p); }
gpointer g_memdup2(gconstpointer p, gsize n) { if (!p || !n) return NULL; void *q = malloc(n); memcpy(q, p, n); return q; }

/* ---------- libm on the exact grid ----------
 * Square root of a perfect square up to VF_SQMAX^2 is exact; anything else is
 * an arbitrary non-negative value (a counterexample through it is confirmed
 * natively with the real libm before it is reported). */
#ifndef VF_SQMAX
#define VF_SQMAX 20
#endif
double nondet_double(void);
static double vf_root(double x)
{
  double r = nondet_double();
  __CPROVER_assume(r >= 0.0);
  for (int k = 0; k <= VF_SQMAX; k++)
    if (x == (double)(k * k)) r = (double)k;
  return r;
}
double pow(double a, double b)
{
  if (b == 0.5) return vf_root(a);
  if (b == 2.0) return a * a;
  if (b == 1.0) return a;
  return nondet_double();
}
double sqrt(double a) { return vf_root(a); }
double hypot(double a, double b) { return vf_root(a * a + b * b); }

/* ---------- strings ---------- */
gboolean g_str_equal(gconstpointer a, gconstpointer b) { return strcmp((const char *)a, (const char *)b) == 0; }
guint g_str_hash(gconstpointer a) { return 0; }
gboolean g_direct_equal(gconstpointer a, gconstpointer b) { return a == b; }
guint g_direct_hash(gconstpointer a) { return 0; }
gboolean g_int_equal(gconstpointer a, gconstpointer b) { return *(const int *)a == *(const int *)b; }
guint g_int_hash(gconstpointer a) { return 0; }
int g_strcmp0(const char *a, const char *b)
{
  if (!a) return -(a != b);
  if (!b) return a != b;
  return strcmp(a, b);
}
gchar *g_strdup(const gchar *s)
{
  if (!s) return NULL;
  gsize n = strlen(s) + 1;
  char *p = malloc(n);
  for (gsize i = 0; i < n; i++) p[i] = s[i];
  return p;
}
gsize g_strlcpy(gchar *d, const gchar *s, gsize n)
{
  /* every write has a concrete index, also for strings of symbolic length */
  int ended = 0;
  for (gsize i = 0; i + 1 < n; i++)
  {
    d[i] = s[i];
    if (s[i] == 0) { ended = 1; break; }
  }
  if (n > 0 && !ended) d[n - 1] = 0;
  return strlen(s);
}
gsize g_strlcat(gchar *d, const gchar *s, gsize n)
{
  gsize l = 0;
  while (l < n && d[l]) l++;
  if (l == n) return l + strlen(s);
  return l + g_strlcpy(d + l, s, n - l);
}
gboolean g_str_has_prefix(const gchar *s, const gchar *p)
{
  gsize i = 0;
  while (p[i]) { if (s[i] != p[i]) return FALSE; i++; }
  return TRUE;
}

/* ---------- formatting ---------- */
static gsize vf_put(char *b, gsize n, gsize k, char c) { if (k + 1 < n) b[k] = c; return k + 1; }
static gsize vf_num(char *b, gsize n, gsize k, long long v, int width, char pad, int left)
{
  char t[24];
  int i = 0, neg = v < 0, len;
  unsigned long long u = neg ? -(unsigned long long)v : (unsigned long long)v;
#ifdef VF_SMALLNUM
  /* numbers wider than the model's digit budget are outside the encoding */
  __CPROVER_assume(u <= 9999999999ull);
#endif
  do { t[i++] = (char)('0' + (char)(u % 10)); u /= 10; } while (u && i < 20);
  len = i + neg;
  if (neg && pad == '0') k = vf_put(b, n, k, '-');
  if (!left) while (len < width) { k = vf_put(b, n, k, pad); len++; }
  if (neg && pad != '0') k = vf_put(b, n, k, '-');
  while (i > 0) k = vf_put(b, n, k, t[--i]);
  if (left) while (len < width) { k = vf_put(b, n, k, ' '); len++; }
  return k;
}
static int vf_vfmt(char *b, gsize n, const char *f, va_list ap)
{
  gsize k = 0;
#ifdef VF_NOFMT /* the harness does not look at formatted text */
  if (n > 0) b[0] = 0;
  return 0;
#endif
  while (*f)
  {
    if (*f != '%') { k = vf_put(b, n, k, *f++); continue; }
    f++;
    int left = 0, width = 0, lng = 0;
    char pad = ' ';
    if (*f == '-') { left = 1; f++; }
    if (*f == '0') { pad = '0'; f++; }
    while (*f >= '0' && *f <= '9') { width = width * 10 + (*f - '0'); f++; }
    if (*f == '.') { f++; while (*f >= '0' && *f <= '9') f++; }
    while (*f == 'l') { lng++; f++; }
    char c = *f++;
    if (c == '%') k = vf_put(b, n, k, '%');
    else if (c == 's')
    {
      const char *s = va_arg(ap, const char *);
      while (*s) k = vf_put(b, n, k, *s++);
    }
    else if (c == 'c') { char v = va_arg(ap, char); /* goto-cc passes char unpromoted */ k = vf_put(b, n, k, v); }
    else if (c == 'd' || c == 'i')
    {
      if (lng) { long v = va_arg(ap, long); k = vf_num(b, n, k, v, width, pad, left); }
      else { int v = va_arg(ap, int); k = vf_num(b, n, k, v, width, pad, left); }
    }
    else if (c == 'u')
    {
      if (lng) { unsigned long v = va_arg(ap, unsigned long); k = vf_num(b, n, k, (long long)v, width, pad, left); }
      else { unsigned v = va_arg(ap, unsigned); k = vf_num(b, n, k, v, width, pad, left); }
    }
    else if (c == 'f' || c == 'g' || c == 'e')
    { double v = va_arg(ap, double); (void)v; k = vf_put(b, n, k, '?'); }
    else if (c == 'p') { void *v = va_arg(ap, void *); (void)v; k = vf_put(b, n, k, '?'); }
    else k = vf_put(b, n, k, '?');
  }
  if (n > 0) b[k < n ? k : n - 1] = 0;
  return (int)k;
}
int g_snprintf(char *b, gulong n, const char *f, ...)
{ va_list ap; va_start(ap, f); int r = vf_vfmt(b, n, f, ap); va_end(ap); return r; }
int snprintf(char *b, size_t n, const char *f, ...)
{ va_list ap; va_start(ap, f); int r = vf_vfmt(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...)
{ va_list ap; va_start(ap, f); int r = vf_vfmt(b, 1u << 20, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { return 0; }
int fprintf(FILE *s, const char *f, ...) { return 0; }
int puts(const char *s) { return 0; }
int putchar(int c) { return c; }
void g_print(const gchar *f, ...) {}
void g_printerr(const gchar *f, ...) {}

/* sscanf for "%4ld-%2ld-%2ld"-like formats: %[width][l]d, %s-free, literals */
static int vf_vscan(const char *s, const char *f, va_list ap)
{
  int got = 0;
  while (*f)
  {
    if (*f == '%')
    {
      f++;
      int width = 0, lng = 0;
      while (*f >= '0' && *f <= '9') { width = width * 10 + (*f - '0'); f++; }
      while (*f == 'l') { lng++; f++; }
      f++;
      if (!width) width = 10;
      while (*s == ' ') s++;
      int neg = 0, nd = 0;
      long v = 0;
      if ((*s == '-' || *s == '+') && width > 0) { neg = *s == '-'; s++; width--; }
      while (width > 0 && *s >= '0' && *s <= '9') { v = v * 10 + (*s - '0'); s++; width--; nd++; }
      if (nd == 0) return got ? got : (*s ? 0 : -1);
      if (neg) v = -v;
      if (lng) *va_arg(ap, long *) = v;
      else *va_arg(ap, int *) = (int)v;
      got++;
    }
    else if (*f == ' ') { while (*s == ' ') s++; f++; }
    else { if (*s != *f) return got; s++; f++; }
  }
  return got;
}
int __isoc99_sscanf(const char *s, const char *f, ...)
{ va_list ap; va_start(ap, f); int r = vf_vscan(s, f, ap); va_end(ap); return r; }
/* ---------- GString (one fixed block) ---------- */
#ifndef VF_GSTR
#define VF_GSTR 256
#endif
GString *g_string_sized_new(gsize n)
{
  GString *g = malloc(sizeof(GString));
  g->str = malloc(VF_GSTR);
  g->str[0] = 0;
  g->len = 0;
  g->allocated_len = VF_GSTR;
  return g;
}
GString *g_string_new(const gchar *s)
{ GString *g = g_string_sized_new(0); if (s) g->len = g_strlcpy(g->str, s, VF_GSTR); return g; }
void g_string_printf(GString *g, const gchar *f, ...)
{
#ifdef VF_NOFMT
#else
  va_list ap; va_start(ap, f); int r = vf_vfmt(g->str, VF_GSTR, f, ap); va_end(ap);
  g->len = r;
#endif
}
void g_string_append_printf(GString *g, const gchar *f, ...)
{
#ifdef VF_NOFMT
#else
  __CPROVER_assume(g->len < VF_GSTR);
  va_list ap; va_start(ap, f); int r = vf_vfmt(g->str + g->len, VF_GSTR - g->len, f, ap); va_end(ap);
  g->len += r;
#endif
}
gchar *(g_string_free)(GString *g, gboolean seg)
{ gchar *s = g->str; free(g); if (seg) { free(s); return NULL; } return s; }
GString *g_string_append(GString *g, const gchar *s) { g_strlcpy(g->str + g->len, s, VF_GSTR - g->len); g->len += strlen(s); return g; }
GString *g_string_truncate(GString *g, gsize n) { if (n < g->len) { g->len = n; g->str[n] = 0; } return g; }

/* ---------- GStringChunk ---------- */
#define VF_CHUNKSTR 144
struct vf_chunk_item { struct vf_chunk_item *next; char *s; };
struct _GStringChunk { struct vf_chunk_item *head; };
GStringChunk *g_string_chunk_new(gsize n) { GStringChunk *c = malloc(sizeof(*c)); c->head = NULL; return c; }
gchar *g_string_chunk_insert(GStringChunk *c, const gchar *s)
{
#ifdef VF_NOFMT
  return (gchar *)s;
#endif
  struct vf_chunk_item *it = malloc(sizeof(*it));
  gsize i;
  it->s = malloc(VF_CHUNKSTR);
  for (i = 0; i < VF_CHUNKSTR - 1 && s[i]; i++) it->s[i] = s[i];
  it->s[i] = 0;
  it->next = c->head;
  c->head = it;
  return it->s;
}
void g_string_chunk_free(GStringChunk *c)
{
  struct vf_chunk_item *it = c->head;
  while (it) { struct vf_chunk_item *nx = it->next; free(it->s); free(it); it = nx; }
  free(c);
}

/* ---------- GList ---------- */
GList *g_list_append(GList *l, gpointer d)
{
  GList *n = malloc(sizeof(GList)), *p;
  n->data = d;
  n->next = NULL;
  n->prev = NULL;
  if (!l) return n;
  p = l;
  while (p->next) p = p->next;
  p->next = n;
  n->prev = p;
  return l;
}
GList *g_list_prepend(GList *l, gpointer d)
{
  GList *n = malloc(sizeof(GList));
  n->data = d;
  n->next = l;
  n->prev = NULL;
  if (l) { n->prev = l->prev; if (l->prev) l->prev->next = n; l->prev = n; }
  return n;
}
GList *g_list_first(GList *l) { if (l) while (l->prev) l = l->prev; return l; }
GList *g_list_last(GList *l) { if (l) while (l->next) l = l->next; return l; }
guint g_list_length(GList *l) { guint n = 0; while (l) { n++; l = l->next; } return n; }
GList *g_list_nth(GList *l, guint n) { while (l && n > 0) { l = l->next; n--; } return l; }
gpointer g_list_nth_data(GList *l, guint n) { l = g_list_nth(l, n); return l ? l->data : NULL; }
GList *g_list_find(GList *l, gconstpointer d) { while (l && l->data != d) l = l->next; return l; }
GList *g_list_find_custom(GList *l, gconstpointer d, GCompareFunc f)
{ while (l) { if (!f(l->data, d)) return l; l = l->next; } return NULL; }
gint g_list_position(GList *l, GList *k)
{ gint i = 0; while (l) { if (l == k) return i; i++; l = l->next; } return -1; }
gint g_list_index(GList *l, gconstpointer d)
{ gint i = 0; while (l) { if (l->data == d) return i; i++; l = l->next; } return -1; }
static GList *vf_unlink(GList *l, GList *k)
{
  if (k->prev) k->prev->next = k->next;
  if (k->next) k->next->prev = k->prev;
  if (k == l) l = l->next;
  k->next = k->prev = NULL;
  return l;
}
GList *g_list_remove_link(GList *l, GList *k) { return k ? vf_unlink(l, k) : l; }
GList *g_list_delete_link(GList *l, GList *k) { if (!k) return l; l = vf_unlink(l, k); free(k); return l; }
GList *g_list_remove(GList *l, gconstpointer d)
{
  GList *k = l;
  while (k) { if (k->data == d) { l = vf_unlink(l, k); free(k); return l; } k = k->next; }
  return l;
}
void g_list_free(GList *l) { while (l) { GList *n = l->next; free(l); l = n; } }
void g_list_free_1(GList *l) { free(l); }
void g_list_free_full(GList *l, GDestroyNotify f) { while (l) { GList *n = l->next; f(l->data); free(l); l = n; } }
GList *g_list_reverse(GList *l)
{
  GList *r = NULL;
  while (l) { r = l; l = r->next; r->next = r->prev; r->prev = l; }
  return r;
}
GList *g_list_concat(GList *a, GList *b)
{
  if (b) { GList *t = g_list_last(a); if (t) t->next = b; else a = b; b->prev = t; }
  return a;
}
GList *g_list_copy(GList *l)
{ GList *r = NULL; while (l) { r = g_list_append(r, l->data); l = l->next; } return r; }
void g_list_foreach(GList *l, GFunc f, gpointer u) { while (l) { GList *n = l->next; f(l->data, u); l = n; } }

/* ---------- GHashTable: bounded association table ---------- */
#ifndef VF_HCAP
#define VF_HCAP 6
#endif
struct _GHashTable
{
  int n;
  gpointer k[VF_HCAP], v[VF_HCAP];
  int kind; /* 0 pointer, 1 string, 2 int */
  GDestroyNotify fk, fv;
};
GHashTable *g_hash_table_new_full(GHashFunc h, GEqualFunc e, GDestroyNotify fk, GDestroyNotify fv)
{
  GHashTable *t = malloc(sizeof(*t));
  t->n = 0;
  t->kind = (e == g_str_equal) ? 1 : (e == g_int_equal) ? 2 : 0;
  t->fk = fk;
  t->fv = fv;
  return t;
}
GHashTable *g_hash_table_new(GHashFunc h, GEqualFunc e) { return g_hash_table_new_full(h, e, NULL, NULL); }
static int vf_heq(GHashTable *t, gconstpointer a, gconstpointer b)
{
  if (t->kind == 1) return strcmp((const char *)a, (const char *)b) == 0;
  if (t->kind == 2) return *(const int *)a == *(const int *)b;
  return a == b;
}
static int vf_hfind(GHashTable *t, gconstpointer key)
{
  for (int i = 0; i < VF_HCAP; i++)
  {
    if (i >= t->n) break;
    if (vf_heq(t, t->k[i], key)) return i;
  }
  return -1;
}
static gboolean vf_hset(GHashTable *t, gpointer key, gpointer val, int replace)
{
  int i = vf_hfind(t, key);
  if (i >= 0)
  {
    if (replace) { if (t->fk) t->fk(t->k[i]); t->k[i] = key; }
    else if (t->fk) t->fk(key);
    if (t->fv) t->fv(t->v[i]);
    t->v[i] = val;
    return FALSE;
  }
  __CPROVER_assert(t->n < VF_HCAP, "MODEL hash table capacity");
  __CPROVER_assume(t->n < VF_HCAP);
  t->k[t->n] = key;
  t->v[t->n] = val;
  t->n++;
  return TRUE;
}
gboolean g_hash_table_insert(GHashTable *t, gpointer k, gpointer v) { return vf_hset(t, k, v, 0); }
gboolean g_hash_table_replace(GHashTable *t, gpointer k, gpointer v) { return vf_hset(t, k, v, 1); }
gboolean g_hash_table_add(GHashTable *t, gpointer k) { return vf_hset(t, k, k, 1); }
gpointer g_hash_table_lookup(GHashTable *t, gconstpointer k)
{ int i = vf_hfind(t, k); return i >= 0 ? t->v[i] : NULL; }
gboolean g_hash_table_contains(GHashTable *t, gconstpointer k) { return vf_hfind(t, k) >= 0; }
gboolean g_hash_table_lookup_extended(GHashTable *t, gconstpointer k, gpointer *ok, gpointer *ov)
{
  int i = vf_hfind(t, k);
  if (i < 0) return FALSE;
  if (ok) *ok = t->k[i];
  if (ov) *ov = t->v[i];
  return TRUE;
}
guint g_hash_table_size(GHashTable *t) { return t->n; }
gboolean g_hash_table_remove(GHashTable *t, gconstpointer key)
{
  int i = vf_hfind(t, key);
  if (i < 0) return FALSE;
  if (t->fk) t->fk(t->k[i]);
  if (t->fv) t->fv(t->v[i]);
  t->k[i] = t->k[t->n - 1];
  t->v[i] = t->v[t->n - 1];
  t->n--;
  return TRUE;
}
void g_hash_table_remove_all(GHashTable *t)
{
  for (int i = 0; i < VF_HCAP; i++)
  {
    if (i >= t->n) break;
    if (t->fk) t->fk(t->k[i]);
    if (t->fv) t->fv(t->v[i]);
  }
  t->n = 0;
}
void g_hash_table_destroy(GHashTable *t) { g_hash_table_remove_all(t); free(t); }
void g_hash_table_unref(GHashTable *t) { g_hash_table_destroy(t); }

/* ---------- GPatternSpec: glob with * and ? ---------- */
struct _GPatternSpec { char p[72]; };
GPatternSpec *g_pattern_spec_new(const gchar *p)
{ GPatternSpec *s = malloc(sizeof(*s)); g_strlcpy(s->p, p, sizeof(s->p)); return s; }
void g_pattern_spec_free(GPatternSpec *s) { free(s); }
/* iterative glob match; pattern and string lengths bounded by VF_GLOB */
#ifndef VF_GLOB
#define VF_GLOB 8
#endif
static gboolean vf_glob(const char *p, const char *s)
{
  int pi = 0, si = 0, star = -1, mark = 0;
  if (p[0] == '*' && p[1] == 0) return TRUE;
  if (p[0] != '*' && p[0] != '?' && (p[0] == 0 || p[1] == 0)) return s[0] == p[0] && (p[0] == 0 || s[1] == 0);
  for (int n = 0; n < 4 * VF_GLOB; n++)
  {
    if (s[si] == 0)
    {
      while (p[pi] == '*') pi++;
      return p[pi] == 0;
    }
    if (p[pi] == '*') { star = pi++; mark = si; }
    else if (p[pi] != 0 && (p[pi] == '?' || p[pi] == s[si])) { pi++; si++; }
    else if (star >= 0) { pi = star + 1; si = ++mark; }
    else return FALSE;
  }
  __CPROVER_assert(0, "MODEL glob bound");
  return FALSE;
}
gboolean g_pattern_match_string(GPatternSpec *ps, const gchar *s) { return vf_glob(ps->p, s); }
gboolean g_pattern_spec_match_string(GPatternSpec *ps, const gchar *s) { return vf_glob(ps->p, s); }
gboolean g_pattern_match_simple(const gchar *p, const gchar *s) { return vf_glob(p, s); }
