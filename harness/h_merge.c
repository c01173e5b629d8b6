/* Merging datasets. */
#include "ds.h"
#include "datemjd.h"
#include "oimerge.h"
#ifndef NI
#define NI 2
#endif
static oi_fits in[NI], out;
static tabs tt[NI];
static int is(const char *a, const char *b) { return strcmp(a, b) == 0; }
#define NEWREV(r) ((r) == 1 ? 2 : (r))

static void do_merge(void)
{
  int i;
#if NI == 2 && !defined(VIA_LIST)
  merge_oi_fits(&out, &in[0], &in[1], NULL);
#elif NI == 3 && !defined(VIA_LIST)
  merge_oi_fits(&out, &in[0], &in[1], &in[2], NULL);
#else
  GList *l = NULL;
  for (i = 0; i < NI; i++) l = g_list_append(l, &in[i]);
  merge_oi_fits_list(l, &out);
  g_list_free(l);
#endif
}
static target *targ_of(oi_fits *o, int id)
{
  int i;
  for (i = 0; i < o->targets.ntarget; i++)
    if (o->targets.targ[i].target_id == id) return &o->targets.targ[i];
  return NULL;
}
static void *nth(GList *l, int n)
{
  while (l && n-- > 0) l = l->next;
  return l ? l->data : NULL;
}
static int len(GList *l)
{
  int n = 0;
  while (l) { n++; l = l->next; }
  return n;
}
static oi_array *find_arr(oi_fits *o, const char *s)
{
  GList *l;
  for (l = o->arrayList; l; l = l->next) if (is(((oi_array *)l->data)->arrname, s)) return l->data;
  return NULL;
}
static oi_wavelength *find_wav(oi_fits *o, const char *s)
{
  GList *l;
  for (l = o->wavelengthList; l; l = l->next) if (is(((oi_wavelength *)l->data)->insname, s)) return l->data;
  return NULL;
}
static oi_corr *find_cor(oi_fits *o, const char *s)
{
  GList *l;
  for (l = o->corrList; l; l = l->next) if (is(((oi_corr *)l->data)->corrname, s)) return l->data;
  return NULL;
}

/* the tables the data tables point to, with fixed names, unless the instance makes them symbolic */
static void wire(int q)
{
  int i;
  oi_fits *o = &in[q];
  tabs *t = &tt[q];
  for (i = 0; i < N_ARR; i++) t->arr[i]->arrname[0] = 'A' + i;
  for (i = 0; i < N_WAV; i++) t->wav[i]->insname[0] = 'A' + i;
  for (i = 0; i < N_COR; i++) t->cor[i]->corrname[0] = 'A' + i;
#define W(T, N) for (i = 0; i < N; i++) { T[i]->insname[0] = 'A'; if (N_ARR) T[i]->arrname[0] = 'A'; if (N_COR) T[i]->corrname[0] = 'A'; }
  W(t->vis, N_VIS) W(t->vis2, N_VIS2) W(t->t3, N_T3) W(t->flx, N_FLX)
  for (i = 0; i < N_POL; i++)
  {
    int j;
    if (N_ARR) t->pol[i]->arrname[0] = 'A';
    for (j = 0; j < NREC; j++) t->pol[i]->record[j].insname[0] = 'A';
  }
}
static void fix_targets(int q)
{
  int i;
  for (i = 0; i < NTARG; i++)
  {
    memset(in[q].targets.targ[i].target, 0, 33);
    in[q].targets.targ[i].target[0] = 'A' + i;
    in[q].targets.targ[i].target_id = i + 1;
  }
}
static int same_wav(const oi_wavelength *a, const oi_wavelength *b)
{
  int k;
  if (a->nwave != b->nwave) return 0;
  for (k = 0; k < NW; k++) if (a->eff_wave[k] != b->eff_wave[k] || a->eff_band[k] != b->eff_band[k]) return 0;
  return 1;
}
static int same_cor(const oi_corr *a, const oi_corr *b)
{
  int k;
  if (a->ncorr != b->ncorr || a->ndata != b->ndata) return 0;
  for (k = 0; k < NCORR; k++) if (a->iindx[k] != b->iindx[k] || a->jindx[k] != b->jindx[k] || !same_d(a->corr[k], b->corr[k])) return 0;
  return 1;
}
/* documented rule: same centre, and every station of a is in b (b may have more); names do not matter;
 * field of view counts if the input table has one (revision 2) */
static int same_arr(const oi_array *a, const oi_array *b)
{
  int k, m;
  if (a->arrayx != b->arrayx || a->arrayy != b->arrayy || a->arrayz != b->arrayz) return 0;
  for (k = 0; k < NEL; k++)
  {
    int ok = 0;
    for (m = 0; m < NEL; m++)
    {
      const element *e = &a->elem[k], *f = &b->elem[m];
      if (e->sta_index == f->sta_index && e->staxyz[0] == f->staxyz[0] && e->staxyz[1] == f->staxyz[1] && e->staxyz[2] == f->staxyz[2] &&
          e->diameter == f->diameter) ok = 1;
    }
    if (!ok) return 0;
  }
  return 1;
}
/* names all different within each input; symbolic choice among four spellings, some of which collide with generated names */
static void pick(char *d, int n)
{
#ifdef RNAMES
  static const char rn[] = RNAMES; /* concrete pattern */
  int k = rn[n] - '0';
#else
  int k = in_range(0, 3);
#endif
  memset(d, 0, FLEN_VALUE);
  d[0] = k == 1 ? 'B' : 'A';
  if (k >= 2) { d[1] = '_'; d[2] = '0'; d[3] = '0'; d[4] = k == 2 ? '2' : '3'; }
}

void harness(void)
{
  int q, i, j, k;
  for (q = 0; q < NI; q++) { mk_ds(&in[q], &tt[q]); wire(q); memset(in[q].header.date_obs, 0, FLEN_VALUE); }
#ifndef W_TARG
  for (q = 0; q < NI; q++) fix_targets(q);
#define FIXT(T, N) for (i = 0; i < N; i++) for (j = 0; j < NREC; j++) T[i]->record[j].target_id = 1 + (NTARG > 1 ? (i + j) % NTARG : 0);
  for (q = 0; q < NI; q++) { FIXT(tt[q].vis, N_VIS) FIXT(tt[q].vis2, N_VIS2) FIXT(tt[q].t3, N_T3) FIXT(tt[q].flx, N_FLX) FIXT(tt[q].pol, N_POL) }
#endif

#if defined(W_TARG)
  for (q = 0; q < NI; q++)
  {
    target *g = in[q].targets.targ;
#ifdef TNAMES
    static const char tn[] = TNAMES; /* concrete pattern of equal and different names */
    for (i = 0; i < NTARG; i++) { memset(g[i].target, 0, 33); g[i].target[0] = tn[q * NTARG + i]; }
#else
    for (i = 0; i < NTARG; i++) mk_name(g[i].target, 33, 3, 0);
#endif
    for (i = 0; i < NTARG; i++) for (j = 0; j < i; j++) ASSUME(!is(g[i].target, g[j].target) && g[i].target_id != g[j].target_id);
#define TOK(T, N) for (i = 0; i < N; i++) for (j = 0; j < NREC; j++) ASSUME(targ_of(&in[q], T[i]->record[j].target_id) != NULL);
    TOK(tt[q].vis, N_VIS) TOK(tt[q].vis2, N_VIS2) TOK(tt[q].t3, N_T3) TOK(tt[q].flx, N_FLX) TOK(tt[q].pol, N_POL)
  }
  do_merge();
  int n = 0, anycat = 0;
  for (q = 0; q < NI; q++) anycat |= in[q].targets.usecategory;
  for (q = 0; q < NI; q++)
    for (i = 0; i < NTARG; i++)
    {
      target *g = &in[q].targets.targ[i];
      int p, m, first = 1;
      for (p = 0; p < q; p++) for (m = 0; m < NTARG; m++) if (is(in[p].targets.targ[m].target, g->target)) first = 0;
      if (first)
      {
        CHECK(n < out.targets.ntarget, "P08: every distinct target is in the merged table");
        if (n < out.targets.ntarget)
        {
          target *h = &out.targets.targ[n];
          CHECK(same_target_rec(h, g), "P08: a merged target has the fields of its first occurrence, in order of first occurrence");
          if (in[q].targets.usecategory) CHECK(is(h->category, g->category), "P08: a merged target keeps its category");
          CHECK(targ_of(&out, h->target_id) == h, "P08: merged target ids are unique");
        }
        n++;
      }
    }
  CHECK(out.targets.ntarget == n, "P08: no target is listed twice");
  CHECK(!!out.targets.usecategory == !!anycat, "P08: categories are kept if any input has them");
#define TCHK(T, L, R, N) for (q = 0; q < NI; q++) for (i = 0; i < N; i++) { R *x = nth(out.L, q * N + i); for (j = 0; j < NREC; j++) { \
    target *a = targ_of(&in[q], tt[q].T[i]->record[j].target_id), *b = targ_of(&out, x->record[j].target_id); \
    CHECK(b != NULL && is(a->target, b->target), "P08: a merged record refers to the target of the same name"); } }
  TCHK(vis, visList, oi_vis, N_VIS) TCHK(vis2, vis2List, oi_vis2, N_VIS2) TCHK(t3, t3List, oi_t3, N_T3) TCHK(flx, fluxList, oi_flux, N_FLX) TCHK(pol, inspolList, oi_inspol, N_POL)
#ifdef TNAMES
  REACH("merged");
#else
  if (n == NTARG) REACH("same targets");
  if (n == 3) REACH("distinct targets");
#endif

#elif defined(W_ARR) || defined(W_WAV) || defined(W_COR)
#ifdef KINDS
  static const char kinds[] = KINDS; /* concrete pattern of equal and different contents */
#define KB(bit) ((kinds[q * NREF + i] - '0') >> (bit) & 1)
#else
#define KB(bit) in_bool()
#endif
#if defined(W_ARR)
#define REF arr
#define NREF N_ARR
#define NAME arrname
#define FIND find_arr
#define LIST arrayList
#define NUM numArray
#define LOOK oi_fits_lookup_array
  typedef oi_array RT;
  for (q = 0; q < NI; q++) for (i = 0; i < N_ARR; i++)
  {
    oi_array *a = tt[q].arr[i];
    a->arrayx = KB(0); a->arrayy = 0; a->arrayz = KB(0);
    for (k = 0; k < NEL; k++)
    {
      element *e = &a->elem[k];
      e->sta_index =
#ifdef KINDS
      k + 1;
#else
      in_range(1, 3);
#endif
      for (j = 0; j < k; j++) ASSUME(a->elem[j].sta_index != e->sta_index);
      e->staxyz[0] = KB(0); e->staxyz[1] = KB(1); e->staxyz[2] = 0;
      e->diameter = KB(1); e->fov = KB(1);
      memset(e->fovtype, 0, 7); e->fovtype[0] = KB(1) ? 'F' : 'R';
    }
  }
#elif defined(W_WAV)
#define REF wav
#define NREF N_WAV
#define NAME insname
#define FIND find_wav
#define LIST wavelengthList
#define NUM numWavelength
#define LOOK oi_fits_lookup_wavelength
  typedef oi_wavelength RT;
  for (q = 0; q < NI; q++) for (i = 0; i < N_WAV; i++) for (k = 0; k < NW; k++)
  {
    tt[q].wav[i]->eff_wave[k] = KB(0) ? 1.0f : 2.0f;
    tt[q].wav[i]->eff_band[k] = KB(1) ? 0.5f : 0.25f;
  }
#else
#define REF cor
#define NREF N_COR
#define NAME corrname
#define FIND find_cor
#define LIST corrList
#define NUM numCorr
#define LOOK oi_fits_lookup_corr
  typedef oi_corr RT;
#endif
  for (q = 0; q < NI; q++)
  {
    for (i = 0; i < NREF; i++)
    {
      pick(tt[q].REF[i]->NAME, q * NREF + i);
      for (j = 0; j < i; j++) ASSUME(!is(tt[q].REF[i]->NAME, tt[q].REF[j]->NAME));
    }
#define SETREF(T, N) for (i = 0; i < N; i++) { k = in_range(0, NREF - 1); for (j = 0; j < NREF; j++) if (j == k) memcpy(T[i]->NAME, tt[q].REF[j]->NAME, FLEN_VALUE); }
    SETREF(tt[q].vis, N_VIS) SETREF(tt[q].vis2, N_VIS2) SETREF(tt[q].t3, N_T3) SETREF(tt[q].flx, N_FLX)
#ifdef W_ARR
    SETREF(tt[q].pol, N_POL)
#elif defined(W_WAV)
    for (i = 0; i < N_POL; i++) for (int r = 0; r < NREC; r++) { k = in_range(0, NREF - 1); for (j = 0; j < NREF; j++) if (j == k) memcpy(tt[q].pol[i]->record[r].insname, tt[q].REF[j]->NAME, FLEN_VALUE); }
#endif
  }
  do_merge();
  int n = len(out.LIST);
  CHECK(out.NUM == n, "P09: the count is the number of tables");
  for (i = 0; i < NI * NREF && i < n; i++)
  {
    RT *a = nth(out.LIST, i);
    for (j = 0; j < i; j++) { RT *b = nth(out.LIST, j); CHECK(!is(a->NAME, b->NAME), "P09: merged table names are unique"); }
    CHECK(LOOK(&out, a->NAME) == a, "P09: every merged table is found by its name");
  }
  /* same contents: what the input table defines, the output table it became defines too */
#if defined(W_ARR)
#define SAME(a, b) same_arr(a, b)
#elif defined(W_WAV)
#define SAME(a, b) same_wav(a, b)
#else
#define SAME(a, b) same_cor(a, b)
#endif
#define RCHK(T, L, R, N) for (q = 0; q < NI; q++) for (i = 0; i < N; i++) { R *x = nth(out.L, q * N + i); \
    RT *a = FIND(&in[q], tt[q].T[i]->NAME), *b = FIND(&out, x->NAME); \
    CHECK(b != NULL, "P09: a merged table refers to a table that exists"); \
    if (b) CHECK(SAME(a, b), "P09: a merged table refers to a table with the contents its input referred to"); }
  RCHK(vis, visList, oi_vis, N_VIS) RCHK(vis2, vis2List, oi_vis2, N_VIS2) RCHK(t3, t3List, oi_t3, N_T3) RCHK(flx, fluxList, oi_flux, N_FLX)
#ifdef W_ARR
  RCHK(pol, inspolList, oi_inspol, N_POL)
#elif defined(W_WAV)
  for (q = 0; q < NI; q++) for (i = 0; i < N_POL; i++) for (j = 0; j < NREC; j++)
  {
    oi_inspol *x = nth(out.inspolList, q * N_POL + i);
    oi_wavelength *a = find_wav(&in[q], tt[q].pol[i]->record[j].insname), *b = find_wav(&out, x->record[j].insname);
    CHECK(b != NULL && SAME(a, b), "P09: a merged polarisation record refers to a wavelength table with the contents its input referred to");
  }
#endif
#ifdef W_COR
  CHECK(n == NI * NREF, "P09: every correlation table is kept");
#else
#ifdef KINDS
  REACH("merged");
#else
  if (n < NI * NREF) REACH("tables merged");
#endif
#endif
#ifndef KINDS
  if (n == NI * NREF) REACH("all tables kept");
#endif

#elif defined(W_DATA)
  do_merge();
#define DCHK(T, L, NUM_, R, N, UPG, SCAL, TAB, CH) \
  CHECK(len(out.L) == NI * N && out.NUM_ == NI * N, "P10: every input table is in the output once"); \
  for (q = 0; q < NI; q++) for (i = 0; i < N; i++) { R *x = nth(out.L, q * N + i), *y = tt[q].T[i]; \
    if (!x) break; \
    CHECK(x->numrec == NREC && x->nwave == NW, "P10: all records and channels are kept"); \
    CHECK(x->revision == (UPG ? NEWREV(y->revision) : y->revision), "P10: merged tables have the current revision"); \
    R hx = *x, hy = *y; hx.revision = hy.revision = 1; TAB(hx, hy) \
    for (j = 0; j < NREC; j++) { TCH(x, y) \
      CHECK(SCAL(&x->record[j], &y->record[j]), "P10: record fields are conserved"); \
      for (k = 0; k < NW; k++) { CHECK(CH(&x->record[j], k, &y->record[j], k), "P10: data are conserved"); FCH(x, y) } } }
#define TCH(x, y) if (y->revision == 1) { CHECK(x->record[j].time == 0.0, "P10: version 1 times are zeroed"); } else CHECK(same_d(x->record[j].time, y->record[j].time), "P10: times are conserved"); double keep = y->record[j].time; y->record[j].time = x->record[j].time;
#define FCH(x, y) CHECK(x->record[j].flag[k] == y->record[j].flag[k], "P10: flags are conserved");
#define NONAMES(hx, hy) memset(hx.arrname, 0, FLEN_VALUE); memset(hy.arrname, 0, FLEN_VALUE); memset(hx.insname, 0, FLEN_VALUE); memset(hy.insname, 0, FLEN_VALUE); memset(hx.corrname, 0, FLEN_VALUE); memset(hy.corrname, 0, FLEN_VALUE);
#define TABV(hx, hy) NONAMES(hx, hy) CHECK(same_vis_tab(&hx, &hy), "P10: table keywords are conserved");
#define TAB2(hx, hy) NONAMES(hx, hy) CHECK(same_vis2_tab(&hx, &hy), "P10: table keywords are conserved");
#define TAB3(hx, hy) NONAMES(hx, hy) CHECK(same_t3_tab(&hx, &hy), "P10: table keywords are conserved");
#define TABF(hx, hy) NONAMES(hx, hy) CHECK(same_flux_tab(&hx, &hy), "P10: table keywords are conserved");
#if N_VIS
  DCHK(vis, visList, numVis, oi_vis, N_VIS, 1, same_vis_scal, TABV, same_vis_ch)
#if CPLX
  for (q = 0; q < NI; q++) for (i = 0; i < N_VIS; i++) for (j = 0; j < NREC; j++) for (k = 0; k < NW; k++) { oi_vis *x = nth(out.visList, q * N_VIS + i); CHECK(same_vis_cplx_ch(&x->record[j], k, &tt[q].vis[i]->record[j], k), "P10: complex data are conserved"); }
#endif
#if REFMAP
  for (q = 0; q < NI; q++) for (i = 0; i < N_VIS; i++) for (j = 0; j < NREC; j++) for (k = 0; k < NW * NW; k++) { oi_vis *x = nth(out.visList, q * N_VIS + i); CHECK(x->record[j].visrefmap[k] == tt[q].vis[i]->record[j].visrefmap[k], "P10: the reference map is conserved"); }
#endif
#else
  CHECK(out.visList == NULL && out.numVis == 0, "P10: nothing is invented");
#endif
#if N_VIS2
  DCHK(vis2, vis2List, numVis2, oi_vis2, N_VIS2, 1, same_vis2_scal, TAB2, same_vis2_ch)
#else
  CHECK(out.vis2List == NULL && out.numVis2 == 0, "P10: nothing is invented");
#endif
#if N_T3
  DCHK(t3, t3List, numT3, oi_t3, N_T3, 1, same_t3_scal, TAB3, same_t3_ch)
#else
  CHECK(out.t3List == NULL && out.numT3 == 0, "P10: nothing is invented");
#endif
#undef TCH
#define TCH(x, y)
#if N_FLX
  DCHK(flx, fluxList, numFlux, oi_flux, N_FLX, 0, same_flux_scal, TABF, same_flux_ch)
#else
  CHECK(out.fluxList == NULL && out.numFlux == 0, "P10: nothing is invented");
#endif
#undef FCH
#define FCH(x, y)
#define TABP(hx, hy) memset(hx.arrname, 0, FLEN_VALUE); memset(hy.arrname, 0, FLEN_VALUE); CHECK(same_inspol_tab(&hx, &hy), "P10: table keywords are conserved");
#define SCALP(a, b) (same_d((a)->mjd_obs, (b)->mjd_obs) && same_d((a)->mjd_end, (b)->mjd_end) && (a)->sta_index == (b)->sta_index)
#if N_POL
  DCHK(pol, inspolList, numInspol, oi_inspol, N_POL, 0, SCALP, TABP, same_inspol_ch)
#else
  CHECK(out.inspolList == NULL && out.numInspol == 0, "P10: nothing is invented");
#endif
  REACH("merged");

#elif defined(W_INDEP)
  /* the inputs are untouched and nothing is shared: free the inputs, then read and free the output; no leak */
  do_merge();
  for (q = 0; q < NI; q++) { free_oi_fits(&in[q]); }
  for (q = 0; q < NI; q++) for (j = 0; j < NREC; j++)
  {
#if N_VIS
    oi_vis *x = nth(out.visList, q); x->record[j].visamp[0] = 1; x->record[j].flag[0] = 1;
#endif
#if N_VIS2
    oi_vis2 *y = nth(out.vis2List, q); y->record[j].vis2data[0] = 1; y->record[j].flag[0] = 1;
#endif
#if N_T3
    oi_t3 *z = nth(out.t3List, q); z->record[j].t3amp[0] = 1; z->record[j].flag[0] = 1;
#endif
#if N_FLX
    oi_flux *w = nth(out.fluxList, q); w->record[j].fluxdata[0] = 1; w->record[j].flag[0] = 1;
#endif
#if N_POL
    oi_inspol *p = nth(out.inspolList, q); p->record[j].jxx[0] = 1;
#endif
  }
  CHECK(out.targets.ntarget == NTARG && out.targets.targ[0].target[0] == 'A', "P10: the output survives its inputs");
  free_oi_fits(&out);
  REACH("freed");

#elif defined(W_HDR)
  /* dates: concrete choice per instance (the keyword values stay symbolic); DAYS makes the day digit symbolic */
  static const char *const dates[7] = {"", "1990-02-03", "1999-12-31", "2000-01-01", "2000-01-02", "2016-11-30", "2000-01-0"};
  int best = 99;
#ifdef DATES
  static const char pat[] = DATES;
  for (q = 0; q < NI; q++)
  {
    int c = pat[q] - '0';
    set_name(in[q].header.date_obs, FLEN_VALUE, dates[c]);
    if (c == 6)
    {
      int dd = in_range(1, 9);
      in[q].header.date_obs[9] = '0' + dd;
      if (best == 99 || 100 + dd < best) best = 100 + dd;
    }
    else if (c > 0 && c < best) best = c;
  }
#endif
  do_merge();
  if (best < 99) CHECK(is(out.header.date_obs, dates[best]), "P11: DATE-OBS is the earliest of the inputs");
  if (best > 100)
  {
    char e[11] = "2000-01-0";
    e[9] = '0' + (best - 100);
    CHECK(is(out.header.date_obs, e), "P11: DATE-OBS is the earliest of the inputs");
  }
  CHECK(is(out.header.content, "OIFITS2"), "P11: the merged header declares version 2");
#define HK(f, req) { const char *v = NULL; int multi = 0; for (q = 0; q < NI; q++) { const char *w = in[q].header.f; if (w[0]) { if (v && !is(v, w)) multi = 1; v = w; } } \
    if (multi) CHECK(is(out.header.f, "MULTIPLE"), "P11: differing keyword values become MULTIPLE"); \
    else if (v) CHECK(is(out.header.f, v), "P11: an agreed keyword value is kept"); \
    else CHECK(is(out.header.f, req ? "UNKNOWN" : ""), "P11: a keyword no input has is UNKNOWN if mandatory, else absent"); }
  HK(origin, 1) HK(telescop, 1) HK(instrume, 1) HK(observer, 1) HK(insmode, 1) HK(object, 1)
  HK(referenc, 0) HK(author, 0) HK(prog_id, 0) HK(procsoft, 0) HK(obstech, 0)
  if (is(out.header.origin, "MULTIPLE")) REACH("multiple");
  if (is(out.header.origin, "UNKNOWN")) REACH("unknown");
#endif
}
