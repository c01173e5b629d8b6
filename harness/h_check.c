/* Conformance checks: for every dataset of the configured shape, the set of
 * reported breaches is exactly the set the OIFITS rules define. */
#include "ds.h"
#include "oicheck.h"

static oi_fits o;
static tabs t;
static int n;        /* expected number of breaches */
static int lev;      /* expected severity */
static int f_tab, f_i, f_rec, f_ch; /* where the first breach is */
static int b_tab, b_i, b_rec, b_ch; /* where the next breach() call would be */
static void breach(int cond, int level)
{
  if (cond)
  {
    if (n == 0) { f_tab = b_tab; f_i = b_i; f_rec = b_rec; f_ch = b_ch; }
    n++;
    if (level > lev) lev = level;
  }
}
#define AT(tab, i, rec, ch) (b_tab = (tab), b_i = (i) + 1, b_rec = (rec) + 1, b_ch = (ch) + 1)
static const char *const tabname[] = {"", "OI_ARRAY", "OI_WAVELENGTH", "OI_CORR", "OI_INSPOL", "OI_VIS", "OI_VIS2", "OI_T3", "OI_FLUX"};
enum { NOTAB, ARR_, WAV_, COR_, POL_, VIS_, VIS2_, T3_, FLX_ };
/* location text names table, table number and, where applicable, record and channel */
static int loc_ok(const char *l)
{
  const char *nm = tabname[f_tab];
  int k = 0;
  while (nm[k]) { if (l[k] != nm[k]) return 0; k++; }
  if (l[k] != ' ' || l[k + 1] != '#' || l[k + 2] != '0' + f_i) return 0;
  k += 3;
  if (f_rec)
  {
    const char *w = " record ";
    int m = 0;
    while (w[m]) { if (l[k] != w[m]) return 0; k++; m++; }
    if (l[k] != '0' + f_rec) return 0;
    k++;
  }
  if (f_ch)
  {
    const char *w = " channel ";
    int m = 0;
    while (w[m]) { if (l[k] != w[m]) return 0; k++; m++; }
    if (l[k] != '0' + f_ch) return 0;
  }
  return 1;
}
#define ERR 2
#define WARN 1
/* symbolic choice from a list of keyword values */
static void pick(char *dst, const char *a, const char *b, const char *c, const char *d)
{
  int k = in_range(0, 4);
  memset(dst, 0, FLEN_VALUE);
  if (k == 1) set_name(dst, FLEN_VALUE, a);
  if (k == 2) set_name(dst, FLEN_VALUE, b);
  if (k == 3) set_name(dst, FLEN_VALUE, c);
  if (k == 4) set_name(dst, FLEN_VALUE, d);
}
static int is(const char *a, const char *b) { return strcmp(a, b) == 0; }
static target *find_targ(int id)
{
  int i;
  for (i = 0; i < NTARG; i++)
    if (o.targets.targ[i].target_id == id) return &o.targets.targ[i];
  return NULL;
}
/* an element with this station index exists in the named array */
static int has_el(const char *arrname, int sta)
{
  int i, k;
  for (i = 0; i < N_ARR; i++)
    if (is(t.arr[i]->arrname, arrname))
      for (k = 0; k < NEL; k++)
        if (t.arr[i]->elem[k].sta_index == sta) return 1;
  return 0;
}
static int has_corr(const char *name)
{
  int i;
  for (i = 0; i < N_COR; i++)
    if (is(t.cor[i]->corrname, name)) return 1;
  return 0;
}

void harness(void)
{
  int i, j, k, v2;
  oi_check_result r;
  oi_breach_level ret;

  mk_ds(&o, &t);
  v2 = in_bool();
  memset(o.header.content, 0, FLEN_VALUE);
  if (v2) set_name(o.header.content, FLEN_VALUE, "OIFITS2");
  else if (in_bool()) set_name(o.header.content, FLEN_VALUE, "OIFITS1");
  /* reference tables: distinct names; data tables: any of them, none, or a dangling name */
  for (i = 0; i < N_ARR; i++) t.arr[i]->arrname[0] = 'A' + i;
  for (i = 0; i < N_WAV; i++) t.wav[i]->insname[0] = 'A' + i;
  for (i = 0; i < N_COR; i++) t.cor[i]->corrname[0] = 'A' + i;
#define REFS(T, N) for (i = 0; i < N; i++) { mk_name(T[i]->arrname, FLEN_VALUE, N_ARR + 1, 1); mk_name(T[i]->corrname, FLEN_VALUE, N_COR + 1, 1); }
  REFS(t.vis, N_VIS)
  REFS(t.vis2, N_VIS2)
  REFS(t.t3, N_T3)
  REFS(t.flx, N_FLX)
  for (i = 0; i < N_POL; i++) mk_name(t.pol[i]->arrname, FLEN_VALUE, N_ARR + 1, 1);
  hash_ds(&o, &t);

#if defined(CK_TABLES)
  /* revisions are whatever the file says */
#define REVS(T, N) for (i = 0; i < N; i++) T[i]->revision = in_i();
  o.targets.revision = in_i();
  REVS(t.arr, N_ARR) REVS(t.wav, N_WAV) REVS(t.cor, N_COR) REVS(t.pol, N_POL)
  REVS(t.vis, N_VIS) REVS(t.vis2, N_VIS2) REVS(t.t3, N_T3) REVS(t.flx, N_FLX)
  ret = check_tables(&o, &r);
  if (v2) breach(N_ARR == 0, ERR);
  breach(N_WAV == 0, ERR);
  breach(N_VIS == 0 && N_VIS2 == 0 && N_T3 == 0 && (!v2 || N_FLX == 0), ERR);
  AT(NOTAB, 0, -1, -1);
  breach(o.targets.revision != (v2 ? 2 : 1), ERR);
  for (i = 0; i < N_ARR; i++) { AT(ARR_, i, -1, -1); breach(t.arr[i]->revision != (v2 ? 2 : 1), ERR); }
  for (i = 0; i < N_WAV; i++) { AT(WAV_, i, -1, -1); breach(t.wav[i]->revision != (v2 ? 2 : 1), ERR); }
  for (i = 0; i < N_VIS; i++) { AT(VIS_, i, -1, -1); breach(t.vis[i]->revision != (v2 ? 2 : 1), ERR); }
  for (i = 0; i < N_VIS2; i++) { AT(VIS2_, i, -1, -1); breach(t.vis2[i]->revision != (v2 ? 2 : 1), ERR); }
  for (i = 0; i < N_T3; i++) { AT(T3_, i, -1, -1); breach(t.t3[i]->revision != (v2 ? 2 : 1), ERR); }
  if (v2)
  {
    for (i = 0; i < N_FLX; i++) { AT(FLX_, i, -1, -1); breach(t.flx[i]->revision != 1, ERR); }
    for (i = 0; i < N_COR; i++) { AT(COR_, i, -1, -1); breach(t.cor[i]->revision != 1, ERR); }
    for (i = 0; i < N_POL; i++) { AT(POL_, i, -1, -1); breach(t.pol[i]->revision != 1, ERR); }
  }
#define TAG "P18: "
#elif defined(CK_HEADER)
  ret = check_header(&o, &r);
  if (v2)
  {
    breach(o.header.origin[0] == 0, ERR);
    breach(o.header.date[0] == 0, ERR);
    breach(o.header.date_obs[0] == 0, ERR);
    breach(o.header.telescop[0] == 0, ERR);
    breach(o.header.instrume[0] == 0, ERR);
    breach(o.header.observer[0] == 0, ERR);
    breach(o.header.insmode[0] == 0, ERR);
    breach(o.header.object[0] == 0, ERR);
  }
#define TAG "P18: "
#elif defined(CK_KEYWORDS)
  for (i = 0; i < N_ARR; i++) pick(t.arr[i]->frame, "GEOCENTRIC", "SKY", "SKYX", "G");
  for (i = 0; i < N_VIS; i++)
  {
    pick(t.vis[i]->amptyp, "absolute", "differential", "correlated flux", "abs");
    pick(t.vis[i]->phityp, "absolute", "differential", "correlated flux", "x");
  }
  for (i = 0; i < N_FLX; i++)
  {
    pick(t.flx[i]->fovtype, "FWHM", "RADIUS", "RAD", "FWHMX");
    t.flx[i]->calstat = in_c();
  }
  ret = check_keywords(&o, &r);
  for (i = 0; i < N_ARR; i++) { AT(ARR_, i, -1, -1); breach(!is(t.arr[i]->frame, "GEOCENTRIC") && !is(t.arr[i]->frame, "SKY"), ERR); }
  for (i = 0; i < N_VIS; i++)
  {
    AT(VIS_, i, -1, -1);
    const char *a = t.vis[i]->amptyp, *p = t.vis[i]->phityp;
    breach(v2 && a[0] && !is(a, "absolute") && !is(a, "differential") && !is(a, "correlated flux"), ERR);
    breach(v2 && p[0] && !is(p, "absolute") && !is(p, "differential"), ERR);
  }
  for (i = 0; i < N_FLX; i++)
  {
    AT(FLX_, i, -1, -1);
    const char *p = t.flx[i]->fovtype;
    breach(t.flx[i]->calstat != 'C' && t.flx[i]->calstat != 'U', ERR);
    breach(p[0] && !is(p, "FWHM") && !is(p, "RADIUS"), ERR);
  }
#define TAG "P18: "
#elif defined(CK_REFMAP)
  for (i = 0; i < N_VIS; i++)
  {
    pick(t.vis[i]->amptyp, "absolute", "differential", "correlated flux", "diff");
    pick(t.vis[i]->phityp, "absolute", "differential", "differentials", "x");
    t.vis[i]->usevisrefmap = in_flag();
  }
  ret = check_visrefmap(&o, &r);
  for (i = 0; i < N_VIS; i++)
  {
    AT(VIS_, i, -1, -1);
    int diff = is(t.vis[i]->amptyp, "differential") || is(t.vis[i]->phityp, "differential");
    breach(diff && !t.vis[i]->usevisrefmap, ERR);
    breach(!diff && t.vis[i]->usevisrefmap, WARN);
  }
#define TAG "P18: "
#elif defined(CK_UNIQ)
  ret = check_unique_targets(&o, &r);
  for (i = 0; i < NTARG; i++)
  {
    int dup = 0;
    for (j = 0; j < i; j++) dup |= is(o.targets.targ[i].target, o.targets.targ[j].target);
    breach(dup, WARN);
  }
#define TAG "P19: "
#elif defined(CK_TARG)
  ret = check_targets_present(&o, &r);
#define T_(T, N, K) for (i = 0; i < N; i++) for (j = 0; j < NREC; j++) { AT(K, i, j, -1); breach(find_targ(T[i]->record[j].target_id) == NULL, ERR); }
  T_(t.vis, N_VIS, VIS_) T_(t.vis2, N_VIS2, VIS2_) T_(t.t3, N_T3, T3_) T_(t.flx, N_FLX, FLX_)
#define TAG "P19: "
#elif defined(CK_ARRNAME)
  for (i = 0; i < N_FLX; i++) t.flx[i]->calstat = in_c();
  ret = check_arrname(&o, &r);
  if (v2)
  {
    for (i = 0; i < N_POL; i++) { AT(POL_, i, -1, -1); breach(t.pol[i]->arrname[0] == 0, ERR); }
    for (i = 0; i < N_VIS; i++) { AT(VIS_, i, -1, -1); breach(t.vis[i]->arrname[0] == 0, ERR); }
    for (i = 0; i < N_VIS2; i++) { AT(VIS2_, i, -1, -1); breach(t.vis2[i]->arrname[0] == 0, ERR); }
    for (i = 0; i < N_T3; i++) { AT(T3_, i, -1, -1); breach(t.t3[i]->arrname[0] == 0, ERR); }
    for (i = 0; i < N_FLX; i++) { AT(FLX_, i, -1, -1); breach(t.flx[i]->arrname[0] == 0 && t.flx[i]->calstat == 'U', ERR); }
  }
#define TAG "P19: "
#elif defined(CK_ELEM)
  ret = check_elements_present(&o, &r);
  for (i = 0; i < N_POL; i++)
  {
    AT(NOTAB, i, -1, -1);
    breach(t.pol[i]->arrname[0] == 0, ERR);
    for (j = 0; j < NREC; j++) AT(POL_, i, j, -1), breach(t.pol[i]->arrname[0] && !has_el(t.pol[i]->arrname, t.pol[i]->record[j].sta_index), ERR);
  }
#define E_(T, N, S, K) for (i = 0; i < N; i++) for (j = 0; j < NREC; j++) for (k = 0; k < S; k++) AT(K, i, j, -1), breach(T[i]->arrname[0] && !has_el(T[i]->arrname, T[i]->record[j].sta_index[k]), ERR);
  E_(t.vis, N_VIS, 2, VIS_) E_(t.vis2, N_VIS2, 2, VIS2_) E_(t.t3, N_T3, 3, T3_)
  for (i = 0; i < N_FLX; i++) for (j = 0; j < NREC; j++)
    AT(FLX_, i, j, -1), breach(t.flx[i]->arrname[0] && t.flx[i]->record[j].sta_index != -1 && !has_el(t.flx[i]->arrname, t.flx[i]->record[j].sta_index), ERR);
#define TAG "P19: "
#elif defined(CK_CORR)
  ret = check_corr_present(&o, &r);
#define C_(T, N, K) for (i = 0; i < N; i++) AT(K, i, -1, -1), breach(T[i]->corrname[0] && !has_corr(T[i]->corrname), ERR);
  C_(t.vis, N_VIS, VIS_) C_(t.vis2, N_VIS2, VIS2_) C_(t.t3, N_T3, T3_) C_(t.flx, N_FLX, FLX_)
#define TAG "P19: "
#elif defined(CK_FLAGGING)
  ret = check_flagging(&o, &r);
  for (i = 0; i < N_VIS; i++) for (j = 0; j < NREC; j++) for (k = 0; k < NW; k++)
    AT(VIS_, i, j, k), breach(!t.vis[i]->record[j].flag[k] && (t.vis[i]->record[j].visamperr[k] < 0 || t.vis[i]->record[j].visphierr[k] < 0), ERR);
  for (i = 0; i < N_VIS2; i++) for (j = 0; j < NREC; j++) for (k = 0; k < NW; k++)
    AT(VIS2_, i, j, k), breach(!t.vis2[i]->record[j].flag[k] && t.vis2[i]->record[j].vis2err[k] < 0, ERR);
  for (i = 0; i < N_T3; i++) for (j = 0; j < NREC; j++) for (k = 0; k < NW; k++)
    AT(T3_, i, j, k), breach(!t.t3[i]->record[j].flag[k] && (t.t3[i]->record[j].t3amperr[k] < 0 || t.t3[i]->record[j].t3phierr[k] < 0), ERR);
#define TAG "P20: "
#elif defined(CK_T3AMP)
  ret = check_t3amp(&o, &r);
  for (i = 0; i < N_T3; i++) for (j = 0; j < NREC; j++) for (k = 0; k < NW; k++)
    AT(T3_, i, j, k), breach(!t.t3[i]->record[j].flag[k] && t.t3[i]->record[j].t3amp[k] - 1.0 > t.t3[i]->record[j].t3amperr[k], ERR);
#define TAG "P20: "
#elif defined(CK_WAVE)
  for (i = 0; i < N_WAV; i++) for (k = 0; k < NW; k++) ASSUME(t.wav[i]->eff_wave[k] == t.wav[i]->eff_wave[k]);
  ret = check_waveorder(&o, &r);
  int bad = 0;
  for (i = 0; i < N_WAV; i++) for (k = 1; k < NW; k++) bad |= t.wav[i]->eff_wave[k] < t.wav[i]->eff_wave[k - 1];
  CHECK((r.numBreach > 0) == bad, "P20: a wavelength order breach is reported iff some table is not ascending");
  n = r.numBreach;
  lev = bad ? WARN : 0;
#define TAG "P20: "
#elif defined(CK_TIME)
  ret = check_time(&o, &r);
#define I_(T, N, K) for (i = 0; i < N; i++) for (j = 0; j < NREC; j++) AT(K, i, j, -1), breach(v2 && (T[i]->record[j].time > 1e-10 || T[i]->record[j].time < -1e-10), WARN);
  I_(t.vis, N_VIS, VIS_) I_(t.vis2, N_VIS2, VIS2_) I_(t.t3, N_T3, T3_)
#define TAG "P20: "
#elif defined(CK_FLUX)
  for (i = 0; i < N_FLX; i++)
  {
    pick(t.flx[i]->fovtype, "FWHM", "RADIUS", "RAD", "FWHMX");
    t.flx[i]->calstat = in_c();
  }
  ret = check_flux(&o, &r);
  for (i = 0; i < N_FLX; i++)
  {
    AT(FLX_, i, -1, -1);
    int sta = t.flx[i]->record[0].sta_index != -1, arr = t.flx[i]->arrname[0] != 0;
    if (t.flx[i]->calstat == 'C') { breach(arr, ERR); breach(sta, ERR); }
    if (t.flx[i]->calstat == 'U') { breach(!arr, ERR); breach(!sta, ERR); breach(t.flx[i]->fovtype[0] != 0, ERR); }
  }
#define TAG "P19: "
#endif

  CHECK(ret == r.level, TAG "the returned severity is the reported severity");
  CHECK(r.level == lev, TAG "the severity is the worst breach present");
  CHECK(r.numBreach == n, TAG "every breach is reported once and nothing else");
  CHECK((r.description != NULL) == (n > 0), TAG "a description is given iff there is a breach");
#ifndef VF_NOFMT
  if (n == 1 && f_tab) CHECK(loc_ok(r.location[0]), "P21: a breach is located at the table, record and channel it is in");
#endif
  CHECK(n < MAX_REPORT || is(r.location[MAX_REPORT - 1], "[List truncated]"), "P21: an overlong list is marked as truncated");
  for (i = 0; i < MAX_REPORT; i++)
    CHECK((r.location[i] != NULL) == (i < n), "P21: exactly the reported breaches carry a location");
  CHECK(r.numBreach == n, "P21: the number of occurrences is the number of breaches, also beyond the reporting limit");
  CHECK(r.level == lev && ret == lev, "P21: severity");
#ifndef NOCLEAN
  if (n == 0) REACH("conforming dataset");
#endif
  if (n >= MINB) REACH("dataset with breaches");
  free_check_result(&r);
}
