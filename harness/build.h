/* Builders of symbolic OIFITS tables and comparison predicates. */
#ifndef BUILD_H
#define BUILD_H
#include "vf.h"
#include "oifile.h"

#define NEW(T, n) ((T *)malloc(sizeof(T) * (n)))

/* symbolic printable string of at most n characters; the rest of dst is 0 */
static void mk_str(char *dst, int size, int n)
{
  int i, ended = 0;
  memset(dst, 0, size);
  for (i = 0; i < n; i++)
  {
    char c = in_c();
    ASSUME(c == 0 || (c > 32 && c < 127));
    if (ended) ASSUME(c == 0);
    if (c == 0) ended = 1;
    dst[i] = c;
  }
}
/* symbolic choice of a one-letter name in {A,B,..} (nopt letters), or "" if allowed */
static void mk_name(char *dst, int size, int nopt, int allow_empty)
{
  memset(dst, 0, size);
  char c = in_c();
  ASSUME((c >= 'A' && c < 'A' + nopt) || (allow_empty && c == 0));
  dst[0] = c;
}
static void set_name(char *dst, int size, const char *s)
{
  int i = 0;
  memset(dst, 0, size);
  while (s[i]) { dst[i] = s[i]; i++; }
}

/* ---- value domains ---- */
#ifdef GRID
#define GRIDUV
#endif
#ifdef CONSTUV
static void mk_uv(double *u, double *v) { *u = 3.0; *v = 4.0; }
#elif defined(GRIDUV)
/* exact grid: every product, sum, root and quotient the library forms is exactly representable */
static double g_coord(int k, double unit)
{ return k == 0 ? 0.0 : k == 1 ? unit : k == 2 ? 2 * unit : k == -1 ? -unit : -2 * unit; }
static void mk_uv(double *u, double *v)
{
  int k = in_range(-2, 2);
  *u = g_coord(k, 3.0);
  *v = g_coord(k, 4.0);
}
#else
static void mk_uv(double *u, double *v) { *u = in_d(); *v = in_d(); }
#endif
#ifdef CONSTVAL
static double mk_val(void) { return 3.0; }
static double mk_err(void) { return 1.0; }
#elif defined(GRID)
static double mk_val(void)
{
  int k = in_range(0, 4);
  return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? 3.0 : k == 3 ? -2.0 : 5.0;
}
static double mk_err(void)
{
  int k = in_range(0, 3);
  return k == 0 ? 1.0 : k == 1 ? 2.0 : k == 2 ? 0.5 : 0.0;
}
#else
static double mk_val(void) { return in_d(); }
static double mk_err(void) { return in_d(); }
#endif
#ifdef CONSTWAVE
static float mk_wave(void) { return 1.0f; }
#elif defined(GRID)
static float mk_wave(void)
{
  int k = in_range(0, 2);
  return k == 0 ? 1.0f : k == 1 ? 0.5f : 0.25f;
}
#else
static float mk_wave(void) { return in_f(); }
#endif

static void fill_wave(oi_wavelength *w, int nwave)
{
  int j;
  memset(w, 0, sizeof(*w));
  w->revision = in_range(1, 2);
  w->nwave = nwave;
  w->eff_wave = NEW(float, nwave);
  w->eff_band = NEW(float, nwave);
  for (j = 0; j < nwave; j++)
  {
    w->eff_wave[j] = mk_wave();
    w->eff_band[j] = in_f();
  }
}

#ifndef STRN
#define STRN 2
#endif

static void fill_vis2_rec(oi_vis2_record *r, int nwave)
{
  int j;
  r->target_id = in_i();
  r->time = in_d();
  r->mjd = in_d();
  r->int_time = in_d();
  r->vis2data = NEW(double, nwave);
  r->vis2err = NEW(double, nwave);
  r->flag = NEW(BOOL, nwave);
  r->corrindx_vis2data = in_i();
  mk_uv(&r->ucoord, &r->vcoord);
  r->sta_index[0] = in_i();
  r->sta_index[1] = in_i();
  for (j = 0; j < nwave; j++)
  {
    r->vis2data[j] = mk_val();
    r->vis2err[j] = mk_err();
    r->flag[j] = in_flag();
  }
}
static void fill_vis2(oi_vis2 *t, int numrec, int nwave)
{
  int i;
  memset(t, 0, sizeof(*t));
  t->revision = in_range(1, 2);
  mk_str(t->date_obs, FLEN_VALUE, STRN);
  t->numrec = numrec;
  t->nwave = nwave;
  t->record = NEW(oi_vis2_record, numrec);
  for (i = 0; i < numrec; i++) fill_vis2_rec(&t->record[i], nwave);
}

static void fill_vis_rec(oi_vis_record *r, int nwave, int refmap, int cplx)
{
  int j;
  r->target_id = in_i();
  r->time = in_d();
  r->mjd = in_d();
  r->int_time = in_d();
  r->visamp = NEW(double, nwave);
  r->visamperr = NEW(double, nwave);
  r->visphi = NEW(double, nwave);
  r->visphierr = NEW(double, nwave);
  r->flag = NEW(BOOL, nwave);
  r->corrindx_visamp = in_i();
  r->corrindx_visphi = in_i();
  r->corrindx_rvis = in_i();
  r->corrindx_ivis = in_i();
  r->visrefmap = NULL;
  r->rvis = r->rviserr = r->ivis = r->iviserr = NULL;
  mk_uv(&r->ucoord, &r->vcoord);
  r->sta_index[0] = in_i();
  r->sta_index[1] = in_i();
  for (j = 0; j < nwave; j++)
  {
    r->visamp[j] = mk_val();
    r->visamperr[j] = mk_err();
    r->visphi[j] = in_d();
    r->visphierr[j] = mk_err();
    r->flag[j] = in_flag();
  }
  if (refmap)
  {
    r->visrefmap = NEW(BOOL, nwave * nwave);
    for (j = 0; j < nwave * nwave; j++) r->visrefmap[j] = in_flag();
  }
  if (cplx)
  {
    r->rvis = NEW(double, nwave);
    r->rviserr = NEW(double, nwave);
    r->ivis = NEW(double, nwave);
    r->iviserr = NEW(double, nwave);
    for (j = 0; j < nwave; j++)
    {
      r->rvis[j] = in_d();
      r->rviserr[j] = in_d();
      r->ivis[j] = in_d();
      r->iviserr[j] = in_d();
    }
  }
}
static void fill_vis(oi_vis *t, int numrec, int nwave, int refmap, int cplx)
{
  int i;
  memset(t, 0, sizeof(*t));
  t->revision = in_range(1, 2);
  mk_str(t->date_obs, FLEN_VALUE, STRN);
  mk_str(t->amptyp, FLEN_VALUE, STRN);
  mk_str(t->phityp, FLEN_VALUE, STRN);
  t->amporder = in_i();
  t->phiorder = in_i();
  t->usevisrefmap = refmap;
  t->usecomplex = cplx;
  mk_str(t->complexunit, FLEN_VALUE, STRN);
  mk_str(t->ampunit, FLEN_VALUE, STRN);
  t->numrec = numrec;
  t->nwave = nwave;
  t->record = NEW(oi_vis_record, numrec);
  for (i = 0; i < numrec; i++) fill_vis_rec(&t->record[i], nwave, refmap, cplx);
}

static void fill_t3_rec(oi_t3_record *r, int nwave)
{
  int j;
  r->target_id = in_i();
  r->time = in_d();
  r->mjd = in_d();
  r->int_time = in_d();
  r->t3amp = NEW(double, nwave);
  r->t3amperr = NEW(double, nwave);
  r->t3phi = NEW(double, nwave);
  r->t3phierr = NEW(double, nwave);
  r->flag = NEW(BOOL, nwave);
  r->corrindx_t3amp = in_i();
  r->corrindx_t3phi = in_i();
  mk_uv(&r->u1coord, &r->v1coord);
  mk_uv(&r->u2coord, &r->v2coord);
  r->sta_index[0] = in_i();
  r->sta_index[1] = in_i();
  r->sta_index[2] = in_i();
  for (j = 0; j < nwave; j++)
  {
    r->t3amp[j] = mk_val();
    r->t3amperr[j] = mk_err();
    r->t3phi[j] = in_d();
    r->t3phierr[j] = mk_err();
    r->flag[j] = in_flag();
  }
}
static void fill_t3(oi_t3 *t, int numrec, int nwave)
{
  int i;
  memset(t, 0, sizeof(*t));
  t->revision = in_range(1, 2);
  mk_str(t->date_obs, FLEN_VALUE, STRN);
  t->numrec = numrec;
  t->nwave = nwave;
  t->record = NEW(oi_t3_record, numrec);
  for (i = 0; i < numrec; i++) fill_t3_rec(&t->record[i], nwave);
}

static void fill_flux_rec(oi_flux_record *r, int nwave)
{
  int j;
  r->target_id = in_i();
  r->mjd = in_d();
  r->int_time = in_d();
  r->fluxdata = NEW(double, nwave);
  r->fluxerr = NEW(double, nwave);
  r->flag = NEW(BOOL, nwave);
  r->corrindx_fluxdata = in_i();
  r->sta_index = in_i();
  for (j = 0; j < nwave; j++)
  {
    r->fluxdata[j] = mk_val();
    r->fluxerr[j] = mk_err();
    r->flag[j] = in_flag();
  }
}
static void fill_flux(oi_flux *t, int numrec, int nwave)
{
  int i;
  memset(t, 0, sizeof(*t));
  t->revision = in_range(1, 2);
  mk_str(t->date_obs, FLEN_VALUE, STRN);
  t->fov = in_d();
  mk_str(t->fovtype, FLEN_VALUE, STRN);
  t->calstat = in_c();
  mk_str(t->fluxunit, FLEN_VALUE, STRN);
  t->numrec = numrec;
  t->nwave = nwave;
  t->record = NEW(oi_flux_record, numrec);
  for (i = 0; i < numrec; i++) fill_flux_rec(&t->record[i], nwave);
}

static void fill_inspol_rec(oi_inspol_record *r, int nwave)
{
  int j;
  r->target_id = in_i();
  memset(r->insname, 0, FLEN_VALUE);
  r->mjd_obs = in_d();
  r->mjd_end = in_d();
  r->jxx = NEW(float complex, nwave);
  r->jyy = NEW(float complex, nwave);
  r->jxy = NEW(float complex, nwave);
  r->jyx = NEW(float complex, nwave);
  r->sta_index = in_i();
  for (j = 0; j < nwave; j++)
  {
    float a, b;
    a = in_f(); b = in_f(); ((float *)&r->jxx[j])[0] = a; ((float *)&r->jxx[j])[1] = b;
    a = in_f(); b = in_f(); ((float *)&r->jyy[j])[0] = a; ((float *)&r->jyy[j])[1] = b;
    a = in_f(); b = in_f(); ((float *)&r->jxy[j])[0] = a; ((float *)&r->jxy[j])[1] = b;
    a = in_f(); b = in_f(); ((float *)&r->jyx[j])[0] = a; ((float *)&r->jyx[j])[1] = b;
  }
}
static void fill_inspol(oi_inspol *t, int numrec, int nwave)
{
  int i;
  memset(t, 0, sizeof(*t));
  t->revision = 1;
  mk_str(t->date_obs, FLEN_VALUE, STRN);
  t->npol = in_i();
  mk_str(t->orient, FLEN_VALUE, STRN);
  mk_str(t->model, FLEN_VALUE, STRN);
  t->numrec = numrec;
  t->nwave = nwave;
  t->record = NEW(oi_inspol_record, numrec);
  for (i = 0; i < numrec; i++) fill_inspol_rec(&t->record[i], nwave);
}

static void fill_target_rec(target *t)
{
  memset(t, 0, sizeof(*t));
  t->target_id = in_i();
  mk_str(t->target, 33, STRN);
  t->raep0 = in_d();
  t->decep0 = in_d();
  t->equinox = in_f();
  t->ra_err = in_d();
  t->dec_err = in_d();
  t->sysvel = in_d();
  mk_str(t->veltyp, 9, STRN);
  mk_str(t->veldef, 9, STRN);
  t->pmra = in_d();
  t->pmdec = in_d();
  t->pmra_err = in_d();
  t->pmdec_err = in_d();
  t->parallax = in_f();
  t->para_err = in_f();
  mk_str(t->spectyp, 33, STRN);
  mk_str(t->category, 4, 3);
}
static void fill_target(oi_target *t, int n)
{
  int i;
  t->revision = in_range(1, 2);
  t->ntarget = n;
  t->usecategory = in_flag();
  t->targ = NEW(target, n);
  for (i = 0; i < n; i++) fill_target_rec(&t->targ[i]);
}
static void fill_array(oi_array *a, int n)
{
  int i, k;
  memset(a, 0, sizeof(*a));
  a->revision = in_range(1, 2);
  mk_str(a->frame, FLEN_VALUE, STRN);
  a->arrayx = in_d();
  a->arrayy = in_d();
  a->arrayz = in_d();
  a->nelement = n;
  a->elem = NEW(element, n);
  for (i = 0; i < n; i++)
  {
    element *e = &a->elem[i];
    memset(e, 0, sizeof(*e));
    mk_str(e->tel_name, 17, STRN);
    mk_str(e->sta_name, 17, STRN);
    e->sta_index = in_i();
    e->diameter = in_f();
    for (k = 0; k < 3; k++) e->staxyz[k] = in_d();
    e->fov = in_d();
    mk_str(e->fovtype, 7, STRN);
  }
}
static void fill_corr(oi_corr *c, int n)
{
  int i;
  memset(c, 0, sizeof(*c));
  c->revision = 1;
  c->ndata = in_i();
  c->ncorr = n;
  c->iindx = NEW(int, n);
  c->jindx = NEW(int, n);
  c->corr = NEW(double, n);
  for (i = 0; i < n; i++)
  {
    c->iindx[i] = in_i();
    c->jindx[i] = in_i();
    c->corr[i] = in_d();
  }
}
static void fill_header(oi_header *h)
{
  memset(h, 0, sizeof(*h));
  mk_str(h->origin, FLEN_VALUE, STRN);
  mk_str(h->date, FLEN_VALUE, STRN);
  mk_str(h->date_obs, FLEN_VALUE, STRN);
  mk_str(h->content, FLEN_VALUE, STRN);
  mk_str(h->telescop, FLEN_VALUE, STRN);
  mk_str(h->instrume, FLEN_VALUE, STRN);
  mk_str(h->observer, FLEN_VALUE, STRN);
  mk_str(h->insmode, FLEN_VALUE, STRN);
  mk_str(h->object, FLEN_VALUE, STRN);
  mk_str(h->referenc, FLEN_VALUE, STRN);
  mk_str(h->author, FLEN_VALUE, STRN);
  mk_str(h->prog_id, FLEN_VALUE, STRN);
  mk_str(h->procsoft, FLEN_VALUE, STRN);
  mk_str(h->obstech, FLEN_VALUE, STRN);
}

/* ---- comparison predicates ---- */
static int same_cf(float complex a, float complex b)
{
  float *x = (float *)&a, *y = (float *)&b;
  return same_f(x[0], y[0]) && same_f(x[1], y[1]);
}
static int same_s(const char *a, const char *b) { return strcmp(a, b) == 0; }

static int same_vis2_tab(const oi_vis2 *a, const oi_vis2 *b)
{
  return a->revision == b->revision && same_s(a->date_obs, b->date_obs) && same_s(a->arrname, b->arrname) &&
         same_s(a->insname, b->insname) && same_s(a->corrname, b->corrname);
}
static int same_vis_tab(const oi_vis *a, const oi_vis *b)
{
  return a->revision == b->revision && same_s(a->date_obs, b->date_obs) && same_s(a->arrname, b->arrname) &&
         same_s(a->insname, b->insname) && same_s(a->corrname, b->corrname) && same_s(a->amptyp, b->amptyp) &&
         same_s(a->phityp, b->phityp) && a->amporder == b->amporder && a->phiorder == b->phiorder &&
         a->usevisrefmap == b->usevisrefmap && a->usecomplex == b->usecomplex &&
         same_s(a->complexunit, b->complexunit) && same_s(a->ampunit, b->ampunit);
}
static int same_t3_tab(const oi_t3 *a, const oi_t3 *b)
{
  return a->revision == b->revision && same_s(a->date_obs, b->date_obs) && same_s(a->arrname, b->arrname) &&
         same_s(a->insname, b->insname) && same_s(a->corrname, b->corrname);
}
static int same_flux_tab(const oi_flux *a, const oi_flux *b)
{
  return a->revision == b->revision && same_s(a->date_obs, b->date_obs) && same_s(a->arrname, b->arrname) &&
         same_s(a->insname, b->insname) && same_s(a->corrname, b->corrname) && same_d(a->fov, b->fov) &&
         same_s(a->fovtype, b->fovtype) && a->calstat == b->calstat && same_s(a->fluxunit, b->fluxunit);
}
static int same_inspol_tab(const oi_inspol *a, const oi_inspol *b)
{
  return a->revision == b->revision && same_s(a->date_obs, b->date_obs) && a->npol == b->npol &&
         same_s(a->arrname, b->arrname) && same_s(a->orient, b->orient) && same_s(a->model, b->model);
}
/* scalar record fields, target id excluded */
static int same_vis2_scal(const oi_vis2_record *a, const oi_vis2_record *b)
{
  return same_d(a->time, b->time) && same_d(a->mjd, b->mjd) && same_d(a->int_time, b->int_time) &&
         a->corrindx_vis2data == b->corrindx_vis2data && same_d(a->ucoord, b->ucoord) &&
         same_d(a->vcoord, b->vcoord) && a->sta_index[0] == b->sta_index[0] && a->sta_index[1] == b->sta_index[1];
}
static int same_vis_scal(const oi_vis_record *a, const oi_vis_record *b)
{
  return same_d(a->time, b->time) && same_d(a->mjd, b->mjd) && same_d(a->int_time, b->int_time) &&
         a->corrindx_visamp == b->corrindx_visamp && a->corrindx_visphi == b->corrindx_visphi &&
         same_d(a->ucoord, b->ucoord) && same_d(a->vcoord, b->vcoord) && a->sta_index[0] == b->sta_index[0] &&
         a->sta_index[1] == b->sta_index[1];
}
static int same_t3_scal(const oi_t3_record *a, const oi_t3_record *b)
{
  return same_d(a->time, b->time) && same_d(a->mjd, b->mjd) && same_d(a->int_time, b->int_time) &&
         a->corrindx_t3amp == b->corrindx_t3amp && a->corrindx_t3phi == b->corrindx_t3phi &&
         same_d(a->u1coord, b->u1coord) && same_d(a->v1coord, b->v1coord) && same_d(a->u2coord, b->u2coord) &&
         same_d(a->v2coord, b->v2coord) && a->sta_index[0] == b->sta_index[0] && a->sta_index[1] == b->sta_index[1] &&
         a->sta_index[2] == b->sta_index[2];
}
static int same_flux_scal(const oi_flux_record *a, const oi_flux_record *b)
{
  return same_d(a->mjd, b->mjd) && same_d(a->int_time, b->int_time) && a->corrindx_fluxdata == b->corrindx_fluxdata &&
         a->sta_index == b->sta_index;
}
static int same_inspol_scal(const oi_inspol_record *a, const oi_inspol_record *b)
{
  return same_s(a->insname, b->insname) && same_d(a->mjd_obs, b->mjd_obs) && same_d(a->mjd_end, b->mjd_end) &&
         a->sta_index == b->sta_index;
}
/* one channel: a[k] against b[j] */
static int same_vis2_ch(const oi_vis2_record *a, int k, const oi_vis2_record *b, int j)
{ return same_d(a->vis2data[k], b->vis2data[j]) && same_d(a->vis2err[k], b->vis2err[j]); }
static int same_vis_ch(const oi_vis_record *a, int k, const oi_vis_record *b, int j)
{
  return same_d(a->visamp[k], b->visamp[j]) && same_d(a->visamperr[k], b->visamperr[j]) &&
         same_d(a->visphi[k], b->visphi[j]) && same_d(a->visphierr[k], b->visphierr[j]);
}
static int same_vis_cplx_ch(const oi_vis_record *a, int k, const oi_vis_record *b, int j)
{
  return same_d(a->rvis[k], b->rvis[j]) && same_d(a->rviserr[k], b->rviserr[j]) && same_d(a->ivis[k], b->ivis[j]) &&
         same_d(a->iviserr[k], b->iviserr[j]);
}
static int same_t3_ch(const oi_t3_record *a, int k, const oi_t3_record *b, int j)
{
  return same_d(a->t3amp[k], b->t3amp[j]) && same_d(a->t3amperr[k], b->t3amperr[j]) &&
         same_d(a->t3phi[k], b->t3phi[j]) && same_d(a->t3phierr[k], b->t3phierr[j]);
}
static int same_flux_ch(const oi_flux_record *a, int k, const oi_flux_record *b, int j)
{ return same_d(a->fluxdata[k], b->fluxdata[j]) && same_d(a->fluxerr[k], b->fluxerr[j]); }
static int same_inspol_ch(const oi_inspol_record *a, int k, const oi_inspol_record *b, int j)
{
  return same_cf(a->jxx[k], b->jxx[j]) && same_cf(a->jyy[k], b->jyy[j]) && same_cf(a->jxy[k], b->jxy[j]) &&
         same_cf(a->jyx[k], b->jyx[j]);
}
static int same_target_rec(const target *a, const target *b) /* id excluded */
{
  return same_s(a->target, b->target) && same_d(a->raep0, b->raep0) && same_d(a->decep0, b->decep0) &&
         same_f(a->equinox, b->equinox) && same_d(a->ra_err, b->ra_err) && same_d(a->dec_err, b->dec_err) &&
         same_d(a->sysvel, b->sysvel) && same_s(a->veltyp, b->veltyp) && same_s(a->veldef, b->veldef) &&
         same_d(a->pmra, b->pmra) && same_d(a->pmdec, b->pmdec) && same_d(a->pmra_err, b->pmra_err) &&
         same_d(a->pmdec_err, b->pmdec_err) && same_f(a->parallax, b->parallax) && same_f(a->para_err, b->para_err) &&
         same_s(a->spectyp, b->spectyp);
}
static int same_element(const element *a, const element *b)
{
  return same_s(a->tel_name, b->tel_name) && same_s(a->sta_name, b->sta_name) && a->sta_index == b->sta_index &&
         same_f(a->diameter, b->diameter) && same_d(a->staxyz[0], b->staxyz[0]) && same_d(a->staxyz[1], b->staxyz[1]) &&
         same_d(a->staxyz[2], b->staxyz[2]);
}
static int same_array_tab(const oi_array *a, const oi_array *b)
{
  return a->revision == b->revision && same_s(a->arrname, b->arrname) && same_s(a->frame, b->frame) &&
         same_d(a->arrayx, b->arrayx) && same_d(a->arrayy, b->arrayy) && same_d(a->arrayz, b->arrayz) &&
         a->nelement == b->nelement;
}
static int same_header(const oi_header *a, const oi_header *b)
{
  return same_s(a->origin, b->origin) && same_s(a->date_obs, b->date_obs) && same_s(a->content, b->content) &&
         same_s(a->telescop, b->telescop) && same_s(a->instrume, b->instrume) && same_s(a->observer, b->observer) &&
         same_s(a->insmode, b->insmode) && same_s(a->object, b->object) && same_s(a->referenc, b->referenc) &&
         same_s(a->author, b->author) && same_s(a->prog_id, b->prog_id) && same_s(a->procsoft, b->procsoft) &&
         same_s(a->obstech, b->obstech);
}
#endif
