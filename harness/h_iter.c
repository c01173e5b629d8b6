/* Iterating over a dataset: exactly the accepted data, in file order, then the end. */
#include "ds.h"
#include "spec.h"
#include "oiiter.h"
#if defined(TAB_VIS)
#define K vis
#define TT t.vis
#elif defined(TAB_VIS2)
#define K vis2
#define TT t.vis2
#else
#define K t3
#define TT t.t3
#endif
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#define REC_OK CAT(, K, _rec_ok)
#define BAD CAT(, K, _bad)
typedef CAT(oi_, K, ) T;
typedef CAT(oi_, K, _record) R;
typedef CAT(oi_, K, _iter) IT;
#define INIT CAT(oi_, K, _iter_init)
#define NEXT CAT(oi_, K, _iter_next)
#define NT (N_VIS + N_VIS2 + N_T3)

static oi_fits o;
static tabs t;

#ifdef STEP
/* The first STEP data (in file order) have a concrete acceptance (bit mask MASK); after them the iterator makes
 * NSYM steps over data whose flags, targets, times and (NAMES) table names are symbolic.  The union over STEP and
 * MASK covers every position an iterator can be in. */
#ifndef NSYM
#define NSYM 1
#endif
#ifndef CONSTF
#define CONSTF 1
#endif
#ifndef PAT
#define PAT 0
#endif
#define TOTAL (NT * NREC * NW)
static int acc(int g, const oi_filter_spec *f)
{
  int i = g / (NREC * NW), j = g / NW % NREC, k = g % NW, tok = 1;
  R *r = &TT[i]->record[j];
  const char *nm = PAT == 1 ? TT[i]->arrname : PAT == 2 ? TT[i]->insname : TT[i]->corrname;
  if (PAT) tok = nm[0] == 'A';
  return tok && (f->target_id < 0 || r->target_id == f->target_id) && !out_d(r->mjd, f->mjd_range) && (f->accept_flagged || !r->flag[k]);
}
void harness(void)
{
  int i, j, k, g, n, seen = 0;
  oi_filter_spec f;
  IT it;
  mk_ds(&o, &t);
  init_oi_filter(&f);
  for (i = 0; i < N_WAV; i++) t.wav[i]->insname[0] = 'A' + i;
  for (i = 0; i < NT; i++) TT[i]->insname[0] = 'A' + (N_WAV > 1 ? i : 0);
#if PAT > 0
  for (i = 0; i < NT; i++)
  {
    char *nm = PAT == 1 ? TT[i]->arrname : PAT == 2 ? TT[i]->insname : TT[i]->corrname;
    if (i * NREC * NW < STEP) nm[0] = 'A';
    else mk_name(nm, FLEN_VALUE, 2, PAT != 2);
  }
  char *pt_ = PAT == 1 ? f.arrname : PAT == 2 ? f.insname : f.corrname;
  pt_[0] = 'A'; pt_[1] = 0;
#endif
  hash_ds(&o, &t);
  f.wave_range[0] = 0; f.wave_range[1] = 1e10f;
  f.target_id = CONSTF ? 1 : in_i();
  f.mjd_range[0] = CONSTF ? 50000.0 : in_d();
  f.mjd_range[1] = CONSTF ? 60000.0 : in_d();
  f.accept_flagged = CONSTF ? 0 : in_bool();
  for (g = 0; g < STEP; g++)
  {
    i = g / (NREC * NW), j = g / NW % NREC, k = g % NW;
    TT[i]->record[j].target_id = 1;
    TT[i]->record[j].mjd = 55000.0;
    TT[i]->record[j].flag[k] = !((MASK >> g) & 1);
  }
  for (i = 0; i < NT; i++)
    for (j = 0; j < NREC; j++)
    {
      R *r = &TT[i]->record[j];
      int q = i * NREC + j, m = q % 4 + 1;
      double a = q < 4 ? 3.0 * m : 4.0 * m, b = q < 4 ? 4.0 * m : 3.0 * m;
#ifdef TAB_T3
      r->u1coord = a; r->v1coord = 0.0; r->u2coord = 0.0; r->v2coord = b;
#else
      r->ucoord = a; r->vcoord = -b;
#endif
    }
  for (i = 0; i < N_WAV; i++)
    for (k = 0; k < NW; k++) t.wav[i]->eff_wave[k] = 0.5f + 0.25f * (i * NW + k);
  INIT(&it, &o, &f);
  int last = -1;
  for (n = 0; n < TOTAL + 1; n++)
  {
    /* next accepted datum after 'last' */
    int sym = last + 1 >= STEP || !((MASK) >> (last + 1));
    int want = -1;
    for (g = TOTAL - 1; g > last; g--)
      if (g < STEP ? (MASK >> g) & 1 : acc(g, &f)) want = g;
    int ev = -1, iw = -1;
    long ir = -1;
    T *pt = NULL;
    R *pr = NULL;
    bool got = NEXT(&it, &ev, &pt, &ir, &pr, &iw);
    CHECK(!!got == (want >= 0), "P06: a datum is returned exactly while an accepted one remains");
    if (want >= 0 && got)
    {
      int wi = want / (NREC * NW), wj = want / NW % NREC, wk = want % NW;
      CHECK(ev == wi + 1 && pt == TT[wi], "P06: data are visited table by table in file order");
      CHECK(ir == wj && pr == &TT[wi]->record[wj], "P06: data are visited record by record");
      CHECK(iw == wk, "P06: data are visited channel by channel");
      R *r = &TT[wi]->record[wj];
      double w = (double)t.wav[N_WAV > 1 ? wi : 0]->eff_wave[wk], ew = 0, u1 = 0, v1 = 0, u2 = 0, v2 = 0;
      if (PAT == 2) w = (double)t.wav[0]->eff_wave[wk];
#ifdef TAB_T3
      oi_t3_iter_get_uv(&it, &ew, &u1, &v1, &u2, &v2);
      CHECK(same_d(u1, r->u1coord / w) && same_d(v1, r->v1coord / w), "P07: AB coordinates of the current datum in wavelengths");
      CHECK(same_d(u2, r->u2coord / w) && same_d(v2, r->v2coord / w), "P07: BC coordinates of the current datum in wavelengths");
#else
      CAT(oi_, K, _iter_get_uv)(&it, &ew, &u1, &v1);
      CHECK(same_d(u1, r->ucoord / w) && same_d(v1, r->vcoord / w), "P07: coordinates of the current datum in wavelengths");
#endif
      CHECK(same_d(ew, w), "P07: wavelength of the current datum");
    }
    if (!sym) last = want;
    else
    {
      last = want;
      seen++;
      if (want >= 0) REACH("datum returned");
      if (seen == NSYM || want < 0) break;
    }
  }
  if (last < 0)
  {
    CHECK(!NEXT(&it, NULL, NULL, NULL, NULL, NULL), "P06: the end stays the end");
    REACH("end returned");
  }
}
#else
void harness(void)
{
  int i, j, k, pat = 0;
  oi_filter_spec f;
  IT it;
  mk_ds(&o, &t);
  mk_filter(&f);
  for (i = 0; i < N_WAV; i++) t.wav[i]->insname[0] = 'A' + i;
  for (i = 0; i < NT; i++)
  {
#ifdef NAMES
    mk_name(TT[i]->insname, FLEN_VALUE, N_WAV, 0);
    mk_name(TT[i]->arrname, FLEN_VALUE, 2, 1);
    mk_name(TT[i]->corrname, FLEN_VALUE, 2, 1);
#else
    TT[i]->insname[0] = 'A' + (N_WAV > 1 ? i : 0);
#endif
  }
  hash_ds(&o, &t);
#ifdef NAMES
  pat = in_range(0, 3);
  if (pat == 1) { f.arrname[0] = 'A'; f.arrname[1] = 0; }
  if (pat == 2) { f.insname[0] = 'A'; f.insname[1] = 0; }
  if (pat == 3) { f.corrname[0] = 'A'; f.corrname[1] = 0; }
#endif
#ifdef TAB_T3
  f.accept_t3amp = in_bool();
  f.accept_t3phi = in_bool();
  int want = f.accept_t3amp || f.accept_t3phi;
#elif defined(TAB_VIS)
  f.accept_vis = in_bool();
  int want = f.accept_vis;
#else
  f.accept_vis2 = in_bool();
  int want = f.accept_vis2;
#endif
#ifdef CONSTUV
  f.bas_range[0] = f.uvrad_range[0] = 0; f.bas_range[1] = f.uvrad_range[1] = 1e20;
#endif
#ifdef CONSTVAL
  f.snr_range[0] = -1e10f; f.snr_range[1] = 1e10f;
#endif
  INIT(&it, &o, &f);
  int n = 0;
  for (i = 0; i < NT; i++)
  {
    const oi_wavelength *w = oi_fits_lookup_wavelength(&o, TT[i]->insname);
    int tok = want;
    if (pat == 1) tok = tok && TT[i]->arrname[0] == 'A';
    if (pat == 2) tok = tok && TT[i]->insname[0] == 'A';
    if (pat == 3) tok = tok && TT[i]->corrname[0] == 'A';
    for (j = 0; j < NREC; j++)
      for (k = 0; k < NW; k++)
      {
        R *r = &TT[i]->record[j];
        int ok = tok && REC_OK(r, &f) && !out_f(w->eff_wave[k], f.wave_range) && !BAD(r, k, &f, w) && (f.accept_flagged || !r->flag[k]);
        if (!ok) continue;
        int ev = -1, iw = -1;
        long ir = -1;
        T *pt = NULL;
        R *pr = NULL;
        bool got = NEXT(&it, &ev, &pt, &ir, &pr, &iw);
        CHECK(got, "P06: every accepted datum is visited");
        if (got)
        {
          CHECK(ev == i + 1 && pt == TT[i], "P06: data are visited table by table in file order");
          CHECK(ir == j && pr == r, "P06: data are visited record by record");
          CHECK(iw == k, "P06: data are visited channel by channel");
#ifdef GETUV
          double ew = 0, u1 = 0, v1 = 0, u2 = 0, v2 = 0;
#ifdef TAB_T3
          oi_t3_iter_get_uv(&it, &ew, &u1, &v1, &u2, &v2);
          CHECK(same_d(u1, r->u1coord / (double)w->eff_wave[k]) && same_d(v1, r->v1coord / (double)w->eff_wave[k]), "P07: AB coordinates of the current datum in wavelengths");
          CHECK(same_d(u2, r->u2coord / (double)w->eff_wave[k]) && same_d(v2, r->v2coord / (double)w->eff_wave[k]), "P07: BC coordinates of the current datum in wavelengths");
#else
          CAT(oi_, K, _iter_get_uv)(&it, &ew, &u1, &v1);
          CHECK(same_d(u1, r->ucoord / (double)w->eff_wave[k]) && same_d(v1, r->vcoord / (double)w->eff_wave[k]), "P07: coordinates of the current datum in wavelengths");
#endif
          CHECK(same_d(ew, w->eff_wave[k]), "P07: wavelength of the current datum");
#endif
        }
        n++;
      }
  }
  CHECK(!NEXT(&it, NULL, NULL, NULL, NULL, NULL), "P06: the end is reported after the last accepted datum");
  CHECK(!NEXT(&it, NULL, NULL, NULL, NULL, NULL), "P06: the end stays the end");
  if (n == NT * NREC * NW) REACH("all data accepted");
  if (n == 0) REACH("no data accepted");
}
#endif
