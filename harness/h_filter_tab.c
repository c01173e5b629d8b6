/* One data table through the table filter.
 * -DTAB_VIS|VIS2|T3|FLUX|INSPOL, -DW_SEL|W_CHAN|W_FLAG, NREC, NW */
#include "build.h"
#include "spec.h"

#if defined(TAB_VIS)
#define K vis
typedef oi_vis T; typedef oi_vis_record R;
#ifndef CPLX
#define CPLX 0
#endif
#ifndef REFMAP
#define REFMAP 0
#endif
#define FILL(t) fill_vis(t, NREC, NW, REFMAP, CPLX)
#define RUN(i, f, w, u, o) filter_oi_vis(i, f, w, u, o)
#define SAME_TAB same_vis_tab
#define SAME_SCAL same_vis_scal
#define SAME_CH same_vis_ch
#elif defined(TAB_VIS2)
#define K vis2
typedef oi_vis2 T; typedef oi_vis2_record R;
#define FILL(t) fill_vis2(t, NREC, NW)
#define RUN(i, f, w, u, o) filter_oi_vis2(i, f, w, u, o)
#define SAME_TAB same_vis2_tab
#define SAME_SCAL same_vis2_scal
#define SAME_CH same_vis2_ch
#elif defined(TAB_T3)
#define K t3
typedef oi_t3 T; typedef oi_t3_record R;
#define FILL(t) fill_t3(t, NREC, NW)
#define RUN(i, f, w, u, o) filter_oi_t3(i, f, w, u, o)
#define SAME_TAB same_t3_tab
#define SAME_SCAL same_t3_scal
#define SAME_CH same_t3_ch
#elif defined(TAB_FLUX)
#define K flux
typedef oi_flux T; typedef oi_flux_record R;
#define FILL(t) fill_flux(t, NREC, NW)
#define RUN(i, f, w, u, o) filter_oi_flux(i, f, u, o)
#define SAME_TAB same_flux_tab
#define SAME_SCAL same_flux_scal
#define SAME_CH same_flux_ch
#endif

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define rec_ok CAT(K, _rec_ok)
#define datum_bad CAT(K, _bad)

void harness(void)
{
  T t, o;
  oi_wavelength w;
  oi_filter_spec f;
  char use[NW];
  int nuse = 0, i, j, k, n;

  FILL(&t);
  fill_wave(&w, NW);
  memset(&f, 0, sizeof(f));
  f.target_id = in_i();
  f.accept_flagged = 1;
  f.accept_t3amp = 1;
  f.accept_t3phi = 1;
  for (k = 0; k < 2; k++)
  {
    f.mjd_range[k] = in_d();
    f.bas_range[k] = in_d();
    f.uvrad_range[k] = in_d();
    f.snr_range[k] = in_f();
    ASSUME(!ambiguous(f.snr_range[k]));
  }
  for (j = 0; j < NW; j++) use[j] = 1;
#ifdef W_FLAG
  f.accept_flagged = in_bool();
  f.accept_t3amp = in_bool();
  f.accept_t3phi = in_bool();
  ASSUME(f.accept_t3amp || f.accept_t3phi);
#endif
#ifdef USEMASK
  for (j = 0; j < NW; j++) use[j] = (USEMASK >> j) & 1;
#endif
  for (j = 0; j < NW; j++) nuse += use[j] != 0;
  ASSUME(nuse > 0);

  RUN(&t, &f, &w, use, &o);

  CHECK(o.nwave == nuse, "P02: filtered table has one column entry per accepted channel");
  CHECK(SAME_TAB(&o, &t), "P02: table keywords are preserved by the filter");
  n = 0;
  for (i = 0; i < NREC; i++)
  {
    const R *r = &t.record[i];
    int ok = rec_ok(r, &f);
    int any = 0;
    char bad[NW];
#ifdef W_FLAG
    for (j = 0; j < NW; j++)
    {
      bad[j] = datum_bad(r, j, &f, &w);
      if (use[j] && !r->flag[j] && !bad[j]) any = 1;
    }
#ifndef TAB_FLUX
    ok = ok && (f.accept_flagged || any);
#endif
#endif
    if (!ok) continue;
    CHECK(n < o.numrec, "P01: every accepted record is in the output");
    if (n < o.numrec)
    {
      const R *q = &o.record[n];
      CHECK(q->target_id == (f.target_id >= 0 ? 1 : r->target_id), "P01: output TARGET_ID refers to the output target table");
      CHECK(SAME_SCAL(q, r), "P01: output records are the accepted input records in order");
#ifdef W_CHAN
      k = 0;
      for (j = 0; j < NW; j++)
      {
        if (!use[j]) continue;
#if defined(TAB_FLUX)
        CHECK(same_d(q->fluxerr[k], r->fluxerr[j]), "P02: flux error of each accepted channel is carried over");
        CHECK(q->fluxdata[k] != q->fluxdata[k] || q->fluxdata[k] == r->fluxdata[j], "P02: flux of each accepted channel is carried over or nulled");
        CHECK(q->flag[k] == r->flag[j], "P02: flux flags are carried over");
#else
        CHECK(SAME_CH(q, k, r, j), "P02: data of each accepted channel are carried over in order");
        CHECK(!r->flag[j] || q->flag[k], "P03: a flagged datum stays flagged");
#endif
#if defined(TAB_VIS)
#if CPLX
        CHECK(same_vis_cplx_ch(q, k, r, j), "P02: complex visibilities of each accepted channel are carried over");
#endif
#if REFMAP
        int l, m = 0;
        for (l = 0; l < NW; l++)
          if (use[l])
          {
            CHECK(q->visrefmap[m + k * nuse] == r->visrefmap[l + j * NW], "P02: VISREFMAP is the accepted sub-matrix");
            m++;
          }
#endif
#endif
        k++;
      }
#if defined(TAB_VIS)
      CHECK(CPLX || (q->rvis == NULL && q->ivis == NULL), "P02: absent complex columns stay absent");
      CHECK(REFMAP || q->visrefmap == NULL, "P02: absent VISREFMAP stays absent");
      CHECK(q->corrindx_rvis == r->corrindx_rvis && q->corrindx_ivis == r->corrindx_ivis, "P02: correlation indices are preserved");
#endif
#endif
#ifdef W_FLAG
      k = 0;
      for (j = 0; j < NW; j++)
      {
        if (!use[j]) continue;
#ifdef TAB_FLUX
        CHECK(q->flag[k] == r->flag[j], "P03: flux flags are untouched");
        if (bad[j]) CHECK(q->fluxdata[k] != q->fluxdata[k], "P03: flux outside the SNR range is nulled");
        else CHECK(same_d(q->fluxdata[k], r->fluxdata[j]), "P03: flux inside the SNR range is kept");
#else
        CHECK(!!q->flag[k] == (r->flag[j] || bad[j]), "P03: a datum is flagged iff it was flagged or is out of the UV-radius/SNR range");
#endif
#ifdef TAB_T3
        CHECK(f.accept_t3amp ? same_d(q->t3amp[k], r->t3amp[j]) : q->t3amp[k] != q->t3amp[k], "P03: triple amplitude kept iff accepted");
        CHECK(f.accept_t3phi ? same_d(q->t3phi[k], r->t3phi[j]) : q->t3phi[k] != q->t3phi[k], "P03: closure phase kept iff accepted");
#endif
        k++;
      }
#endif
    }
    n++;
  }
  CHECK(n == o.numrec, "P01: no record outside the accepted set is in the output");
  if (o.numrec == NREC) REACH("all records accepted");
  if (o.numrec == 0) REACH("no record accepted");
}
