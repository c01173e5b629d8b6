/* Duplicating a table: equal contents, no shared storage, independently freeable. */
#include "ds.h"
#define SAMEPTR(f) CHECK(d->f != a->f, "P22: the copy shares no storage with the original")

void harness(void)
{
  int i, j;
#if defined(TAB_TARGET)
  oi_target *a = NEW(oi_target, 1), *d;
  fill_target(a, NTARG);
  d = dup_oi_target(a);
  CHECK(d->revision == a->revision && d->ntarget == a->ntarget && d->usecategory == a->usecategory, "P22: target table header copied");
  SAMEPTR(targ);
  for (i = 0; i < NTARG; i++)
  {
    CHECK(d->targ[i].target_id == a->targ[i].target_id && same_target_rec(&d->targ[i], &a->targ[i]) && same_s(d->targ[i].category, a->targ[i].category), "P22: target records copied");
  }
  REACH("copied");
  free_oi_target(a); free_oi_target(d);
#elif defined(TAB_ARRAY)
  oi_array *a = NEW(oi_array, 1), *d;
  fill_array(a, NEL);
  mk_str(a->arrname, FLEN_VALUE, STRN);
  d = dup_oi_array(a);
  CHECK(same_array_tab(d, a), "P22: array table header copied");
  SAMEPTR(elem);
  for (i = 0; i < NEL; i++)
    CHECK(same_element(&d->elem[i], &a->elem[i]) && same_d(d->elem[i].fov, a->elem[i].fov) && same_s(d->elem[i].fovtype, a->elem[i].fovtype), "P22: array elements copied");
  REACH("copied");
  free_oi_array(a); free_oi_array(d);
#elif defined(TAB_WAVE)
  oi_wavelength *a = NEW(oi_wavelength, 1), *d;
  fill_wave(a, NW);
  mk_str(a->insname, FLEN_VALUE, STRN);
  d = dup_oi_wavelength(a);
  CHECK(d->revision == a->revision && d->nwave == a->nwave && same_s(d->insname, a->insname), "P22: wavelength table header copied");
  SAMEPTR(eff_wave); SAMEPTR(eff_band);
  for (i = 0; i < NW; i++)
    CHECK(same_f(d->eff_wave[i], a->eff_wave[i]) && same_f(d->eff_band[i], a->eff_band[i]), "P22: wavelengths copied");
  REACH("copied");
  free_oi_wavelength(a); free_oi_wavelength(d);
#elif defined(TAB_CORR)
  oi_corr *a = NEW(oi_corr, 1), *d;
  fill_corr(a, NCORR);
  mk_str(a->corrname, FLEN_VALUE, STRN);
  d = dup_oi_corr(a);
  CHECK(d->revision == a->revision && d->ndata == a->ndata && d->ncorr == a->ncorr && same_s(d->corrname, a->corrname), "P22: correlation table header copied");
  SAMEPTR(iindx); SAMEPTR(jindx); SAMEPTR(corr);
  for (i = 0; i < NCORR; i++)
    CHECK(d->iindx[i] == a->iindx[i] && d->jindx[i] == a->jindx[i] && same_d(d->corr[i], a->corr[i]), "P22: correlations copied");
  REACH("copied");
  free_oi_corr(a); free_oi_corr(d);
#elif defined(TAB_INSPOL)
  oi_inspol *a = NEW(oi_inspol, 1), *d;
  fill_inspol(a, NREC, NW);
  mk_str(a->arrname, FLEN_VALUE, STRN);
  for (i = 0; i < NREC; i++) mk_str(a->record[i].insname, FLEN_VALUE, 1);
  d = dup_oi_inspol(a);
  CHECK(same_inspol_tab(d, a) && d->numrec == a->numrec && d->nwave == a->nwave, "P22: polarization table header copied");
  SAMEPTR(record);
  for (i = 0; i < NREC; i++)
  {
    SAMEPTR(record[i].jxx); SAMEPTR(record[i].jyy); SAMEPTR(record[i].jxy); SAMEPTR(record[i].jyx);
    CHECK(d->record[i].target_id == a->record[i].target_id && same_inspol_scal(&d->record[i], &a->record[i]), "P22: polarization record scalars copied");
    for (j = 0; j < NW; j++) CHECK(same_inspol_ch(&d->record[i], j, &a->record[i], j), "P22: polarization data copied");
  }
  REACH("copied");
  free_oi_inspol(a); free_oi_inspol(d);
#elif defined(TAB_VIS)
  oi_vis *a = NEW(oi_vis, 1), *d;
  fill_vis(a, NREC, NW, REFMAP, CPLX);
  mk_str(a->arrname, FLEN_VALUE, STRN); mk_str(a->insname, FLEN_VALUE, STRN); mk_str(a->corrname, FLEN_VALUE, STRN);
  d = dup_oi_vis(a);
  CHECK(same_vis_tab(d, a) && d->numrec == a->numrec && d->nwave == a->nwave, "P22: vis table header copied");
  SAMEPTR(record);
  for (i = 0; i < NREC; i++)
  {
    SAMEPTR(record[i].visamp); SAMEPTR(record[i].visamperr); SAMEPTR(record[i].visphi); SAMEPTR(record[i].visphierr); SAMEPTR(record[i].flag);
    CHECK(d->record[i].target_id == a->record[i].target_id && same_vis_scal(&d->record[i], &a->record[i]) &&
          d->record[i].corrindx_rvis == a->record[i].corrindx_rvis && d->record[i].corrindx_ivis == a->record[i].corrindx_ivis, "P22: vis record scalars copied");
    for (j = 0; j < NW; j++)
    {
      CHECK(same_vis_ch(&d->record[i], j, &a->record[i], j) && d->record[i].flag[j] == a->record[i].flag[j], "P22: vis data copied");
#if CPLX
      CHECK(same_vis_cplx_ch(&d->record[i], j, &a->record[i], j), "P22: complex vis data copied");
#endif
    }
#if CPLX
    SAMEPTR(record[i].rvis); SAMEPTR(record[i].rviserr); SAMEPTR(record[i].ivis); SAMEPTR(record[i].iviserr);
#endif
#if REFMAP
    SAMEPTR(record[i].visrefmap);
    for (j = 0; j < NW * NW; j++) CHECK(d->record[i].visrefmap[j] == a->record[i].visrefmap[j], "P22: VISREFMAP copied");
#endif
  }
  REACH("copied");
  free_oi_vis(a); free_oi_vis(d);
#elif defined(TAB_VIS2)
  oi_vis2 *a = NEW(oi_vis2, 1), *d;
  fill_vis2(a, NREC, NW);
  mk_str(a->arrname, FLEN_VALUE, STRN); mk_str(a->insname, FLEN_VALUE, STRN); mk_str(a->corrname, FLEN_VALUE, STRN);
  d = dup_oi_vis2(a);
  CHECK(same_vis2_tab(d, a) && d->numrec == a->numrec && d->nwave == a->nwave, "P22: vis2 table header copied");
  SAMEPTR(record);
  for (i = 0; i < NREC; i++)
  {
    SAMEPTR(record[i].vis2data); SAMEPTR(record[i].vis2err); SAMEPTR(record[i].flag);
    CHECK(d->record[i].target_id == a->record[i].target_id && same_vis2_scal(&d->record[i], &a->record[i]), "P22: vis2 record scalars copied");
    for (j = 0; j < NW; j++) CHECK(same_vis2_ch(&d->record[i], j, &a->record[i], j) && d->record[i].flag[j] == a->record[i].flag[j], "P22: vis2 data copied");
  }
  REACH("copied");
  free_oi_vis2(a); free_oi_vis2(d);
#elif defined(TAB_T3)
  oi_t3 *a = NEW(oi_t3, 1), *d;
  fill_t3(a, NREC, NW);
  mk_str(a->arrname, FLEN_VALUE, STRN); mk_str(a->insname, FLEN_VALUE, STRN); mk_str(a->corrname, FLEN_VALUE, STRN);
  d = dup_oi_t3(a);
  CHECK(same_t3_tab(d, a) && d->numrec == a->numrec && d->nwave == a->nwave, "P22: t3 table header copied");
  SAMEPTR(record);
  for (i = 0; i < NREC; i++)
  {
    SAMEPTR(record[i].t3amp); SAMEPTR(record[i].t3amperr); SAMEPTR(record[i].t3phi); SAMEPTR(record[i].t3phierr); SAMEPTR(record[i].flag);
    CHECK(d->record[i].target_id == a->record[i].target_id && same_t3_scal(&d->record[i], &a->record[i]), "P22: t3 record scalars copied");
    for (j = 0; j < NW; j++) CHECK(same_t3_ch(&d->record[i], j, &a->record[i], j) && d->record[i].flag[j] == a->record[i].flag[j], "P22: t3 data copied");
  }
  REACH("copied");
  free_oi_t3(a); free_oi_t3(d);
#elif defined(TAB_FLUX)
  oi_flux *a = NEW(oi_flux, 1), *d;
  fill_flux(a, NREC, NW);
  mk_str(a->arrname, FLEN_VALUE, STRN); mk_str(a->insname, FLEN_VALUE, STRN); mk_str(a->corrname, FLEN_VALUE, STRN);
  d = dup_oi_flux(a);
  CHECK(same_flux_tab(d, a) && d->numrec == a->numrec && d->nwave == a->nwave, "P22: flux table header copied");
  SAMEPTR(record);
  for (i = 0; i < NREC; i++)
  {
    SAMEPTR(record[i].fluxdata); SAMEPTR(record[i].fluxerr); SAMEPTR(record[i].flag);
    CHECK(d->record[i].target_id == a->record[i].target_id && same_flux_scal(&d->record[i], &a->record[i]), "P22: flux record scalars copied");
    for (j = 0; j < NW; j++) CHECK(same_flux_ch(&d->record[i], j, &a->record[i], j) && d->record[i].flag[j] == a->record[i].flag[j], "P22: flux data copied");
  }
  REACH("copied");
  free_oi_flux(a); free_oi_flux(d);
#endif
  free(a);
  free(d);
}
