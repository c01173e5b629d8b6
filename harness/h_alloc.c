/* Tables allocated by the library: every array has room for the promised
 * number of records and channels, and freeing returns all of it. */
#include "ds.h"
void harness(void)
{
  int i, j;
#define TOUCH(x, v) do { (x) = (v); } while (0)
#if defined(TAB_VIS)
  oi_vis *t = NEW(oi_vis, 1);
  alloc_oi_vis(t, NREC, NW);
  CHECK(t->numrec == NREC && t->nwave == NW, "P27: dimensions recorded");
  CHECK(!t->usevisrefmap && !t->usecomplex, "P27: optional columns start absent");
  for (i = 0; i < NREC; i++)
  {
    oi_vis_record *r = &t->record[i];
    CHECK(r->visrefmap == NULL && r->rvis == NULL && r->rviserr == NULL && r->ivis == NULL && r->iviserr == NULL, "P27: optional columns start absent");
    for (j = 0; j < NW; j++) { r->visamp[j] = 1; r->visamperr[j] = 2; r->visphi[j] = 3; r->visphierr[j] = 4; r->flag[j] = 1; }
  }
  for (i = 0; i < NREC; i++) for (j = 0; j < NW; j++)
    CHECK(t->record[i].visamp[j] == 1 && t->record[i].visamperr[j] == 2 && t->record[i].visphi[j] == 3 && t->record[i].visphierr[j] == 4 && t->record[i].flag[j] == 1, "P27: columns do not overlap");
#if REFMAP
  t->usevisrefmap = 1;
  for (i = 0; i < NREC; i++) t->record[i].visrefmap = NEW(BOOL, NW * NW);
#endif
#if CPLX
  t->usecomplex = 1;
  for (i = 0; i < NREC; i++) { t->record[i].rvis = NEW(double, NW); t->record[i].rviserr = NEW(double, NW); t->record[i].ivis = NEW(double, NW); t->record[i].iviserr = NEW(double, NW); }
#endif
  free_oi_vis(t);
#elif defined(TAB_VIS2)
  oi_vis2 *t = NEW(oi_vis2, 1);
  alloc_oi_vis2(t, NREC, NW);
  CHECK(t->numrec == NREC && t->nwave == NW, "P27: dimensions recorded");
  for (i = 0; i < NREC; i++) for (j = 0; j < NW; j++) { t->record[i].vis2data[j] = 1; t->record[i].vis2err[j] = 2; t->record[i].flag[j] = 1; }
  for (i = 0; i < NREC; i++) for (j = 0; j < NW; j++)
    CHECK(t->record[i].vis2data[j] == 1 && t->record[i].vis2err[j] == 2 && t->record[i].flag[j] == 1, "P27: columns do not overlap");
  free_oi_vis2(t);
#elif defined(TAB_T3)
  oi_t3 *t = NEW(oi_t3, 1);
  alloc_oi_t3(t, NREC, NW);
  CHECK(t->numrec == NREC && t->nwave == NW, "P27: dimensions recorded");
  for (i = 0; i < NREC; i++) for (j = 0; j < NW; j++) { t->record[i].t3amp[j] = 1; t->record[i].t3amperr[j] = 2; t->record[i].t3phi[j] = 3; t->record[i].t3phierr[j] = 4; t->record[i].flag[j] = 1; }
  for (i = 0; i < NREC; i++) for (j = 0; j < NW; j++)
    CHECK(t->record[i].t3amp[j] == 1 && t->record[i].t3amperr[j] == 2 && t->record[i].t3phi[j] == 3 && t->record[i].t3phierr[j] == 4 && t->record[i].flag[j] == 1, "P27: columns do not overlap");
  free_oi_t3(t);
#elif defined(TAB_FLUX)
  oi_flux *t = NEW(oi_flux, 1);
  alloc_oi_flux(t, NREC, NW);
  CHECK(t->numrec == NREC && t->nwave == NW, "P27: dimensions recorded");
  for (i = 0; i < NREC; i++) for (j = 0; j < NW; j++) { t->record[i].fluxdata[j] = 1; t->record[i].fluxerr[j] = 2; t->record[i].flag[j] = 1; }
  for (i = 0; i < NREC; i++) for (j = 0; j < NW; j++)
    CHECK(t->record[i].fluxdata[j] == 1 && t->record[i].fluxerr[j] == 2 && t->record[i].flag[j] == 1, "P27: columns do not overlap");
  free_oi_flux(t);
#elif defined(TAB_INSPOL)
  oi_inspol *t = NEW(oi_inspol, 1);
  alloc_oi_inspol(t, NREC, NW);
  CHECK(t->numrec == NREC && t->nwave == NW, "P27: dimensions recorded");
  for (i = 0; i < NREC; i++) for (j = 0; j < NW; j++) { ((float *)&t->record[i].jxx[j])[1] = 1; ((float *)&t->record[i].jyy[j])[1] = 2; ((float *)&t->record[i].jxy[j])[1] = 3; ((float *)&t->record[i].jyx[j])[1] = 4; }
  for (i = 0; i < NREC; i++) for (j = 0; j < NW; j++)
    CHECK(((float *)&t->record[i].jxx[j])[1] == 1 && ((float *)&t->record[i].jyy[j])[1] == 2 && ((float *)&t->record[i].jxy[j])[1] == 3 && ((float *)&t->record[i].jyx[j])[1] == 4, "P27: columns do not overlap");
  free_oi_inspol(t);
#elif defined(TAB_CORR)
  oi_corr *t = NEW(oi_corr, 1);
  alloc_oi_corr(t, NW);
  CHECK(t->ncorr == NW, "P27: dimensions recorded");
  for (j = 0; j < NW; j++) { t->iindx[j] = 1; t->jindx[j] = 2; t->corr[j] = 3; }
  for (j = 0; j < NW; j++) CHECK(t->iindx[j] == 1 && t->jindx[j] == 2 && t->corr[j] == 3, "P27: columns do not overlap");
  free_oi_corr(t);
#elif defined(TAB_WAVE)
  oi_wavelength *t = NEW(oi_wavelength, 1);
  alloc_oi_wavelength(t, NW);
  CHECK(t->nwave == NW, "P27: dimensions recorded");
  for (j = 0; j < NW; j++) { t->eff_wave[j] = 1; t->eff_band[j] = 2; }
  for (j = 0; j < NW; j++) CHECK(t->eff_wave[j] == 1 && t->eff_band[j] == 2, "P27: columns do not overlap");
  free_oi_wavelength(t);
#elif defined(TAB_ARRAY)
  oi_array *t = NEW(oi_array, 1);
  alloc_oi_array(t, NW);
  CHECK(t->nelement == NW, "P27: dimensions recorded");
  for (j = 0; j < NW; j++) t->elem[j].fov = j;
  for (j = 0; j < NW; j++) CHECK(t->elem[j].fov == j, "P27: rows do not overlap");
  free_oi_array(t);
#elif defined(TAB_TARGET)
  oi_target *t = NEW(oi_target, 1);
  alloc_oi_target(t, NW);
  CHECK(t->ntarget == NW, "P27: dimensions recorded");
  for (j = 0; j < NW; j++) t->targ[j].target_id = j;
  for (j = 0; j < NW; j++) CHECK(t->targ[j].target_id == j, "P27: rows do not overlap");
  free_oi_target(t);
#elif defined(TAB_DS)
  static oi_fits o;
  static tabs tt;
  int *t = NEW(int, 1);
  mk_ds(&o, &tt);
  hash_ds(&o, &tt);
  free_oi_fits(&o);
#endif
  free(t);
  REACH("allocated and freed");
}
