/* A whole in-memory dataset with a concrete shape (N_* tables, NREC records,
 * NW channels, NTARG targets, NEL elements) and symbolic contents. */
#ifndef DS_H
#define DS_H
#include "build.h"
#ifndef N_ARR
#define N_ARR 0
#endif
#ifndef N_WAV
#define N_WAV 0
#endif
#ifndef N_COR
#define N_COR 0
#endif
#ifndef N_POL
#define N_POL 0
#endif
#ifndef N_VIS
#define N_VIS 0
#endif
#ifndef N_VIS2
#define N_VIS2 0
#endif
#ifndef N_T3
#define N_T3 0
#endif
#ifndef N_FLX
#define N_FLX 0
#endif
#ifndef NREC
#define NREC 1
#endif
#ifndef NW
#define NW 1
#endif
#ifndef NTARG
#define NTARG 1
#endif
#ifndef NEL
#define NEL 1
#endif
#ifndef NCORR
#define NCORR 1
#endif
#ifndef CPLX
#define CPLX 0
#endif
#ifndef REFMAP
#define REFMAP 0
#endif

#define LISTADD(o, list, num, p) do { (o)->list = g_list_append((o)->list, (p)); (o)->num++; } while (0)

static oi_array *add_array(oi_fits *o, int nel)
{
  oi_array *p = NEW(oi_array, 1);
  fill_array(p, nel);
  LISTADD(o, arrayList, numArray, p);
  return p;
}
static oi_wavelength *add_wave(oi_fits *o, int nw)
{
  oi_wavelength *p = NEW(oi_wavelength, 1);
  fill_wave(p, nw);
  LISTADD(o, wavelengthList, numWavelength, p);
  return p;
}
static oi_corr *add_corr(oi_fits *o, int n)
{
  oi_corr *p = NEW(oi_corr, 1);
  fill_corr(p, n);
  LISTADD(o, corrList, numCorr, p);
  return p;
}
static oi_inspol *add_inspol(oi_fits *o, int nrec, int nw)
{
  oi_inspol *p = NEW(oi_inspol, 1);
  fill_inspol(p, nrec, nw);
  LISTADD(o, inspolList, numInspol, p);
  return p;
}
static oi_vis *add_vis(oi_fits *o, int nrec, int nw, int refmap, int cplx)
{
  oi_vis *p = NEW(oi_vis, 1);
  fill_vis(p, nrec, nw, refmap, cplx);
  LISTADD(o, visList, numVis, p);
  return p;
}
static oi_vis2 *add_vis2(oi_fits *o, int nrec, int nw)
{
  oi_vis2 *p = NEW(oi_vis2, 1);
  fill_vis2(p, nrec, nw);
  LISTADD(o, vis2List, numVis2, p);
  return p;
}
static oi_t3 *add_t3(oi_fits *o, int nrec, int nw)
{
  oi_t3 *p = NEW(oi_t3, 1);
  fill_t3(p, nrec, nw);
  LISTADD(o, t3List, numT3, p);
  return p;
}
static oi_flux *add_flux(oi_fits *o, int nrec, int nw)
{
  oi_flux *p = NEW(oi_flux, 1);
  fill_flux(p, nrec, nw);
  LISTADD(o, fluxList, numFlux, p);
  return p;
}

typedef struct
{
  oi_array *arr[4];
  oi_wavelength *wav[4];
  oi_corr *cor[4];
  oi_inspol *pol[4];
  oi_vis *vis[4];
  oi_vis2 *vis2[4];
  oi_t3 *t3[4];
  oi_flux *flx[4];
} tabs;

/* the configured shape; names are left empty for the caller */
static void mk_ds(oi_fits *o, tabs *t)
{
  int i;
  init_oi_fits(o);
  fill_header(&o->header);
#if NTARG > 0
  fill_target(&o->targets, NTARG);
#endif
  for (i = 0; i < N_ARR; i++) t->arr[i] = add_array(o, NEL);
  for (i = 0; i < N_WAV; i++) t->wav[i] = add_wave(o, NW);
  for (i = 0; i < N_COR; i++) t->cor[i] = add_corr(o, NCORR);
  for (i = 0; i < N_POL; i++) t->pol[i] = add_inspol(o, NREC, NW);
  for (i = 0; i < N_VIS; i++) t->vis[i] = add_vis(o, NREC, NW, REFMAP, CPLX);
  for (i = 0; i < N_VIS2; i++) t->vis2[i] = add_vis2(o, NREC, NW);
  for (i = 0; i < N_T3; i++) t->t3[i] = add_t3(o, NREC, NW);
  for (i = 0; i < N_FLX; i++) t->flx[i] = add_flux(o, NREC, NW);
}
/* index the reference tables the way the library's readers do */
static void hash_ds(oi_fits *o, tabs *t)
{
  int i;
  for (i = 0; i < N_ARR; i++) g_hash_table_insert(o->arrayHash, t->arr[i]->arrname, t->arr[i]);
  for (i = 0; i < N_WAV; i++) g_hash_table_insert(o->wavelengthHash, t->wav[i]->insname, t->wav[i]);
  for (i = 0; i < N_COR; i++) g_hash_table_insert(o->corrHash, t->cor[i]->corrname, t->cor[i]);
}
#endif
