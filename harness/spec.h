/* Acceptance rules of the filter, written from the documentation: used as the
 * oracle for the table filters, the dataset filter and the iterators. */
#ifndef SPEC_H
#define SPEC_H
#include "build.h"
#include "oifilter.h"

#define RAD2DEG_ (180.0 / 3.14159265359)
/* the phase SNR involves a truncated pi in the library: limits within 0.01 of a phase SNR value are excluded */
static int near(float x, float v) { return x > v - 0.01f && x < v + 0.01f; }
static int ambiguous(float x) { return near(x, 57.29578f) || near(x, 28.64789f) || near(x, 114.59156f); }

static int out_d(double x, const double r[2]) { return x < r[0] || x > r[1]; }
static int out_f(float x, const float r[2]) { return x < r[0] || x > r[1]; }
static double len2(double u, double v) { return pow(u * u + v * v, 0.5); }

static int vis_rec_ok(const oi_vis_record *r, const oi_filter_spec *f)
{
  if (f->target_id >= 0 && r->target_id != f->target_id) return 0;
  return !out_d(r->mjd, f->mjd_range) && !out_d(len2(r->ucoord, r->vcoord), f->bas_range);
}
static int vis2_rec_ok(const oi_vis2_record *r, const oi_filter_spec *f)
{
  if (f->target_id >= 0 && r->target_id != f->target_id) return 0;
  return !out_d(r->mjd, f->mjd_range) && !out_d(len2(r->ucoord, r->vcoord), f->bas_range);
}
static int t3_rec_ok(const oi_t3_record *r, const oi_filter_spec *f)
{
  if (f->target_id >= 0 && r->target_id != f->target_id) return 0;
  return !out_d(r->mjd, f->mjd_range) && !out_d(len2(r->u1coord, r->v1coord), f->bas_range) &&
         !out_d(len2(r->u2coord, r->v2coord), f->bas_range) &&
         !out_d(len2(r->u1coord + r->u2coord, r->v1coord + r->v2coord), f->bas_range);
}
static int flux_rec_ok(const oi_flux_record *r, const oi_filter_spec *f)
{
  if (f->target_id >= 0 && r->target_id != f->target_id) return 0;
  return !out_d(r->mjd, f->mjd_range);
}
/* outside the UV-radius or SNR range */
static int vis_bad(const oi_vis_record *r, int j, const oi_filter_spec *f, const oi_wavelength *w)
{
  if (out_d(len2(r->ucoord, r->vcoord) / w->eff_wave[j], f->uvrad_range)) return 1;
  float a = r->visamp[j] / r->visamperr[j], p = RAD2DEG_ / r->visphierr[j];
  return out_f(a, f->snr_range) || out_f(p, f->snr_range);
}
static int vis2_bad(const oi_vis2_record *r, int j, const oi_filter_spec *f, const oi_wavelength *w)
{
  if (out_d(len2(r->ucoord, r->vcoord) / w->eff_wave[j], f->uvrad_range)) return 1;
  float a = r->vis2data[j] / r->vis2err[j];
  return out_f(a, f->snr_range);
}
static int t3_bad(const oi_t3_record *r, int j, const oi_filter_spec *f, const oi_wavelength *w)
{
  if (out_d(len2(r->u1coord, r->v1coord) / w->eff_wave[j], f->uvrad_range)) return 1;
  if (out_d(len2(r->u2coord, r->v2coord) / w->eff_wave[j], f->uvrad_range)) return 1;
  if (out_d(len2(r->u1coord + r->u2coord, r->v1coord + r->v2coord) / w->eff_wave[j], f->uvrad_range)) return 1;
  float a = r->t3amp[j] / r->t3amperr[j], p = RAD2DEG_ / r->t3phierr[j];
  return (f->accept_t3amp && out_f(a, f->snr_range)) || (f->accept_t3phi && out_f(p, f->snr_range));
}
static int flux_bad(const oi_flux_record *r, int j, const oi_filter_spec *f, const oi_wavelength *w)
{
  float a = r->fluxdata[j] / r->fluxerr[j];
  return out_f(a, f->snr_range);
}

/* symbolic numeric limits; everything else at the defaults */
static void mk_filter(oi_filter_spec *f)
{
  int k;
  init_oi_filter(f);
  f->target_id = in_i();
  f->accept_flagged = in_bool();
  for (k = 0; k < 2; k++)
  {
    f->wave_range[k] = in_f();
    f->mjd_range[k] = in_d();
    f->bas_range[k] = in_d();
    f->uvrad_range[k] = in_d();
    f->snr_range[k] = in_f();
    ASSUME(!ambiguous(f->snr_range[k]));
  }
}
#endif
