/* Dataset-level queries and updates. */
#include "ds.h"
#include "datemjd.h"
static oi_fits o;
static tabs t;
static int is(const char *a, const char *b) { return strcmp(a, b) == 0; }

void harness(void)
{
  int i, j, k;
  mk_ds(&o, &t);
#if defined(W_VERSION)
  int c = in_range(0, 3);
  memset(o.header.content, 0, FLEN_VALUE);
  if (c == 1) set_name(o.header.content, FLEN_VALUE, "OIFITS2");
  if (c == 2) set_name(o.header.content, FLEN_VALUE, "OIFITS1");
  if (c == 3) set_name(o.header.content, FLEN_VALUE, "OIFITS20");
  int allv1 = 1;
#define REVS(T, N) for (i = 0; i < N; i++) { T[i]->revision = in_i(); allv1 = allv1 && T[i]->revision == 1; }
  o.targets.revision = in_i();
  allv1 = allv1 && o.targets.revision == 1;
  REVS(t.arr, N_ARR) REVS(t.wav, N_WAV) REVS(t.vis, N_VIS) REVS(t.vis2, N_VIS2) REVS(t.t3, N_T3)
  CHECK(!!is_oi_fits_two(&o) == (c == 1), "P24: a dataset is OIFITS 2 iff its primary header says so");
  CHECK(!!is_oi_fits_one(&o) == (c != 1 && allv1), "P24: a dataset is OIFITS 1 iff no table has a later revision and the header does not say 2");
  CHECK(!(is_oi_fits_one(&o) && is_oi_fits_two(&o)), "P24: the two versions exclude each other");
  if (is_oi_fits_one(&o)) REACH("v1");
  if (is_oi_fits_two(&o)) REACH("v2");
#elif defined(W_COUNT)
  long nv = 0, nv2 = 0, n3 = 0, a = -1, b = -1, c = -1;
  for (i = 0; i < N_VIS; i++) for (j = 0; j < NREC; j++) for (k = 0; k < NW; k++) nv += !t.vis[i]->record[j].flag[k];
  for (i = 0; i < N_VIS2; i++) for (j = 0; j < NREC; j++) for (k = 0; k < NW; k++) nv2 += !t.vis2[i]->record[j].flag[k];
  for (i = 0; i < N_T3; i++) for (j = 0; j < NREC; j++) for (k = 0; k < NW; k++) n3 += !t.t3[i]->record[j].flag[k];
  int na = in_bool(), nb = in_bool(), nc = in_bool();
  count_oi_fits_data(&o, na ? NULL : &a, nb ? NULL : &b, nc ? NULL : &c);
  CHECK(na || a == nv, "P24: visibility count is the number of unflagged data");
  CHECK(nb || b == nv2, "P24: squared visibility count is the number of unflagged data");
  CHECK(nc || c == n3, "P24: triple product count is the number of unflagged data");
  if (nv2 == N_VIS2 * NREC * NW) REACH("all unflagged");
  if (na && nb && nc) REACH("nothing asked");
#elif defined(W_ATOMIC) || defined(W_HEADER)
  double mn = 1e5, mx = 0, days = in_d();
  int any = 0;
#ifdef W_HEADER
#define MJDOK(x) ASSUME((x) >= MJDLO && (x) < MJDHI);
#else
#define MJDOK(x) ASSUME((x) >= 0 && (x) <= 1e5);
#endif
#ifdef W_ATOMIC
  static const double grid[8] = {0.0, 50000.0, 50000.25, 50000.5, 50001.0, 50002.0, 60000.0, 100000.0};
#define PRE(x) { int g = in_range(0, 7); x = grid[g]; }
#elif defined(CONSTMJD)
  int g = 0; /* concrete times; which record is the earliest depends on the instance */
#define PRE(x) { x = 57387.25 + (g + CONSTMJD) % 4 * 29.5; g++; }
#else
#define PRE(x)
#endif
#define MM(T, N) for (i = 0; i < N; i++) for (j = 0; j < NREC; j++) { PRE(T[i]->record[j].mjd) double m = T[i]->record[j].mjd; MJDOK(m) if (m < mn) mn = m; if (m > mx) mx = m; any = 1; }
  MM(t.vis, N_VIS) MM(t.vis2, N_VIS2) MM(t.t3, N_T3) MM(t.flx, N_FLX)
  ASSUME(any);
#ifdef W_ATOMIC
  ASSUME(days == days);
  int atomic = N_ARR <= 1 && N_WAV == 1 && NTARG == 1 && !(mx - mn > days);
  ASSUME(days >= 0);
  CHECK(!!is_atomic(&o, days) == atomic, "P24: atomic iff one target, one setup, at most one array and observations within the time span");
#if N_ARR <= 1 && N_WAV == 1 && NTARG == 1
  if (atomic) REACH("atomic");
#endif
  if (!atomic) REACH("not atomic");
#else
  long y, mo, d;
  char e[11];
  for (i = 0; i < N_ARR; i++) mk_str(t.arr[i]->arrname, FLEN_VALUE, STRN);
  for (i = 0; i < N_WAV; i++) mk_str(t.wav[i]->insname, FLEN_VALUE, STRN);
  oi_header h0 = o.header;
  set_oi_header(&o);
  if (N_ARR == 0) CHECK(is(o.header.telescop, "UNKNOWN"), "P25: TELESCOP is UNKNOWN without an array table");
  else if (N_ARR == 1) CHECK(is(o.header.telescop, t.arr[0]->arrname), "P25: TELESCOP is the array's name");
  else CHECK(is(o.header.telescop, "MULTIPLE"), "P25: TELESCOP is MULTIPLE for several arrays");
  if (N_WAV == 1) CHECK(is(o.header.instrume, t.wav[0]->insname), "P25: INSTRUME is the setup's name");
  else CHECK(is(o.header.instrume, "MULTIPLE"), "P25: INSTRUME is MULTIPLE for several setups");
  if (NTARG == 1) CHECK(is(o.header.object, o.targets.targ[0].target), "P25: OBJECT is the target's name");
  else CHECK(is(o.header.object, "MULTIPLE"), "P25: OBJECT is MULTIPLE for several targets");
  CHECK(is(o.header.origin, "UNKNOWN") && is(o.header.observer, "UNKNOWN") && is(o.header.insmode, "UNKNOWN"), "P25: other mandatory keywords are UNKNOWN");
  CHECK(is(o.header.content, h0.content) && is(o.header.author, h0.author) && is(o.header.referenc, h0.referenc) && is(o.header.prog_id, h0.prog_id) &&
        is(o.header.procsoft, h0.procsoft) && is(o.header.obstech, h0.obstech) && is(o.header.date, h0.date), "P25: other keywords are untouched");
  mjd2date((long)mn, &y, &mo, &d);
  e[0] = '0' + y / 1000; e[1] = '0' + y / 100 % 10; e[2] = '0' + y / 10 % 10; e[3] = '0' + y % 10; e[4] = '-';
  e[5] = '0' + mo / 10; e[6] = '0' + mo % 10; e[7] = '-'; e[8] = '0' + d / 10; e[9] = '0' + d % 10; e[10] = 0;
  CHECK(is(o.header.date_obs, e), "P25: DATE-OBS is the calendar date of the earliest observation");
  REACH("header set");
#endif
#elif defined(W_UPGRADE)
  /* every table keeps its data, gets the OIFITS2 revision; times of v1 data are zeroed */
#define REVU(T, N) for (i = 0; i < N; i++) { T[i]->revision = in_i(); }
  o.targets.revision = in_i();
  REVU(t.arr, N_ARR) REVU(t.wav, N_WAV) REVU(t.vis, N_VIS) REVU(t.vis2, N_VIS2) REVU(t.t3, N_T3)
#define NEWREV(r) ((r) == 1 ? 2 : (r))
  {
    oi_target *d = dup_oi_target(&o.targets);
    upgrade_oi_target(d);
    CHECK(d->revision == NEWREV(o.targets.revision) && d->ntarget == NTARG && d->usecategory == o.targets.usecategory, "P26: target table upgraded");
    for (i = 0; i < NTARG; i++) CHECK(same_target_rec(&d->targ[i], &o.targets.targ[i]) && d->targ[i].target_id == o.targets.targ[i].target_id, "P26: targets preserved");
  }
  for (i = 0; i < N_ARR; i++)
  {
    oi_array *d = dup_oi_array(t.arr[i]);
    upgrade_oi_array(d);
    CHECK(d->revision == NEWREV(t.arr[i]->revision) && d->nelement == NEL && same_element(&d->elem[0], &t.arr[i]->elem[0]), "P26: array table upgraded, elements preserved");
  }
  for (i = 0; i < N_WAV; i++)
  {
    oi_wavelength *d = dup_oi_wavelength(t.wav[i]);
    upgrade_oi_wavelength(d);
    CHECK(d->revision == NEWREV(t.wav[i]->revision) && d->nwave == NW, "P26: wavelength table upgraded");
    for (k = 0; k < NW; k++) CHECK(same_f(d->eff_wave[k], t.wav[i]->eff_wave[k]) && same_f(d->eff_band[k], t.wav[i]->eff_band[k]), "P26: wavelengths preserved");
  }
#define UP(K, T, N, SCAL, CH) for (i = 0; i < N; i++) { \
    oi_##K *d = dup_oi_##K(T[i]); \
    upgrade_oi_##K(d); \
    CHECK(d->revision == NEWREV(T[i]->revision) && d->numrec == NREC && d->nwave == NW, "P26: data table upgraded"); \
    for (j = 0; j < NREC; j++) { \
      CHECK(T[i]->revision == 1 ? d->record[j].time == 0.0 : same_d(d->record[j].time, T[i]->record[j].time), "P26: TIME is zeroed exactly for version 1 tables"); \
      d->record[j].time = T[i]->record[j].time; \
      CHECK(SCAL(&d->record[j], &T[i]->record[j]) && d->record[j].target_id == T[i]->record[j].target_id, "P26: record fields preserved"); \
      for (k = 0; k < NW; k++) CHECK(CH(&d->record[j], k, &T[i]->record[j], k) && d->record[j].flag[k] == T[i]->record[j].flag[k], "P26: data and flags preserved"); \
    } }
  UP(vis, t.vis, N_VIS, same_vis_scal, same_vis_ch)
  UP(vis2, t.vis2, N_VIS2, same_vis2_scal, same_vis2_ch)
  UP(t3, t.t3, N_T3, same_t3_scal, same_t3_ch)
  REACH("upgraded");
#elif defined(W_LOOKUP)
  /* lookups by name and id */
  char nm[FLEN_VALUE];
  int id = in_i();
  for (i = 0; i < N_ARR; i++) mk_str(t.arr[i]->arrname, FLEN_VALUE, STRN);
  for (i = 0; i < N_WAV; i++) mk_str(t.wav[i]->insname, FLEN_VALUE, STRN);
  for (i = 0; i < N_COR; i++) mk_str(t.cor[i]->corrname, FLEN_VALUE, STRN);
  for (i = 0; i < N_ARR; i++) for (j = 0; j < i; j++) ASSUME(!is(t.arr[i]->arrname, t.arr[j]->arrname));
  for (i = 0; i < N_WAV; i++) for (j = 0; j < i; j++) ASSUME(!is(t.wav[i]->insname, t.wav[j]->insname));
  for (i = 0; i < N_COR; i++) for (j = 0; j < i; j++) ASSUME(!is(t.cor[i]->corrname, t.cor[j]->corrname));
  hash_ds(&o, &t);
  mk_str(nm, FLEN_VALUE, STRN);
  oi_array *pa = NULL; oi_wavelength *pw = NULL; oi_corr *pc = NULL; target *pt = NULL, *pn = NULL; element *pe = NULL;
  for (i = N_ARR - 1; i >= 0; i--) if (is(t.arr[i]->arrname, nm)) pa = t.arr[i];
  for (i = 0; i < N_WAV; i++) if (is(t.wav[i]->insname, nm)) pw = t.wav[i];
  for (i = 0; i < N_COR; i++) if (is(t.cor[i]->corrname, nm)) pc = t.cor[i];
  for (i = NTARG - 1; i >= 0; i--) { if (o.targets.targ[i].target_id == id) pt = &o.targets.targ[i]; if (is(o.targets.targ[i].target, nm)) pn = &o.targets.targ[i]; }
  if (pa) for (i = NEL - 1; i >= 0; i--) if (pa->elem[i].sta_index == id) pe = &pa->elem[i];
  CHECK(oi_fits_lookup_array(&o, nm) == pa, "P17: array lookup returns the table with that name, or nothing");
  CHECK(oi_fits_lookup_wavelength(&o, nm) == pw, "P17: wavelength lookup returns the table with that name, or nothing");
  CHECK(oi_fits_lookup_corr(&o, nm) == pc, "P17: correlation lookup returns the table with that name, or nothing");
  CHECK(oi_fits_lookup_element(&o, nm, id) == pe, "P17: element lookup returns the element with that station index in that array, or nothing");
  CHECK(oi_fits_lookup_target(&o, id) == pt, "P17: target lookup by id");
  CHECK(oi_fits_lookup_target_by_name(&o, nm) == pn, "P17: target lookup by name");
  if (pa && pe && pw && pc && pt && pn) REACH("everything found");
  if (!pa && !pw && !pc && !pt && !pn) REACH("nothing found");
#endif
}
