/* Calendar conversions. */
#include "vf.h"
#include "datemjd.h"
static int leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static long mlen(long y, long m)
{
  return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
}
void harness(void)
{
#ifdef W_RT
  long m = in_range(LO, HI);
  long y = 0, mo = 0, d = 0, y2 = 0, mo2 = 0, d2 = 0;
  mjd2date(m, &y, &mo, &d);
  CHECK(mo >= 1 && mo <= 12 && d >= 1 && d <= mlen(y, mo), "P23: an MJD maps to a valid calendar date");
  mjd2date(m + 1, &y2, &mo2, &d2);
  if (d < mlen(y, mo)) CHECK(y2 == y && mo2 == mo && d2 == d + 1, "P23: the next MJD is the next calendar day");
  else if (mo < 12) CHECK(y2 == y && mo2 == mo + 1 && d2 == 1, "P23: the next MJD starts the next month");
  else CHECK(y2 == y + 1 && mo2 == 1 && d2 == 1, "P23: the next MJD starts the next year");
  if (m == 51544) CHECK(y == 2000 && mo == 1 && d == 1, "P23: MJD 51544 is 2000-01-01");
  if (m == 59000) CHECK(y == 2020 && mo == 5 && d == 31, "P23: MJD 59000 is 2020-05-31");
  REACH("conversion");
#endif
#ifdef W_INV
  long y = in_range(LO, HI), mo = in_range(1, 12), d = in_range(1, 31), y2 = 0, mo2 = 0, d2 = 0;
  ASSUME(d <= mlen(y, mo));
  long m = date2mjd(y, mo, d);
  mjd2date(m, &y2, &mo2, &d2);
  CHECK(y2 == y && mo2 == mo && d2 == d, "P23: date to MJD and back is the identity");
  REACH("conversion");
#endif
}
