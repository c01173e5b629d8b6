"""Harness instances and the properties they decide."""
import os


class H:
    def __init__(self, name, file, props, defs="", unwind=8, tier="quick", timeout=600, cost=10, models=None,
                 unwindset=None, flags=(), bounds="", assumptions=(), object_bits=10, fieldsens=256, mem_gb=12,
                 native_src=(), native_ld=(), extra_src=(), libdefs="", leaks=False):
        self.name, self.file, self.props = name, file, props.split()
        self.defs = ["-D" + d for d in defs.split()]
        self.libdefs = ["-D" + d for d in libdefs.split()]
        self.unwind, self.tier, self.timeout, self.cost = unwind, tier, timeout, cost
        self.models = models or ["glib_model.c"]
        self.unwindset = dict(BASE_UNWINDSET)
        self.unwindset.update(unwindset or {})
        self.flags = list(flags)
        self.bounds = bounds
        self.assumptions = list(BASE_ASSUMPTIONS) + list(assumptions)
        self.object_bits, self.fieldsens, self.mem_gb = object_bits, fieldsens, mem_gb
        self.native_src, self.native_ld, self.extra_src = list(native_src), list(native_ld), list(extra_src)
        self.leaks = leaks


BASE_UNWINDSET = {"vf_root.0": 22, "strcmp.0": 75, "strlen.0": 75, "g_strlcpy.0": 75, "g_strlcpy.1": 75, "g_strdup.0": 75,
                  "vf_vfmt.0": 4, "vf_vfmt.1": 4, "vf_vfmt.2": 4, "vf_vfmt.3": 75, "vf_vfmt.4": 145, "g_string_chunk_insert.0": 145, "vf_num.0": 22, "mk_str.0": 75}
BASE_ASSUMPTIONS = [
    "memory allocation does not fail",
    "GLib is represented by the C model models/glib_model.c; counterexamples are replayed against the real GLib",
]
GRID_NOTE = ("floating-point inputs to products, roots and quotients range over an exact grid (baselines multiples of 5 m, "
             "wavelengths 1/0.5/0.25, errors 0/0.5/1/2) so libm results are exact; all other values are unconstrained")

HARNESSES = []
PROPS = {}


def add(*a, **k):
    HARNESSES.append(H(*a, **k))


for tab in ("VIS", "VIS2", "T3", "FLUX"):
    for nrec, tier in ((1, "quick"), (2, "quick"), (3, "thorough")):
        add("fsel_%s_%d" % (tab.lower(), nrec), "h_filter_tab.c", "P01", "GRID W_SEL TAB_%s NREC=%d NW=1" % (tab, nrec), unwind=4,
            tier=tier, cost=20 * nrec, bounds="%d records, 1 channel" % nrec, assumptions=[GRID_NOTE])
    for nrec, nw, mask, tier in ((1, 1, 1, "quick"), (1, 3, 1, "quick"), (1, 3, 2, "thorough"), (1, 3, 4, "thorough"), (1, 3, 3, "thorough"),
                                 (1, 3, 5, "quick"), (1, 3, 6, "quick"), (1, 3, 7, "quick"), (2, 2, 2, "quick"), (2, 2, 3, "thorough")):
        add("fchan_%s_%d_%d_m%d" % (tab.lower(), nrec, nw, mask), "h_filter_tab.c", "P02",
            "GRIDUV W_CHAN TAB_%s NREC=%d NW=%d USEMASK=%d" % (tab, nrec, nw, mask) + (" CPLX=1 REFMAP=1" if tab == "VIS" else ""),
            unwind=10, tier="thorough" if tab == "T3" and (nrec, mask) in ((2, 2), (1, 7)) else tier, cost=60 if tab == "T3" else 20,
            bounds="%d record(s), %d channels of which mask %d accepted, unconstrained data" % (nrec, nw, mask))
    add("fflag_%s" % tab.lower(), "h_filter_tab.c", "P03", "GRID W_FLAG TAB_%s NREC=1 NW=2" % tab, unwind=4, cost=40,
        bounds="1 record, 2 channels", assumptions=[GRID_NOTE])


DATA = "N_VIS=%d N_VIS2=%d N_T3=%d N_FLX=%d"
for nm, props, dd, kw in (
        ("tables0", "P18", "CK_TABLES NTARG=1 MINB=2 NOCLEAN", {}),
        ("tables1", "P18", "CK_TABLES N_ARR=1 N_WAV=1 N_COR=1 N_POL=1 N_VIS=1 N_VIS2=1 N_T3=1 N_FLX=1 MINB=9", {}),
        ("tables2", "P18", "CK_TABLES N_ARR=0 N_WAV=2 N_VIS2=2 MINB=3", {}),
        ("tablesf", "P18", "CK_TABLES N_ARR=2 N_WAV=1 N_FLX=1 MINB=3", {}),
        ("header", "P18", "CK_HEADER MINB=8", {}),
        ("keywords", "P18", "CK_KEYWORDS N_ARR=2 N_VIS=1 N_FLX=1 MINB=6", {}),
        ("refmap", "P18", "CK_REFMAP N_VIS=2 MINB=2", {}),
        ("uniq", "P19", "CK_UNIQ NTARG=4 MINB=3", {}),
        ("targ", "P19", "CK_TARG NTARG=2 NREC=2 N_VIS=1 N_VIS2=1 N_T3=1 N_FLX=1 MINB=8", {}),
        ("targ2", "P19", "CK_TARG NTARG=3 NREC=1 N_VIS=2 N_VIS2=2 N_T3=2 N_FLX=2 MINB=8", {}),
        ("arrname", "P19", "CK_ARRNAME N_POL=2 N_VIS=1 N_VIS2=1 N_T3=1 N_FLX=2 MINB=7", {}),
        ("elem", "P19", "CK_ELEM N_ARR=2 NEL=2 N_POL=1 N_VIS=1 N_VIS2=1 N_T3=1 N_FLX=1 MINB=8", {}),
        ("corr", "P19", "CK_CORR N_COR=2 N_VIS=2 N_VIS2=1 N_T3=1 N_FLX=2 MINB=6", {}),
        ("flux", "P19", "CK_FLUX N_FLX=2 MINB=6", {}),
        ("flagging", "P20", "CK_FLAGGING NREC=2 NW=2 N_VIS=1 N_VIS2=1 N_T3=1 MINB=9", {}),
        ("t3amp", "P20", "CK_T3AMP NREC=2 NW=2 N_T3=2 MINB=8", {}),
        ("wave", "P20", "CK_WAVE NW=4 N_WAV=2 MINB=1", {}),
        ("time", "P20", "CK_TIME NREC=2 N_VIS=2 N_VIS2=1 N_T3=1 MINB=8", {})):
    add("ck_" + nm, "h_check.c", props, dd + " VF_NOFMT", unwind=14, bounds="dataset shape " + dd, **kw)

# breach accounting and locations (text formatted for real)
for nm, dd in (
        ("tables", "CK_TABLES N_ARR=1 N_WAV=1 N_COR=1 N_POL=1 N_VIS=2 N_FLX=1 MINB=1"),
        ("targ", "CK_TARG NTARG=1 NREC=2 N_VIS=1 N_VIS2=2 N_T3=1 N_FLX=1 MINB=1"),
        ("arrname", "CK_ARRNAME N_POL=2 N_VIS=2 N_VIS2=1 N_T3=1 N_FLX=1 MINB=1"),
        ("elem", "CK_ELEM N_ARR=1 NEL=1 N_POL=1 N_VIS=1 N_VIS2=1 N_T3=1 N_FLX=1 MINB=1"),
        ("corr", "CK_CORR N_COR=1 N_VIS=1 N_VIS2=1 N_T3=1 N_FLX=2 MINB=1"),
        ("flux", "CK_FLUX N_FLX=2 MINB=1"),
        ("keywords", "CK_KEYWORDS N_ARR=2 N_VIS=1 N_FLX=1 MINB=1"),
        ("flagging", "CK_FLAGGING NREC=1 NW=2 N_VIS=1 N_VIS2=1 N_T3=1 MINB=1"),
        ("t3amp", "CK_T3AMP NREC=2 NW=2 N_T3=1 MINB=1"),
        ("time", "CK_TIME NREC=1 N_VIS=2 N_VIS2=1 N_T3=1 MINB=1"),
        ("trunc", "CK_TIME NREC=12 N_VIS2=1 MINB=12 VF_NOFMT")):
    add("ckl_" + nm, "h_check.c", "P21", dd, unwind=16, bounds="dataset shape " + dd)

for lo, hi in ((-678941, 15384), (15385, 40000), (40000, 64000), (64000, 88068), (88069, 120000)):
    add("date_rt_%d" % lo if lo >= 0 else "date_rt_neg", "h_date.c", "P23", "W_RT LO=(%d) HI=%d" % (lo, hi), unwind=4, tier="quick" if lo >= 15385 and hi < 88069 else "thorough",
        bounds="every MJD in [%d,%d]" % (lo, hi))
for lo, hi in ((1901, 1950), (1951, 2000), (2001, 2050), (2051, 2099)):
    add("date_inv_%d" % lo, "h_date.c", "P23", "W_INV LO=%d HI=%d" % (lo, hi), unwind=4, bounds="every valid date in years %d-%d" % (lo, hi))

ALLTABS = ("TARGET", "ARRAY", "WAVE", "CORR", "INSPOL", "VIS", "VIS2", "T3", "FLUX")
LEAK = ["--memory-leak-check"]
for tab in ALLTABS:
    add("dup_" + tab.lower(), "h_dup.c", "P22", "TAB_%s NTARG=2 NEL=2 NCORR=3 NREC=2 NW=2 CPLX=1 REFMAP=1" % tab, unwind=10,
        bounds="2 records, 2 channels, all optional columns")
    add("dupl_" + tab.lower(), "h_dup.c", "P27", "TAB_%s NTARG=2 NEL=2 NCORR=3 NREC=2 NW=2 CPLX=1 REFMAP=1" % tab, unwind=10, flags=LEAK, leaks=True,
        bounds="copy and free, 2 records, 2 channels, all optional columns")
    add("alloc_" + tab.lower(), "h_alloc.c", "P27", "TAB_%s NREC=3 NW=4 CPLX=1 REFMAP=1" % tab, unwind=10, flags=LEAK, leaks=True,
        bounds="3 records, 4 channels/rows")
add("dup_vis_plain", "h_dup.c", "P22", "TAB_VIS NREC=2 NW=2", unwind=10, bounds="2 records, 2 channels, no optional columns")
add("dupl_vis_plain", "h_dup.c", "P27", "TAB_VIS NREC=2 NW=2", unwind=10, flags=LEAK, leaks=True, bounds="2 records, 2 channels, no optional columns")
add("alloc_ds", "h_alloc.c", "P27", "TAB_DS N_ARR=1 N_WAV=1 N_COR=1 N_POL=1 N_VIS=2 N_VIS2=1 N_T3=1 N_FLX=1 NREC=1 NW=2 CPLX=1 REFMAP=1", unwind=10,
    flags=LEAK, leaks=True, bounds="dataset with every kind of table")
add("ver_1", "h_misc.c", "P24", "W_VERSION N_ARR=1 N_WAV=2 N_VIS=1 N_VIS2=2 N_T3=2 N_FLX=1 N_COR=1", unwind=10, bounds="one or two tables of each kind")
add("count_1", "h_misc.c", "P24", "W_COUNT N_VIS=2 N_VIS2=2 N_T3=2 NREC=2 NW=2", unwind=10, bounds="2 tables x 2 records x 2 channels of each kind")
for nm, d in (("1", "N_ARR=1 N_WAV=1 NTARG=1 N_VIS=1 N_VIS2=1 N_T3=1 N_FLX=1"), ("2", "N_ARR=0 N_WAV=1 NTARG=1 N_VIS2=2 NREC=2"), ("3", "N_ARR=2 N_WAV=1 NTARG=1 N_VIS2=1"),
              ("4", "N_ARR=1 N_WAV=2 NTARG=1 N_VIS2=1"), ("5", "N_ARR=1 N_WAV=1 NTARG=2 N_VIS2=1"), ("6", "N_ARR=1 N_WAV=1 NTARG=1 N_FLX=1 NREC=3")):
    add("atomic_" + nm, "h_misc.c", "P24", "W_ATOMIC " + d, unwind=10, bounds="dataset shape " + d + ", MJD on an 8-value grid spanning [0,100000], any time span")
for nm, d in (("1", "N_ARR=1 N_WAV=1 NTARG=1 N_VIS2=1 N_FLX=1"), ("0", "N_ARR=0 N_WAV=2 NTARG=2 N_VIS=1"), ("2", "N_ARR=2 N_WAV=0 NTARG=2 N_T3=2")):
    add("hdr_" + nm, "h_misc.c", "P25", "W_HEADER MJDLO=50000 MJDHI=62000 " + d, tier="thorough", unwind=10, bounds="dataset shape " + d + ", MJD in [50000,62000)")
for c in range(4):
    d = "N_ARR=%d N_WAV=%d NTARG=%d N_VIS=1 N_VIS2=1 N_T3=1 N_FLX=1 " % ((1, 1, 1), (0, 2, 2), (2, 0, 1), (1, 1, 2))[c]
    add("hdrc_%d" % c, "h_misc.c", "P25", "W_HEADER MJDLO=50000 MJDHI=62000 CONSTMJD=%d " % c + d, unwind=10, bounds="dataset shape " + d + ", concrete times, any names and keywords")
add("upgrade_1", "h_misc.c", "P26", "W_UPGRADE N_ARR=1 N_WAV=1 N_VIS=1 N_VIS2=1 N_T3=1 NREC=2 NW=2 NTARG=2", unwind=10, bounds="every v1 table kind, 2 records, 2 channels")
add("lookup_1", "h_misc.c", "P17", "W_LOOKUP N_ARR=3 N_WAV=3 N_COR=3 NEL=3 NTARG=3", unwind=10, bounds="3 tables of each kind, 3 elements, 3 targets, names up to 2 characters")

ALLC = "CONSTUV CONSTVAL CONSTWAVE"
for tab, n in (("VIS", "N_VIS"), ("VIS2", "N_VIS2"), ("T3", "N_T3")):
    l = tab.lower()
    add("iter_%s_uv" % l, "h_iter.c", "P06 P07", "GRID CONSTVAL GETUV TAB_%s %s=1 N_WAV=1 NREC=1 NW=%d" % (tab, n, 1 if tab == "T3" else 2), unwind=6, cost=300, bounds="1 table x 1 record x 2 channels (T3: 1); acceptance by baseline, UV radius, wavelength, flag, target, time", assumptions=[GRID_NOTE])
    add("iter_%s_snr" % l, "h_iter.c", "P06 P07", "GRID CONSTUV GETUV TAB_%s %s=1 N_WAV=1 NREC=1 NW=2" % (tab, n), unwind=6, cost=200, bounds="1 table x 1 record x 2 channels; acceptance by SNR, wavelength, flag, target, time", assumptions=[GRID_NOTE])
    if tab != "T3":
        add("iter_%s_121" % l, "h_iter.c", "P06 P07", "GRID CONSTVAL GETUV TAB_%s %s=1 N_WAV=1 NREC=2 NW=1" % (tab, n), unwind=6, tier="thorough", bounds="1 table x 2 records x 1 channel", assumptions=[GRID_NOTE])
    for rec, nw, nt, steps in ((2, 2, 2, ((0, 0), (1, 1), (2, 2), (4, 8), (4, 15), (5, 16), (6, 32), (7, 127))), (1, 3, 2, ((0, 0), (2, 1), (3, 4))), (3, 1, 2, ((0, 0), (2, 1), (3, 7))), (1, 1, 3, ((0, 0), (1, 1), (2, 2)))):
        for st, mask in steps:
            add("step_%s_%d%d%d_%d_%d" % (l, nt, rec, nw, st, mask), "h_iter.c", "P06 P07" if (st, mask) in ((0, 0), (4, 8)) else "P06", "GRID %s TAB_%s %s=%d N_WAV=%d NREC=%d NW=%d STEP=%d MASK=%d" % (ALLC, tab, n, nt, nt, rec, nw, st, mask), unwind=nt * rec * nw + 3,
                tier="quick" if (nt, rec, nw, st, mask) in ((2, 2, 2, 0, 0), (2, 2, 2, 4, 8), (2, 2, 2, 7, 127), (2, 2, 2, 5, 16), (2, 1, 3, 2, 1), (3, 1, 1, 1, 1)) else "thorough",
                bounds="%d tables x %d records x %d channels; %d data with acceptance mask %d, then one step over data with symbolic flags, targets and times" % (nt, rec, nw, st, mask))
    add("step_%s_symf" % l, "h_iter.c", "P06", "GRID %s TAB_%s %s=1 N_WAV=1 NREC=2 NW=1 STEP=0 MASK=0 CONSTF=0" % (ALLC, tab, n), unwind=6,
        bounds="1 table x 2 records x 1 channel, one step with any target, time range and flag setting")
    add("step_%s_2sym" % l, "h_iter.c", "P06", "GRID %s TAB_%s %s=2 N_WAV=2 NREC=2 NW=1 STEP=0 MASK=0 NSYM=2" % (ALLC, tab, n), unwind=8, tier="thorough",
        bounds="2 tables x 2 records x 1 channel, two steps over data with symbolic flags, targets and times")
    for pat in (1, 2, 3):
        for st, mask in ((0, 0), (1, 1)):
            add("stepn_%s_%d_%d" % (l, pat, st), "h_iter.c", "P06", "GRID %s TAB_%s %s=3 N_WAV=3 NREC=1 NW=1 STEP=%d MASK=%d PAT=%d" % (ALLC, tab, n, st, mask, pat), unwind=6,
                tier="quick" if st == 0 else "thorough", bounds="3 tables x 1 record x 1 channel, symbolic %s and a pattern on it" % ("ARRNAME", "INSNAME", "CORRNAME")[pat - 1])
    add("iter_%s_0" % l, "h_iter.c", "P06", "GRID TAB_%s %s=0 N_WAV=1 NREC=1 NW=1" % (tab, n), unwind=6, bounds="dataset with no such table", assumptions=[GRID_NOTE])

for tab, n in (("vis", "N_VIS=1"), ("vis2", "N_VIS2=1"), ("t3", "N_T3=1"), ("flux", "N_FLX=1"), ("pol", "N_POL=1")):
    for k, tn in enumerate(("ABAB", "ABBA", "ABAC", "ABCA", "ABBC", "ABCB", "ABCD")):
        add("mtarg_%s_%d" % (tab, k), "h_merge.c", "P08", "W_TARG STRN=1 TNAMES=\"%s\" %s N_WAV=1 NTARG=2 NREC=2" % (tn, n), unwind=8, tier="quick" if tab == "vis2" or k in (1, 4) else "thorough",
            bounds="2 inputs x 2 targets x 2 records, target names " + tn)
    add("mdata_" + tab, "h_merge.c", "P10", "W_DATA %s N_WAV=1 NTARG=1 NREC=2 NW=2%s" % (n, " CPLX=1 REFMAP=1" if tab == "vis" else ""), unwind=8, bounds="2 inputs x 1 table x 2 records x 2 channels")
    for nm, what, dd, bb in (("marr", "W_ARR", "N_WAV=1 N_ARR=2 NEL=2", "2 inputs x 2 array tables x 2 elements"), ("mwav", "W_WAV", "N_WAV=2 NW=2", "2 inputs x 2 wavelength tables x 2 channels")):
        for k, (rn, kd) in enumerate((("0101", "0123"), ("0110", "0101"), ("0301", "0122"), ("0301", "0123"), ("0210", "0123"), ("0123", "0011"), ("0101", "0110"), ("0201", "0021"), ("0303", "0101"))):
            add("%s_%s_%d" % (nm, tab, k), "h_merge.c", "P09", "%s RNAMES=\"%s\" KINDS=\"%s\" STRN=1 %s %s" % (what, rn, kd, n, dd), unwind=8,
                tier="quick" if (tab == "vis2" and k in (0, 1, 3, 6)) or k == 0 else "thorough", bounds=bb + ", name pattern %s of {A,B,A_002,A_003}, content pattern %s, any references" % (rn, kd))
    if tab == "vis2":
        for nm, what, dd, bb in (("marr1", "W_ARR", "N_WAV=1 N_ARR=1 NEL=2", "2 inputs x 1 array table x 2 elements"), ("mwav1", "W_WAV", "N_WAV=1 NW=2", "2 inputs x 1 wavelength table x 2 channels")):
            for rn in ("00", "01"):
                add("%s_%s" % (nm, rn), "h_merge.c", "P09", "%s RNAMES=\"%s\" STRN=1 %s %s" % (what, rn, n, dd), unwind=8, bounds=bb + ", any contents on a two-value grid per field")
    if tab != "pol":
        for k, rn in enumerate(("0101", "0110", "0123", "0301", "0210", "0303")):
            add("mcor_%s_%d" % (tab, k), "h_merge.c", "P09", "W_COR RNAMES=\"%s\" STRN=1 %s N_WAV=1 N_COR=2" % (rn, n), unwind=8,
                tier="quick" if (tab == "vis2" and k in (0, 2, 3)) or k == 1 else "thorough", bounds="2 inputs x 2 correlation tables, name pattern %s of {A,B,A_002,A_003}, any contents and references" % rn)
for nm, pat, tier in (("1", "15", "quick"), ("2", "42", "quick"), ("3", "03", "quick"), ("4", "50", "thorough"), ("5", "32", "thorough"), ("6", "00", "quick"), ("7", "44", "thorough")):
    add("mhdr_" + nm, "h_merge.c", "P11", "W_HDR DATES=\"%s\" STRN=1 N_WAV=1 NTARG=1" % pat, unwind=14, tier=tier, bounds="2 inputs, keyword values up to 1 character, date pattern " + pat)
add("mhdr_s2", "h_merge.c", "P11", "W_HDR STRN=2 N_WAV=1 NTARG=1", unwind=14, tier="thorough", bounds="2 inputs, keyword values up to 2 characters, no dates")
add("mhdr_day", "h_merge.c", "P11", "W_HDR DATES=\"66\" STRN=0 N_WAV=1 NTARG=1", unwind=14, tier="thorough", bounds="2 inputs with any dates in 2000-01-01..09")
for nm, pat in (("1", "253"), ("2", "503")):
    add("mhdr3_" + nm, "h_merge.c", "P11", "W_HDR NI=3 DATES=\"%s\" STRN=1 N_WAV=1 NTARG=1" % pat, unwind=14, tier="thorough", bounds="3 inputs, keyword values up to 1 character, date pattern " + pat)
for nm, dd in (("vis", "N_ARR=1 N_WAV=1 N_VIS=1 CPLX=1 REFMAP=1"), ("mix", "N_ARR=0 N_WAV=1 N_VIS2=1 N_FLX=1"), ("t3", "N_ARR=0 N_WAV=1 N_COR=1 N_T3=1"), ("pol", "N_ARR=1 N_WAV=1 N_POL=1")):
    add("mindep_" + nm, "h_merge.c", "P10 P27", "W_INDEP %s NTARG=1 NREC=1 NW=1" % dd, unwind=8, flags=LEAK, leaks=True, cost=60, bounds="2 inputs, each with " + dd)
add("mindep", "h_merge.c", "P10 P27", "W_INDEP N_ARR=1 N_WAV=1 N_COR=1 N_POL=1 N_VIS=1 N_VIS2=1 N_T3=1 N_FLX=1 NTARG=1 NREC=1 NW=1 CPLX=1 REFMAP=1", unwind=8, tier="thorough", flags=LEAK, leaks=True, bounds="2 inputs with one table of each kind")
