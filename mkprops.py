#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
L = "src/oifitslib/"


def M(*a):
    return [dict(name=n, where=w) for n, w in a]


P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=[L + f if "/" not in f else f for f in files], mechanism=M(*mech)), na=na, note=note))


IN = "inputs"
prop("P01", "Filtering keeps exactly the matching records",
     "For every data table (VIS, VIS2, T3, FLUX), every record's values and every filter specification, filtering a table keeps exactly the records whose target, observation time and projected baseline(s) all lie within the requested limits (limits inclusive; for triple products all three baselines count) and that keep at least one usable channel, in their original order. "
     "Kept records carry their original scalar fields, and the record count of the output equals the number kept.",
     IN, "all record contents x all numeric filter limits, incl. NaN and boundary values", "Tests filter two sample files with a handful of limits; boundary, NaN and multi-baseline cases are not sampled.",
     ["oifilter.c"], [("filter_oi_vis/vis2/t3/flux", "src/oifitslib/oifilter.c"), ("ACCEPT_TARGET and range tests", "src/oifitslib/oifilter.c")])
prop("P02", "Filtering keeps each value with its own wavelength channel",
     "When a wavelength range removes channels, every remaining datum (amplitudes, phases, errors, flags, complex visibilities, differential reference map, fluxes, Jones elements) is the value the input held for that same channel, in order, and the table's channel count equals the number of channels kept. "
     "Nothing is read or written outside the arrays.",
     IN, "all channel data x channel-selection masks for up to 3 channels", "Tests compare totals on one file, not element alignment for arbitrary masks.",
     ["oifilter.c"], [("filter_oi_wavelength useWave mask", "src/oifitslib/oifilter.c"), ("channel copy loops", "src/oifitslib/oifilter.c")])
prop("P03", "Filtering treats flags, signal-to-noise and UV radius correctly",
     "For every datum, the filtered copy is flagged exactly if it was flagged already or its signal-to-noise ratio (amplitude or, where present, phase) or its UV radius lies outside the requested limits; "
     "when flagged data are not accepted, a record is dropped exactly if none of its channels is left unflagged in that sense, and values and errors themselves are never altered.",
     IN, "all data, errors, baselines, wavelengths (exact grid) x all limits", "Tests only look at counts for one choice of limits.",
     ["oifilter.c"], [("channel rejection helpers", "src/oifitslib/oifilter.c")])
prop("P04", "A filtered dataset is complete and self-consistent",
     "Filtering a consistent dataset yields a dataset in which every data table is selected exactly if its type is accepted, its array, instrument and correlation names match the requested name patterns and some record is left; every name and target it refers to is present and found by lookup, tables nobody refers to are dropped, and the table counts equal the numbers of tables present.",
     IN, "all table names, references and name patterns over small datasets", "Tests use two files whose names and references never vary.",
     ["oifilter.c"], [("apply_oi_filter, filter_all_oi_*", "src/oifitslib/oifilter.c"), ("prune helpers", "src/oifitslib/oifilter.c")])
prop("P05", "Filtering never changes its input and shares nothing with it",
     "Filtering leaves every field of the input dataset unchanged, and no memory reachable from the output is reachable from the input, so either may be modified or freed without affecting the other.",
     IN, "all dataset contents and filter settings over small datasets", "A test would have to compare and poison every reachable byte for every option combination.",
     ["oifilter.c"], [("apply_oi_filter deep copies", "src/oifitslib/oifilter.c")])
prop("P06", "Iterators visit exactly the accepted data, in order",
     "Iterating over complex visibilities, squared visibilities or triple products returns every datum that passes the given filter exactly once, in file order (table, record, channel), with the table number, table, record and channel reported consistently, and then reports the end and keeps reporting it. "
     "No datum that fails any of the limits is ever returned.",
     "inputs histories", "every acceptance pattern and every iterator position over small datasets; all numeric limits on a one-record dataset", "Tests iterate one file with a few filters and compare counts.",
     ["oiiter.c"], [("iterator advance", "src/oifitslib/oiiter.c"), ("accept helpers", "src/oifitslib/oiiter.c")])
prop("P07", "Iterators report the UV coordinates of the current datum",
     "After each datum an iterator returns, the effective wavelength it reports is that of the datum's own channel in the wavelength table its data table names, and the UV coordinates are the record's coordinates divided by that wavelength, for every table, record and channel.",
     "inputs histories", "all coordinates and wavelengths on an exact grid; every position in small multi-table datasets", "Tests do not compare the coordinates for more than a sample.",
     ["oiiter.c"], [("oi_vis_iter_get_uv, oi_vis2_iter_get_uv, oi_t3_iter_get_uv", "src/oifitslib/oiiter.c")])
prop("P08", "Merging keeps every target and remaps every reference to it",
     "The merged target table holds each distinct target name exactly once, with the record of its first occurrence and unique ids, and every record of every merged data table refers to the target with the same name its input record referred to.",
     IN, "all target names, ids and references over two or three small inputs", "Tests merge two or three fixed files whose target ids coincide or differ in one way.",
     ["oimerge.c"], [("merge_oi_target", "src/oifitslib/oimerge.c"), ("target id hash", "src/oifitslib/oimerge.c")])
prop("P09", "Merging keeps names unique and references intact",
     "In a merged dataset no two array tables share a name, no two wavelength tables share a name and no two correlation tables share a name, and the table each merged data table refers to by name has the same contents as the one it referred to in its input dataset.",
     IN, "all combinations of equal and different names and contents over two or three small inputs", "Tests merge fixed files; name clashes between different contents are sampled once.",
     ["oimerge.c"], [("merge_all_oi_array/wavelength/corr", "src/oifitslib/oimerge.c"), ("name hashes", "src/oifitslib/oimerge.c")])
prop("P10", "Merging conserves every datum",
     "The merged dataset contains exactly the input datasets' data tables, in order of the inputs, each with all its records, scalar fields, data arrays, errors and flags unchanged apart from target ids and renamed references; the inputs are left unchanged and share no memory with the output.",
     IN, "all table contents over two small inputs", "Tests compare table counts and a few values.",
     ["oimerge.c"], [("merge_all_oi_vis/vis2/t3/flux", "src/oifitslib/oimerge.c")])
prop("P11", "The merged primary header reflects all inputs",
     "Each primary header keyword of a merged dataset keeps the common value if all inputs agree and says that values differ if they do not, and the observation date is that of the earliest datum.",
     IN, "all keyword values over two or three inputs", "Tests merge files with fixed headers.",
     ["oimerge.c"], [("merge_oi_header", "src/oifitslib/oimerge.c")])
prop("P12", "A table read back equals the table written",
     "For every kind of table (header, target, array, wavelength, correlation, polarisation, VIS, VIS2, T3, FLUX), writing it and reading it back returns the same keywords, row and channel counts and, element by element, the same values, including the optional columns and their absence.",
     IN, "all field values of small tables", "Tests round-trip one example per table with fixed values.",
     ["read_fits.c", "write_fits.c"], [("write_oi_*", "src/oifitslib/write_fits.c"), ("read_*_chdu", "src/oifitslib/read_fits.c")])
prop("P13", "A whole file read back equals the dataset written",
     "Writing a dataset and reading it back yields every table once, in the same order and with the same table numbers, correct table counts, and name lookups that find the table with that name for every name a data table refers to.",
     IN, "all names and references over small datasets", "Tests round-trip fixed files.",
     ["oifile.c", "read_fits.c", "write_fits.c"], [("write_oi_fits", "src/oifitslib/oifile.c"), ("read_oi_fits", "src/oifitslib/oifile.c")])
prop("P14", "An I/O failure is always reported",
     "If any underlying file operation fails while a table or a whole dataset is read or written, the call returns that failure as a nonzero status; no failure is reported as success, nothing crashes and the call terminates.",
     "fault_sequences inputs", "a failure with any error code at any single file operation", "Tests never inject failures in the middle of a read or write.",
     ["read_fits.c", "write_fits.c", "oifile.c"], [("status propagation", "src/oifitslib/read_fits.c"), ("status propagation", "src/oifitslib/write_fits.c")])
prop("P15", "A call made with an error already pending does nothing",
     "Every read or write function called with a nonzero status returns that status unchanged, performs no file operation and leaves its outputs and inputs untouched.",
     "inputs fault_sequences", "any nonzero entry status", "Tests only exercise the zero-status path.",
     ["read_fits.c", "write_fits.c", "oifile.c"], [("if (*pStatus) return *pStatus", "src/oifitslib/read_fits.c")])
prop("P16", "A malformed file is diagnosed or skipped, never trusted",
     "Reading a file whose tables lack mandatory keywords or columns, are of unsupported revision or reference unknown tables ends with an error or with the offending table left out, without memory errors, aborts or endless loops.",
     IN, "every presence/absence pattern of keywords and columns; any header values", "Tests read a few invalid files.",
     ["read_fits.c", "oifile.c"], [("read_*_chdu", "src/oifitslib/read_fits.c"), ("read_oi_fits", "src/oifitslib/oifile.c")])
prop("P17", "Lookups by name or number find exactly the right entry",
     "Looking up an array, wavelength or correlation table by name, an array element by array name and station number, or a target by id or name returns the entry with exactly that key if there is one and nothing otherwise.",
     IN, "all names, station numbers, ids and queries over small datasets", "Tests look up keys known to exist.",
     ["oifile.c"], [("oi_fits_lookup_*", "src/oifitslib/oifile.c")])
prop("P18", "Structure checks report exactly the violations present",
     "For every dataset, the checks of mandatory tables, primary header keywords, keyword values and differential reference map report a breach exactly if the dataset violates the corresponding rule of the standard, with the severity documented for it.",
     IN, "all keyword values and table combinations over small datasets", "Tests check one conforming and a few broken files.",
     ["oicheck.c"], [("check_tables, check_header, check_keywords, check_visrefmap", "src/oifitslib/oicheck.c")])
prop("P19", "Reference checks report exactly the dangling references",
     "For every dataset, the checks of unique targets, target ids, array names, array elements, correlation tables and flux tables report a breach exactly if some data record refers to something the dataset does not define (or defines twice), with the documented severity.",
     IN, "all references and definitions over small datasets", "Tests check one conforming and a few broken files.",
     ["oicheck.c"], [("check_unique_targets, check_targets_present, check_arrname, check_elements_present, check_corr_present, check_flux", "src/oifitslib/oicheck.c")])
prop("P20", "Data-value checks report exactly the bad values",
     "For every dataset, the checks report a breach, with the documented severity, exactly if some unflagged datum has a negative error, some unflagged triple amplitude exceeds one by more than its error, some wavelength table is not in ascending order, or (version 2 only) some visibility, squared visibility or triple product record has a nonzero time; conforming data are never reported.",
     IN, "all data values over small datasets, incl. NaN and infinities", "Tests check a few bad values.",
     ["oicheck.c"], [("check_flagging, check_t3amp, check_waveorder, check_time", "src/oifitslib/oicheck.c")])
prop("P21", "Check results list every breach with its own location",
     "For every dataset and check, the number of breaches reported equals the number of violations present, up to a fixed maximum of recorded locations, each recorded location names the table number and, where applicable, record and channel of the violation it stands for, an overlong list is marked as truncated, and the severity returned is that of the worst violation.",
     IN, "all violation patterns over small datasets", "Tests do not look at locations or counts.",
     ["oicheck.c"], [("set_result", "src/oifitslib/oicheck.c"), ("location formatting", "src/oifitslib/oicheck.c")])
prop("P22", "A duplicated table is an equal and independent copy",
     "Duplicating any table yields a table equal in every keyword, count, record and array element, optional columns included, which shares no memory with the original.",
     IN, "all contents of small tables", "Tests cover no duplication at all or only indirectly.",
     ["oifile.c"], [("dup_oi_*", "src/oifitslib/oifile.c")])
prop("P23", "Dates convert to Modified Julian Dates and back exactly",
     "Converting any supported calendar date to a Modified Julian Date and back gives the same date, the day number increases by one from each calendar day to the next, and known epochs have their defined values.",
     IN, "every day from 1901 to 2099", "Tests convert a handful of dates.",
     ["datemjd.c"], [("date2mjd, mjd2date", "src/oifitslib/datemjd.c")])
prop("P24", "Version, single-observation and data counts reflect the tables",
     "A dataset counts as version 2 exactly if its primary header says so and as version 1 exactly if it does not and no table has another revision than 1; it is a single observation exactly if it has one target, one instrument setting, at most one array and its dates span no more than the given interval; the data counts equal the numbers of unflagged visibilities, squared visibilities and triple products.",
     IN, "all revisions, times and flags over small datasets", "Tests check one file per answer.",
     ["oifile.c"], [("is_oi_fits_one, is_oi_fits_two, is_atomic, count_oi_fits_data", "src/oifitslib/oifile.c")])
prop("P25", "Derived header keywords describe the dataset",
     "Setting the primary header from a dataset's contents fills array, instrument and target with the name of the only one present, MULTIPLE if there are several and UNKNOWN if there is no array table, sets the observation date to the calendar date of the earliest datum, sets the other mandatory keywords it cannot know to UNKNOWN and leaves all remaining keywords alone.",
     IN, "all names and times over small datasets", "Tests check one file.",
     ["oifile.c"], [("set_oi_header", "src/oifitslib/oifile.c")])
prop("P26", "Upgrading changes only what the new format version requires",
     "Upgrading a version 1 table sets it to revision 2 and, for data tables, zeroes the time of every record, leaving every other keyword, record field, datum and flag unchanged; a table of any other revision is left exactly as it is.",
     IN, "all contents of a small version 1 dataset with every table kind", "Tests upgrade one file.",
     ["oifile.c"], [("upgrade_oi_*", "src/oifitslib/oifile.c")])
prop("P27", "Allocation and freeing balance exactly",
     "Allocating, duplicating and freeing any table or whole dataset releases every block exactly once, never touches released memory and never writes outside a block, with or without optional columns.",
     "inputs histories", "every table kind with up to 3 records x 4 channels, contents arbitrary", "Tests run without leak detection on fixed tables.",
     ["alloc_fits.c", "free_fits.c", "oifile.c"], [("alloc_oi_*", "src/oifitslib/alloc_fits.c"), ("free_oi_*", "src/oifitslib/free_fits.c")])
prop("P28", "Filter command-line options set exactly the limits given",
     "Parsing filter options sets exactly the named limits to the given values converted to the documented units (nanometres to metres for wavelengths), leaves all others at defaults that accept everything, and rejects over-long names with an error instead of truncating silently or overflowing.",
     IN, "any option values", "Tests try a few options.",
     ["oifilter.c"], [("get_oi_filter_option_group, post-parse hook", "src/oifitslib/oifilter.c")])
prop("P29", "Command-line tools report failure in their exit status",
     "Each command-line tool exits with success only if its input was read, processed and its output written, refuses a wrong number of arguments without touching any file, and never overwrites an existing output unless told to.",
     "inputs fault_sequences", "any argument count and any outcome of the operations", "The utilities have no unit tests.",
     ["src/util/oifits-check.c", "src/util/oifits-filter.c", "src/util/oifits-merge.c", "src/util/oifits-upgrade.c"], [("main", "src/util")])
prop("P30", "Memory exhaustion is trapped, never ignored",
     "If an allocation request fails, the program stops with a message instead of continuing with a null pointer, and a successful request returns memory of at least the requested size.",
     "fault_sequences inputs", "any request size and outcome", "Tests never run out of memory.",
     ["chkmalloc.c"], [("chkmalloc, chkrealloc, chkstrdup", "src/oifitslib/chkmalloc.c")])
prop("P32", "Python bindings expose the same behaviour as the C library",
     "Reading, filtering, merging and checking through the Python bindings give the same results as the corresponding library calls.",
     IN, "any dataset", "The bindings are not built here.",
     ["src/python-oifits/oifits.i"], [("SWIG interface", "src/python-oifits")],
     na="SWIG interface files only: the code to analyse is generated by SWIG, which is not installed here, so there is no implementation to encode.")


def main():
    import sys
    sys.path.insert(0, V)
    from registry import HARNESSES
    have = {p for h in HARNESSES for p in h.props if h.tier == "quick"}
    from notes import NOTES
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks, na = [], []
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        elif p["id"] not in have:
            na.append(dict(property=p["id"], reason=NOTES.get(p["id"], "no harness yet")))
        else:
            checks.append(dict(property=p["id"], quick_cmd="python3 run.py --property %s --tier quick" % p["id"],
                               thorough_cmd="python3 run.py --property %s --tier thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"],
                               technique="bounded symbolic execution of the C sources with CBMC (SAT), counterexamples replayed natively",
                               level="other", level_note=NOTES.get(p["id"], "") + " Bounded verdict over all values within the stated sizes (unwinding assertions on); GLib and libc are models, counterexamples must reproduce against the real build."))
    doc = dict(version=1, setup_cmd="python3 run.py --selfcheck",
               hooks=dict(guard="none", enable="no hooks are needed: the checks encode the unmodified sources", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="See DESIGN.md. Each check encodes /repo's current sources with goto-cc, decides the harness assertions with CBMC and replays any counterexample against a native sanitizer build before reporting it.")
    json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")


if __name__ == "__main__":
    main()
