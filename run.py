#!/usr/bin/env python3
"""Solver-based checks for oifitslib.

run.py --property ID [--tier quick|thorough]   decide one property
run.py --harness NAME [--tier ..]              run single harness instance(s) (development)

Every run re-encodes /repo's current sources with goto-cc, symbolically
executes each harness with CBMC and replays any counterexample natively.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "oifitslib")
UTIL = os.path.join(REPO, "src", "util")
sys.path.insert(0, VERIF)
from registry import HARNESSES, PROPS  # noqa

JOBS = int(os.environ.get("VF_JOBS", "8"))
procs = set()
plock = threading.Lock()
stopping = threading.Event()


def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=None):
    """Run cmd; returns (rc, stdout, stderr, timed_out)."""
    if stopping.is_set():
        return -9, b"", b"", False
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=pre, stdin=subprocess.DEVNULL)
    with plock:
        procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return -9, o, e, True
    finally:
        with plock:
            procs.discard(p)


def pkg(*a):
    return subprocess.run(["pkg-config", *a], capture_output=True, text=True).stdout.split()


GLIB = pkg("--cflags", "glib-2.0")
LIBS = pkg("--libs", "glib-2.0", "cfitsio") + ["-lm"]
INC = ["-I" + os.path.join(VERIF, "harness"), "-I" + SRC, "-I" + UTIL]


class Build:
    """goto-cc encodings and native objects of the current tree, per run."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-")
        self.lock = threading.Lock()
        self.cache = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _once(self, key, fn):
        with self.lock:
            ent = self.cache.get(key)
            if ent is None:
                ent = self.cache[key] = [threading.Lock(), None]
        with ent[0]:
            if ent[1] is None:
                ent[1] = fn()
            return ent[1]

    def goto(self, src, defs=(), lib=False):
        key = ("g", src, tuple(defs))

        def mk():
            out = os.path.join(self.dir, "g%d-%s.gb" % (abs(hash(key)) % 10**9, os.path.basename(src)))
            rc, o, e, _ = sh(["goto-cc", "-c", *([] if lib else ["-DVF_CBMC"]), *GLIB, *INC, *defs, src, "-o", out], timeout=120)
            if rc != 0:
                raise RuntimeError("goto-cc %s: %s" % (src, (o + e).decode(errors="replace")[-600:]))
            return out
        return self._once(key, mk)

    def libsrcs(self):
        return sorted(os.path.join(SRC, f) for f in os.listdir(SRC)
                      if f.endswith(".c") and f != "oitable-demo.c")

    def link(self, h):
        key = ("l", h.name)

        def mk():
            objs = [self.goto(os.path.join(VERIF, "harness", h.file), h.defs)]
            for m in h.models:
                objs.append(self.goto(os.path.join(VERIF, "models", m), h.defs))
            objs += [self.goto(s, h.libdefs, lib=True) for s in self.libsrcs()]
            objs += [self.goto(os.path.join(UTIL, s), h.libdefs, lib=True) for s in h.extra_src]
            out = os.path.join(self.dir, "l-%s.gb" % h.name)
            rc, o, e, _ = sh(["goto-cc", "--function", "harness", *objs, "-o", out], timeout=120)
            if rc != 0:
                raise RuntimeError("link %s: %s" % (h.name, (o + e).decode(errors="replace")[-600:]))
            return out
        return self._once(key, mk)

    def native(self, h):
        key = ("n", h.name)

        def mk():
            out = os.path.join(self.dir, "n-" + h.name)
            srcs = [os.path.join(VERIF, "harness", h.file), os.path.join(VERIF, "native", "native.c")]
            srcs += [os.path.join(VERIF, "native", s) for s in h.native_src]
            srcs += self.libsrcs()
            srcs += [os.path.join(UTIL, s) for s in h.extra_src]
            cmd = ["gcc", "-g", "-O0", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                   "-fno-omit-frame-pointer", *GLIB, *INC, *h.defs, *h.libdefs, *srcs, "-o", out, *h.native_ld, *LIBS]
            rc, o, e, _ = sh(cmd, timeout=180)
            if rc != 0:
                raise RuntimeError("native build %s: %s" % (h.name, (o + e).decode(errors="replace")[-800:]))
            return out
        return self._once(key, mk)


def cbmc_cmd(h, gb, unwind, extra=()):
    cmd = ["cbmc", gb, "--json-ui", "--drop-unused-functions", "--unwind", str(unwind), "--unwinding-assertions",
           "--no-malloc-may-fail", "--object-bits", str(h.object_bits),
           "--max-field-sensitivity-array-size", str(h.fieldsens)]
    us = dict(h.unwindset)
    if us:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in us.items())]
    return cmd + list(h.flags) + list(extra)


def parse(o):
    try:
        return json.loads(o.decode(errors="replace"))
    except Exception:
        return None


def results(doc):
    for m in doc:
        if "result" in m:
            return m["result"]
    return None


def stats(doc):
    st = {"vccs": 0, "vccs_after_simplification": 0, "variables": 0, "clauses": 0, "solver_s": 0.0, "sat_calls": 0, "steps": 0}
    for m in doc:
        t = m.get("messageText", "")
        x = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if x:
            st["vccs"], st["vccs_after_simplification"] = int(x[1]), int(x[2])
        x = re.search(r"(\d+) variables, (\d+) clauses", t)
        if x:
            st["variables"] = max(st["variables"], int(x[1]))
            st["clauses"] = max(st["clauses"], int(x[2]))
            st["sat_calls"] += 1
        x = re.search(r"size of program expression: (\d+) steps", t)
        if x:
            st["steps"] = int(x[1])
        x = re.search(r"Runtime Solver: ([\d.e-]+)s", t)
        if x:
            st["solver_s"] = round(st["solver_s"] + float(x[1]), 3)
    return st


def functions_encoded(gb, h):
    """Functions of the repository whose goto code is reachable from the harness."""
    rc, o, e, _ = sh(["goto-instrument", "--reachable-call-graph", gb], timeout=60)
    names = set()
    for ln in o.decode(errors="replace").splitlines():
        m = re.match(r"^(\S+) -> (\S+)$", ln.strip())
        if m:
            names.add(m[1]); names.add(m[2])
    return names


_defs = {}


def repo_functions():
    if not _defs:
        for d in (SRC, UTIL):
            for f in os.listdir(d):
                if f.endswith(".c") and f != "oitable-demo.c":
                    txt = open(os.path.join(d, f), errors="replace").read()
                    for m in re.finditer(r"^[A-Za-z_][\w \*]*?\b\**(\w+)\(", txt, re.M):
                        _defs.setdefault(m[1], f)
    return _defs


KIND = {"PROP": "prop", "REACH": "reach", "ABORT": "abort", "MODEL": "model"}


def classify(r):
    d = r.get("description", "")
    k = KIND.get(d.split(" ", 1)[0])
    if k:
        return k
    p = r.get("property", "")
    if "unwind" in p or "unwinding assertion" in d or ".recursion" in p:
        return "unwind"
    if "no-body" in p:
        return "nobody"
    return "safety"


def inputs_from_trace(trace):
    out = []
    for s in trace:
        if s.get("stepType") == "input":
            vid = s.get("inputID")
            for v in s.get("values", []):
                b = v.get("binary")
                if b is None:
                    continue
                out.append((vid, int(b, 2)))
    return out


def replay(bld, h, inputs, tag):
    """Replay natively.  Returns (reproduced, text, path)."""
    exe = bld.native(h)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s.%s.in" % (h.name, tag))
    with open(path, "w") as f:
        for k, v in inputs:
            f.write("%s %x\n" % (k, v))
    last = ""
    for fill in ("190", "0", "255", "1"):
        scratch = tempfile.mkdtemp(prefix="vfr-")
        env = dict(os.environ, TZ="UTC", LC_ALL="C", G_SLICE="always-malloc", VF_SCRATCH=scratch,
                   ASAN_OPTIONS="detect_leaks=%d:malloc_fill_byte=%s:max_malloc_fill_size=1000000:allocator_may_return_null=1:abort_on_error=0:exitcode=66" % (1 if h.leaks else 0, fill),
                   UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=67")
        rc, o, e, to = sh([exe, path], timeout=20, cwd=scratch, env=env)
        shutil.rmtree(scratch, ignore_errors=True)
        txt = (e.decode(errors="replace") + o.decode(errors="replace"))
        last = "rc=%s %s" % (rc, txt[-1500:])
        if to:
            return True, "native run does not terminate within 20 s", path
        if rc in (77, 78):
            continue
        if rc != 0:
            return True, summarise(rc, txt), path
    return False, last, path


def summarise(rc, txt):
    for pat in (r"REPLAY-VIOLATION.*", r"SUMMARY: .*", r".*runtime error: .*", r"(?:ERROR|Bail out).*", r".*Assertion .*"):
        m = re.search(pat, txt)
        if m:
            return m[0].strip()[:300]
    return "rc=%s %s" % (rc, txt.strip()[-200:])


class Outcome:
    def __init__(self, h):
        self.h = h
        self.violations = []   # (desc, replaytext, path)
        self.undecided = []    # text
        self.spurious = []
        self.stats = {}
        self.nprops = 0
        self.nheld = 0
        self.reach_ok = 0
        self.reach_total = 0
        self.wall = 0.0
        self.funcs = []
        self.kinds = {}


def run_harness(bld, h, pid, deadline):
    try:
        return run_harness_(bld, h, pid, deadline)
    except Exception as ex:  # machinery failure: no verdict
        oc = Outcome(h)
        oc.undecided.append("machinery: %r" % (ex,))
        return oc


def run_harness_(bld, h, pid, deadline):
    oc = Outcome(h)
    t0 = time.time()
    try:
        gb = bld.link(h)
    except RuntimeError as ex:
        oc.undecided.append("encoding failed: %s" % ex)
        oc.wall = time.time() - t0
        return oc
    unwind = h.unwind
    for attempt in range(2):
        budget = min(h.timeout, deadline - time.time())
        if budget < 5:
            oc.undecided.append("no time left in the tier budget")
            break
        rc, o, e, to = sh(cbmc_cmd(h, gb, unwind, ["--verbosity", "8"]), timeout=budget, mem_gb=h.mem_gb)
        if to:
            oc.undecided.append("cbmc: no verdict within %.0f s" % budget)
            break
        doc = parse(o)
        res = results(doc) if doc else None
        if res is None:
            oc.undecided.append("cbmc: no result (rc=%s) %s" % (rc, (o[-300:] + e[-300:]).decode(errors="replace")))
            break
        oc.stats = stats(doc)
        fails = {}
        oc.nprops = oc.nheld = oc.reach_ok = oc.reach_total = 0
        oc.kinds = {}
        for r in res:
            k = classify(r)
            st = r.get("status")
            if k == "prop":
                tag = r["description"].split()[1].rstrip(":")
                if re.match(r"^[A-Z]\d\d$", tag) and pid and tag != pid:
                    continue
            if k == "reach":
                oc.reach_total += 1
                oc.reach_ok += st == "FAILURE"
                continue
            oc.nprops += 1
            oc.kinds[k] = oc.kinds.get(k, 0) + 1
            if st == "FAILURE":
                fails.setdefault(k, []).append(r)
            elif st == "SUCCESS":
                oc.nheld += 1
        if "unwind" in fails and attempt == 0 and not any(k in fails for k in ("prop", "abort", "safety")):
            unwind = unwind * 2
            continue
        break
    else:
        fails = {}
    if not oc.undecided:
        if oc.reach_total == 0 or oc.reach_ok < oc.reach_total:
            if not any(k in fails for k in ("prop", "abort", "safety")):
                oc.undecided.append("vacuity witness not reached (%d of %d)" % (oc.reach_ok, oc.reach_total))
        order = [("prop", 4), ("abort", 3), ("safety", 3), ("model", 1), ("unwind", 2)]
        for kind, cap in order:
            if oc.violations:
                break
            for r in fails.get(kind, [])[:cap]:
                desc = r.get("description", "")
                loc = r.get("sourceLocation", {})
                where = "%s:%s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?"))
                if time.time() > deadline:
                    oc.undecided.append("no time left to replay: %s (%s)" % (desc, where))
                    break
                rc, o, e, to = sh(cbmc_cmd(h, gb, unwind, ["--trace", "--property", r["property"]]),
                                  timeout=max(30, min(h.timeout * 2, deadline - time.time() + 60)), mem_gb=h.mem_gb)
                doc = parse(o) if not to else None
                res2 = results(doc) if doc else None
                tr = None
                for q in res2 or []:
                    if q.get("status") == "FAILURE" and q.get("trace"):
                        tr = q["trace"]
                if tr is None:
                    oc.undecided.append("counterexample trace not obtained for %s (%s)" % (desc, where))
                    continue
                ins = inputs_from_trace(tr)
                try:
                    ok, txt, path = replay(bld, h, ins, re.sub(r"\W+", "_", r["property"]))
                except RuntimeError as ex:
                    oc.undecided.append("replay build failed: %s" % ex)
                    continue
                if ok:
                    oc.violations.append((desc + " [" + where + "]", txt, path))
                    break
                oc.spurious.append("%s [%s]: counterexample did not reproduce natively: %s" % (desc, where, txt[-200:]))
        for s in oc.spurious:
            if not oc.violations:
                oc.undecided.append(s)
        if not oc.violations and "nobody" in fails:
            oc.undecided.append("unmodelled callee: " + ", ".join(sorted({f["description"] for f in fails["nobody"]}))[:300])
    try:
        rf = repo_functions()
        oc.funcs = sorted(n for n in functions_encoded(gb, h) if n in rf)
    except Exception:
        pass
    oc.wall = time.time() - t0
    return oc


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding:"):
                m = re.match(r"finding: property=(\S+) match=\"([^\"]+)\" (.*)", ln)
                if m:
                    known.append((m[1], m[2], m[3]))
    return known


def is_known(pid, desc):
    return any(k[0] == pid and k[1] in desc for k in load_known())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--harness")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--selfcheck", action="store_true")
    a = ap.parse_args()
    if a.selfcheck:
        for tool in ("goto-cc", "goto-instrument", "cbmc", "gcc"):
            if not shutil.which(tool):
                print("missing tool:", tool)
                return 2
        print("tools present; every check builds its own encoding from /repo")
        return 0
    tier = a.tier
    t0 = time.time()
    budget = 780 if tier == "quick" else 3 * 3600
    deadline = t0 + budget
    hs = []
    for h in HARNESSES:
        if a.harness:
            if not re.fullmatch(a.harness, h.name):
                continue
        elif a.property not in h.props:
            continue
        if h.tier == "thorough" and tier == "quick":
            continue
        hs.append(h)
    if not hs:
        print("no harness")
        return 1
    bld = Build()
    outs = []
    try:
        for h in hs:
            h.timeout = h.timeout if tier == "quick" else h.timeout * 6
        hs.sort(key=lambda h: -h.cost)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for ld in {tuple(h.libdefs) for h in hs}:
                for f in [ex.submit(bld.goto, s_, list(ld), True) for s_ in bld.libsrcs()]:
                    f.exception()
            futs = [ex.submit(run_harness, bld, h, a.property, deadline) for h in hs]
            for f in cf.as_completed(futs):
                if f.cancelled():
                    continue
                try:
                    oc = f.result()
                except cf.CancelledError:
                    continue
                if stopping.is_set():
                    continue
                outs.append(oc)
                print("%-28s %s checks=%d held=%d reach=%d/%d vars=%s solver=%.1fs wall=%.1fs" % (
                    oc.h.name, "VIOLATED" if oc.violations else "UNDECIDED" if oc.undecided else "held",
                    oc.nprops, oc.nheld, oc.reach_ok, oc.reach_total, oc.stats.get("variables", "-"),
                    oc.stats.get("solver_s", 0), oc.wall), flush=True)
                for u in oc.undecided:
                    print("   INCONCLUSIVE: " + u[:600])
                for v in oc.violations:
                    print("   COUNTEREXAMPLE: %s => %s" % (v[0], v[1]))
                if a.property and any(not is_known(a.property, v[0]) for v in oc.violations):
                    # one confirmed violation decides the check: drop the remaining harnesses
                    stopping.set()
                    for g in futs:
                        g.cancel()
                    with plock:
                        for p in list(procs):
                            try:
                                os.killpg(p.pid, signal.SIGKILL)
                            except OSError:
                                pass
    finally:
        bld.close()
    rc = 0
    nviol = 0
    if a.property:
        known = [k for k in load_known() if k[0] == a.property]
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (a.property, k[2]))
        lines = []
        for oc in outs:
            for d, txt, path in oc.violations:
                if any(k[1] in d for k in known):
                    continue
                nviol += 1
                lines.append("VIOLATION property=%s replay=%s" % (a.property, path))
        for ln in lines:
            print(ln)
        rc = 1 if lines else 0
        write_evidence(a.property, tier, outs, time.time() - t0, nviol)
    else:
        rc = 1 if any(oc.violations for oc in outs) else 0
    return rc


def write_evidence(pid, tier, outs, wall, nviol):
    funcs = sorted({f for oc in outs for f in oc.funcs})
    und = [dict(harness=oc.h.name, reason=u) for oc in outs for u in oc.undecided]
    cov = {
        "explanation": "Bounded symbolic execution (CBMC, SAT back end) of the current /repo sources; each harness is decided "
                       "for every value of its symbolic inputs within the stated bounds, with unwinding assertions on. "
                       "Counterexamples are replayed natively before being reported.",
        "harnesses": [dict(name=oc.h.name, bounds=oc.h.bounds, decided=not oc.undecided, violated=bool(oc.violations),
                           assertions=oc.nprops, assertions_held=oc.nheld, assertion_kinds=oc.kinds,
                           vacuity_witnesses="%d/%d reached" % (oc.reach_ok, oc.reach_total),
                           vccs=oc.stats.get("vccs", 0), vccs_after_simplification=oc.stats.get("vccs_after_simplification", 0),
                           sat_variables=oc.stats.get("variables", 0), sat_calls=oc.stats.get("sat_calls", 0),
                           solver_s=oc.stats.get("solver_s", 0.0), wall_s=round(oc.wall, 2)) for oc in sorted(outs, key=lambda o: o.h.name)],
        "functions_encoded": funcs,
        "queries_discharged": sum(oc.nheld for oc in outs),
        "assertions_total": sum(oc.nprops for oc in outs),
        "solver_s": round(sum(oc.stats.get("solver_s", 0.0) for oc in outs), 2),
        "undecided": und,
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
          "assumptions": sorted({x for oc in outs for x in oc.h.assumptions}),
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    def bye(*_):
        with plock:
            for p in list(procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        os._exit(3)
    signal.signal(signal.SIGTERM, bye)
    sys.exit(main())
