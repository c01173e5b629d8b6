#!/usr/bin/env python3
"""Create /verif/seeded/<id> from a replacement, and confirm it in a scratch copy.
usage: mkseed.py SPEC.py   (SPEC defines id, property, file, old, new, needs, breaks, demo (C source body))"""
import json, os, shutil, subprocess, sys, tempfile
DEMO_SH = '''#!/bin/bash
# exit 0 on a tree where the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r -f "$tmp"' EXIT
src=/repo/src/oifitslib
gcc -g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -I$src -I/repo/src/util $(pkg-config --cflags glib-2.0) "$here/demo.c" \\
  $(ls $src/*.c | grep -v oitable-demo) %s -o "$tmp/demo" $(pkg-config --libs glib-2.0 cfitsio) -lm || exit 99
cd "$tmp" && ASAN_OPTIONS=detect_leaks=%d timeout 60 ./demo > out.txt 2>&1
rc=$?
tail -n 5 out.txt
exit $rc
'''
HEAD = '''#include "oifile.h"
#include "oifilter.h"
#include "oimerge.h"
#include "oicheck.h"
#include "oiiter.h"
#include "datemjd.h"
#include "chkmalloc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#define EXPECT(c) do { if (!(c)) { fprintf(stderr, "line %d: expected %s\\n", __LINE__, #c); exit(1); } } while (0)
#define QUIET() g_log_set_default_handler(quiet_log, NULL)
static void quiet_log(const gchar *d, GLogLevelFlags l, const gchar *m, gpointer u) { if (l & (G_LOG_LEVEL_ERROR | G_LOG_LEVEL_CRITICAL)) { fprintf(stderr, "%s\\n", m); abort(); } }
'''


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        w = tmp + "/repo"
        subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        edits = s["edits"] if "edits" in s else [(s["file"], s["old"], s["new"])]
        for f, old, new in edits:
            p = w + "/" + f
            t = open(p).read()
            n = t.count(old)
            if n != 1 and not s.get("nth"):
                print(s["id"], "old text occurs", n, "times in", f); return 1
            if s.get("nth"):
                i = -1
                for _ in range(s["nth"]):
                    i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            else:
                t = t.replace(old, new)
            open(p, "w").write(t)
        diff = run(["git", "-C", w, "diff"]).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.c", "w").write(HEAD + s["demo"])
        sh = DEMO_SH % (s.get("extra", ""), 1 if s.get("leaks") else 0)
        open(d + "/demo.sh", "w").write(s.get("demo_sh", sh))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(tmp)
        # confirm against /repo itself
        r0 = run(["bash", d + "/demo.sh"], cwd="/repo")
        a = run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        try:
            r1 = run(["bash", d + "/demo.sh"], cwd="/repo")
            out = "/tmp/seedtest.json"
            run(["bash", "/opt/vp/test.sh", out])
            res = json.load(open(out))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base.get("passed") or base.get("stable") or base.get("tests") or []
            missing = [t for t in stable if t not in res["passed"]]
        finally:
            run(["git", "-C", "/repo", "checkout", "--", "."])
        ok = r0.returncode == 0 and r1.returncode != 0 and not missing and a.returncode == 0
        print(s["id"], "OK" if ok else "BAD", "clean rc", r0.returncode, "patched rc", r1.returncode, "tests broken:", missing[:5], "npassed", len(res["passed"]),
              "" if ok else (r0.stdout + r0.stderr)[-300:] + "|" + (r1.stdout + r1.stderr)[-300:], flush=True)
    run(["bash", "/opt/vp/build.sh"])


if __name__ == "__main__":
    sys.exit(main())
