#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec (development aid; no check uses it).
SPEC defines seeds = [dict(id, property, edits=[(file, old, new[, count])], needs, breaks, demo=C++ text, libs=""), ...]"""
import sys, os, json, subprocess, shutil
V = "/verif"
WT = "/tmp/seedwt"
SRC = os.environ.get("SEED_REPO", "/repo")
def sh(*a, **k): return subprocess.run(a, check=True, text=True, stdout=subprocess.PIPE, **k).stdout
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
shutil.rmtree(WT, ignore_errors=True)
sh("git", "clone", "-q", SRC, WT)
for g in ["ct_core/include/ct/core/templateDir.h", "ct_optcon/examples/exampleDir.h"]:
    shutil.copy("/repo/" + g, WT + "/" + g)
DEMO = """#!/bin/bash
# exit 0: behaves as specified; nonzero: broken.  Run with cwd at the root of the repository.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O0 -w -DCPPAD -DCT_USE_LAPACK -DHAVE_CSTDDEF -DBUILD_WITH_IPOPT_SUPPORT %s -Ict_core/include -Ict_optcon/include -Ict_rbd/include \\
    -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" %s -lpthread || exit 3
cd "$T" && timeout 100 ./demo
"""
try:
    for s in spec["seeds"]:
        if only and s["id"] not in only:
            continue
        for e in s["edits"]:
            f, a, b = e[:3]
            n = e[3] if len(e) > 3 else 1
            p = os.path.join(WT, f)
            t = open(p).read()
            if t.count(a) != n:
                sys.exit(f"{s['id']}: {f}: {t.count(a)} matches of {a!r}")
            open(p, "w").write(t.replace(a, b))
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git", "-C", WT, "diff"))
        open(d + "/demo.cpp", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % (s.get("flags", ""), s.get("libs", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=WT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        sh("git", "-C", WT, "checkout", "--", ".")
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=WT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = r0.returncode == 0 and r1.returncode not in (0, 3)
        print(s["id"], s["property"], "OK" if ok else "BAD", "clean", r0.returncode, "patched", r1.returncode)
        if not ok:
            print(r0.stdout[-1500:], "-----", r1.stdout[-1500:])
finally:
    shutil.rmtree(WT, ignore_errors=True)
