#!/usr/bin/env python3
"""Developer helper: turn a planted-bug spec into /verif/seeded/<id>/ after confirming it.
usage: seed.py SPEC.py   with ID, PROP, EDITS=[(file,old,new[,count])], NEEDS, BREAKS, CPP (demo source) or SH (whole demo.sh)"""
import json, os, shutil, subprocess, sys
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# cwd: /repo, built.  Compiles the program beside this script against the built libraries.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
E3=$(dirname "$(dirname "$(find /usr/include /usr/local/include /opt -path '*Eigen/Dense' 2>/dev/null | head -1)")")
CXX=g++-14; command -v $CXX >/dev/null || CXX=g++
$CXX -std=c++17 -O1 -fopenmp -Isrc -Isrc/general -Ilibhelfem/include -Ilibhelfemqc/include -I_build/libhelfem/include -I_build -I"$E3" -I/usr/include/hdf5/serial \\
  "$D/demo.cpp" -o "$W/demo" _build/src/libhelfem-common.a _build/src/liblegendre.a _build/libhelfemqc/libhelfemqc.a _build/libhelfem/libhelfem.a \\
  -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lxc $(for l in lapacke lapack openblas blas cblas; do ls /usr/lib/x86_64-linux-gnu/lib$l.so >/dev/null 2>&1 && echo -l$l; done) -lquadmath -Wl,--unresolved-symbols=ignore-all || exit 3
cd "$W" && timeout 250 ./demo
'''
g = {}
exec(open(sys.argv[1]).read(), g)
d = "/verif/seeded/" + g["ID"]
os.makedirs(d, exist_ok=True)
if "CPP" in g: open(d + "/demo.cpp", "w").write(g["CPP"])
for fn, tx in g.get("FILES", {}).items(): open(d + "/" + fn, "w").write(tx)
open(d + "/demo.sh", "w").write(g.get("SH", DEMO))
json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
assert sh("git -C /repo status --porcelain").stdout == "", "dirty repo"
ok = True
try:
    r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0, r.stdout[-2000:]
    r = sh("bash %s/demo.sh" % d, cwd=R); print("demo clean rc", r.returncode, (r.stdout + r.stderr)[-600:])
    ok &= r.returncode == 0
    for e in g["EDITS"]:
        s = open(R + "/" + e[0]).read(); assert e[1] in s, "no match " + e[1]
        open(R + "/" + e[0], "w").write(s.replace(e[1], e[2], e[3] if len(e) > 3 else 1))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    r = sh("bash /opt/vp/test.sh /tmp/t/o.json"); 
    o = json.load(open("/tmp/t/o.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    names = base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests")
    miss = [n for n in names if n not in o["passed"]]
    print("tests missing", miss, len(o["passed"])); ok &= not miss
    r = sh("bash %s/demo.sh" % d, cwd=R); print("demo patched rc", r.returncode, (r.stdout + r.stderr)[-600:])
    ok &= r.returncode not in (0, 3)
    r = sh("python3 /verif/run.py " + g["PROP"]); print("check rc", r.returncode, "\n".join(l for l in r.stdout.splitlines() if "VIOL" in l or l.startswith("  "))[:600])
finally:
    sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
print("CONFIRMED" if ok else "NOT CONFIRMED")
