#!/usr/bin/env python3
"""Developer helper: apply textual mutations to a scratch copy of the sources
and run checks against it.  usage: mutate.py SPEC.json [checks...]
SPEC: list of {"name","edits":[[file, old, new(,count)]...],"checks":[..],"expect":0|1}"""
import json, os, shutil, subprocess, sys
S = os.environ.get("MUTDIR","/tmp/helfem-mut")
def fresh():
    shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
    for d in ("libhelfem", "libhelfemqc", "src"): shutil.copytree(os.environ.get("MUTSRC","/repo")+"/" + d, S + "/" + d)
spec = json.load(open(sys.argv[1]))
only = sys.argv[2:]
fresh()
bad = 0
for m in spec:
    if only and not any(o in m["name"] for o in only): continue
    saved = {}
    ok = True
    for ed in m["edits"]:
        fn = S + "/" + ed[0]
        s = open(fn).read()
        saved.setdefault(fn, s)
        if ed[1] not in s: print("?? no match", m["name"], ed[1][:60]); ok = False; break
        cnt = ed[3] if len(ed) > 3 else 1
        open(fn, "w").write(s.replace(ed[1], ed[2], cnt) if cnt >= 0 else ed[2].join(s.rsplit(ed[1], 1)))
    if ok:
        for c in m["checks"]:
            r = subprocess.run(["python3", os.environ.get("MUTRUN","/verif/run.py"), c], capture_output=True, text=True, env=dict(os.environ, HELFEM_REPO=S))
            want = m.get("expect", 1)
            tag = "ok " if r.returncode == want else "!!!"
            if r.returncode != want: bad += 1
            lines = [l for l in r.stdout.splitlines() if l.startswith("  ") or "BROKEN" in l]
            print(tag, m["name"], c, "rc=%d" % r.returncode, (lines[0][:230] if lines else ""), flush=True)
            if r.returncode == 2: print(r.stdout[-800:], r.stderr[-500:])
    for fn, s in saved.items(): open(fn, "w").write(s)
shutil.rmtree(S, ignore_errors=True)
print("mismatches:", bad)
