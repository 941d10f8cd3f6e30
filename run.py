#!/usr/bin/env python3
"""Run the static checks: run.py C01 [C02 ...] | all | setup"""
import importlib, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "checks"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import report
if sys.argv[1] == "setup":
    import extract
    def s():
        r = extract.facts(); print(len(r["tus"]), "translation units"); return 0
    report.main(s)
else:
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = sorted(x[:-3] for x in os.listdir(os.path.join(V, "checks")) if x.startswith("C") and x.endswith(".py"))
    def r():
        rc = 0
        for i in ids:
            rc = max(rc, importlib.import_module(i).run())
        return rc
    report.main(r)
