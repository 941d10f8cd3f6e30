"""C02: extended-precision instantiations never pass through a narrower type."""
import program, prec
from report import Check

RULE = ("In every function instantiated for the extended working type, each maximal expression of a narrower floating type is an exactly representable constant, or reaches only diagnostics (output, an exception, a "
        "comparison that guards nothing else), or is part of a tolerance that is scaled by the epsilon of the working type.")

def run():
    C = Check("C02", RULE)
    P = program.load()
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line, f.q)):
        if f.body is None or not prec.extended(f): continue
        C.count("functions"); C.count("nodes", sum(1 for _ in f.walk()))
        W = prec.Width(P, f)
        for n, kind, ok in W.run():
            C.count("narrow_expressions")
            if ok:
                if kind != "const": C.sample("%s:%s %s: %s" % (f.file, n.get("l"), f.q.split("::")[-1], kind))
                continue
            what = {"narrowed": "a value of the working type is narrowed to %s" % n.get("t"), "call": "a value computed in %s enters the calculation" % n.get("t"),
                    "tolerance": "a tolerance of fixed size, not scaled with the working precision, enters the calculation", "constant": "an inexact %s constant enters the calculation" % n.get("t"), "matrix cast": "a matrix of a narrower type (%s) is used" % (n.get("t") or "")[:60],
                    "value": "a value of type %s enters the calculation" % n.get("t")}[kind]
            key = "%s|%s|%s" % (f.q, kind, n.get("l"))
            if kind == "value": C.undecide("%s:%s %s: %s" % (f.file, n.get("l"), f.q, what)) if not W.known_source(n) else C.violation(key, "%s:%s: %s: %s" % (f.file, n.get("l"), f.q, what))
            else: C.violation(key, "%s:%s: %s: %s" % (f.file, n.get("l"), f.q, what))
    C.need("functions", 150)
    C.assume = ["long double stands for every extended type: the templates have one body", "the density-functional grids and basis-function values on them are double by interface and not covered"]
    C.explain = RULE
    return C.finish()
