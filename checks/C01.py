"""C01: no data race in any OpenMP parallel region."""
import program, effects
from effects import *
from report import Check

RULE = ("Every write to storage shared by the team inside an OpenMP parallel region (own statements and everything "
        "the region calls, including lambdas handed to code that calls them in parallel) is private/reduction, "
        "under a critical/atomic/single construct that also covers the conflicting accesses, indexed injectively by "
        "the worksharing loop variables (mixed-radix affine proof), an element scatter over non-adjacent elements, "
        "or a guarded cache fill primed serially before the region; all other accesses to that storage in the same "
        "barrier phase touch the same iteration's part.")

def run():
    C = Check("C01", RULE)
    P = program.load()
    E = effects.Engine(P)
    nf = set()
    for f, n in effects.regions(P):
        C.count("regions")
        nf.add(f.file)
        R = effects.analyse_region(E, f, n)
        v, u, o = effects.check_region(E, R)
        C.count("effects_collected", R.nall)
        C.count("shared_accesses", len(R.acc))
        C.count("shared_writes_proved", len(o))
        for e, name, why in o: C.sample({"region": f.loc(n), "location": name, "at": e.loc, "argument": why})
        for e, name, why in u: C.undecide("%s: %s written at %s: %s" % (f.loc(n), name, e.loc, why))
        for e, name, why in v:
            C.violation("%s|%s" % (f.q, name),
                        "%s: parallel region in %s: shared %s written at %s%s without protection: %s" %
                        (f.loc(n), f.q, name, e.loc, " (called via %s)" % " -> ".join(c[1] for c in e.chain) if e.chain else "", why))
    # lambdas that other code runs inside a parallel region
    for f in P.funcs.values():
        if not any(x.get("k") == "Lambda" for x in f.walk()): continue
        w = Walker(E, f)
        w.st(f.body)
        for lam, call, tgt in w.parlams:
            C.count("parallel_callbacks")
            w2 = Walker(E, f)
            w2.lambda_effects(lam, None)
            loc = {x["d"] for x in walk(lam) if x.get("k") in ("Var", "Bind") and x.get("st") != "static"}
            for x in walk(lam):
                if x.get("k") == "Lambda": loc |= {p["d"] for p in x.get("p", [])}
            pars = {("v", p["d"]) for p in lam.get("p", [])}
            for e in w2.effects:
                if e.mode != "W" or e.locks: continue
                b = rootbase(e.root)
                if b[0] == "L" and b[1] in loc: continue
                if e.memo is not None: 
                    C.undecide("%s: guarded fill of %s in a callback" % (f.loc(lam), path_str(e.root, e.path, w2.I.names))); continue
                cs = comps_of(e.path)
                name = path_str(e.root, e.path, w2.I.names)
                if any(x.deps & pars for x, _ in cs):
                    C.undecide("%s: callback writes %s" % (f.loc(lam), name)); continue
                C.violation("%s|callback|%s" % (f.q, name),
                            "%s: callback in %s is run concurrently by %s and writes %s at %s" %
                            (f.loc(lam), f.q, tgt.q, name, e.loc))
    C.counts["files_with_regions"] = len(nf)
    C.counts["functions_summarised"] = len(E.summ)
    C.need("regions", 20); C.need("shared_writes_proved", 20); C.need("functions_summarised", 50)
    C.assume = ["library code outside the repository (Eigen, libxc, libstdc++) is internally thread safe when called on distinct objects",
                "callables supplied by library users are themselves thread safe",
                "index ranges of elements i and j overlap only for |i-j| <= 1 and lie in [0,Nbf)",
                "integer index arithmetic does not overflow"]
    C.explain = "interprocedural effect inference over the resolved AST of every translation unit; obligations are the shared writes per parallel region"
    return C.finish()
