"""Consistency of the finite-element and radial layers with the primitive bases (part of C06)."""
from fem import *
from fem import norm as norm

FE = "helfem::polynomial_basis::FiniteElementBasisT<%s>"
RB = "helfem::atomic::basis::FEMRadialBasisT<%s>"
S = lambda p: ("scalar", p, 0, False)
def arr(nm, rank=1): return CTn(nm, [None] * rank, lambda i: atom(("a", nm) + tuple(i)))
PI, FI = ("s", "i"), ("s", "f")
CI, EI = C0(IEL), EH(IEL)
SCEN = [(f, l) for f in (False, True) for l in (False, True)]

class Layer:
    def __init__(self, C_, P, scal):
        self.C, self.P, self.scal = C_, P, scal
    def ev(self, first=False, last=False, x="x"):
        e = FemEval(self.P, self.scal); e.first, e.last = first, last
        # the nucleus sits at the beginning of the first element
        e.val = {("a", "c"): 3.0, ("a", "e"): 3.0 if first else 1.0, ("a", "x"): 0.5}
        return e
    def funcs(self, cls, name, pick): return [f for f in self.P.find(cls % self.scal + "::" + name) if pick(f)]
    def call(self, cls, name, args, first=False, last=False, pick=None, obj=None, ev=None):
        e = ev or self.ev(first, last)
        fs = self.funcs(cls, name, lambda f: len(f.params) == len(args) and (pick is None or pick(f)))
        if len(fs) != 1: und("%d definitions of %s with %d parameters" % (len(fs), name, len(args)))
        o = obj if obj is not None else e.fe_object(cls % self.scal)
        r = e.run(fs[0], o, args)
        return e, o, r, fs[0]

def isvec(k): return lambda f: "Matrix" in f.params[k]["t"] or "Vec" in f.params[k]["t"]
def isscal(k): return lambda f: not isvec(k)(f)

def drops(first, last):
    d = ()
    if first: d += (("drop_first", freeze(atom(("a", "zero_func_left"))), freeze(atom(("a", "zero_deriv_left")))),)
    if last: d += (("drop_last", freeze(atom(("a", "zero_func_right"))), freeze(atom(("a", "zero_deriv_right")))),)
    return tuple(sorted(d))

def dbasis(e_of):
    """d/dr of atoms: basis tables advance one order; reference points move with 1/e"""
    def d(a):
        if a[0] == "a" and a[1] in ("B", "BR"):
            k = dict(a[2]); k = padd(k, const(1))
            return atom(a[:2] + (freeze(k),) + a[3:])
        if a[0] == "a" and a[1] == "x": return pinv(EI)
        return None
    return d

def layer(C_, P, scal):
    L = Layer(C_, P, scal)
    iel = lambda: S(ixval(IEL)); xv = lambda: arr("x")
    xi = atom(("a", "x", PI)); ri = padd(CI, pmul(EI, xi))
    sf = freeze(EI)
    def B(k, x, d, f, kind="B"): return atom(("a", kind, freeze(k if isinstance(k, dict) else const(k)), freeze(x), sf, d, f))
    def job(where, key, fn):
        try: fn()
        except Undecided as x: C_.undecide("%s: %s" % (where, x))
    def compare(where, key, got, want, what):
        C_.count("layer_equations")
        if nsame(got, want): C_.violation(key, "%s: %s (%s)" % (where, what, diff_text(nf(got), nf(want))))
        else: C_.sample("%s %s" % (where, what), 24)
    # -- element maps
    def maps():
        w = FE % scal
        for nm, want, txt in (("element_begin", padd(CI, EI, -1.0), "the element begins at its lower boundary"),
                              ("element_end", padd(CI, EI), "the element ends at its upper boundary"),
                              ("element_midpoint", CI, "the midpoint is the mean of the boundaries"),
                              ("element_length", pscale(EI, 2.0), "the length is the distance of the boundaries"),
                              ("scaling_factor", EI, "the scaling factor is half of the length")):
            def one(nm=nm, want=want, txt=txt):
                _, _, r, f = L.call(FE, nm, [iel()])
                compare("%s::%s (%s:%d)" % (w, nm, f.file, f.line), "FE|" + nm, r, want, txt)
            job(nm, nm, one)
        def coord():
            _, _, r, f = L.call(FE, "eval_coord", [xv(), iel()], pick=isvec(0))
            compare("%s::eval_coord" % w, "FE|eval_coord", whole(r).get((PI,)), ri, "r = midpoint + scaling * x")
        job("eval_coord", "c", coord)
        def coords():
            _, _, r, f = L.call(FE, "eval_coord", [S(atom(("a", "x")) ), iel()], pick=isscal(0))
            compare("%s::eval_coord(scalar)" % w, "FE|eval_coord1", r, padd(CI, pmul(EI, atom(("a", "x")))), "r = midpoint + scaling * x")
        job("eval_coord(scalar)", "c", coords)
        def prim():
            y = CTn("y", [None], lambda i: padd(CI, pmul(EI, atom(("a", "x", i[0])))))
            _, _, r, f = L.call(FE, "eval_prim", [y, iel()])
            compare("%s::eval_prim" % w, "FE|eval_prim", whole(r).get((PI,)), xi, "inverts eval_coord")
        job("eval_prim", "p", prim)
        def allel(nm, arg, want, txt):
            _, _, r, f = L.call(FE, nm, [arr(arg)])
            scat(r, "%s::%s(all elements)" % (w, nm), "FE|%s|all" % nm, want, txt)
        def scat(r, where, key, want, txt):
            sc = getattr(r, "scatter", None)
            if not sc or len(sc) != 1: und("blocks written: %s" % (len(sc) if sc is not None else sc))
            s = sc[0]
            if len(s["frames"]) != 1: und("element loop")
            ren = {s["frames"][0]: IEL}
            sub = lambda p: nsub(p, ren)
            compare(where, key, nsub(sub(s["val"]), {("s", "b0"): PI}), want, txt)
            n = sub(s["cnt"][0]); off = sub(s["off"][0])
            compare(where, key + "|offset", off, pmul(ixval(IEL), n), "the values of element iel start at iel times the number of points")
        job("eval_coord(all)", "x", lambda: allel("eval_coord", "x", ri, "r = midpoint + scaling * x in each element"))
        job("eval_weights", "x", lambda: allel("eval_weights", "w", pmul(EI, atom(("a", "w", PI))), "weights are scaled by the element size"))
    maps()
    # -- element basis
    for first, last in SCEN:
        tag = "first=%d,last=%d" % (first, last)
        d = drops(first, last)
        for nm, kind in (("eval_dnf", "B"), ("eval_over_r", "BR")):
            def one():
                try: _, _, r, f = L.call(FE, nm, [xv(), S(atom(("a", "n"))), iel()], first, last)
                except Rejected:
                    if nm == "eval_over_r" and not first: return      # division by r away from the origin is refused
                    raise
                r = whole(r) if isinstance(r, Tn) else r
                compare("%s::%s" % (FE % scal, nm), "FE|%s|%s" % (nm, tag), r.get((PI, FI)), B(atom(("a", "n")), xi, d, FI, kind),
                        "evaluates order n at the given points with the element's own functions and size (%s)" % tag)
            job(nm, nm, one)
        def nprim():
            _, _, r, f = L.call(FE, "get_nprim", [iel()], first, last)
            compare("%s::get_nprim" % (FE % scal), "FE|get_nprim|" + tag, r, atom(("fn", "dim", "enabled:" + repr(d), "size")), "counts the element's own functions (%s)" % tag)
        job("get_nprim", "x", nprim)
    def whole_range():
        e, o, r, f = L.call(FE, "eval_dnf", [xv(), S(atom(("a", "n")))])
        sc = r.scatter
        if len(sc) != 1 or len(sc[0]["frames"]) != 1: und("blocks written")
        s = sc[0]; ren = {s["frames"][0]: IEL, ("s", "b0"): PI, ("s", "b1"): FI}
        compare("%s::eval_dnf(all)" % (FE % scal), "FE|eval_dnf_all", nsub(s["val"], ren), B(atom(("a", "n")), xi, (), FI), "each element block holds that element's functions")
        ff, lf = atom(("a", "first_func_in_element", IEL)), atom(("a", "last_func_in_element", IEL))
        compare("%s::eval_dnf(all)" % (FE % scal), "FE|eval_dnf_all|col", nsub(s["off"][1], ren), ff, "columns start at the element's first function")
        compare("%s::eval_dnf(all)" % (FE % scal), "FE|eval_dnf_all|ncol", nsub(s["cnt"][1], ren), padd(padd(lf, ff, -1.0), const(1)), "columns end at the element's last function")
        compare("%s::eval_dnf(all)" % (FE % scal), "FE|eval_dnf_all|row", nsub(s["off"][0], ren), pmul(ixval(IEL), nsub(s["cnt"][0], ren)), "rows start at the element's first point")
    job("eval_dnf(all)", "x", whole_range)
    # -- radial functions
    rinv = pinv(ri)
    D = dbasis(None)
    for last in (False, True):
        d = drops(False, last); tag = "last=%d" % last
        prev = None
        for k, nm in enumerate(("get_bf", "get_df", "get_lf")):
            def one():
                nonlocal prev
                _, _, r, f = L.call(RB, nm, [xv(), iel()], False, last)
                g = whole(r).get((PI, FI)) if isinstance(r, Tn) else r.get((PI, FI))
                g = norm(g)
                if k == 0: want = pmul(B(0, xi, d, FI), rinv); txt = "is B/r"
                else:
                    if prev is None: und("order %d" % (k - 1))
                    want = deriv_inv(prev, D); txt = "is the derivative of %s" % ("get_bf", "get_df")[k - 1]
                prev = g
                compare("%s::%s (%s:%d)" % (RB % scal, nm, f.file, f.line), "RB|%s|%s" % (nm, tag), g, want, txt)
            job(nm, nm, one)
            def one0():
                _, _, r, f = L.call(RB, nm, [xv(), iel()], True, last)
                g = whole(r).get((PI, FI)) if isinstance(r, Tn) else r.get((PI, FI))
                compare("%s::%s" % (RB % scal, nm), "RB|%s|first|%s" % (nm, tag), g, B(k, xi, drops(True, last), FI, "BR"), "in the first element uses order %d of B/r" % k)
            job(nm, nm, one0)
    # -- caches hold what the uncached call returns
    def caches():
        """abstractly: which cache each getter reads and each fill writes"""
        reads = {}; writes = {}
        for nm in ("get_bf", "get_df", "get_lf"):
            for f in L.funcs(RB, nm, lambda f: len(f.params) == 1):
                for n in walk(f.body):
                    if n["k"] == "Return" and n.get("v") is not None:
                        for m in walk(n["v"]):
                            if m["k"] == "Mem" and "cache" in m["n"]: reads.setdefault(nm, set()).add(m["n"])
        for f in L.P.funcs.values():
            if not f.q.startswith(RB % scal + "::"): continue
            for n in walk(f.body):
                if n["k"] == "OCall" and n.get("op") == "=":
                    tgt = [m["n"] for m in walk(n["a"][0]) if m["k"] == "Mem" and "cache" in m["n"]]
                    src = [m for m in walk(n["a"][1]) if m["k"] == "MCall" and m.get("n") in ("get_bf", "get_df", "get_lf")]
                    if tgt and src: writes.setdefault(tgt[0], set()).add(src[0]["n"])
        for nm, cs in reads.items():
            for c in cs:
                if c not in writes: continue
                C_.count("layer_equations")
                if writes[c] != {nm}: C_.violation("RB|cache|" + nm, "%s::%s returns %s, which is filled from %s" % (RB % scal, nm, c, ", ".join(sorted(writes[c]))))
    job("caches", "x", caches)
    for nm in ("get_bf", "get_df", "get_lf"):
        def default_pts(nm=nm):
            _, _, r, f = L.call(RB, nm, [iel()])
            _, _, r2, _ = L.call(RB, nm, [arr("xq"), iel()])
            compare("%s::%s(element)" % (RB % scal, nm), "RB|%s|xq" % nm, whole(r).get((PI, FI)), whole(r2).get((PI, FI)), "without points evaluates at the quadrature points")
        job(nm, nm, default_pts)
    # -- radial grid
    def grid():
        for args, pk, want, key, txt in (([iel()], None, pmul(EI, atom(("a", "wq", PI))), "get_wrad", "radial weights are quadrature weights times the scaling factor"),
                              ([arr("w"), iel()], None, pmul(EI, atom(("a", "w", PI))), "get_wrad", "radial weights are the given weights times the scaling factor"),
                              ([iel()], None, padd(CI, pmul(EI, atom(("a", "xq", PI)))), "get_r", "radii are midpoint + scaling * quadrature point"),
                              ([arr("x"), iel()], isvec(0), ri, "get_r", "radii are midpoint + scaling * point")):
            _, _, r, f = L.call(RB, key, args, pick=pk)
            compare("%s::%s/%d" % (RB % scal, key, len(args)), "RB|%s|%d" % (key, len(args)), whole(r).get((PI,)), want, txt)
        _, _, r, f = L.call(RB, "get_r", [S(atom(("a", "x"))), iel()], pick=isscal(0))
        compare("%s::get_r(scalar)" % (RB % scal), "RB|get_r|scalar", r, padd(CI, pmul(EI, atom(("a", "x")))), "radius is midpoint + scaling * point")
    job("grid", "x", grid)
    # -- quantities at the nucleus
    def at_nucleus(nm, arg, want):
        e = L.ev(True, False); e.val = {}
        _, _, r, f = L.call(RB, nm, [arr(arg, 2)], ev=e)
        return e, r, f
    C00, E00 = C0(0), EH(0)
    def B0(k, f):
        return atom(("a", "B", freeze(const(k)), freeze(const(-1)), freeze(E00), drops(True, False), f))
    def nuc(nm, k1, k2, txt):
        def go():
            e, r, f = at_nucleus(nm, "Prad", None)
            u, v = ("s", "u"), ("s", "v")
            off = atom(("a", "first_func_in_element", 0))
            idx = lambda s: e.index(padd(ixval(s), off))
            want = pmul(pmul(B0(k1, u), B0(k2, v)), atom(("a", "Prad", idx(u), idx(v))))
            want = msum(msum(want, u), v)
            got = r
            if isinstance(got, (Tn, TV)): got = (whole(got) if isinstance(got, Tn) else got).get((0,) * len(got.dims))
            compare("%s::%s" % (RB % scal, nm), "RB|" + nm, got, want, txt)
        job(nm, nm, go)
    nuc("nuclear_density", 1, 1, "is P_uv B_u'(0) B_v'(0)")
    nuc("nuclear_density_gradient", 1, 2, "is P_uv B_u'(0) B_v''(0), the derivative of the density with R'(0) = B''(0)/2")
    def orb():
        e, r, f = at_nucleus("nuclear_orbital", "C", None)
        u = ("s", "u"); off = atom(("a", "first_func_in_element", 0))
        want = msum(pmul(B0(1, u), atom(("a", "C", e.index(padd(ixval(u), off)), FI))), u)
        got = whole(r) if isinstance(r, Tn) else r
        got = got.get((FI,)) if got.rank == 1 else got.get((0, FI))
        compare("%s::nuclear_orbital" % (RB % scal), "RB|nuclear_orbital", got, want, "is sum_u B_u'(0) C_ui")
    job("nuclear_orbital", "x", orb)
    # -- bookkeeping of the function list
    def bflist():
        fs = L.funcs(FE, "update_bf_list", lambda f: True)
        if len(fs) != 1: und("update_bf_list")
        for nel in (1, 2, 3, 4):
            e = L.ev(); e.symbolic_poly = True
            o = e.fe_object(FE % scal)
            e._fo = o
            b = e.field_default("bval", "helfem::Vec<%s>" % scal); b.dims = [nel + 1]; o.f["bval"] = b
            e.dims_nel = nel
            e.run(fs[0], o, [])
            F, G = whole(o.f["first_func_in_element"]), whole(o.f["last_func_in_element"])
            lap = atom(("a", "noverlap"))
            start = {}
            for i in range(nel):
                d = drops(i == 0, i == nel - 1)
                n = atom(("fn", "dim", "enabled:" + repr(d), "size"))
                end = padd(padd(start, n), const(1), -1.0)
                compare("%s::update_bf_list" % (FE % scal), "FE|bf_list|first", F.get((i,)), start, "element %d of %d starts where the previous one ends, overlapping by the shared functions" % (i, nel))
                compare("%s::update_bf_list" % (FE % scal), "FE|bf_list|last", G.get((i,)), end, "element %d of %d holds exactly its own functions" % (i, nel))
                start = padd(padd(end, lap, -1.0), const(1))
    job("update_bf_list", "x", bflist)

def deriv_inv(p, D):
    """derivative including inverses and powers of polynomials"""
    out = {}
    for m, c in p.items():
        for j, (a, q) in enumerate(m):
            if a[0] == "fn" and a[1] == "inv":
                inner = dict(a[2]); da = pscale(pmul(deriv_inv(inner, D), {((a, 2),): 1.0}), -1.0)
            else: da = D(a)
            if not da: continue
            rest = dict(m)
            if q == 1: del rest[a]
            else: rest[a] = q - 1
            s, mm = mkmono(rest)
            out = padd(out, pmul({mm: c * q * s}, da))
    return out

def boundary(C_, P, scal):
    """drop_first / drop_last remove exactly the requested shape functions of the boundary node"""
    for cls, K in (("LIPBasisT", 1), ("LegendreBasisT", 1), ("HIPBasisT", 2), ("HIP2BasisT", 3), ("HIP3BasisT", 4)):
        q = "helfem::polynomial_basis::%s<%s>" % (cls, scal)
        for nm in ("drop_first", "drop_last"):
            for nn in (2, 3, 5):
                for fu in (0, 1):
                    for de in (0, 1):
                        n = K * nn
                        e = Calc(P, scal); o = Obj(q)
                        o.f["enabled"] = CTn("enabled", [n], lambda i: ixval(i[0]))
                        where = "%s::%s(%s,%s)" % (q, nm, bool(fu), bool(de))
                        try:
                            f = e.method_of(q, nm, 2)
                            tensor.SMALL = 64
                            try: e.run(f, o, [S(const(fu)), S(const(de))])
                            finally: tensor.SMALL = 8
                            T = o.f["enabled"]
                            if not isinstance(T, Tn) or not isinstance(T.dims[0], int): und("enabled list")
                            got = [cval(fix(whole(T).get((k,)))) for k in range(T.dims[0])]
                            if any(g is None for g in got): und("enabled entries")
                            got = [int(g) for g in got]
                        except Undecided as x: C_.undecide("%s: %s" % (where, x)); continue
                        b = 0 if nm == "drop_first" else K * (nn - 1)
                        gone = ({b} if fu else set()) | (set(range(b + 1, b + K)) if de else set())
                        want = [k for k in range(n) if k not in gone]
                        C_.count("boundary_conditions")
                        if got != want:
                            C_.violation("%s|%s|%d%d" % (cls, nm, fu, de), "%s (%s:%d) with %d nodes keeps shape functions %s; the boundary condition calls for %s (function %d is the value, the others of the node its derivatives)" % (where, f.file, f.line, nn, got, want, b))
