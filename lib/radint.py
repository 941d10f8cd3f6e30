"""Radial matrix elements are the quadratures of the integrands they are named for (C07)."""
import math
from fem import *
from radial import FE, RB, S, arr, drops, SCEN, deriv_inv, isvec
import tensor

PJ, PI = ("s", "j"), ("s", "i")
PK, PL = ("s", "k"), ("s", "l")
EI, CI = EH(IEL), C0(IEL)
def V(nm): return atom(("a", nm))
def fn(nm, *a): return atom(("fn", nm) + tuple(freeze(x) for x in a))

class Radint:
    def __init__(self, C_, P, scal):
        self.C, self.P, self.scal = C_, P, scal
        self.rb = RB % scal; self.fe = FE % scal
    # ---- set-up
    def ev(self, first=False, last=False, mode="rho"):
        e = FemEval(self.P, self.scal); e.first, e.last, e.mode = first, last, mode
        e.val = {("a", "c"): 3.0, ("a", "e"): 3.0 if first else 1.0, ("a", "rho"): 3.0}
        return e
    def find(self, cls, name, types):
        """the overload whose parameter types contain these fragments"""
        out = []
        for f in self.P.find(cls + "::" + name):
            if len(f.params) == len(types) and all(self.fits(t, p["t"]) for t, p in zip(types, f.params)): out.append(f)
        if len(out) != 1: und("%d definitions of %s(%s)" % (len(out), name, ", ".join(types)))
        return out[0]
    def fits(self, want, t):
        t = t.replace("const ", "").replace("&", "").strip()
        if want in ("long", "int"): return isint(t)
        if want in ("bool", "double", "long double"): return t == want
        return want in t
    def get(self, r, idx):
        if isinstance(r, dict): return r
        if isinstance(r, Tn): r = whole(r)
        return r.get(idx)
    def job(self, where, fn_):
        self.C.count("integrals_attempted")
        try: fn_()
        except Undecided as x: self.C.undecide("%s: %s" % (where, x))
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError) as x: self.C.undecide("%s: not understood (%s: %s)" % (where, type(x).__name__, x))
    def cmp(self, where, key, got, want, what):
        self.C.count("integral_equations")
        if nsame(self.rnorm(got), self.rnorm(want)):
            self.C.violation(key, "%s: %s (%s)" % (where, what, diff_text(nf(self.rnorm(got)), nf(self.rnorm(want)))))
        else: self.C.sample("%s %s" % (where, what), 40)
    def rnorm(self, p):
        """tables of (B/r)^(k) in terms of the tables of B^(k); one radius per table argument"""
        p = norm(p)
        if not any(a[0] == "a" and str(a[1]).startswith("BR") for m in p for a, _ in m): return p
        out = {}; back = {}
        for m, c in p.items():
            ds = set()
            for a, _ in m: dummies(a, ds)
            mp = {d: ("s", "bound%d" % k) for k, d in enumerate(sorted(ds, key=repr))}
            back.update({v: k for k, v in mp.items()})
            m = tuple((subst_t(a, mp), q) for a, q in m)
            t = self.rmono(m, c)
            out = padd(out, psubst(t, {v: fresh("d") for v in mp.values()}))
        return norm(out)
    def rmono(self, m, c):
        if 1:
            r = {ONE: c}
            for a, q in m:
                if a[0] == "a" and str(a[1]).startswith("BR"):
                    k = cval(dict(a[2])); x = dict(a[3]); tag = a[1][2:]
                    rad = norm(padd(C0(IEL), pmul(EI, x))); ri = pinv(rad)
                    B = lambda j: atom(("a", "B" + tag, freeze(const(j))) + a[3:])
                    if k == 0: t = pmul(B(0), ri)
                    elif k == 1: t = padd(pmul(B(1), ri), pmul(B(0), ppow(ri, 2)), -1.0)
                    elif k == 2: t = padd(padd(pmul(B(2), ri), pscale(pmul(B(1), ppow(ri, 2)), -2.0)), pscale(pmul(B(0), ppow(ri, 3)), 2.0))
                    else: und("order of B/r")
                    r = pmul(r, ppow(t, q))
                else: r = pmul(r, {((a, q),): 1.0})
            return r
    # ---- expected values
    def table(self, kind, k, x, d, f): return atom(("a", kind, freeze(const(k)), freeze(x), freeze(EI), d, f))
    def quad(self, F, d, kinds=("B0", "B0"), panels=None):
        """sum over the rule of weight * jacobian * F(r) * bra_i * ket_j, in terms of the radius"""
        q = ("s", "q"); rho = atom(("a", "rho", q))
        x = pmul(padd(rho, CI, -1.0), pinv(EI))
        t = pmul(pmul(atom(("a", "wq", q)), EI), F(rho))
        for k, f in zip(kinds, (PI, PJ)): t = pmul(t, self.basis(k, x, rho, d, f))
        return msum(t, q)
    def basis(self, kind, x, r, d, f):
        B = lambda k: self.table("B", k, x, d, f)
        k = int(kind[1]); ri = pinv(r)
        if kind[0] == "B": return B(k)
        if k == 0: return pmul(B(0), ri)
        if k == 1: return padd(pmul(B(1), ri), pmul(B(0), ppow(ri, 2)), -1.0)
        return padd(padd(pmul(B(2), ri), pscale(pmul(B(1), ppow(ri, 2)), -2.0)), pscale(pmul(B(0), ppow(ri, 3)), 2.0))
    def one(self):
        return lambda r: const(1)

    # ---- the finite-element quadrature
    def core(self): self.job("matrix_element", self.core_)
    def core_(self):
        ev = self.ev(mode="x"); o = ev.fe_object(self.fe)
        FT = ["long", "function", "function", "Matrix", "Matrix", "function", self.scal, self.scal]
        L = PFn(lambda x, i: TV(2, [None, None], lambda t: atom(("a", "L", freeze(norm(colv(whole(x) if isinstance(x, Tn) else x).get((t[0],)))), t[1]))))
        R = PFn(lambda x, i: TV(2, [None, None], lambda t: atom(("a", "R", freeze(norm(colv(whole(x) if isinstance(x, Tn) else x).get((t[0],)))), t[1]))))
        W = PFn(lambda r: fn("f", norm(r)))
        q = ("s", "q")
        def want(xl, xr, weight, lr=True, xs="xq", ws="wq"):
            a = pscale(padd(xr, xl, -1.0), 0.5); b = pscale(padd(xr, xl), 0.5)
            x = norm(padd(pmul(a, atom(("a", xs, q))), b)); r = norm(padd(CI, pmul(EI, x)))
            t = pmul(pmul(atom(("a", ws, q)), EI), a)
            if weight: t = pmul(t, fn("f", r))
            t = pmul(pmul(t, atom(("a", "L", freeze(x), PI))), atom(("a", "R", freeze(x), PJ)))
            return msum(t, q)
        iel = S(ixval(IEL)); nil = Opaque("null")
        for weight in (False, True):
            f = self.find(self.fe, "matrix_element", FT)
            e = self.ev(mode="x")
            r = e.run(f, e.fe_object(self.fe), [iel, L, R, arr("xq"), arr("wq"), W if weight else nil, S(V("xl")), S(V("xr"))])
            self.cmp("%s::matrix_element (%s:%d)" % (self.fe, f.file, f.line), "FE|core|%d" % weight, self.get(r, (PI, PJ)), want(V("xl"), V("xr"), weight),
                     "sums weight * jacobian%s * bra * ket over the mapped rule" % (" * f(r)" if weight else ""))
        # adaptive version: panels between the break points strictly inside the range
        AT = ["long", "function", "function", "function", "vector", "int", self.scal, self.scal]
        f = self.find(self.fe, "matrix_element_auto", AT)
        # the element is [2,4]; values of the break points
        for name, bps, lo, hi in (("none", [], -1, 1), ("one", [2.5], -1, 1), ("two, unordered", [3.7, 2.5], -1, 1), ("below", [1.0], -1, 1), ("above", [5.0], -1, 1),
                                  ("at the ends", [2.0, 4.0], -1, 1), ("sub-range", [2.6, 3.9], -0.5, 0.5), ("three", [3.5, 2.2, 3.0], -1, 1)):
            for deg in (-1, 0, 3):
                e = self.ev(mode="x"); e.val[("a", "xl")] = lo; e.val[("a", "xr")] = hi
                items = []
                for k, v in enumerate(bps): e.val[("a", "bp%d" % k)] = v; items.append(S(V("bp%d" % k)))
                r = e.run(f, e.fe_object(self.fe), [iel, L, R, W, Lst(items), S(const(deg)), S(V("xl")), S(V("xr"))])
                edges = [(lo, V("xl"))] + sorted([((v - 3.0), pmul(padd(V("bp%d" % k), CI, -1.0), pinv(EI))) for k, v in enumerate(bps) if lo < v - 3.0 < hi], key=lambda t: t[0]) + [(hi, V("xr"))]
                w = {}
                for (_, a), (_, b) in zip(edges, edges[1:]): w = padd(w, want(a, b, True))
                self.cmp("%s::matrix_element_auto (%s:%d)" % (self.fe, f.file, f.line), "FE|auto|" + name, self.get(r, (PI, PJ)), w, "splits the element at the break points inside it (%s)" % name)
        # vector elements
        VT = ["long", "function", "Matrix", "Matrix", "function"]
        f = self.find(self.fe, "vector_element", VT)
        for weight in (False, True):
            e = self.ev(mode="x")
            r = e.run(f, e.fe_object(self.fe), [iel, L, arr("xq"), arr("wq"), W if weight else nil])
            x = atom(("a", "xq", q)); rr = norm(padd(CI, pmul(EI, x)))
            t = pmul(pmul(atom(("a", "wq", q)), EI), atom(("a", "L", freeze(x), PI)))
            if weight: t = pmul(t, fn("f", rr))
            self.cmp("%s::vector_element (%s:%d)" % (self.fe, f.file, f.line), "FE|vec|%d" % weight, self.get(r, (PI,)), msum(t, q), "sums weight * jacobian * f(r) * function over the rule")
    def whole_basis(self):
        """assembled matrices hold every element block at that element's functions"""
        nil = Opaque("null")
        L = PFn(lambda x, i: TV(2, [None, None], lambda t: atom(("a", "L", freeze(norm(colv(whole(x) if isinstance(x, Tn) else x).get((t[0],)))), freeze(self.un(i)), t[1]))))
        R = PFn(lambda x, i: TV(2, [None, None], lambda t: atom(("a", "R", freeze(norm(colv(whole(x) if isinstance(x, Tn) else x).get((t[0],)))), freeze(self.un(i)), t[1]))))
        W = PFn(lambda r: fn("f", norm(r)))
        q = ("s", "q"); x = atom(("a", "xq", q)); r0 = norm(padd(CI, pmul(EI, x)))
        base = pmul(pmul(atom(("a", "wq", q)), EI), fn("f", r0))
        li = pmul(base, atom(("a", "L", freeze(x), freeze(ixval(IEL)), ("s", "b0"))))
        lr = pmul(li, atom(("a", "R", freeze(x), freeze(ixval(IEL)), ("s", "b1"))))
        D = lambda k, f_: atom(("a", "B", freeze(V(k) if isinstance(k, str) else const(k)), freeze(x), freeze(EI), (), f_))
        dd = lambda a, b: pmul(pmul(base, D(a, ("s", "b0"))), D(b, ("s", "b1")))
        cases = [("matrix_element", ["function", "function", "Matrix", "Matrix", "function"], lambda: [L, R, arr("xq"), arr("wq"), W], lr, 2),
                 ("matrix_element", ["int", "int", "Matrix", "Matrix", "function"], lambda: [S(V("k1")), S(V("k2")), arr("xq"), arr("wq"), W], dd("k1", "k2"), 2),
                 ("matrix_element_auto", ["function", "function", "function", "vector", "int"], lambda: [L, R, W, Lst([]), S(const(-1))], lr, 2),
                 ("matrix_element", ["int", "int", "function", "vector", "int"], lambda: [S(V("k1")), S(V("k2")), W, Lst([]), S(const(-1))], dd("k1", "k2"), 2),
                 ("vector_element", ["function", "Matrix", "Matrix", "function"], lambda: [L, arr("xq"), arr("wq"), W], li, 1),
                 ("vector_element", ["int", "Matrix", "Matrix", "function"], lambda: [S(V("k1")), arr("xq"), arr("wq"), W], pmul(base, D("k1", ("s", "b0"))), 1)]
        for nm, types, args, want, rank in cases:
            def one():
                f = self.find(self.fe, nm, types)
                e = self.ev(mode="x")
                e.val[("a", "xq")] = 0.0
                r = e.run(f, e.fe_object(self.fe), args())
                self.blocks("%s::%s(%s) (%s:%d)" % (self.fe, nm, ",".join(types), f.file, f.line), "FE|whole|%s|%s" % (nm, types[0] + types[2]), r, want, rank)
            self.job(nm, one)
        for nm, types, args, want, rank in (("matrix_element", ["long", "int", "int", "Matrix", "Matrix", "function"], lambda: [S(ixval(IEL)), S(V("k1")), S(V("k2")), arr("xq"), arr("wq"), W], dd("k1", "k2"), 2),
                                            ("matrix_element", ["long", "int", "int", "function", "vector", "int"], lambda: [S(ixval(IEL)), S(V("k1")), S(V("k2")), W, Lst([]), S(const(-1))], dd("k1", "k2"), 2),
                                            ("vector_element", ["long", "int", "Matrix", "Matrix", "function"], lambda: [S(ixval(IEL)), S(V("k1")), arr("xq"), arr("wq"), W], pmul(base, D("k1", ("s", "b0"))), 1)):
            def one():
                f = self.find(self.fe, nm, types); e = self.ev(mode="x")
                r = e.run(f, e.fe_object(self.fe), args())
                w = msum(psubst(want, {("s", "b0"): PI, ("s", "b1"): PJ}), q)
                self.cmp("%s::%s(%s) (%s:%d)" % (self.fe, nm, ",".join(types), f.file, f.line), "FE|el|%s|%s" % (nm, types[3]), self.get(r, (PI, PJ)[:rank]), w, "is the quadrature over the element with the requested derivatives")
            self.job(nm, one)
    def un(self, i):
        return i if isinstance(i, dict) else ixval(i)
    def blocks(self, where, key, r, want, rank, keep=None):
        sc = getattr(r, "scatter", None)
        if not sc or len(sc) != 1 or len(sc[0]["frames"]) != 1: und("assembly loop")
        s = sc[0]; ren = {s["frames"][0]: IEL}
        q = ("s", "q")
        val = nsub(s["val"], ren)
        self.cmp(where, key + "|val", val, msum(want, q), "adds the element's own quadrature")
        ff, lf = atom(("a", "first_func_in_element", IEL)), atom(("a", "last_func_in_element", IEL))
        self.C.count("blocks")
        if s["op"] not in ("+=",): self.C.violation(key + "|op", "%s: element blocks are not accumulated, so functions shared by two elements lose a contribution" % where)
        for k in range(rank):
            self.cmp(where, key + "|off", nsub(s["off"][k], ren), ff, "blocks start at the element's first function")
            self.cmp(where, key + "|cnt", nsub(s["cnt"][k], ren), padd(padd(lf, ff, -1.0), const(1)), "blocks end at the element's last function")

    # ---- named radial integrals
    def model(self, e, bps=()):
        m = Obj("Model"); m.f["bp"] = list(bps); return Ptr(m)
    def named(self):
        iel = lambda: S(ixval(IEL)); sc = self.scal
        one = lambda r: const(1)
        tab = [("overlap", ["long"], [iel], one, ("B0", "B0"), 1.0, "int B B dr"),
               ("kinetic", ["long"], [iel], one, ("B1", "B1"), 0.5, "1/2 int B' B' dr"),
               ("kinetic_l", ["long"], [iel], one, ("R0", "R0"), 0.5, "1/2 int B B / r^2 dr"),
               ("nuclear", ["long"], [iel], lambda r: r, ("R0", "R0"), -1.0, "-int B B / r dr")]
        for nm, types, args, F, kinds, fac, txt in tab:
            for first, last in SCEN:
                def go():
                    e = self.ev(first, last); f = self.find(self.rb, nm, types)
                    r = e.run(f, e.fe_object(self.rb), [a() for a in args])
                    self.cmp("%s::%s (%s:%d)" % (self.rb, nm, f.file, f.line), "RB|%s" % nm, self.get(r, (PI, PJ)), pscale(self.quad(F, drops(first, last), kinds), fac), "is %s over the element" % txt)
                self.job(nm, go)
            def gl():
                e = self.ev(False, False); f = self.find(self.rb, nm, [])
                r = e.run(f, e.fe_object(self.rb), [])
                self.gblocks(e, "%s::%s() (%s:%d)" % (self.rb, nm, f.file, f.line), "RB|%s|whole" % nm, r, self.quad(F, (), kinds), fac, txt)
            self.job(nm + "()", gl)
        # powers of r, over the whole element and over a part of it
        f = None
        for k in (-3, -2, -1, 0, 1, 2, 4):
            for part in (False, True):
                def go():
                    f = self.find(self.rb, "radial_integral", ["int", "long", sc, sc])
                    e = self.ev(False, False, "rhoab" if part else "rho")
                    if part:
                        e.val.update({("a", "xa"): 0.3, ("a", "xb"): 0.2}); a = [S(padd(V("xb"), V("xa"), -1.0)), S(padd(V("xb"), V("xa")))]
                    else: a = [S(const(-1)), S(const(1))]
                    r = e.run(f, e.fe_object(self.rb), [S(const(k)), S(ixval(IEL))] + a)
                    w = self.quad(lambda r: ppow(r, k), ())
                    if part: w = pmul(w, V("xa"))
                    self.cmp("%s::radial_integral (%s:%d)" % (self.rb, f.file, f.line), "RB|radial_integral", self.get(r, (PI, PJ)), w, "is int B B r^n dr over the %s (n=%d)" % ("given part of the element" if part else "element", k))
                self.job("radial_integral(%d)" % k, go)
        # modified Bessel functions
        for nm in ("bessel_il", "bessel_kl"):
            def go():
                f = self.find(self.rb, nm + "_integral", ["int", sc, "long"])
                e = self.ev(); self.bessel(e)
                r = e.run(f, e.fe_object(self.rb), [S(V("L")), S(V("lambda")), S(ixval(IEL))])
                self.cmp("%s::%s_integral (%s:%d)" % (self.rb, nm, f.file, f.line), "RB|" + nm, self.get(r, (PI, PJ)), self.quad(lambda r: fn(nm, pmul(r, V("lambda")), V("L")), ()), "is int B B %s_L(lambda r) dr" % nm[-2])
            self.job(nm, go)
        # model potentials, with the model's own break points
        for bps in ((), (2.5,), (3.5, 2.5)):
            def go():
                f = self.find(self.rb, "model_potential", ["ModelPotential", "long"])
                e = self.ev(mode="x" if bps else "rho")
                for k, v in enumerate(bps): e.val[("a", "bp%d" % k)] = v
                r = e.run(f, e.fe_object(self.rb), [self.model(e, [S(V("bp%d" % k)) for k in range(len(bps))]), S(ixval(IEL))])
                self.cmp("%s::model_potential (%s:%d)" % (self.rb, f.file, f.line), "RB|model_potential", self.get(r, (PI, PJ)), self.split(e, lambda r: fn("V", r), bps), "is int B B V(r) dr, split at the kinks the model reports")
                self.C.count("integral_equations")
                want = [padd(CI, EI, -1.0), padd(CI, EI)]
                if len(getattr(e, "bpcall", [])) != 2 or any(nsame(a, b) for a, b in zip(e.bpcall, want)): self.C.violation("RB|model_potential|bp", "%s::model_potential (%s:%d): the model is asked for kinks outside of the element's own interval" % (self.rb, f.file, f.line))
            self.job("model_potential", go)
        # off-centre nuclei
        for L in (0, 1, 2, 3):
            for Rh in (1.0, 2.0, 4.0, 5.0):
                def go():
                    f = self.find(self.rb, "nuclear_offcenter", ["long", sc, "int"])
                    e = self.ev(); e.val[("a", "Rhalf")] = Rh
                    r = e.run(f, e.fe_object(self.rb), [S(ixval(IEL)), S(V("Rhalf")), S(const(L))])
                    k = (lambda r: pmul(ppow(r, -L - 1), ppow(V("Rhalf"), L))) if Rh <= 2.0 else (lambda r: pmul(ppow(r, L), ppow(V("Rhalf"), -L - 1)))
                    g = self.get(r, (PI, PJ))
                    w = pscale(self.quad(k, ()), -math.sqrt(4 * math.pi / (2 * L + 1)))
                    self.cmp("%s::nuclear_offcenter (%s:%d)" % (self.rb, f.file, f.line), "RB|nuclear_offcenter", self.numeric(g), w, "is -sqrt(4 pi/(2L+1)) int B B r<^L/r>^(L+1) dr (L=%d, nucleus %s the element)" % (L, "inside of" if Rh <= 2 else "outside of"))
                self.job("nuclear_offcenter", go)
        def inside():
            f = self.find(self.rb, "nuclear_offcenter", ["long", sc, "int"])
            e = self.ev(); e.val[("a", "Rhalf")] = 3.0
            self.C.count("integral_equations")
            try: e.run(f, e.fe_object(self.rb), [S(ixval(IEL)), S(V("Rhalf")), S(const(1))])
            except Rejected: return
            self.C.violation("RB|nuclear_offcenter|inside", "%s::nuclear_offcenter (%s:%d): accepts a nucleus strictly within an element, where the kernel has a kink" % (self.rb, f.file, f.line))
        self.job("nuclear_offcenter inside", inside)
    def numeric(self, p):
        """numeric constants: square roots of numbers and the like"""
        out = {}
        for m, c in norm(p).items():
            fs = {}
            for a, q in m:
                v = None
                if a[0] == "fn" and a[1] == "sqrt" and is_frozen(a[2]):
                    v = cval(self.numeric(dict(a[2]))); v = math.sqrt(v) if v is not None and v >= 0 else None
                if a[0] == "fn" and a[1] in ("acos", "atan") and is_frozen(a[2]): 
                    v = cval(dict(a[2])); v = getattr(math, a[1])(v) if v is not None else None
                if v is not None: c *= v ** q
                else: fs[a] = q
            s, mm = mkmono(fs); out[mm] = out.get(mm, 0.0) + c * s
        return out
    def gblocks(self, e, where, key, r, want, fac, txt):
        sc = e.pend(r)
        if not sc or len(sc) != 1 or len(sc[0]["frames"]) != 1: und("assembly loop")
        s = sc[0]; ren = {s["frames"][0]: IEL}
        val = nsub(s["val"], ren)
        self.cmp(where, key, val, pscale(psubst(want, {PI: ("s", "b0"), PJ: ("s", "b1")}), fac), "adds %s of each element" % txt)
        ff, lf = atom(("a", "first_func_in_element", IEL)), atom(("a", "last_func_in_element", IEL))
        for k in range(2):
            self.cmp(where, key + "|off", nsub(s["off"][k], ren), ff, "blocks start at the element's first function")
            self.cmp(where, key + "|cnt", nsub(s["cnt"][k], ren), padd(padd(lf, ff, -1.0), const(1)), "blocks end at the element's last function")
    def split(self, e, F, bps, kinds=("B0", "B0"), cut=None, x=False):
        inx = bool(bps) or x
        """expected sum over panels in terms of the rule nodes; F may depend on the panel"""
        lo, hi = -1, 1
        edges = [(lo, const(-1))] + sorted([(v - 3.0, pmul(padd(V("bp%d" % k), CI, -1.0), pinv(EI))) for k, v in enumerate(bps) if lo < v - 3.0 < hi], key=lambda t: t[0]) + [(hi, const(1))]
        q = ("s", "q"); w = {}
        for n, ((_, a), (_, b)) in enumerate(zip(edges, edges[1:])):
            h = pscale(padd(b, a, -1.0), 0.5); m = pscale(padd(b, a), 0.5)
            if inx:
                x = norm(padd(m, pmul(h, atom(("a", "xq", q))))); r = norm(padd(CI, pmul(EI, x)))
            else:
                r = atom(("a", "rho", q)); x = pmul(padd(r, CI, -1.0), pinv(EI))
            t = pmul(pmul(pmul(atom(("a", "wq", q)), EI), h), F(r) if cut is None else cut(r, n))
            for k, f in zip(kinds, (PI, PJ)): t = pmul(t, self.basis(k, x, r, (), f))
            w = padd(w, msum(t, q))
        return w
    def bessel(self, e):
        old = e.call_hook
        def hook(n, q, args, obj):
            b = q.split("::")[-1]
            if b in ("bessel_il", "bessel_kl") and n["k"] == "Call": return fn(b, norm(e.sc(n["a"][0])), norm(e.sc(n["a"][1])))
            if b == "Phi" and n["k"] == "Call": return fn("Phi", *[norm(e.sc(x)) for x in n["a"]])
            return old(n, q, args, obj)
        e.call_hook = hook

    # ---- confinement
    def confine(self):
        sc = self.scal
        def cases(fname, types, args, F, kind="B0", N=None):
            """hard wall switched on at r = s, wherever s lies with respect to the element [2,4]"""
            for nm, sv in (("at the nucleus", 0.0), ("before the element", 1.0), ("at its beginning", 2.0), ("inside", 2.5), ("at its end", 4.0), ("beyond", 5.0)):
                def go():
                    e = self.ev(mode="x"); e.val[("a", "bp0")] = sv; e.val[("a", "xq")] = 0.0
                    e.val[("a", "r0")] = 1.5; e.val[("a", "V0")] = 2.0; e.val[("a", "rc")] = 30.0
                    s = const(0) if sv == 0 else V("bp0")
                    f = self.find(self.rb, fname, types)
                    r = e.run(f, e.fe_object(self.rb), [S(a) if isinstance(a, dict) else a for a in args(s)])
                    inside = 2.0 < sv < 4.0
                    def G(rr, panel):
                        if sv >= 4.0 or (inside and panel == 0): return {}
                        return F(rr, s)
                    self.cmp("%s::%s (%s:%d)" % (self.rb, fname, f.file, f.line), "RB|" + fname, self.get(r, (PI, PJ)), self.split(e, None, [sv] if inside else (), cut=G, x=True),
                             "is int B B V(r) dr over the part of the element beyond the onset (onset %s%s)" % (nm, ", N=%d" % N if N is not None else ""))
                self.job(fname, go)
        iel = ixval(IEL)
        for N in (0, 1, 2, 5):
            cases("polynomial_confinement", ["long", "int", sc], lambda s: [iel, const(N), s], lambda r, s: ppow(padd(r, s, -1.0), N), N=N)
        for N in (1, 2, 3):
            def ex(r, s):
                x = pmul(padd(r, s, -1.0), pinv(V("r0")))
                t = fn("exp", norm(x))
                for k in range(N): t = padd(t, pscale(ppow(x, k), 1.0 / math.factorial(k)), -1.0)
                return pscale(t, math.factorial(N))
            cases("exponential_confinement", ["long", "int", sc, sc], lambda s: [iel, const(N), V("r0"), s], ex, N=N)
        cases("barrier_confinement", ["long", sc, sc], lambda s: [iel, V("V0"), s], lambda r, s: V("V0"))
        for N in (1, 2):
            def jq(r, s):
                x = pmul(pscale(padd(V("rc"), s, -1.0), -1.0), pinv(padd(r, s, -1.0)))
                return pmul(pmul(V("V0"), fn("exp", norm(x))), pinv(ppow(padd(V("rc"), r, -1.0), N)))
            cases("junq_confinement", ["long", "int", sc, sc, sc], lambda s: [iel, const(N), V("V0"), V("rc"), s], jq, N=N)
        self.dispatch()
    def dispatch(self):
        """the potential selected by number, its scale, and the parameters that are refused"""
        sc = self.scal; f = self.find(self.rb, "confinement_potential", ["long", "int", sc, "int", sc, sc])
        where = "%s::confinement_potential (%s:%d)" % (self.rb, f.file, f.line)
        def run(N, r0, iconf, Vv, sv):
            e = self.ev(mode="x"); calls = []
            e.val.update({("a", "r0"): r0, ("a", "V0"): Vv, ("a", "bp0"): sv})
            old = e.call_hook
            def hook(n, q, args, obj):
                b = q.split("::")[-1]
                if b.endswith("_confinement") and n["k"] in ("MCall", "Call"):
                    calls.append((b, [norm(e.sc(x)) for x in n["a"]]))
                    return TV(2, [None, None], lambda i: atom(("a", "conf:" + b) + tuple(i)))
                return old(n, q, args, obj)
            e.call_hook = hook
            r = e.run(f, e.fe_object(self.rb), [S(ixval(IEL)), S(const(N)), S(V("r0")), S(const(iconf)), S(V("V0")), S(const(0) if sv == 0 else V("bp0"))])
            return self.get(r, (PI, PJ)), calls
        names = {1: "polynomial_confinement", 2: "exponential_confinement", 3: "barrier_confinement", 4: "junq_confinement"}
        for iconf, nm in names.items():
            for r0 in (2.0, -2.0):
                for sv in (0.0, 2.5):
                    def go():
                        N = 3
                        got, calls = run(N, r0, iconf, 2.0, sv)
                        s = const(0) if sv == 0 else V("bp0"); ab = V("r0") if r0 > 0 else pscale(V("r0"), -1.0)
                        self.C.count("integral_equations")
                        want = atom(("a", "conf:" + nm, PI, PJ))
                        if iconf == 1: want = pscale(pmul(want, ppow(ab, -N)), 1.0 if r0 > 0 else -1.0)
                        self.cmp(where, "RB|conf|%d" % iconf, got, want, "iconf=%d is the %s potential%s" % (iconf, nm.split("_")[0], " scaled by sign(r0) |r0|^-N" if iconf == 1 else ""))
                        pars = {1: [const(N), s], 2: [const(N), ab, s], 3: [V("V0"), s], 4: [const(N), V("V0"), None, s]}[iconf]
                        if len(calls) != 1 or len(calls[0][1]) != len(pars) + 1: und("%d potentials combined" % len(calls))
                        for g, w in zip(calls[0][1], [ixval(IEL)] + pars):
                            if w is None: w = self.last_boundary(g)
                            self.cmp(where, "RB|conf|%d|args" % iconf, g, w, "iconf=%d passes the exponent, scale and onset on unchanged" % iconf)
                    self.job("confinement_potential", go)
        bad = [(3, 2.0, 0, 2.0, 0.0, "selector 0"), (3, 2.0, 5, 2.0, 0.0, "selector 5"), (3, 2.0, -1, 2.0, 0.0, "selector -1"), (-2, 2.0, 1, 2.0, 2.5, "a divergent polynomial with an onset"),
               (-1, 2.0, 2, 2.0, 0.0, "exponential with N<0"), (0, 2.0, 2, 2.0, 0.0, "exponential with N=0"), (1, 2.0, 3, -1.0, 0.0, "an attractive barrier"),
               (0, 2.0, 4, 2.0, 0.0, "Junquera with N=0"), (-1, 2.0, 4, 2.0, 0.0, "Junquera with N<0"), (1, 2.0, 4, -2.0, 0.0, "an attractive Junquera potential")]
        for N, r0, iconf, Vv, sv, txt in bad:
            def go():
                self.C.count("rejections")
                try: run(N, r0, iconf, Vv, sv)
                except Rejected: return
                self.C.violation("RB|conf|reject|" + txt, "%s: accepts %s" % (where, txt))
            self.job("confinement_potential rejects " + txt, go)
    def last_boundary(self, g):
        """the outermost element boundary, as maximum of the boundaries or as the last one"""
        p = norm(g)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1.0 and len(m) == 1 and m[0][0][0] == "fn" and m[0][0][1] == "maxCoeff" and "('a', 'e'" in repr(m) and m[0][1] == 1: return p
        last = padd(atom(("fn", "dim", "bval", "size")), const(2), -1.0)
        for ix in {a[2] for m in p for a, _ in m if a[0] == "a" and a[1] in ("c", "e") and len(a) > 2}:
            if not nsame(ixval(ix), last) and not nsame(p, padd(C0(ix), EH(ix))): return p
        return V("Rmax")

    # ---- two different radial bases
    def basis_object(self, e, tag, bounds):
        o = e.fe_object(self.rb, tag); fo = e.fe_object(self.fe, tag)
        names = [V("%s%d" % (tag, k)) for k in range(len(bounds))]
        for k, v in enumerate(bounds): e.val[("a", "%s%d" % (tag, k))] = v
        fo.f["bval"] = CTn("bval" + tag, [len(bounds)], lambda i: names[i[0]] if isinstance(i[0], int) else und("boundary index"))
        o.f["fem"] = fo
        return o, names
    def cross(self):
        sc = self.scal
        sets = [("same grids", [0.0, 2.0, 5.0], [0.0, 2.0, 5.0]), ("interleaved", [0.0, 2.0, 5.0], [0.0, 3.0, 5.0]), ("different extents", [0.0, 2.0, 5.0], [0.0, 1.0, 3.0]),
                ("one element inside of the other", [0.0, 6.0], [0.0, 1.0, 4.0]), ("finer on the right", [0.0, 1.0, 6.0], [0.0, 3.0]), ("far apart", [0.0, 1.0, 2.0], [0.0, 5.0])]
        whats = [("overlap", ["RadialBasis"], [], None, (0, 0)), ("radial_integral", ["RadialBasis", "int", "bool", "bool"], [2, 0, 1], 2, (0, 1)),
                 ("radial_integral", ["RadialBasis", "int", "bool", "bool"], [-1, 1, 0], -1, (1, 0)), ("model_potential", ["RadialBasis", "ModelPotential", "bool", "bool"], ["M", 1, 1], "V", (1, 1))]
        for nm, types, args, F, ders in whats:
            for txt, lb, rb in (sets if nm == "overlap" else sets[1:3]):
                def go():
                    f = self.find(self.rb, nm, types); e = self.ev(mode="x")
                    e.max_depth = 30; e.coincide = True
                    lo, ln = self.basis_object(e, "l", lb); ro, rn = self.basis_object(e, "r", rb)
                    e.val[("a", "xq")] = 0.0
                    a = [ro] + [self.model(e) if x == "M" else S(const(x)) for x in args]
                    r = e.run(f, lo, a)
                    where = "%s::%s (%s:%d)" % (self.rb, nm + "(other basis)", f.file, f.line)
                    sc_ = e.pend(r)
                    want = {}
                    q = ("s", "q")
                    for i in range(len(lb) - 1):
                        for j in range(len(rb) - 1):
                            if max(lb[i], rb[j]) >= min(lb[i + 1], rb[j + 1]): continue
                            lo_ = ln[i] if lb[i] > rb[j] else rn[j]; hi_ = ln[i + 1] if lb[i + 1] < rb[j + 1] else rn[j + 1]
                            want[(i, j)] = (lo_, hi_, lb[i] == rb[j], lb[i + 1] == rb[j + 1])
                    got = {}
                    for s in sc_:
                        key = tuple(self.elof(o, t) for o, t in zip(s["off"], "lr"))
                        if s["frames"] or None in key: und("assembly loop")
                        if "foreign" in key:
                            self.C.violation("RB|cross|off", "%s: the rows belong to this basis and the columns to the other, but a block is placed with the first function of an element of the wrong one (%s)" % (where, txt)); continue
                        if s["op"] != "+=": self.C.violation("RB|cross|op", "%s: element pairs are not accumulated, so functions shared by two elements lose a contribution" % where)
                        got.setdefault(key, []).append(s)
                    for key in sorted(set(got) | set(want)):
                        self.C.count("integral_equations")
                        if key not in want:
                            if any(nf(s["val"]) for s in got[key]): self.C.violation("RB|cross|extra", "%s: adds a contribution of element %d of this basis and element %d of the other, which do not overlap (%s)" % ((where,) + key + (txt,)))
                            continue
                        if key not in got:
                            self.C.violation("RB|cross|missing", "%s: element %d of this basis and element %d of the other overlap but contribute nothing (%s)" % ((where,) + key + (txt,))); continue
                        a_, b_, el, er = want[key]
                        h = pscale(padd(b_, a_, -1.0), 0.5); m = pscale(padd(b_, a_), 0.5)
                        rr = padd(m, pmul(h, atom(("a", "xq", q))))
                        t = pmul(atom(("a", "wq", q)), h)
                        if F == "V": t = pmul(t, fn("V", norm(rr)))
                        elif F is not None: t = pmul(t, ppow(norm(rr), F))
                        for tag, names, k, d, fi in (("l", ln, key[0], ders[0], ("s", "b0")), ("r", rn, key[1], ders[1], ("s", "b1"))):
                            em = pscale(padd(names[k + 1], names[k]), 0.5); eh = pscale(padd(names[k + 1], names[k], -1.0), 0.5)
                            fl, ll = k == 0, k == len(names) - 2
                            t = pmul(t, atom(("a", "B" + tag, freeze(const(d)), freeze(norm(pmul(padd(rr, em, -1.0), pinv(eh)))), freeze(eh), drops(fl, ll), fi)))
                        w = msum(t, q)
                        g = {}
                        for s in got[key]: g = padd(g, s["val"])
                        # coinciding boundaries have two names
                        mp = {}
                        for x in range(len(lb)):
                            for y in range(len(rb)):
                                if lb[x] == rb[y]: mp[("a", "r%d" % y)] = ("a", "l%d" % x)
                        self.cmp(where, "RB|cross|val", nsub(g, mp), nsub(w, mp), "element pairs contribute the integral over their common interval (%s)" % txt)
                        for k, tag in ((0, "l"), (1, "r")):
                            for s in got[key]:
                                ff, lf = atom(("a", "first_func_in_element" + tag, key[k])), atom(("a", "last_func_in_element" + tag, key[k]))
                                self.cmp(where, "RB|cross|cnt", s["cnt"][k], padd(padd(lf, ff, -1.0), const(1)), "blocks span the functions of their elements")
                self.job("%s(other basis, %s)" % (nm, txt), go)
    def elof(self, p, tag):
        p = norm(p)
        if len(p) != 1: return None
        (m, c), = p.items()
        if c != 1.0 or len(m) != 1 or m[0][1] != 1: return None
        a = m[0][0]
        if a[0] == "a" and isinstance(a[1], str) and a[1].startswith("first_func_in_element") and a[1] != "first_func_in_element" + tag: return "foreign"
        return a[2] if a[:2] == ("a", "first_func_in_element" + tag) and isinstance(a[2], int) else None

    # ---- two-electron integrals within an element
    def tei(self):
        sc = self.scal
        n, nbf = 3, 2
        def B(x, f, tag=""): return atom(("a", "B" + tag, freeze(const(0)), freeze(norm(x)), freeze(EI), (), f))
        def rad(x): return norm(padd(CI, pmul(EI, x)))
        xq = lambda k: atom(("a", "xq", k)); wq = lambda k: atom(("a", "wq", k))
        scen = {"interior nodes": (-0.5, 0.1, 0.7), "rule with end points": (-1.0, 0.0, 1.0)}
        def setup(nodes):
            e = self.ev(mode="x"); e.rule_n, e.nbf, e.max_depth = n, nbf, 30
            for k, v in enumerate(nodes): e.val[("a", "xq", k)] = v
            o = e.fe_object(self.rb)
            o.f["xq"] = CTn("xq", [n], lambda i: xq(i[0])); o.f["wq"] = CTn("wq", [n], lambda i: wq(i[0]))
            self.bessel(e)
            return e, o
        def segment(lo, hi, F, k, l):
            """int_lo^hi B_k B_l F(r) dr by the mapped rule, in reference coordinates lo, hi"""
            h = pscale(padd(hi, lo, -1.0), 0.5); m = pscale(padd(hi, lo), 0.5); t = {}
            for q in range(n):
                x = norm(padd(m, pmul(h, xq(q))))
                t = padd(t, pmul(pmul(pmul(pmul(wq(q), h), EI), F(rad(x))), pmul(B(x, k), B(x, l))))
            return t
        def twoel(green, tag):
            """int int B_i B_j(r) g(r<) G(r>) B_k B_l(r') with r' < r, plus the same with the pairs exchanged"""
            small, big = green
            cache = {}
            def half(i, j, k, l):
                key = (i, j, k, l)
                if key in cache: return cache[key]
                t = {}; acc = {}
                for ip in range(n):
                    lo = const(-1) if ip == 0 else xq(ip - 1)
                    if not (ip == 0 and tag == "rule with end points"): acc = padd(acc, segment(lo, xq(ip), small, k, l))
                    t = padd(t, pmul(pmul(pmul(wq(ip), EI), pmul(B(xq(ip), i), B(xq(ip), j))), pmul(acc, big(rad(xq(ip))))))
                cache[key] = t
                return t
            return lambda i, j, k, l: padd(half(i, j, k, l), half(k, l, i, j))
        pairs = [(0, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, 1), (1, 0, 1, 1), (1, 1, 0, 0), (0, 1, 1, 0)]
        lam = V("lambda"); L_ = V("L")
        jobs = []
        for L in (0, 1, 2):
            jobs.append(("twoe_integral", ["int", "long"], [const(L), ixval(IEL)], (lambda r, L=L: ppow(r, L), lambda r, L=L: ppow(r, -L - 1)), "r<^%d/r>^%d" % (L, L + 1)))
        jobs.append(("yukawa_integral", ["int", sc, "long"], [L_, lam, ixval(IEL)], (lambda r: fn("bessel_il", norm(pmul(r, lam)), L_), lambda r: fn("bessel_kl", norm(pmul(r, lam)), L_)), "i_L(lambda r<) k_L(lambda r>)"))
        for nm, types, args, green, txt in jobs:
            for tag, nodes in scen.items():
                def go():
                    f = self.find(self.rb, nm, types); e, o = setup(nodes)
                    r = e.run(f, o, [S(a) for a in args])
                    w = twoel(green, tag)
                    for i, j, k, l in pairs:
                        self.cmp("%s::%s (%s:%d)" % (self.rb, nm, f.file, f.line), "RB|" + nm, self.get(r, (i * nbf + j, k * nbf + l)), w(i, j, k, l),
                                 "is int int B B %s B B over the element, product (i,j) at row i*n+j (%s)" % (txt, tag))
                self.job(nm + " " + tag, go)
        # error-function kernel: product rule, the second electron on a grid refined as often as there are points when in the same element
        def erfc(same):
            f = self.find(self.rb, "erfc_integral", ["int", sc, "long", "long"])
            e, o = setup(scen["interior nodes"]); e.rule_n = 2
            o.f["xq"] = CTn("xq", [2], lambda i: xq(i[0])); o.f["wq"] = CTn("wq", [2], lambda i: wq(i[0]))
            K = IEL if same else ("s", "kel")
            if not same: e.val.update({("ixv", IEL): 5.0, ("ixv", K): 7.0}); e.inner = (K,)
            mu = V("mu")
            r = e.run(f, o, [S(L_), S(mu), S(ixval(IEL)), S(ixval(K))])
            nint = 2 if same else 1
            def Bk(x, f_): return atom(("a", "B", freeze(const(0)), freeze(norm(x)), freeze(EH(K)), (), f_))
            def el(i, j, k, l):
                t = {}
                for p in range(2):
                    for s in range(nint):
                        for q in range(2):
                            h = const(1.0 / nint); m = const((2 * s + 1.0) / nint - 1.0)
                            y = norm(padd(m, pmul(h, xq(q))))
                            ri = rad(xq(p)); rk = norm(padd(C0(K), pmul(EH(K), y)))
                            g = fn("Phi", L_, norm(pmul(mu, ri)), norm(pmul(mu, rk)))
                            t = padd(t, pmul(pmul(pmul(pmul(pmul(wq(p), EI), pmul(wq(q), pmul(h, EH(K)))), g), pmul(B(xq(p), i), B(xq(p), j))), pmul(Bk(y, k), Bk(y, l))))
                return t
            for i, j, k, l in pairs:
                w = el(i, j, k, l)
                if same: w = pscale(padd(w, el(k, l, i, j)), 0.5)
                self.cmp("%s::erfc_integral (%s:%d)" % (self.rb, f.file, f.line), "RB|erfc_integral", self.get(r, (i * nbf + j, k * nbf + l)), w, "is int int B B Phi_L(mu r, mu r') B B over %s" % ("the element" if same else "two elements"))
        for same in (False, True): self.job("erfc_integral", lambda: erfc(same))
        def pot():
            for tag, nodes in scen.items():
                f = self.find(self.rb, "spherical_potential", ["long"]); e, o = setup(nodes)
                r = e.run(f, o, [S(ixval(IEL))])
                for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    for ip in range(n):
                        w = {}
                        for jp in range(ip + 1):
                            lo = const(-1) if jp == 0 else xq(jp - 1)
                            w = padd(w, segment(lo, xq(jp), self.one(), i, j))
                        w = pmul(w, pinv(rad(xq(ip))))
                        for jp in range(ip, n):
                            hi = const(1) if jp == n - 1 else xq(jp + 1)
                            w = padd(w, segment(xq(jp), hi, lambda r: pinv(r), i, j))
                        self.cmp("%s::spherical_potential (%s:%d)" % (self.rb, f.file, f.line), "RB|spherical_potential", self.get(r, (ip, i * nbf + j)), w, "is 1/r int_0^r B B + int_r B B / r' at every point")
        self.job("spherical_potential", pot)
