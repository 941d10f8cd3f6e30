"""What the grid sees: values, derivatives and Laplacians of basis functions at points of space, the densities formed from them
and the quadrature weights (C12).  Coordinates, weights, radial functions and density-matrix elements are symbols; the formal
expressions the code builds are compared with textbook ones by evaluating both at generic points (identity of analytic
expressions), so the way the code writes them does not matter."""
import cmath, zlib
from qdiatomic import *
import conc, sph
from report import Check

IM = Sy("imag")
SAMPLES = 3
def rnd(a, k): return (zlib.crc32(repr((a, k)).encode()) % 99991) / 99991.0
def legfn(l, m, th):
    """normalised associated Legendre function with the Condon-Shortley phase, m>=0"""
    x, s = cmath.cos(th).real, abs(cmath.sin(th))
    if m > l: return 0.0
    p = 1.0
    for k in range(m): p *= -(2 * k + 1) * s
    q0, q1 = 0.0, p
    for k in range(m + 1, l + 1): q0, q1 = q1, ((2 * k - 1) * x * q1 - (k + m - 1) * q0) / (k - m)
    return q1 * math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - m) / math.factorial(l + m))
def Ylm(l, m, c, ph):
    if abs(m) > l: return 0.0
    v = legfn(l, abs(m), math.acos(c)) * cmath.exp(1j * abs(m) * ph)
    return v if m >= 0 else (-1) ** m * v.conjugate()
def dYlm(l, m, c, ph):
    """derivative with respect to theta: mean of the two ladder relations, regular at the poles"""
    a = math.sqrt((l - m) * (l + m + 1)) * Ylm(l, m + 1, c, ph) * cmath.exp(-1j * ph) if m < l else 0.0
    b = math.sqrt((l + m) * (l - m + 1)) * Ylm(l, m - 1, c, ph) * cmath.exp(1j * ph) if m > -l else 0.0
    return 0.5 * (a - b)

MFN = {"sqrt": cmath.sqrt, "exp": cmath.exp, "log": cmath.log, "sin": cmath.sin, "cos": cmath.cos, "tan": cmath.tan, "sinh": cmath.sinh, "cosh": cmath.cosh,
       "tanh": cmath.tanh, "acos": cmath.acos, "asin": cmath.asin, "atan": cmath.atan, "acosh": cmath.acosh, "asinh": cmath.asinh, "atanh": cmath.atanh, "abs": abs}
conc.NANDIV[0] = True      # a division by zero gives a value that equals nothing
class Val:
    """a point: values of every symbol"""
    rng = {"cth": (-0.9, 0.9), "phi": (0.1, 6.0), "r": (0.3, 2.0), "mu": (0.3, 2.0), "Rh": (0.7, 1.9), "wr": (0.2, 0.9), "wa": (0.2, 0.9), "P": (0.3, 1.0), "th": (0.2, 2.9)}
    def __init__(self, k): self.k = k; self.memo = {}; self.fixed = {}
    def sym(self, a):
        if a[0] == "imag": return 1j
        if a[0] == "nan": return math.nan
        if a in self.fixed: return self.fixed[a]
        lo, hi = self.rng.get(a[0], (0.2, 1.2))
        if a[0] == "cth": s = 1 if rnd(a, self.k) > 0.5 else -1; return s * (0.1 + 0.8 * abs(2 * rnd(a, self.k) - 1))
        return lo + (hi - lo) * rnd(a, self.k)
    def at(self, k):
        v = self.memo.get(k)
        if v is None:
            a = conc._names[k]
            if a[0] == "inv":
                d = self.poly(a[1])
                if abs(d) < 1e-14: und("division by an expression that vanishes")
                v = 1.0 / d
            elif a[0] == "fn":
                x = [self.poly(t) for t in a[2:]]
                if a[1] in MFN: v = MFN[a[1]](x[0])
                elif a[1] == "pow": v = cmath.exp(x[1] * cmath.log(x[0]))
                elif a[1] == "sphleg": v = legfn(int(round(x[0].real)), int(round(x[1].real)), x[2].real)
                elif a[1] == "norm": v = math.sqrt(sum(abs(t) ** 2 for t in x))
                elif a[1] == "squaredNorm": v = sum(abs(t) ** 2 for t in x)
                else: und("value of " + a[1])
            else: v = self.sym(a)
            self.memo[k] = v
        return v
    def poly(self, p):
        s = 0j
        for m, c in (p.items() if isinstance(p, dict) else p):
            t = complex(c)
            for k, e in m: t *= self.at(k) ** e
            s += t
        return s
    def __call__(self, p):
        if isinstance(p, (int, float)): return complex(p)
        if p is None: und("use of an uninitialised value")
        return self.poly(p)
VALS = [Val(k) for k in range(SAMPLES)]
IMK = sid(("imag",))
_cj = {}
def qconj(p):
    """complex conjugate: symbols are real, functions real-analytic"""
    if isinstance(p, int) or p is None: return p
    r = {}
    for m, c in p.items():
        q = Qc(c)
        for k, e in m:
            f = _cj.get(k)
            if f is None:
                a = conc._names[k]
                if k == IMK: f = {((k, 1),): -1.0}
                elif a[0] == "inv": f = qinv(qconj(dict(a[1])))
                elif a[0] == "fn": f = qfn(*([a[1]] + [qconj(dict(t)) for t in a[2:]]))
                else: f = {((k, 1),): 1.0}
                _cj[k] = f
            q = qmul(q, f if e == 1 else {tuple((j, x * e) for j, x in next(iter(f))): next(iter(f.values())) ** e} if len(f) == 1 else qpow(f, e))
        r = qadd(r, q)
    return ired(r)
def ired(p):
    """powers of the imaginary unit reduced"""
    if not isinstance(p, dict) or not any(k == IMK for m in p for k, _ in m): return p
    r = {}
    for m, c in p.items():
        e = dict(m).get(IMK, 0) % 4
        mm = tuple(x for x in m if x[0] != IMK)
        if e % 2: mm = tuple(sorted(mm + ((IMK, 1),)))
        r[mm] = r.get(mm, 0.0) + (c if e < 2 else -c)
    return {m: c for m, c in r.items() if c != 0.0}
def has_im(p, seen=None):
    if not isinstance(p, dict): return False
    for m in p:
        for k, _ in m:
            if k == IMK: return True
            a = conc._names[k]
            if a[0] == "inv" and has_im(dict(a[1])): return True
            if a[0] == "fn" and any(has_im(dict(t)) for t in a[2:]): return True
    return False
def qre(p):
    if not has_im(p): return p
    return qscale(qadd(p, qconj(p)), 0.5)
def qim(p):
    if not has_im(p): return {}
    return qmul(qscale(ired(qmul(qadd(p, qconj(p), -1.0), IM)), -0.5), Qc(1))

class Grid(Diatomic):
    nq = 2
    limit = 60000000
    angular = 3
    def symbolic_cond(self, n, op, a, b):
        d = qadd(a, b, -1.0); o = set()
        for v in VALS:
            x = v(d)
            if abs(x.imag) > 1e-12 * (1 + abs(x)): und("order of complex values", n)
            o.add(bool(conc.CMP[op](x.real, 0.0)))
        if len(o) > 1: und("branch that depends on the point", n)
        return o.pop()
    def absval(self, v): return v if not self.symbolic_cond(None, "<", v, {}) else qscale(v, -1.0)
    def shape(self, e, d, n):
        nm = {0: "rf", 1: "rd", 2: "r2"}[d]
        e = self.elem(self.newrad, e)
        return mat(self.nq, self.newrad.nprim(e), lambda i, j: Sy(nm, e, i, j))
    def radial(self, n, nm, rad, args, o):
        ar = [x for x in args if x.get("k") != "DefArg"]
        if nm in ("get_bf", "get_df", "get_lf", "get_d2f") and rad is self.newrad:
            e = self.num(ar[0])
            d = {"get_bf": 0, "get_df": 1, "get_lf": 2, "get_d2f": 2}[nm]
            if len(ar) == 1: return self.shape(e, d, n)
            x = self.rd(self.ev(ar[1]))
            if not isinstance(x, A): und("points", n)
            self.xcalls.append((e, [Q(v) for v in x.vals()]))
            return mat(x.r * x.c, rad.nprim(self.elem(rad, e)), lambda i, j: Sy("rx", d, e, len(self.xcalls), i, j))
        if nm == "get_r": e = self.elem(rad, self.num(ar[0])); return vec([Sy("r", e, i) for i in range(self.nq)])
        if nm in ("get_wrad",): e = self.elem(rad, self.num(ar[0])); return vec([Sy("wr", e, i) for i in range(self.nq)])
        if nm == "get_bval": return vec([Sy("b", k) for k in range(len(rad.els) + 1)])
        if nm == "fill_quadrature_cache": return None
        return super().radial(n, nm, rad, args, o)
    xcalls = ()
    def global_ref(self, n):
        if n["n"] == "is_same_v": return int(self.scal == "double")
        return super().global_ref(n)
    def hook(self, n, q, nm, args, obj):
        a = [x for x in args if x.get("k") != "DefArg"]
        if n["k"] == "Ctor" and obj is None and q.startswith("std::complex"):
            vs = [self.num(x) for x in a]
            if not vs: return {}
            if len(vs) == 1: return Q(vs[0])
            return qadd(Q(vs[0]), ired(qmul(Q(vs[1]), IM)))
        base = nm or q.split("::")[-1]
        if obj is None and n["k"] == "Call":
            if base == "sph_legendre":
                l, m, t = [self.num(x) for x in a]
                if not isinstance(l, int) or not isinstance(m, int): und("angular momenta", n)
                if l < 0 or m < 0 or l > 1000 or m > 1000: raise OutOfRange("std::sph_legendre of (%s,%s)" % (l, m))
                return qfn("sphleg", Qc(l), Qc(m), Q(t))
            if base in ("conj", "real", "imag", "norm", "abs", "arg") and (q.startswith("std::") or not n.get("inproj")):
                v = self.rd(self.ev(a[0]))
                if isinstance(v, (dict, int)):
                    v = Q(v)
                    if base == "conj": return qconj(v)
                    if base == "real": return qre(v)
                    if base == "imag": return qim(v)
                    if base == "norm": return qre(ired(qmul(v, qconj(v))))
                    if base == "abs" and has_im(v): return qfn("sqrt", qre(ired(qmul(v, qconj(v)))))
            if base in ("max", "min") and len(a) == 2:
                x, y = self.num(a[0]), self.num(a[1])
                if not (isinstance(x, int) and isinstance(y, int)):
                    x, y = Q(x), Q(y); lt = self.cmpq(x, y, n)
                    return (y if lt else x) if base == "max" else (x if lt else y)
            if base == "polar" and len(a) == 2:
                x, y = [Q(self.num(t)) for t in a]; return qmul(x, qfn("exp", ired(qmul(IM, y))))
            if base in ("angular_chebyshev", "angular_lobatto") and len(a) in (4, 5): return self.angrid(n, a[-3:], True)
            if base in ("chebyshev", "lobatto_compute") and len(a) == 3: return self.angrid(n, a[-2:], False)
        if obj is not None and base in ("real", "imag", "adjoint", "conjugate") and not n.get("inproj"):
            v = self.rd(self.ev(obj))
            if isinstance(v, (dict, int)): v = Q(v); return {"real": qre, "imag": qim, "conjugate": qconj, "adjoint": qconj}[base](v)
            if isinstance(v, A):
                l = list(v.vals())
                if base == "real": return A([qre(x) for x in l], v.r, v.c, None, v.arr)
                if base == "imag": return A([qim(x) for x in l], v.r, v.c, None, v.arr)
                if base == "conjugate": return A([qconj(x) for x in l], v.r, v.c, None, v.arr)
                return A([qconj(l[i + j * v.r]) for i in range(v.r) for j in range(v.c)], v.c, v.r)
        if obj is not None and base in ("dot",) and not n.get("inproj"):
            v, w = self.rd(self.ev(obj)), self.rd(self.ev(a[0]))
            if isinstance(v, A) and isinstance(w, A):
                if len(v.vals()) != len(w.vals()): raise OutOfRange("dot product of vectors of different length")
                s = {}
                for x, y in zip(v.vals(), w.vals()): s = qadd(s, qmul(qconj(Q(x)), Q(y)))
                return ired(s)
        return super().hook(n, q, nm, args, obj)
    def cmpq(self, x, y, n):
        d = qadd(x, y, -1.0); c = qcval(d)
        return c < 0 if c is not None else self.symbolic_cond(n, "<", x, y)
    def angrid(self, n, outs, phi):
        self.angcalls += 1
        vs = [vec([Sy("cth", k) for k in range(self.angular)])]
        if phi: vs.append(vec([Sy("phi", k) for k in range(self.angular)]))
        vs.append(vec([Sy("wa", k) for k in range(self.angular)]))
        for o, v in zip(outs, vs): self.store(self.ev(o), "=", v, n)
        return None
    angcalls = 0
    def binop(self, op, x, y, n=None):
        r = super().binop(op, x, y, n)
        return ired(r) if op == "*" and isinstance(r, dict) and len(r) < 200 else r

class GridJobs(Judge):
    def num_equal(self, f, key, what, got, want):
        """got: list of formal values; want: per sample list of numbers"""
        C = self.C; C.count("grid_values", len(got))
        for v, w in zip(VALS, want):
            if len(w) != len(got): C.violation(key + "|size", "%s: %s: %d values, not %d" % (self.site(f), what, len(got), len(w))); return False
            for k, (g, x) in enumerate(zip(got, w)):
                y = v(g)
                if not abs(y - x) <= 1e-9 * max(1.0, abs(x)) + 1e-9 * max(1.0, max(map(abs, w))) * 0.1:
                    C.violation(key, "%s: %s: entry %d is %s, which at a generic point equals %s and not %s" % (self.site(f), what, k, qtext(Q(g), 2) if not isinstance(g, int) else g, self.cx(y), self.cx(x))); return False
        C.sample("%s: %s" % (f.q, what)); return True
    def cx(self, z): z = complex(z); return "%.6g" % z.real if abs(z.imag) < 1e-12 else "%.6g%+.6gi" % (z.real, z.imag)

ACH = [(0, 0), (1, -1), (1, 0), (1, 1), (2, 1), (2, -2), (3, 2)]
class AtomGrid(GridJobs):
    """the atomic basis and its worker"""
    cls = ABAS + "TwoDBasisT<double>"
    W = "helfem::atomic::dftgrid::DFTGridWorker"
    els = ELS2; ch = ACH; small = [(0, 0), (1, 1), (1, -1)]
    diatomic = False
    def __init__(self, C, P): super().__init__(C, P); self.ms = methods(P, self.cls); self.wm = methods(P, self.W)
    def new(self, ch):
        I = Grid(self.P, "double"); I.xcalls = []
        rad = Rad(self.els); I.newrad = rad; I.models = {"POINT_NUCLEUS": 0}
        return I, rad, I.basis(self.ms, rad, ch)
    # ---- the textbook values at sample v: element e, radial point q, angles c,ph
    def pt(self, v, e, q): return v.sym(("r", e, q))
    def R(self, v, e, q, j): return [v.sym((nm, e, q, j)) for nm in ("rf", "rd", "r2")]
    def phi(self, v, e, q, j, l, m, c, ph):
        """value, gradient along the orthonormal directions, Laplacian, raw partial derivatives"""
        r = self.pt(v, e, q); f, d, d2 = self.R(v, e, q, j); Y, dY = Ylm(l, m, c, ph), dYlm(l, m, c, ph); s = math.sqrt(1 - c * c)
        raw = (d * Y, f * dY, 1j * m * f * Y)
        h = self.metric(v, r, s)
        return f * Y, [x / y for x, y in zip(raw, h)], self.lapl(v, r, f, d, d2, l, m, Y, s), raw
    def metric(self, v, r, s): return (1.0, r, r * s)
    def lapl(self, v, r, f, d, d2, l, m, Y, s): return (d2 + 2 * d / r - l * (l + 1) * f / r ** 2) * Y
    def jac(self, v, r, s): return r * r
    # ---- basis
    def basis_values(self):
        for nm, np_ in (("eval_bf", 3), ("eval_df", 6), ("eval_lf", 3)):
            f = pick(self.ms, nm, np_)
            for e in range(len(self.els)):
                for pole in ((None,) if nm != "eval_bf" else (None, 1, -1)):
                    self.one_eval(f, nm, e, pole)
    def one_eval(self, f, nm, e, pole):
        key = "grid|%s|%s" % ("diatomic" if self.diatomic else "atomic", nm)
        what = {"eval_bf": "values", "eval_df": "derivatives with respect to the coordinates", "eval_lf": "Laplacians"}[nm] + " of the basis functions of element %d" % e
        def go():
            I, rad, B = self.new(self.ch); np_ = rad.nprim(e)
            cs = Qc(pole) if pole is not None else Sy("cth", 0); ps = Sy("phi", 0)
            for q in range(I.nq) if self.diatomic else (None,):
                pre = [e] + ([q] if self.diatomic else [])
                if nm == "eval_df":
                    outs = [Cell(A([], 0, 0)) for _ in range(3)]
                    I.call(f, B, pre + [cs, ps] + outs); got = [self.mval(o) for o in outs]
                else: got = [I.rd(I.call(f, B, pre + [cs, ps]))]
                qs = [q] if self.diatomic else list(range(I.nq))
                def want(k):
                    out = []
                    for v in VALS:
                        c = float(pole) if pole is not None else v.sym(("cth", 0)); ph = v.sym(("phi", 0)); row = []
                        for (l, m) in self.ch:
                            for j in range(np_):
                                for qq in qs:
                                    if pole is not None: row.append(self.R(v, e, qq, j)[0] * Ylm(l, m, c, ph)); continue
                                    val, g, L, raw = self.phi(v, e, qq, j, l, m, c, ph)
                                    row.append(val if nm == "eval_bf" else L if nm == "eval_lf" else raw[k])
                        out.append(row)
                    return out
                for k, g in enumerate(got):
                    if not isinstance(g, A): und("result")
                    if (g.r, g.c) != (len(qs), len(self.ch) * np_): self.C.violation(key + "|size", "%s: %s: a %dx%d matrix, not points x functions" % (self.site(f), what, g.r, g.c)); return
                    if not self.num_equal(f, key, what + (" (coordinate %d)" % (k + 1) if nm == "eval_df" else "") + ("" if pole is None else " on the axis"), list(g.vals()), want(k)): return
        self.guard(f, key, what, go)
    def mval(self, o):
        v = o.v
        while isinstance(v, LT): v = v.get()
        return v
    # ---- pure functions of the small basis: (channel, radial function)
    def funs(self, ch, rad): return [(a, i) for a, (l, m) in enumerate(ch) for i in range(rad.nbf)]
    def pmat(self, n, tag, zero=lambda i, j: False): return mat(n, n, lambda i, j: {} if zero(i, j) else Sy("P", tag, *lohi(i, j)))
    def worker_new(self, I, B):
        f = pick(self.wm, "DFTGridWorker", 3); o = I.construct(f, [PtrTo(B), 3, 3]); o.cls = self.W; return o
    purem = False; absm = False
    def worker(self):
        f1 = pick(self.wm, "update_density", 1); f2 = pick(self.wm, "update_density", 2)
        fb = pick(self.wm, "compute_bf", 2 if self.diatomic else 1)
        nm = self.W.split("::")[1] + "|" + self.W.split("::")[-1] + ("|absm" if self.absm else "")
        base = methods(self.P, "helfem::dftgrid_common::DFTGridWorkerBase")
        fs = pick(base, "set_grad_tau_lapl", 3); fn = pick(base, "compute_Nel", 0)
        for (flags, pol, e) in [((1, 1, self.lap), p, e) for p in (0, 1) for e in range(len(self.els))] + [((1, 0, 0), 0, 1), ((0, 0, 0), 0, 1), ((1, 1, 0), 1, 0), ((0, 0, 0), 1, 1)] + ([((1, 0, 1), 0, 0)] if self.lap else []):
            f = f2 if pol else f1
            key = "grid|%s|density" % nm; what = "density and its derivatives on the grid (gradient, tau, Laplacian: %s; %s; element %d)" % (flags, "two spin channels" if pol else "total density", e)
            def go(flags=flags, pol=pol, e=e, f=f):
                I, rad, B = self.new(self.small); W = self.worker_new(I, B)
                I.call(fs, W, list(flags))
                for q in range(I.nq) if self.diatomic else (None,):
                    I.call(fb, W, [e] + ([q] if self.diatomic else []))
                    fun = self.funs(self.small, rad); n = len(fun)
                    zero = (lambda i, j: self.small[fun[i][0]][1] != self.small[fun[j][0]][1]) if self.purem else (lambda i, j: False)
                    Ps = [self.pden(n, fun, t, zero) for t in (("a", "b") if pol else ("t",))]
                    def attempt(Pin):
                        I.call(f, W, Pin)
                        return self.judge(I, W, rad, e, [q] if q is not None else range(I.nq), fun, Ps, flags, key, what, f, fn)
                    forms = self.forms(Ps, fun, rad)
                    def scratch(Pin):
                        C = self.C; self.C = Check("C12", "")
                        try: good = attempt(Pin)
                        except (OutOfRange, Rejected): good = False
                        finally: self.C, C = C, self.C
                        if good:
                            for k, x in C.counts.items(): self.C.count(k, x)
                        return good
                    # the worker may take the density with or without the functions removed at the boundary
                    if len(forms) == 2 and (scratch(forms[0]) or scratch(forms[1])): continue
                    forms = self.forms(Ps, fun, rad)
                    if not attempt(forms[0]): return
            self.guard(f, key, what, go)
    def pden(self, n, fun, t, zero):
        return mat(n, n, lambda i, j: {} if zero(i, j) else Sy("P", t, *lohi(self.par(fun, i), self.par(fun, j))))
    def par(self, fun, i): return i
    def forms(self, Ps, fun, rad): return [[p.copy() for p in Ps]]
    lap = 1
    def judge(self, I, W, rad, e, qs, fun, Ps, flags, key, what, f, fn):
        grad, tau, lap = flags; pol = len(Ps) == 2
        names = ["rho"] + (["sigma"] if grad else []) + (["tau"] if tau else []) + (["lapl"] if lap else [])
        npt = None; got = {}
        for nm in ["wtot"] + names:
            v = I.rd(W.f.get(nm))
            if not isinstance(v, A): und("the worker has no array " + nm)
            got[nm] = v
        npt = got["wtot"].r * got["wtot"].c
        rows = {"wtot": 1, "rho": 1 + pol, "sigma": 3 if pol else 1, "tau": 1 + pol, "lapl": 1 + pol}
        for nm in names:
            if (got[nm].r, got[nm].c) != (rows[nm], npt): self.C.violation(key + "|" + nm + "|size", "%s: %s: %s is %dx%d for %d points" % (self.site(f), what, nm, got[nm].r, got[nm].c, npt)); return False
        tot = qre(I.rd(I.call(fn, W, [])))
        ok = True
        for v in VALS:
            pts = self.points(v, I, rad, e, qs, fun, Ps)
            if len(pts) != npt: self.C.violation(key + "|points", "%s: %s: %d points, not %d" % (self.site(f), what, npt, len(pts))); return False
            # values the code forms, in its own order of points, and the textbook ones
            left = list(range(npt))
            for p in range(npt):
                have = {nm: [v(got[nm].vals()[p] if nm == "wtot" else got[nm].get(i, p)) for i in range(rows[nm])] for nm in ["wtot"] + names}
                self.C.count("grid_values", sum(rows[nm] for nm in names) + 1)
                best = min(left, key=lambda k: (sum(not self.close(have[nm], pts[k][nm]) for nm in have), abs(k - p)))
                bad = [nm for nm in have if not self.close(have[nm], pts[best][nm])]
                if bad:
                    nm = bad[0]
                    self.C.violation(key + "|" + nm, "%s: %s: %s at a point is %s where the orbitals give %s" % (self.site(f), what, {"wtot": "the quadrature weight"}.get(nm, nm), ", ".join(map(self.cx, have[nm])), ", ".join(self.cx(x) for x in pts[best][nm]))); return False
                left.remove(best)
            want = sum(p["wtot"][0] * sum(p["rho"]) for p in pts)
            if not self.close([v(tot)], [want]): self.C.violation(key + "|Nel", "%s: %s: the number of electrons is %s, not the quadrature %s" % (self.site(fn), what, self.cx(v(tot)), self.cx(want))); return False
        self.C.count("densities"); self.C.sample("%s: %s" % (f.q, what)); return ok
    def close(self, a, b): return all(abs(x - y) <= 1e-9 * max(1.0, abs(y)) for x, y in zip(a, b))
    def angles(self, v, I): return [(v.sym(("cth", k)), v.sym(("phi", k)), v.sym(("wa", k))) for k in range(I.angular)]
    def points(self, v, I, rad, e, qs, fun, Ps):
        out = []; a, b = rad.els[e]
        for q in qs:
            for c, ph, wa in self.angles(v, I):
                s = math.sqrt(1 - c * c); r = self.pt(v, e, q)
                vals = []
                for k, (ch, i) in enumerate(fun):
                    l, m = self.small[ch]
                    vals.append(self.phi(v, e, q, i - a, l, m, c, ph)[:3] if a <= i <= b else None)
                d = {"wtot": [wa * v.sym(("wr", e, q)) * self.jac(v, r, s)], "rho": [], "tau": [], "lapl": []}; gr = []
                for P in Ps:
                    rho = tau = lap = 0.0; g = [0.0] * 3
                    for x in range(len(fun)):
                        for y in range(len(fun)):
                            if vals[x] is None or vals[y] is None: continue
                            p = v(P.get(x, y)).real
                            if not p: continue
                            (f0, g0, l0), (f1, g1, l1) = vals[x], vals[y]
                            f0c = complex(f0).conjugate()
                            rho += p * (f0c * f1).real
                            kin = sum((complex(u).conjugate() * w).real for u, w in zip(g0, g1)); tau += 0.5 * p * kin
                            lap += 2 * p * ((f0c * l1).real + kin)
                            for t in range(3): g[t] += 2 * p * (f0c * g1[t]).real
                    d["rho"].append(rho); d["tau"].append(tau); d["lapl"].append(lap); gr.append(g)
                dot = lambda u, w: sum(x * y for x, y in zip(u, w))
                d["sigma"] = [dot(gr[0], gr[0])] + ([dot(gr[0], gr[1]), dot(gr[1], gr[1])] if len(gr) == 2 else [])
                out.append(d)
        return out
    def job(self): self.basis_values(); self.worker()

class DiatomGrid(AtomGrid):
    cls = DT; W = "helfem::diatomic::dftgrid::DFTGridWorker"; diatomic = True; lap = 0
    els = [(0, 1), (1, 3)]; ch = [(0, 0), (1, 0), (1, 1), (1, -1), (2, 1), (3, 2), (2, -2)]
    def new(self, ch):
        I = Grid(self.P, "double"); I.xcalls = []
        rad = DRad(self.els); I.newrad = rad; I.models = {"POINT_NUCLEUS": 0}
        B = I.dbasis(self.ms, rad, ch, legendre=0); return I, rad, B
    def rh(self, v): return v.sym(("Rh",))
    def metric(self, v, r, s): h = self.rh(v) * math.sqrt(math.sinh(r) ** 2 + s * s); return (h, h, self.rh(v) * math.sinh(r) * s)
    def lapl(self, v, r, f, d, d2, l, m, Y, s):
        return (d2 + d / math.tanh(r) - (l * (l + 1) + m * m / math.sinh(r) ** 2) * f) * Y / (self.rh(v) ** 2 * (math.sinh(r) ** 2 + s * s))
    def jac(self, v, r, s): return self.rh(v) ** 3 * math.sinh(r) * (math.sinh(r) ** 2 + s * s)
    def funs(self, ch, rad): return [(a, i) for a, (l, m) in enumerate(ch) for i in range(rad.nbf) if not (m and i == 0)]
    def forms(self, Ps, fun, rad):
        n = len(self.small) * rad.nbf; out = []
        for P in Ps:
            M = mat(n, n, lambda i, j: {})
            for x, (a, i) in enumerate(fun):
                for y, (b, j) in enumerate(fun): M.st[M.pos(a * rad.nbf + i, b * rad.nbf + j)] = P.get(x, y)
            out.append(M)
        return [out, [p.copy() for p in Ps]]
    def basis_values(self):
        for nm, np_ in (("eval_bf", 4), ("eval_df", 7)):
            c = [g for g in self.ms.get(nm, []) if len(g.params) == np_ and g.params[3]["t"].strip() in ("double", "const double")]
            if len(c) != 1: self.C.undecide("%s: %d definitions" % (nm, len(c))); continue
            for e in range(len(self.els)): self.one_eval(c[0], nm, e, None)
        self.m_blocks(); self.anywhere()
    def m_blocks(self):
        """the (element, point, cos nu, m) forms: the functions of one m at azimuth zero"""
        for nm, np_ in (("eval_bf", 4), ("eval_df", 6), ("eval_lf", 5)):
            c = [g for g in self.ms.get(nm, []) if len(g.params) == np_ and g.params[3]["t"].strip() in ("int", "const int")]
            if len(c) != 1: self.C.undecide("%s(m): %d definitions" % (nm, len(c))); continue
            f = c[0]
            for e in range(len(self.els)):
                for m in (0, 1, -1, 2, -2, 5):
                    key = "grid|diatomic|%s(m)" % nm; what = "%s of the m=%d functions of element %d" % ({"eval_bf": "values", "eval_df": "derivatives", "eval_lf": "Laplacians"}[nm], m, e)
                    def go(e=e, m=m):
                        I, rad, B = self.new(self.ch); np2 = rad.nprim(e); q = 1
                        outs = [Cell(A([], 0, 0)) for _ in range(np_ - 4)]
                        r = I.call(f, B, [e, q, Sy("cth", 0), m] + outs)
                        got = [I.rd(r)] if nm == "eval_bf" else [self.mval(o) for o in outs]
                        cl = [(l, mm) for l, mm in self.ch if mm == m]
                        for k, g in enumerate(got):
                            want = []
                            for v in VALS:
                                row = []
                                for l, mm in cl:
                                    for j in range(np2):
                                        val, gr, L, raw = self.phi(v, e, q, j, l, mm, v.sym(("cth", 0)), 0.0)
                                        row.append(val if nm == "eval_bf" else L if nm == "eval_lf" else raw[k])
                                want.append(row)
                            if not self.num_equal(f, key, what, list(g.vals()), want): return
                    self.guard(f, key, what, go)
    def anywhere(self):
        c = [g for g in self.ms.get("eval_bf", []) if len(g.params) == 3]
        if len(c) != 1: self.C.undecide("eval_bf at a point: %d definitions" % len(c)); return
        f = c[0]; key = "grid|diatomic|eval_bf(point)"
        bv = [0.0, 1.0, 2.7]
        for mu, e in ((0.4, 0), (1.9, 1), (0.0, 0), (2.7, 1), (1.0, None), (3.0, -1)):
            what = "values of all functions at mu=%g" % mu
            def go(mu=mu, e=e):
                I, rad, B = self.new(self.ch); I.bv = bv
                old = I.radial
                def radial(n, nm, r, args, o):
                    if nm == "get_bval": return vec([Qc(b) for b in bv])
                    return old(n, nm, r, args, o)
                I.radial = radial
                try: r = I.rd(I.call(f, B, [Qc(mu), Sy("cth", 0), Sy("phi", 0)]))
                except Rejected:
                    if e == -1: self.C.count("grid_values"); return
                    raise
                if e == -1: self.C.violation(key + "|outside", "%s: %s: a point outside the grid is accepted" % (self.site(f), what)); return
                if len(I.xcalls) != 1 or len(I.xcalls[0][1]) != 1: und("evaluation points")
                el, x = I.xcalls[0]; x = qcval(x[0])
                lo, hi = bv[el], bv[el + 1]
                if x is None: und("evaluation point")
                if abs(lo + (x + 1) / 2 * (hi - lo) - mu) > 1e-12 or not -1 - 1e-12 <= x <= 1 + 1e-12 or (e is not None and el != e):
                    self.C.violation(key + "|x", "%s: %s: the radial functions are evaluated in element %d at %.6g, which is mu=%.6g" % (self.site(f), what, el, x, lo + (x + 1) / 2 * (hi - lo))); return
                fun = self.funs(self.ch, rad); a, b = rad.els[el]; want = []
                for v in VALS: want.append([v.sym(("rx", 0, el, 1, 0, i - a)) * Ylm(*self.ch[k], v.sym(("cth", 0)), v.sym(("phi", 0))) if a <= i <= b else 0.0 for k, i in fun])
                self.num_equal(f, key, what, list(r.vals()), want)
            self.guard(f, key, what, go)

class PureGrid(DiatomGrid):
    """the worker without a phi grid"""
    W = "helfem::diatomic::dftgrid_purem::PureMDFTGridWorker"; purem = True; lap = 1
    small = [(0, 0), (1, 1), (1, -1), (1, 0)]
    def basis_values(self): pass
    def worker_new(self, I, B):
        f = pick(self.wm, "PureMDFTGridWorker", 2); o = I.construct(f, [PtrTo(B), 3]); o.cls = self.W; return o
    def angles(self, v, I): return [(v.sym(("cth", k)), 0.3, 2 * math.pi * v.sym(("wa", k))) for k in range(I.angular)]
    def forms(self, Ps, fun, rad): return super().forms(Ps, fun, rad)[::-1]
class PureGridAbs(PureGrid):
    """densities that are equal for m and -m, as --symmetry=3 produces"""
    absm = True
    def new(self, ch):
        I, rad, B = super().new(ch)
        f = [g for g in self.ms.get("get_sym_idx", []) if len(g.params) == 1]
        if "absm_symmetric" not in B.f: B.f["absm_symmetric"] = 0
        for g in f: I.call(g, B, [3])
        return I, rad, B
    def par(self, fun, i):
        ch, k = fun[i]; l, m = self.small[ch]
        if m >= 0: return i
        return fun.index((self.small.index((l, -m)), k))

class SadGrid(AtomGrid):
    """spherically averaged densities"""
    cls = "helfem::sadatom::basis::TwoDBasis"; W = "helfem::sadatom::dftgrid::DFTGridWorker"; lap = 1
    nl = 3
    def new(self, ch):
        I = Grid(self.P, "double"); I.xcalls = []
        rad = Rad(self.els); I.newrad = rad; o = Obj(self.cls); o.f["radial"] = I.radobj(rad); o.f["lmax"] = self.nl - 1
        return I, rad, o
    def worker_new(self, I, B):
        f = pick(self.wm, "DFTGridWorker", 1); o = I.construct(f, [PtrTo(B)]); o.cls = self.W; return o
    def worker(self):
        f1 = pick(self.wm, "update_density", 1); f2 = pick(self.wm, "update_density", 2); fb = pick(self.wm, "compute_bf", 1)
        base = methods(self.P, "helfem::dftgrid_common::DFTGridWorkerBase")
        fs = pick(base, "set_grad_tau_lapl", 3); fn = pick(base, "compute_Nel", 0)
        for flags, pol, e in [((1, 1, 1), p, e) for p in (0, 1) for e in (0, 1)] + [((1, 0, 0), 0, 1), ((0, 0, 0), 1, 1)]:
            f = f2 if pol else f1; key = "grid|sadatom|density"
            what = "spherical density and its derivatives (gradient, tau, Laplacian: %s; %s; element %d)" % (flags, "two spin channels" if pol else "total density", e)
            def go(flags=flags, pol=pol, e=e, f=f):
                I, rad, B = self.new(None); W = self.worker_new(I, B); I.call(fs, W, list(flags)); I.call(fb, W, [e])
                Ps = [[self.pmat(rad.nbf, (t, l)) for l in range(self.nl)] for t in (("a", "b") if pol else ("t",))]
                I.call(f, W, [Vc([m.copy() for m in p]) for p in Ps])
                self.judge(I, W, rad, e, range(I.nq), None, Ps, flags, key, what, f, fn)
            self.guard(f, key, what, go)
    def points(self, v, I, rad, e, qs, fun, Ps):
        out = []; a, b = rad.els[e]
        for q in qs:
            r = v.sym(("r", e, q)); R = {i: self.R(v, e, q, i - a) for i in range(a, b + 1)}
            d = {"wtot": [4 * math.pi * r * r * v.sym(("wr", e, q))], "rho": [], "tau": [], "lapl": [], "sigma": []}; gs = []
            for P in Ps:
                rho = g = tau = lap = 0.0
                for l, M in enumerate(P):
                    for i in R:
                        for j in R:
                            p = v(M.get(i, j)).real; (f, df, d2f), (h, dh, d2h) = R[i], R[j]
                            rho += p * f * h; g += p * (df * h + f * dh)
                            tau += 0.5 * p * (df * dh + l * (l + 1) * f * h / r ** 2)
                            lap += p * (d2f * h + 2 * df * dh + f * d2h + 2 / r * (df * h + f * dh))
                d["rho"].append(rho); d["tau"].append(tau); d["lapl"].append(lap); gs.append(g)
            d["sigma"] = [gs[0] ** 2] if len(gs) == 1 else [gs[0] ** 2, gs[0] * gs[1], gs[1] ** 2]
            out.append(d)
        return out
    def job(self): self.worker()

class RuleJobs(GridJobs):
    """product angular grids, spherical harmonics"""
    def job(self):
        fs = [f for f in self.P.find("helfem::angular::angular_chebyshev") + self.P.find("helfem::angular::angular_lobatto") if f.body is not None]
        for f in fs:
            for n in ((3,), (1,), (4,)) if len(f.params) == 4 else ((3, 5), (2, 1), (4, 3)):
                key = "grid|angular|%s" % f.q.split("::")[-1]; what = "angular grid of orders %s" % (n,)
                def go(f=f, n=n):
                    I = RuleI(self.P, "double"); I.rule_n = n[0]; outs = [Cell(A([], 0, 1)) for _ in range(3)]
                    I.call(f, None, list(n) + outs)
                    c, p, w = [AtomGrid.mval(self, o) for o in outs]; nphi = n[-1]
                    for v in VALS:
                        C, Ph, Wt = [[v(x) for x in a.vals()] for a in (c, p, w)]
                        if not len(C) == len(Ph) == len(Wt) == n[0] * nphi: self.C.violation(key + "|size", "%s: %s: %d points" % (self.site(f), what, len(C))); return
                        for k in range(n[0]):
                            x, wt = v.sym(("cth", k)), v.sym(("wa", k))
                            sel = sorted(Ph[i].real for i in range(len(C)) if abs(C[i] - x) < 1e-12)
                            ws = [Wt[i] for i in range(len(C)) if abs(C[i] - x) < 1e-12]
                            if len(sel) != nphi or any(abs(y - wt * 2 * math.pi / nphi) > 1e-10 for y in ws): self.C.violation(key + "|w", "%s: %s: the weights of the azimuths of one polar point do not add to 2 pi w" % (self.site(f), what)); return
                            if any(abs(y - sel[0] - i * 2 * math.pi / nphi) > 1e-10 for i, y in enumerate(sel)): self.C.violation(key + "|phi", "%s: %s: the azimuths are not evenly spaced over the circle" % (self.site(f), what)); return
                        self.C.count("grid_values", len(C))
                self.guard(f, key, what, go)
        for f in [f for f in self.P.find("spherical_harmonics") if len(f.params) == 4 and f.body is not None]:
            for l in range(7):
                for m in range(-l, l + 1):
                    for pole in (None, 1.0, -1.0):
                        key = "grid|Ylm"; what = "Y_%d^%d%s" % (l, m, " on the axis" if pole else "")
                        def go(l=l, m=m, pole=pole, f=f):
                            I = Grid(self.P, "double"); r = I.rd(I.call(f, None, [l, m, Qc(pole) if pole else Sy("cth", 0), Sy("phi", 0)]))
                            self.num_equal(f, key, what, [Q(r)], [[Ylm(l, m, pole or v.sym(("cth", 0)), v.sym(("phi", 0)))] for v in VALS])
                        self.guard(f, key, what, go)
class RuleI(Grid):
    def hook(self, n, q, nm, args, obj):
        base = nm or q.split("::")[-1]
        if obj is None and n["k"] == "Call" and base in ("chebyshev", "lobatto_compute"):
            a = [x for x in args if x.get("k") != "DefArg"]; k = self.num(a[0]); outs = a[1:]
            if k != self.rule_n: raise OutOfRange("rule of %s points instead of %d" % (k, self.rule_n))
            for o, t in zip(outs, ("cth", "wa")): self.store(self.ev(o), "=", vec([Sy(t, i) for i in range(k)]), n)
            return None
        if base in ("angular_chebyshev", "angular_lobatto"): return NotImplemented
        return super().hook(n, q, nm, args, obj)

MFN["potL"] = lambda x: 0.7 + cmath.sin(1.3 * x); MFN["potR"] = lambda x: -0.4 + cmath.cos(0.9 * x); MFN["cbrt"] = lambda x: x ** (1.0 / 3)
def gto(r, l, a): return math.sqrt(2 * (2 * a) ** (l + 1.5) / math.gamma(l + 1.5)) * r ** l * math.exp(-a * r * r)
def sto(r, l, z): return math.sqrt((2 * z) ** (2 * l + 3) / math.factorial(2 * l + 2)) * r ** l * math.exp(-z * r)
class QuadI(Grid):
    def hook(self, n, q, nm, args, obj):
        if obj is not None and nm == "V" and "ModelPotential" in q:
            o = self.rd(self.ev(obj))
            while isinstance(o, PtrTo): o = self.rd(o.v)
            if isinstance(o, Opq) and o.what in ("potL", "potR"): return qfn(o.what, Q(self.num(args[0])))
        if obj is None and n["k"] == "Call":
            a = [x for x in args if x.get("k") != "DefArg"]
            if nm == "clamp" and len(a) == 3:
                x, lo, hi = [Q(self.num(t)) for t in a]
                return lo if self.cmpq(x, lo, n) else hi if self.cmpq(hi, x, n) else x
        return super().hook(n, q, nm, args, obj)
class Lcao(GridJobs):
    """atom-centred radial functions are normalised Gaussian- and Slater-type orbitals"""
    def job(self):
        for nm, ref in (("radial_GTO", gto), ("radial_STO", sto)):
            fs = [f for f in self.P.find("helfem::lcao::" + nm) if f.body is not None]
            for f in fs:
                for l in range(5):
                    key = "grid|lcao|" + nm; what = "normalised radial function with l=%d" % l
                    def go(f=f, l=l, ref=ref):
                        I = QuadI(self.P, "double")
                        if f.params[0]["t"].strip() == "double":
                            r = I.call(f, None, [Sy("r", 0), l, Sy("zeta", 0)])
                            self.num_equal(f, key, what, [Q(I.rd(r))], [[ref(v.sym(("r", 0)), l, v.sym(("zeta", 0)))] for v in VALS])
                            if l: return
                            r = I.call(f, None, [Qc(0), 0, Sy("zeta", 0)])
                            self.num_equal(f, key, what + " at the centre", [Q(I.rd(r))], [[ref(0.0, 0, v.sym(("zeta", 0)))] for v in VALS])
                        else:
                            r = I.rd(I.call(f, None, [vec([Sy("r", 0), Sy("r", 1), Sy("r", 2)]), l, vec([Sy("zeta", 0), Sy("zeta", 1)])]))
                            self.num_equal(f, key, what + " on a grid", list(r.vals()), [[ref(v.sym(("r", i)), l, v.sym(("zeta", j))) for j in range(2) for i in range(3)] for v in VALS])
                    self.guard(f, key, what, go)
class QuadGrid(DiatomGrid):
    """two-dimensional quadrature: model potentials and projections onto atom-centred orbitals"""
    W = "helfem::diatomic::twodquad::TwoDGrid"; small = [(0, 0), (1, 1), (1, -1), (1, 0), (2, 1)]
    els = [(0, 1), (1, 2)]
    def new(self, ch):
        I = QuadI(self.P, "double"); I.xcalls = []; I.angular = 2; I.nq = 2
        rad = DRad(self.els); I.newrad = rad; I.models = {"POINT_NUCLEUS": 0}
        B = I.dbasis(self.ms, rad, ch, legendre=0); return I, rad, B
    def grid(self, I, B):
        g = [f for f in self.wm.get("TwoDGrid", []) if len(f.params) == 2]
        if len(g) != 1: und("constructor of TwoDGrid")
        o = I.construct(g[0], [PtrTo(B), 2]); o.cls = self.W; return o
    def pts(self, v, I, rad):
        """(element, radial point, cos nu, weight incl. 2 pi, distances from the nuclei and the midpoint, cosines of the polar angles there)"""
        for e in range(len(rad.els)):
            for q in range(I.nq):
                for k in range(I.angular):
                    mu = v.sym(("r", e, q)); c = v.sym(("cth", k)); s = math.sqrt(1 - c * c); R = self.rh(v)
                    w = 2 * math.pi * v.sym(("wa", k)) * v.sym(("wr", e, q)) * self.jac(v, mu, s)
                    z = R * math.cosh(mu) * c; x = R * math.sinh(mu) * s
                    yield e, q, c, w, [(math.hypot(z + R, x), (z + R) / math.hypot(z + R, x)), (math.hypot(z - R, x), (R - z) / math.hypot(z - R, x)), (math.hypot(z, x), z / math.hypot(z, x))]
    def rfun(self, v, rad, e, q, i):
        a, b = rad.els[e]; return v.sym(("rf", e, q, i - a)) if a <= i <= b else 0.0
    def job(self):
        f = pick(self.wm, "model_potential", 2); key = "grid|twodquad|model_potential"; what = "matrix of the potentials of two centres"
        def pot():
            I, rad, B = self.new(self.small); G = self.grid(I, B); fun = self.funs(self.small, rad)
            H = I.rd(I.call(f, G, [Opq("potL"), Opq("potR")])); n = len(fun); want = []
            for v in VALS:
                M = [0.0] * (n * n)
                for e, q, c, w, ds in self.pts(v, I, rad):
                    V = MFN["potL"](ds[0][0]).real + MFN["potR"](ds[1][0]).real
                    val = [self.rfun(v, rad, e, q, i) * Ylm(*self.small[a], c, 0.0).real for a, i in fun]
                    for x in range(n):
                        for y in range(n):
                            if self.small[fun[x][0]][1] == self.small[fun[y][0]][1]: M[x + y * n] += w * V * val[x] * val[y]
                want.append(M)
            if (H.r, H.c) != (n, n): self.C.violation(key + "|size", "%s: %s: %dx%d" % (self.site(f), what, H.r, H.c)); return
            self.num_equal(f, key, what, list(H.vals()), want)
        self.guard(f, key, what, pot)
        for nm, ref in (("gto", gto), ("sto", sto)):
            for kind in ("projection", "overlap"):
                f = pick(self.wm, "%s_%s" % (nm, kind), 4)
                for p in range(3):
                    for l, m in ((0, 0), (1, 0), (1, 1), (2, 1), (2, -1)):
                        if m < 0 and kind == "overlap": continue
                        key = "grid|twodquad|%s_%s|%s" % (nm, kind, ("left", "right", "middle")[self.probe(p)]); what = "%s of %s functions l=%d m=%d at the %s" % (kind, nm.upper(), l, m, ("left nucleus", "right nucleus", "midpoint")[self.probe(p)])
                        def go(f=f, p=p, l=l, m=m, ref=ref, kind=kind, key=key, what=what):
                            I, rad, B = self.new(self.small); G = self.grid(I, B); fun = self.funs(self.small, rad); ne = 2
                            S = I.rd(I.call(f, G, [l, m, vec([Sy("zeta", k) for k in range(ne)]), p])); n = len(fun) if kind == "projection" else ne; got = []; want = []
                            if (S.r, S.c) != (ne, n): self.C.violation(key + "|size", "%s: %s: %dx%d" % (self.site(f), what, S.r, S.c)); return
                            for v in VALS:
                                M = [0.0] * (ne * n)
                                for e, q, c, w, ds in self.pts(v, I, rad):
                                    d, ct = ds[self.probe(p)]
                                    ao = [ref(d, l, v.sym(("zeta", k))) * Ylm(l, abs(m), ct, 0.0).real for k in range(ne)]
                                    val = [self.rfun(v, rad, e, q, i) * Ylm(*self.small[a], c, 0.0).real if self.small[a][1] == m else 0.0 for a, i in fun] if kind == "projection" else ao
                                    for x in range(ne):
                                        for y in range(n): M[x + y * ne] += w * ao[x] * val[y]
                                want.append(M)
                            # an orbital is defined up to a sign; so is the direction of the axis at a centre
                            sgn = 1.0
                            if kind == "projection":
                                big = max(range(ne * n), key=lambda k: abs(want[0][k])); y = VALS[0](S.vals()[big])
                                if abs(y + want[0][big]) < abs(y - want[0][big]): sgn = -1.0
                            self.num_equal(f, key, what, list(S.vals()), [[sgn * x for x in w] for w in want])
                        self.guard(f, key, what, go)
    def probe(self, p):
        """0 left, 1 right, 2 midpoint"""
        for q, e in self.P.enums.items():
            d = dict(e)
            if "PROBE_LEFT" in d: return {d["PROBE_LEFT"]: 0, d.get("PROBE_RIGHT"): 1, d.get("PROBE_MIDDLE"): 2}.get(p)
        und("probes")
