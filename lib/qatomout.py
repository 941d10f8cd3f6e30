"""Spherical atoms: tabulated atoms, densities and screening functions along the radius, model potentials (C13).  Basis functions,
quadrature points, density matrices and derivatives of the functional are symbols or uninterpreted functions; what the code forms is
compared with textbook expressions as analytic expressions at generic points."""
import re
from qgrid import *
import qgrid

FE = "helfem::polynomial_basis::FiniteElementBasis"
def _h(*a): return rnd(a, "sf")
class SVal(Val):
    """also values of uninterpreted smooth functions of the coordinate, sf|name, and ordered element boundaries"""
    def bv(self, k): return 0.0 if k == 0 else 1.3 * k + 0.4 * rnd(("bv", k), self.k)
    def sym(self, a):
        if a[0] == "bv": return self.bv(a[1])
        if a[0] == "rr": lo, hi = self.bv(a[1]), self.bv(a[1] + 1); return lo + (hi - lo) * (0.2 + 0.6 * rnd(a, self.k))
        if a[0] == "xq": return (-0.9, 0.05, 0.8)[a[1]] + 0.1 * rnd(a, self.k)
        return super().sym(a)
    def sf(self, name, x): return 0.3 + _h(name) + (0.5 + _h(name, 1)) * cmath.sin((0.7 + _h(name, 2)) * x + 3 * _h(name, 3))
    def at(self, k):
        v = self.memo.get(k)
        if v is None:
            a = conc._names[k]
            if a[0] == "fn" and str(a[1]).startswith("sf|"): v = self.sf(a[1][3:], self.poly(a[2])); self.memo[k] = v; return v
        return super().at(k)
VALS3 = [SVal(k) for k in range(SAMPLES)]
def sfn(name, x): return qfn("sf|" + name, x)

class AtomI(Grid):
    """interpreter with a radial basis on symbolic elements and uninterpreted functions of the coordinate"""
    nq = 3
    vals = VALS3
    def __init__(self, P, scal="double"): super().__init__(P, scal); self.fxc = []
    def symbolic_cond(self, n, op, a, b):
        d = qadd(a, b, -1.0); o = set()
        for v in self.vals:
            x = v(d)
            if abs(x.imag) > 1e-12 * (1 + abs(x)): und("order of complex values", n)
            y = x.real
            if abs(y) < 1e-13: y = 0.0
            o.add(bool(conc.CMP[op](y, 0.0)))
        if len(o) > 1: und("branch that depends on the point", n)
        return o.pop()
    # ---- elements
    def bnd(self, k): return Sy("bv", k)
    def mid(self, e): return qscale(qadd(self.bnd(e), self.bnd(e + 1)), 0.5)
    def half(self, e): return qscale(qadd(self.bnd(e + 1), self.bnd(e), -1.0), 0.5)
    def coord(self, x, e): return qadd(self.mid(e), qmul(self.half(e), Q(x)))
    def fem(self, n, nm, args):
        ar = [x for x in args if x.get("k") != "DefArg"]; rad = self.newrad; ne = len(rad.els)
        if nm == "get_nelem": return ne
        if nm == "get_bval": return vec([self.bnd(k) for k in range(ne + 1)])
        if nm == "element_begin": return self.bnd(self.elem(rad, self.num(ar[0])))
        if nm == "element_end": return self.bnd(self.elem(rad, self.num(ar[0])) + 1)
        if nm in ("element_midpoint",): return self.mid(self.elem(rad, self.num(ar[0])))
        if nm == "element_length": return qscale(self.half(self.elem(rad, self.num(ar[0]))), 2.0)
        if nm == "scaling_factor": return self.half(self.elem(rad, self.num(ar[0])))
        if nm == "eval_coord":
            x = self.rd(self.ev(ar[0])); e = self.elem(rad, self.num(ar[1]))
            return vec([self.coord(v, e) for v in x.vals()]) if isinstance(x, A) else self.coord(x, e)
        if nm == "find_element":
            r = Q(self.num(ar[0])); k = set()
            for v in self.vals: y = v(r).real; k.add(max(0, min(ne - 1, sum(v.bv(j) <= y for j in range(ne + 1)) - 1)))
            if len(k) > 1: und("element that depends on the point", n)
            return k.pop()
        und("element method " + nm, n)
    def fval(self, d, e, j, x): return sfn("%d|%d|%d" % (d, e, j), Q(x))
    def points(self): return [Sy("xq", k) for k in range(self.nq)]
    def radial(self, n, nm, rad, args, o):
        ar = [x for x in args if x.get("k") != "DefArg"]
        if nm in ("get_bf", "get_df", "get_lf", "get_d2f"):
            d = {"get_bf": 0, "get_df": 1, "get_lf": 2, "get_d2f": 2}[nm]
            if len(ar) == 1: e = self.elem(rad, self.num(ar[0])); xs = self.points()
            else:
                x = self.rd(self.ev(ar[0])); y = self.rd(self.ev(ar[1]))
                if isinstance(x, int) and isinstance(y, A): x, y = y, x
                if not isinstance(x, A): und("points", n)
                e = self.elem(rad, y); xs = list(x.vals())
            return mat(len(xs), rad.nprim(e), lambda i, j: self.fval(d, e, j, xs[i]))
        if nm == "get_r":
            if len(ar) == 1: e = self.elem(rad, self.num(ar[0])); return vec([self.coord(x, e) for x in self.points()])
            x = self.rd(self.ev(ar[0])); e = self.elem(rad, self.num(ar[1]))
            return vec([self.coord(v, e) for v in x.vals()]) if isinstance(x, A) else self.coord(x, e)
        if nm == "get_xq": return vec(self.points())
        if nm == "get_wrad": e = self.elem(rad, self.num(ar[0])); return vec([Sy("wr", e, i) for i in range(self.nq)])
        if nm == "get_fem": return Obj(FE)
        if nm in ("get_poly_nnodes", "get_nnodes"): return 5
        if nm == "radial_integral" and len(ar) == 4:
            k, e, a, b = [self.num(x) for x in ar]; e = self.elem(rad, e); p = rad.nprim(e)
            return mat(p, p, lambda i, j: self.partint(k, e, i, j, a, b))
        if nm == "spherical_potential":
            e = self.elem(rad, self.num(ar[0])); p = rad.nprim(e)
            return mat(self.nq, p * p, lambda q, ij: Sy("sph", e, q, *lohi(ij % p, ij // p)))
        if nm in ("nuclear_density", "nuclear_density_gradient"):
            return sfn(nm, self.lincomb(self.rd(self.ev(ar[0])), nm))
        if nm == "nuclear_orbital":
            C = self.rd(self.ev(ar[0])); return A([self.lin0(C, j) for j in range(C.c)], 1, C.c)
        if nm == "eval_orbs": C = self.rd(self.ev(ar[0])); r = Q(self.num(ar[1])); return vec([qmul(sfn("orb", r), self.lin0(C, j)) for j in range(C.c)])
        return super().radial(n, nm, rad, args, o)
    def lin0(self, C, j):
        s = {}
        for i in range(C.r): s = qadd(s, qmul(Sy("nuc0", i), Q(C.get(i, j))))
        return s
    def lincomb(self, M, tag):
        s = {}
        for i in range(M.r):
            for j in range(M.c): s = qadd(s, qmul(Sy(tag, *lohi(i, j)), Q(M.get(i, j))))
        return s
    def hook(self, n, q, nm, args, obj):
        if obj is not None and "FiniteElementBasis" in q:
            o = self.rd(self.ev(obj))
            while isinstance(o, PtrTo): o = self.rd(o.v)
            if isinstance(o, Obj) and o.cls == FE: return self.fem(n, nm, args)
        base = nm or q.split("::")[-1]; a = [x for x in args if x.get("k") != "DefArg"]
        if obj is not None and nm == "operator bool" and q.startswith("std::"):
            v = self.rd(self.ev(obj)); return int(not (isinstance(v, Opq) and v.what == "null"))
        if n["k"] == "Ctor" and obj is None and q.startswith("xc_func_type"):
            o = Obj("xc_func_type")
            if a:
                src = self.rd(self.ev(a[0]))
                if isinstance(src, Obj): o.f.update(src.f)
            return o
        if obj is None and n["k"] == "Call":
            if base == "lobatto_compute":
                for o, t in zip(a[1:], ("xq", "wq")): self.store(self.ev(o), "=", vec([Sy(t, i) for i in range(self.nq)]), n)
                return None
            if base in ("chebyshev", "lobatto_compute"): und("another rule", n)
            if base in ("make_shared", "make_unique") and q.startswith("std::"):
                m = re.search(r"(?:shared|unique)_ptr<([\w:]+)", n.get("dt") or n.get("t") or "")
                if m:
                    t = m.group(1).split("::")[-1]
                    fs = [f for f in self.P.funcs.values() if f.body is not None and f.q.split("::")[-2:] == [t, t] and len(f.params) == len(a)]
                    if len(fs) == 1:
                        o = self.construct(fs[0], [self.copyval(self.rd(self.ev(x))) for x in a]); o.cls = fs[0].q.rsplit("::", 1)[0]; return PtrTo(o)
            r = self.xc(n, base, a)
            if r is not NotImplemented: return r
        return super().hook(n, q, nm, args, obj)
    # ---- libxc
    KINDS = {1: 0, 7: 0, 101: 1, 130: 1, 202: 2}
    def xc(self, n, base, a):
        if base == "is_gga_mgga":
            k = self.KINDS.get(self.num(a[0]), 0)
            for o, v in zip(a[1:], (k == 1, k == 2, 0)): self.store(self.ev(o), "=", int(v), n)
            return None
        if base == "xc_func_init":
            t = self.deref(a[0]); i, s = self.num(a[1]), self.num(a[2])
            if s != 2: und("unpolarised functional", n)
            o = self.rd(t)
            if not isinstance(o, Obj): und("functional", n)
            o.f["#id"] = i; self.fxc.append(i); return 0
        if base == "xc_func_end":
            o = self.rd(self.deref(a[0]))
            if isinstance(o, Obj) and "#id" in o.f: self.fxc.remove(o.f["#id"]) if o.f["#id"] in self.fxc else None
            return None
        if base.startswith(("xc_lda_", "xc_gga_")):
            o = self.rd(self.deref(a[0])); i = o.f["#id"]; np_ = self.num(a[1])
            if self.KINDS.get(i, 0) != (base[3] == "g"): raise Rejected("functional %d evaluated as the wrong kind" % i)
            gga = base[3] == "g"; rho = self.arr(a[2]); sig = self.arr(a[3]) if gga else None; outs = a[3 + gga:]
            if len(rho) < 2 * np_ or gga and len(sig) < 3 * np_: raise OutOfRange("densities for %d points" % np_)
            names = {"vxc": ["v", "vs"], "fxc": ["v2r2", "v2rs", "v2s2"]}.get(base[7:])
            if names is None: und(base, n)
            for o_, nm in zip(outs, names):
                w = {"v": 2, "vs": 3, "v2r2": 3, "v2rs": 6, "v2s2": 6}[nm]
                A_ = self.deref(o_); cur = self.rd(A_); vals = []
                for p in range(np_):
                    loc = rho[2 * p:2 * p + 2] + (sig[3 * p:3 * p + 3] if gga else [])
                    for k in range(w): vals.append(self.fder(i, nm, k, loc))
                self.fill(A_, cur, vals, n)
            return None
        return NotImplemented
    def fder(self, i, nm, k, loc):
        """derivative k of functional i at densities loc: an uninterpreted function, symmetric under exchange of the spins"""
        swap = {"v": (1, 0), "vs": (2, 1, 0), "v2r2": (2, 1, 0), "v2rs": (5, 4, 3, 2, 1, 0), "v2s2": (5, 4, 2, 3, 1, 0)}[nm]
        l2 = [loc[1], loc[0]] + ([loc[4], loc[3], loc[2]] if len(loc) == 5 else [])
        nm2 = ("xcd", i, nm, k)
        same = all(not qdiff(Q(x), Q(y)) for x, y in zip(loc, l2))
        if same: k = min(k, swap[k])
        return qfn("xcd|%d|%s|%d" % (i, nm, k), *[Q(x) for x in loc])
    def deref(self, e):
        v = self.ev(e)
        for _ in range(6):
            x = v
            if isinstance(x, PtrTo): v = x.v; continue
            y = self.rd(x)
            if isinstance(y, PtrTo): v = y.v; continue
            break
        return v
    def arr(self, e):
        v = self.rd(self.deref(e))
        if isinstance(v, A): return list(v.vals())
        if isinstance(v, Vc): return [self.rd(x) if not isinstance(x, (dict, int)) else x for x in v.items]
        und("array argument")
    def fill(self, tgt, cur, vals, n):
        if isinstance(cur, A):
            if cur.r * cur.c < len(vals): raise OutOfRange("output of %d values in an array of %d" % (len(vals), cur.r * cur.c))
            l = list(cur.vals()); l[:len(vals)] = vals
            for j in range(cur.c):
                for i in range(cur.r): cur.st[cur.pos(i, j)] = l[i + j * cur.r]
            return
        if isinstance(cur, Vc):
            if len(cur.items) < len(vals): raise OutOfRange("output of %d values in an array of %d" % (len(vals), len(cur.items)))
            cur.items[:len(vals)] = vals; return
        und("output array", n)
def _xcd(self, a):
    x = [self.poly(t) for t in a[2:]]
    return 0.2 + _h(a[1]) + sum((0.3 + _h(a[1], i)) * cmath.sin(x_ * (0.9 + 0.3 * i)) for i, x_ in enumerate(x)) / 3
_at = SVal.at
def at2(self, k):
    v = self.memo.get(k)
    if v is None:
        a = conc._names[k]
        if a[0] == "fn" and str(a[1]).startswith("xcd|"): v = _xcd(self, a); self.memo[k] = v; return v
    return _at(self, k)
SVal.at = at2

ALL3 = list(VALS3)
class AtomOut(GridJobs):
    def guard(self, f, key, what, fn, interp=None):
        def both():
            try: fn(); return
            except Undecided as e:
                if "depends on the point" not in str(e): raise
            try:
                for v in ALL3: VALS3[:] = [v]; fn()
            finally: VALS3[:] = ALL3
        super().guard(f, key, what, both, interp)
    def num_equal(self, f, key, what, got, want):
        C = self.C; C.count("radial_values", len(got))
        for v, w in zip(VALS3, want):
            if len(w) != len(got): C.violation(key + "|size", "%s: %s: %d values, not %d" % (self.site(f), what, len(got), len(w))); return False
            for k, (g, x) in enumerate(zip(got, w)):
                y = v(g)
                if not abs(y - x) <= 1e-9 * max(1.0, abs(x)):
                    C.violation(key, "%s: %s: entry %d is %s at a generic point where %s is required" % (self.site(f), what, k, self.cx(y), self.cx(x))); return False
        C.sample("%s: %s" % (f.q, what)); return True
    # ---- reference values at sample v
    def fv(self, v, d, e, j, x): return v.sf("%d|%d|%d" % (d, e, j), x).real
    def xr(self, v, x, e): return 0.5 * (v.bv(e) + v.bv(e + 1)) + 0.5 * (v.bv(e + 1) - v.bv(e)) * x
    def den(self, v, rad, Pn, e, x):
        """density sum P R R, its first and second derivative along r (P real symmetric, numbers)"""
        a, b = rad.els[e]; s = g = h = 0.0
        F = [[self.fv(v, d, e, i - a, x) for d in range(3)] for i in range(a, b + 1)]
        for i in range(a, b + 1):
            for j in range(a, b + 1):
                p = Pn(i, j); f, k = F[i - a], F[j - a]
                s += p * f[0] * k[0]; g += p * (f[1] * k[0] + f[0] * k[1]); h += p * (f[2] * k[0] + 2 * f[1] * k[1] + f[0] * k[2])
        return s, g, h
    def gga(self, v, funcs, ra, rb, r):
        """potentials of the two spins for densities (n, n', n'') and uninterpreted functionals"""
        na, ga, ha = ra; nb, gb, hb = rb
        I = self.I0; out = [0.0, 0.0]
        saa, sab, sbb = ga * ga, ga * gb, gb * gb
        sy = abs(na - nb) < 1e-13 and abs(ga - gb) < 1e-13 and abs(ha - hb) < 1e-13
        swap = {"v": (1, 0), "vs": (2, 1, 0), "v2rs": (5, 4, 3, 2, 1, 0), "v2s2": (5, 4, 2, 3, 1, 0)}
        for i in funcs:
            if i <= 0: continue
            gg = AtomI.KINDS.get(i, 0); loc = [na, nb] + ([saa, sab, sbb] if gg else [])
            def D(nm, k):
                if sy: k = min(k, swap[nm][k])
                name = "xcd|%d|%s|%d" % (i, nm, k)
                return (0.2 + _h(name) + sum((0.3 + _h(name, t)) * math.sin(x * (0.9 + 0.3 * t)) for t, x in enumerate(loc)) / 3)
            out[0] += D("v", 0); out[1] += D("v", 1)
            if not gg: continue
            dsaa, dsab, dsbb = 2 * ga * ha, ha * gb + ga * hb, 2 * gb * hb
            S = {(0, 0): 0, (0, 1): 1, (0, 2): 2, (1, 1): 3, (1, 2): 4, (2, 2): 5}
            def dv(s): return D("v2rs", s) * ga + D("v2rs", 3 + s) * gb + sum(D("v2s2", S[tuple(sorted((s, t)))]) * ds for t, ds in enumerate((dsaa, dsab, dsbb)))
            vs = [D("vs", k) for k in range(3)]
            Aa = 2 * vs[0] * ga + vs[1] * gb; Ab = 2 * vs[2] * gb + vs[1] * ga
            dAa = 2 * dv(0) * ga + 2 * vs[0] * ha + dv(1) * gb + vs[1] * hb; dAb = 2 * dv(2) * gb + 2 * vs[2] * hb + dv(1) * ga + vs[1] * ha
            out[0] -= dAa + 2 * Aa / r; out[1] -= dAb + 2 * Ab / r
        return out
    I0 = None

ELS3 = [(0, 1), (1, 3), (3, 4)]
class AtomDB(AtomOut):
    """tabulated atoms"""
    cls = "helfem::atomdb::Atom"
    def __init__(self, C, P): super().__init__(C, P); self.ms = methods(P, self.cls)
    def new(self, Z=10, small=False):
        I = DbI(self.P); I.newrad = Rad([(0, 0), (1, 1), (2, 2)] if small else ELS3)
        I.no = [1, 0, 0] if small else [2, 0, 1]; self.no = I.no
        o = I.construct(pick(self.ms, "Atom", 1), [Z]); o.cls = self.cls; return I, o
    def P_(self, v, i, j):
        s = 0.0
        for l in range(DbI.lmax + 1):
            for k in range(self.no[l]): s += v.sym(("occ", l, k)) * v.sym(("C", l, i, k)) * v.sym(("C", l, j, k))
        return s
    def part(self, v, rad, e, xa, xb, p):
        """quadrature of 4 pi rho r^p over a part of an element"""
        h = 0.5 * (xb - xa); c = 0.5 * (xa + xb); s = 0.0
        if h <= 0: return 0.0
        for k in range(AtomI.nq):
            x = c + h * v.sym(("xq", k)); r = self.xr(v, x, e)
            s += v.sym(("wq", k)) * r ** p * self.den(v, rad, lambda i, j: self.P_(v, i, j), e, x)[0]
        return s * h * 0.5 * (v.bv(e + 1) - v.bv(e))
    def full(self, v, rad, e, p): return self.part(v, rad, e, -1.0, 1.0, p)
    def ref(self, v, rad, nm, r, e):
        """e: element or 'in' (r<=0) or 'out'"""
        ne = len(rad.els); N = sum(self.full(v, rad, k, 2) for k in range(ne))
        if nm in ("enclosed_charge", "hartree_screening"):
            if e == "in": return 0.0
            if e == "out": return N
            x = (r - 0.5 * (v.bv(e) + v.bv(e + 1))) / (0.5 * (v.bv(e + 1) - v.bv(e)))
            q = sum(self.full(v, rad, k, 2) for k in range(e)) + self.part(v, rad, e, -1.0, x, 2)
            if nm == "enclosed_charge": return q
            return q + r * (self.part(v, rad, e, x, 1.0, 1) + sum(self.full(v, rad, k, 1) for k in range(e + 1, ne)))
        if e in ("in", "out"): return 0.0
        x = (r - 0.5 * (v.bv(e) + v.bv(e + 1))) / (0.5 * (v.bv(e + 1) - v.bv(e)))
        s, g, h = self.den(v, rad, lambda i, j: self.P_(v, i, j), e, x)
        return {"radial_density": r * r * s, "density": s / (4 * math.pi), "density_gradient": g / (4 * math.pi), "density_laplacian": (h + 2 * g / r) / (4 * math.pi)}[nm]
    def job(self):
        W = {"radial_density": "the radial density", "density": "the density", "density_gradient": "the density gradient", "density_laplacian": "the Laplacian of the density",
             "enclosed_charge": "the charge inside a sphere", "hartree_screening": "r times the electrostatic potential of the electrons"}
        where = [("in", 0, Qc(0.0)), ("in", 0, Qc(-1.0))] + [(e, e, Sy("rr", e)) for e in range(len(ELS3))] + [("out", 0, qscale(Sy("bv", len(ELS3)), 1.5))]
        for nm in W:
            f = pick(self.ms, nm, 1)
            for e, _, r in where:
                key = "atom|atomdb|" + nm; what = "%s %s" % (W[nm], "at or below the origin" if e == "in" else "beyond the grid" if e == "out" else "in element %d" % e)
                def go(f=f, nm=nm, e=e, r=r, key=key, what=what):
                    I, o = self.new(); g = I.rd(I.call(f, o, [r]))
                    self.num_equal(f, key, what, [Q(g)], [[self.ref(v, I.newrad, nm, v(r).real, e)] for v in VALS3])
                self.guard(f, key, what, go)
        f = pick(self.ms, "nelectrons", 0)
        def go():
            I, o = self.new(); self.num_equal(f, "atom|atomdb|n", "the number of electrons", [Q(I.rd(I.call(f, o, [])))], [[self.ref(v, I.newrad, "enclosed_charge", 0, "out")] for v in VALS3])
        self.guard(f, "atom|atomdb|n", "the number of electrons", go)
        fx = pick(self.ms, "xc_screening", 3); fe = pick(self.ms, "effective_charge", 3)
        for seq in ([(1, 0)], [(1, 7)], [(0, 7)], [(101, 130)], [(1, 130)], [(0, 0)], [(1, 0), (7, 0)], [(101, 0), (101, 7)], [(1, 7), (101, 130), (1, 7)]):
            for f in (fx, fe):
                key = "atom|atomdb|" + f.q.split("::")[-1]; what = "%s with functionals %s" % ("r times the exchange-correlation potential" if f is fx else "the effective charge", ", then ".join("(%d,%d)" % s for s in seq))
                def go(seq=seq, f=f, key=key, what=what):
                    I, o = self.new(small=True); rad = I.newrad
                    for s in seq:
                        for e in (1, 2):
                            r = Sy("rr", e); g = Q(I.rd(I.call(f, o, [r, s[0], s[1]]))); want = []
                            for v in VALS3:
                                R = v(r).real; t = [self.ref(v, rad, k, R, e) for k in ("density", "density_gradient", "density_laplacian")]
                                d = (t[0] / 2, t[1] / 2, (t[2] - 2 * t[1] / R) / 2)
                                x = R * sum(self.gga(v, s, d, d, R)) / 2
                                want.append([x if f is fx else 10 - self.ref(v, rad, "hartree_screening", R, e) - x])
                            if not self.num_equal(f, key, what, [g], want): return
                self.guard(f, key, what, go)
        for Z in (0, -1, DbI.max_Z + 1):
            f = pick(self.ms, "Atom", 1); key = "atom|atomdb|Z"; what = "an atom without record (Z=%d)" % Z
            def go(Z=Z):
                try: self.new(Z)
                except Rejected: self.C.count("rejections"); return
                self.C.violation(key, "%s: %s is accepted" % (self.site(f), what))
            self.guard(f, key, what, go)
class DbI(AtomI):
    lmax = 2; no = [2, 0, 1]; max_Z = 20
    def hook(self, n, q, nm, args, obj):
        base = nm or q.split("::")[-1]
        if obj is None and n["k"] == "Call" and "atomdb" in q:
            a = [x for x in args if x.get("k") != "DefArg"]
            if base == "shared_basis": return self.radobj(self.newrad)
            if base in ("norb", "occupations", "coefficients") and len(a) == 2:
                Z, l = [self.num(x) for x in a]
                if not 1 <= Z <= self.max_Z or not 0 <= l <= self.lmax: raise Rejected("no record for Z=%d l=%d" % (Z, l))
                k = self.no[l]
                if base == "norb": return k
                if base == "occupations": return vec([Sy("occ", l, i) for i in range(k)])
                return mat(self.newrad.nbf, k, lambda i, j: Sy("C", l, i, j))
        return super().hook(n, q, nm, args, obj)
    def global_ref(self, n):
        if n["n"] in ("lmax", "max_Z", "nnodes") : return {"lmax": self.lmax, "max_Z": self.max_Z, "nnodes": 5}[n["n"]]
        if n["n"] == "Nbf": return self.newrad.nbf
        if n["n"] == "nelem": return len(self.newrad.els)
        return super().global_ref(n)

class RecI(AtomI):
    """a small database: irregular numbers of orbitals, records stored in an order of their own"""
    max_Z = 4; lmax = 2; Nbf = 3; nelem = 3
    no = [[1, 0, 2, 9], [2, 1, 0, 9], [1, 3, 1, 9], [2, 2, 2, 9]]
    def __init__(self, P):
        super().__init__(P); self.off = [[0] * 4 for _ in self.no]; k = 0
        for l in (1, 0, 2):
            for Z in (3, 1, 0, 2): self.off[Z][l] = k; k += self.no[Z][l]
        for Z in range(4): self.off[Z][3] = 10 ** 6
        t = dict(max_Z=self.max_Z, lmax=self.lmax, Nbf=self.Nbf, nelem=self.nelem, nnodes=5, primbas=4, nquad=7, norbital=k)
        t["norb"] = Vc([Vc(list(x)) for x in self.no]); t["offset"] = Vc([Vc(list(x)) for x in self.off])
        t["bval"] = PtrTo(Vc([Sy("bv", i) for i in range(self.nelem + 1)]))
        t["occupations"] = PtrTo(Vc([Sy("occ", i) for i in range(k)])); t["coefficients"] = PtrTo(Vc([Sy("C", i) for i in range(k * self.Nbf)]))
        self.tab = t
    def global_ref(self, n):
        if n["n"] in self.tab and ("data" in (n.get("q") or "data")): return self.tab[n["n"]]
        return super().global_ref(n)

class Records:
    """the accessors of the tabulated atoms return the record of their arguments"""
    def __init__(self, C, P): self.C = C; self.P = P; self.j = AtomDB(C, P)
    def fn(self, nm, k):
        l = [f for f in self.P.find("helfem::atomdb::" + nm) if f.body is not None and len(f.params) == k]
        if len(l) != 1: und("accessor " + nm)
        return l[0]
    def job(self):
        R = RecI(self.P); j = self.j
        def vals(f, key, what, g, want):
            if not isinstance(g, A): und("result")
            return j.num_equal(f, key, what, list(g.vals()), [[v.sym(x) for x in want] for v in VALS3])
        for nm in ("max_Z", "lmax", "Nbf"):
            f = self.fn(nm, 0); key = "atomdb|" + nm
            def go(f=f, key=key, nm=nm):
                g = RecI(self.P).call(f, None, []); self.C.count("record_values")
                if R.rd(g) != R.tab[nm]: self.C.violation(key, "%s returns %s for a table with %s" % (j.site(f), g, R.tab[nm]))
            j.guard(f, key, nm, go)
        f = self.fn("element_boundaries", 0); key = "atomdb|boundaries"
        def go(f=f, key=key):
            g = RecI(self.P).call(f, None, []); vals(f, key, "the element boundaries of the records", R.rd(g), [("bv", i) for i in range(R.nelem + 1)]); self.C.count("record_values", R.nelem + 1)
        j.guard(f, key, "boundaries", go)
        for Z in (-1, 0, 1, 2, 3, 4, 5, 6):
            for l in (-1, 0, 1, 2, 3):
                for nm in ("norb", "occupations", "coefficients"):
                    f = self.fn(nm, 2); key = "atomdb|" + nm; what = "%s of Z=%d, l=%d" % (nm, Z, l); ok = 1 <= Z <= R.max_Z and 0 <= l <= R.lmax
                    def go(f=f, key=key, what=what, Z=Z, l=l, ok=ok, nm=nm):
                        I = RecI(self.P)
                        try: g = I.rd(I.call(f, None, [Z, l]))
                        except Rejected:
                            if ok: self.C.violation(key, "%s: the %s are refused although they are in the table" % (j.site(f), what))
                            self.C.count("rejections"); return
                        except OutOfRange as e:
                            self.C.violation(key, "%s: %s: %s" % (j.site(f), what, e)); return
                        if not ok: self.C.violation(key, "%s: %s are returned although there is no record" % (j.site(f), what)); return
                        k = R.no[Z - 1][l]; o = R.off[Z - 1][l]; self.C.count("record_values")
                        if nm == "norb":
                            if g != k: self.C.violation(key, "%s: %s is %s instead of %d" % (j.site(f), what, g, k))
                            return
                        if not isinstance(g, A): und("result")
                        sh = (k, 1) if nm == "occupations" else (R.Nbf, k)
                        if (g.r, g.c) != sh: self.C.violation(key, "%s: %s have shape %dx%d instead of %dx%d" % ((j.site(f), what, g.r, g.c) + sh)); return
                        want = [("occ", o + i) for i in range(k)] if nm == "occupations" else [("C", (o + c) * R.Nbf + i) for i in range(R.Nbf) for c in range(k)]
                        if nm == "coefficients": j.num_equal(f, key, what, [g.get(i, c) for i in range(R.Nbf) for c in range(k)], [[v.sym(x) for x in want] for v in VALS3])
                        else: vals(f, key, what, g, want)
                    j.guard(f, key, what, go)

SAD = "helfem::sadatom::basis::TwoDBasis"
class SadOut(AtomOut):
    """what the spherically averaged program reports along the radius"""
    cls = SAD
    def __init__(self, C, P): super().__init__(C, P); self.ms = methods(P, self.cls)
    def new(self, els=ELS3, lmax=2):
        I = AtomI(self.P); I.newrad = Rad(els); o = Obj(self.cls); o.f["radial"] = I.radobj(I.newrad); o.f["lmax"] = lmax
        return I, o
    def dm(self, n, tag="c"): return mat(n, n, lambda i, j: qmul(Sy("cf", tag, i), Sy("cf", tag, j)))
    def pn(self, v, tag="c"): return lambda i, j: v.sym(("cf", tag, i)) * v.sym(("cf", tag, j))
    def grid(self, els, fn, zero):
        """per sample: value at the nucleus followed by fn(v, element, x)"""
        return [[zero(v)] + [fn(v, e, v.sym(("xq", q))) for e in range(len(els)) for q in range(AtomI.nq)] for v in VALS3]
    def cmp(self, f, key, what, g, want, first=True):
        if not isinstance(g, A): und("result")
        l = list(g.vals())
        if not first: l = l[1:]; want = [w[1:] for w in want]
        self.num_equal(f, key, what, l, want)
    def nucd(self, v, n, P, tag): return sum(v.sym((tag,) + lohi(i, j)) * P(i, j) for i in range(n) for j in range(n))
    def lin0(self, v, n, j): return sum(v.sym(("nuc0", i)) * v.sym(("orb", i, j)) for i in range(n))
    def job(self): self.tables(); self.screening(); self.xcpot(); self.searches()
    def tables(self):
        rad = Rad(ELS3); nb = rad.nbf
        D = lambda v, e, x: self.den(v, rad, self.pn(v), e, x)
        def one(nm, np_, what, args, fn, zero, first=True, pred=None, cols=None):
            f = pick(self.ms, nm, np_, pred); key = "atom|sadatom|" + nm
            def go():
                I, o = self.new(); g = I.rd(I.call(f, o, args()))
                if cols is None: self.cmp(f, key, what, g, self.grid(ELS3, fn, zero), first); return
                for c in range(cols):
                    self.cmp(f, key, what + " %d" % c, A([g.get(i, c) for i in range(g.r)], g.r, 1), self.grid(ELS3, lambda v, e, x: fn(v, e, x, c), lambda v: zero(v, c)), first)
            self.guard(f, key, what, go)
        Pd = lambda: self.dm(nb); z = lambda v: 0.0
        def w(v, e, x): return v.sym(("wr", e, [k for k in range(AtomI.nq) if v.sym(("xq", k)) == x][0]))
        one("quadrature_weights", 0, "radial weights", list, w, z)
        one("radii", 0, "radii", list, lambda v, e, x: self.xr(v, x, e), z)
        zden = lambda v: v.sf("nuclear_density", self.nucd(v, nb, self.pn(v), "nuclear_density")).real
        mp = lambda f: "Matrix" in (f.params[0].get("t") or "")
        one("electron_density", 2, "density (times 4 pi)", lambda: [Pd(), 0], lambda v, e, x: D(v, e, x)[0], zden, pred=mp)
        one("electron_density", 2, "density times 4 pi r^2", lambda: [Pd(), 1], lambda v, e, x: D(v, e, x)[0] * self.xr(v, x, e) ** 2, zden, pred=mp, first=False)
        one("electron_density_gradient", 1, "density gradient", lambda: [Pd()], lambda v, e, x: D(v, e, x)[1], z, first=False)
        one("electron_density_laplacian", 1, "Laplacian of the density", lambda: [Pd()], lambda v, e, x: D(v, e, x)[2] + 2 * D(v, e, x)[1] / self.xr(v, x, e), z, first=False)
        def tau(v, e, x):
            a, b = rad.els[e]; s = 0.0; r = self.xr(v, x, e)
            for l in range(3):
                f = sum(v.sym(("cf", "l%d" % l, i)) * self.fv(v, 0, e, i - a, x) for i in range(a, b + 1)); d = sum(v.sym(("cf", "l%d" % l, i)) * self.fv(v, 1, e, i - a, x) for i in range(a, b + 1))
                s += 0.5 * (d * d + l * (l + 1) * f * f / r ** 2)
            return s
        one("kinetic_energy_density", 1, "kinetic energy density", lambda: [Vc([self.dm(nb, "l%d" % l) for l in range(3)])], tau, z, first=False)
        def orb(d): return lambda v, e, x, c: sum(v.sym(("orb", i, c)) * self.fv(v, d, e, i - rad.els[e][0], x) for i in range(rad.els[e][0], rad.els[e][1] + 1))
        Cm = lambda: mat(nb, 2, lambda i, j: Sy("orb", i, j))
        one("orbitals", 1, "values of orbital", lambda: [Cm()], orb(0), lambda v, c: self.lin0(v, nb, c), cols=2)
        one("orbitals_derivative", 1, "derivative of orbital", lambda: [Cm()], orb(1), lambda v, c: 0.0, first=False, cols=2)
        one("orbitals_second_derivative", 1, "second derivative of orbital", lambda: [Cm()], orb(2), lambda v, c: 0.0, first=False, cols=2)
        # densities of one element, at its own points or at given ones
        for f in self.ms.get("electron_density", []):
            if f.body is None or len(f.params) not in (3, 4): continue
            for e in range(3):
                for rs in (0, 1):
                    key = "atom|sadatom|electron_density|el"; what = "density of element %d%s%s" % (e, " times r^2" if rs else "", " at given points" if len(f.params) == 4 else "")
                    def go(f=f, e=e, rs=rs, key=key, what=what):
                        I, o = self.new(); xs = [Sy("xx", k) for k in range(2)]
                        a = [e, Pd(), rs] if len(f.params) == 3 else [vec(xs), e, Pd(), rs]
                        g = I.rd(I.call(f, o, a)); want = []
                        for v in VALS3:
                            pts = [v.sym(("xq", q)) for q in range(AtomI.nq)] if len(f.params) == 3 else [v.sym(("xx", k)) for k in range(2)]
                            want.append([D(v, e, x)[0] * (self.xr(v, x, e) ** 2 if rs else 1.0) for x in pts])
                        self.num_equal(f, key, what, list(g.vals()), want)
                    self.guard(f, key, what, go)
        for nm in ("nuclear_density", "nuclear_density_gradient"):
            f = pick(self.ms, nm, 1); key = "atom|sadatom|" + nm
            def go(f=f, nm=nm, key=key):
                I, o = self.new(); g = I.rd(I.call(f, o, [Pd()]))
                self.num_equal(f, key, nm.replace("_", " "), [Q(g)], [[v.sf(nm, self.nucd(v, nb, self.pn(v), nm)).real / (4 * math.pi)] for v in VALS3])
            self.guard(f, key, nm, go)
    def screening(self):
        f = pick(self.ms, "coulomb_screening", 1); key = "atom|sadatom|coulomb"; what = "r times the electrostatic potential of the density"
        for els in (ELS3, [(0, 1)], [(0, 1), (1, 2)]):
            def go(els=els):
                I, o = self.new(els); rad = I.newrad; n = rad.nbf; P = mat(n, n, lambda i, j: Sy("P", *lohi(i, j))); g = I.rd(I.call(f, o, [P]))
                def tr(v, k, e): a, b = els[e]; return sum(v.sym(("P",) + lohi(i, j)) * v.sym(("R", ("r", k), e) + lohi(i - a, j - a)) for i in range(a, b + 1) for j in range(a, b + 1))
                def fn(v, e, x):
                    q = [k for k in range(AtomI.nq) if v.sym(("xq", k)) == x][0]; a, b = els[e]; r = self.xr(v, x, e)
                    own = sum(v.sym(("P",) + lohi(i, j)) * v.sym(("sph", e, q) + lohi(i - a, j - a)) for i in range(a, b + 1) for j in range(a, b + 1))
                    return r * (own + sum(tr(v, 0, k) for k in range(e)) / r + sum(tr(v, -1, k) for k in range(e + 1, len(els))))
                self.cmp(f, key, what, g, self.grid(els, fn, lambda v: 0.0))
            self.guard(f, key, what, go)
    def xcpot(self):
        rad = Rad([(0, 0), (1, 1)]); n = 2; key = "atom|sadatom|xc"
        f2 = pick(self.ms, "xc_screening", 4); f1 = pick(self.ms, "xc_screening", 3)
        def D(v, tag, e, x, s=1.0): return [s * t / (4 * math.pi) for t in self.den(v, rad, self.pn(v, tag), e, x)]
        for fu in ((1, 0), (1, 7), (0, 7), (101, 0), (101, 130), (1, 130), (0, 130), (101, 7), (0, 0)):
            for pol in (1, 0):
                f = f2 if pol else f1; what = "r times the exchange-correlation potential with functionals (%d,%d), %s" % (fu + ("two spin densities" if pol else "total density",))
                def go(fu=fu, pol=pol, f=f, what=what):
                    I, o = self.new(rad.els); I.nq = 2
                    g = I.rd(I.call(f, o, ([self.dm(n, "a"), self.dm(n, "b")] if pol else [self.dm(n, "c")]) + list(fu))); want = []
                    for v in VALS3:
                        cols = [[0.0], [0.0]]
                        for e in range(2):
                            for q in range(2):
                                x = v.sym(("xq", q)); r = self.xr(v, x, e)
                                ds = [D(v, "a", e, x), D(v, "b", e, x)] if pol else [D(v, "c", e, x, 0.5)] * 2
                                for s, t in enumerate(self.gga(v, fu, ds[0], ds[1], r)): cols[s].append(r * t)
                        want.append(cols[0] + cols[1] if pol else [(x + y) / 2 for x, y in zip(*cols)])
                    if pol and isinstance(g, A) and (g.r, g.c) != (5, 2): self.C.violation(key + "|size", "%s: %s: %dx%d" % (self.site(f), what, g.r, g.c)); return
                    self.num_equal(f, key, what, list(g.vals()), want)
                    if I.fxc: self.C.violation(key + "|leak", "%s: %s: functional %d is initialised but never released" % (self.site(f), what, I.fxc[0]))
                self.guard(f, key, what, go)
        for fu in ((202, 0), (0, 202)):
            what = "a meta-GGA, whose potential is not implemented, (%d,%d)" % fu
            def go(fu=fu, what=what):
                I, o = self.new(rad.els); I.nq = 2
                try: I.call(f2, o, [self.dm(n, "a"), self.dm(n, "b")] + list(fu))
                except Rejected: self.C.count("rejections"); return
                self.C.violation(key + "|mgga", "%s: %s: is accepted" % (self.site(f2), what))
            self.guard(f2, key, what, go)
    # ---- radii found by searches: on profiles of the density that are known numbers
    def searches(self):
        profs = {"exponential": lambda r: 2.5 * math.exp(-1.1 * r), "steep": lambda r: 40 * math.exp(-3 * r), "gaussian": lambda r: math.exp(-0.35 * r * r)}
        f = pick(self.ms, "vdw_radius", 3); key = "atom|sadatom|vdw"
        for pn_, p in profs.items():
            for thr in (0.1, 1e-3, 2e-2, 1e-5):
                what = "radius where the %s density falls to %g" % (pn_, thr)
                def go(p=p, thr=thr, what=what):
                    I, o = self.numeric(lambda r: math.sqrt(4 * math.pi * p(r)))
                    r = qcval(Q(I.rd(I.call(f, o, [I.dens(), Qc(thr), Qc(1e-10)]))))
                    if r is None: und("result")
                    self.C.count("searches")
                    # outermost crossing; below the threshold on the grid there is none
                    if p(I.xmax) >= thr or p(0) <= thr: und("profile")
                    if abs(p(r) - thr) > 1e-6 * thr: self.C.violation(key, "%s: %s: the density at the reported radius %.6g is %.6g" % (self.site(f), what, r, p(r)))
                self.guard(f, key, what, go)
        def none():
            I, o = self.numeric(lambda r: 0.1 * math.exp(-r)); r = qcval(Q(I.rd(I.call(f, o, [I.dens(), Qc(5.0), Qc(1e-10)]))))
            self.C.count("searches")
            if r != 0: self.C.violation(key + "|none", "%s: a density that never reaches the threshold has radius %s" % (self.site(f), r))
        self.guard(f, key, "threshold never reached", none)
        f2 = pick(self.ms, "electron_density_maximum_radius", 3); key2 = "atom|sadatom|max"
        for c in (0.4, 1.7, 2.45, 3.6, 5.2, 0.02, 1.99, 2.01, 4.99, 11.98):
            for rs in (1, 0):
                what = "radius of the maximum of the %sdensity" % ("radial " if rs else "")
                def go(c=c, rs=rs, what=what):
                    # r^2 f^2 (or f^2) has its single maximum at c
                    I, o = self.numeric(lambda r: (math.exp(-0.5 * (r - c) ** 2) / r if rs else math.exp(-0.5 * (r - c) ** 2)) if r > 0 else 0.0)
                    r = qcval(Q(I.rd(I.call(f2, o, [I.dens(), rs, Qc(1e-7)]))))
                    if r is None: und("result")
                    self.C.count("searches")
                    if abs(r - c) > 1e-4: self.C.violation(key2, "%s: %s: is %.8g instead of %.8g" % (self.site(f2), what, r, c))
                self.guard(f2, key2, what, go)
        f3 = pick(self.ms, "electron_count_radius", 3); key3 = "atom|sadatom|count"
        for eps in (0.1, 1.0, 2.5, 1e-3, 3.2):
            what = "radius outside of which %g electrons are found" % eps
            def go(eps=eps, what=what):
                I, o = self.numeric(lambda r: 1.0); I.cnt = lambda r: 4 * math.exp(-0.8 * r)
                r = qcval(Q(I.rd(I.call(f3, o, [I.dens(), Qc(eps), Qc(1e-10)]))))
                if r is None: und("result")
                self.C.count("searches"); out = I.cnt(r) - I.cnt(I.xmax)
                if abs(out - eps) > 1e-6 * eps: self.C.violation(key3, "%s: %s: %.8g electrons are outside of the reported radius" % (self.site(f3), what, out))
            self.guard(f3, key3, what, go)
    def numeric(self, fn):
        I = NumI(self.P); I.newrad = Rad([(k, k) for k in range(6)]); I.fn = fn; o = Obj(self.cls); o.f["radial"] = I.radobj(I.newrad); o.f["lmax"] = 0
        return I, o
class NumI(AtomI):
    """six elements of known lengths, one basis function in each that traces a known profile"""
    nq = 7; B = [0.0, 0.9, 2.0, 3.3, 5.0, 7.5, 12.0]; xmax = 12.0
    cnt = None
    def bnd(self, k): return Qc(self.B[k])
    def points(self): return [Qc(math.cos(math.pi * (self.nq - k) / (self.nq + 1))) for k in range(self.nq)]
    def dens(self): return mat(6, 6, lambda i, j: Qc(1.0 if i == j else 0.0))
    def fval(self, d, e, j, x):
        c = qcval(Q(x))
        if c is None or d: und("point")
        if abs(c) > 1 + 1e-9: raise OutOfRange("basis functions of element %d are evaluated at the reference coordinate %g, outside of the element" % (e, c))
        return Qc(self.fn(0.5 * (self.B[e] + self.B[e + 1]) + 0.5 * (self.B[e + 1] - self.B[e]) * c))
    def partint(self, k, e, i, j, a, b):
        if k != 0: raise Rejected("charge formed with r^%s" % k)
        a, b = [0.5 * (self.B[e] + self.B[e + 1]) + 0.5 * (self.B[e + 1] - self.B[e]) * qcval(Q(t)) for t in (a, b)]
        return Qc(self.cnt(a) - self.cnt(b))
    def radial(self, n, nm, rad, args, o):
        ar = [x for x in args if x.get("k") != "DefArg"]
        if nm == "overlap" and len(ar) == 1 and self.cnt:
            e = self.elem(rad, self.num(ar[0])); return mat(1, 1, lambda i, j: self.partint(0, e, 0, 0, Qc(-1.0), Qc(1.0)))
        if nm == "radial_integral" and len(ar) == 2 and self.cnt:
            k, e = [self.num(x) for x in ar]; return mat(1, 1, lambda i, j: self.partint(k, e, 0, 0, Qc(-1.0), Qc(1.0)))
        return super().radial(n, nm, rad, args, o)

NUC = "helfem::modelpotential::"
class PotVal(SVal):
    def sym(self, a):
        if a[0] == "rms": return 0.4 + 0.3 * rnd(a, self.k)
        if a[0] == "nr": return (0.4 + 0.3 * rnd(("rms",), self.k)) * a[1] * (1 + 0.02 * rnd(a, self.k))
        if a[0] == "sapx": return a[1]
        if a[0] == "ga": return 0.8 + 0.5 * rnd(a, self.k)
        if a[0] == "gb": return 0.3 + 0.5 * rnd(a, self.k)
        if a[0] == "pr": return a[1] * (1 + 0.01 * rnd(a, self.k))
        return super().sym(a)
PVALS = [PotVal(k) for k in range(SAMPLES)]
class PotI(AtomI):
    vals = PVALS
    table = None
    @staticmethod
    def sapx(k): return 40.0 * (k / 700.0) ** 2
    def hook(self, n, q, nm, args, obj):
        base = nm or q.split("::")[-1]; a = [x for x in args if x.get("k") != "DefArg"]
        if obj is None and n["k"] == "Call":
            if base == "find_b" and self.hide_b: return Sy("gb")
            if base == "phi_normalization" and self.norm: return Qc(self.norm(qcval(Q(self.num(a[1])))))
            if base == "radial_chebyshev" and self.rule and len(a) == 3:
                k = self.num(a[0]); self.ev(a[1]).set(vec([Sy("qr", i) for i in range(k)])); self.ev(a[2]).set(vec([Sy("qw", i) for i in range(k)])); return None
            if base == "epsilon" and "numeric_limits" in q: return Qc(2.220446049250313e-16)
            if base in ("pi", "two_over_sqrtpi", "sqrtpi") and "utils" in q: return Qc({"pi": math.pi, "two_over_sqrtpi": 2 / math.sqrt(math.pi), "sqrtpi": math.sqrt(math.pi)}[base])
            if base in ("erf", "erfc"): x = Q(self.num(a[0])); return qfn(base, x)
            if base in ("fmt_sci",): return Opq("text")
            if base in ("make_unique", "make_shared") and "atomdb::Atom" in (n.get("dt") or n.get("t") or ""): return PtrTo(Obj("helfem::atomdb::Atom"))
            if base == "LinSpaced" and len(a) == 3:
                k, lo, hi = self.num(a[0]), Q(self.num(a[1])), Q(self.num(a[2])); d = qadd(hi, lo, -1.0)
                return vec([qadd(lo, qscale(d, i / (k - 1.0))) for i in range(k)])
            if base == "pow" and len(a) == 2:
                x, y = qcval(Q(self.num(a[0]))), qcval(Q(self.num(a[1])))
                if x is not None and y is not None:
                    if x < 0 and y != int(y): raise Rejected("pow(%g,%g) is not a number" % (x, y))
                    return Qc(x ** y)
        if n["k"] == "Ctor" and q.startswith("helfem::atomdb::Atom"): return Obj("helfem::atomdb::Atom")
        if obj is not None and "atomdb::Atom" in q:
            if base == "effective_charge": return qfn("sf|zeff|%s|%s" % (self.num(a[1]), self.num(a[2])), Q(self.num(a[0])))
            if base == "element_boundaries": return vec([Qc(t) for t in (0.0, 0.7, 1.9, 4.0)])
        return super().hook(n, q, nm, args, obj)
    hide_b = True; norm = None; rule = False
    def e_New(self, n):
        if not n.get("c") or n["c"][0]["k"] != "Ctor": und("new", n)
        v = self.rd(self.ev(n["c"][0]))
        if isinstance(v, Obj) and n.get("at"): v.cls = n["at"]
        return PtrTo(v)
    def s_Var(self, n):
        m = re.search(r"\[(\d+)\]\[(\d+)\]$", n.get("t") or "")
        if m and int(m.group(1)) >= 100:
            nz, nr = int(m.group(1)), int(m.group(2))
            if self.table is None: PotI.table = Vc([Vc([Qc(self.sapx(k)) for k in range(nr)])] + [Vc([Sy("sap", z, k) for k in range(nr)]) for z in range(1, nz)])
            self.env[n["d"]] = Cell(self.table); return
        super().s_Var(n)
MFN["erf"] = lambda x: complex(math.erf(x.real)); MFN["erfc"] = lambda x: complex(math.erfc(x.real))

class Potentials(AtomOut):
    """model potentials and finite nuclei"""
    def num_equal(self, f, key, what, got, want, tol=1e-10):
        C = self.C; C.count("potential_values", len(got))
        for v, w in zip(PVALS, want):
            for k, (g, x) in enumerate(zip(got, w)):
                y = v(g)
                if not abs(y - x) <= tol * max(1.0, abs(x)):
                    C.violation(key, "%s: %s: is %.12g where %.12g is required" % (self.site(f), what, y.real, x)); return False
        C.sample("%s: %s" % (f.q, what)); return True
    def cls(self, name): return methods(self.P, NUC + name)
    def pot(self, I, name, ctor, args):
        f = pick(self.cls(name), ctor, len(args)); o = I.construct(f, args); o.cls = NUC + name; return o
    def job(self):
        for sc, suf in (("double", "T<double>"), ("long double", "T<long double>")): self.nuclei(sc, suf)
        self.factory(); self.gygi(); self.screened(); self.sap(); self.sapfe(); self.power()
    def nref(self, kind, Z, rms, r):
        if kind == "Point": return -Z / r
        if kind == "Gaussian": return -Z * math.erf(math.sqrt(1.5) * r / rms) / r if r else -Z * 2 / math.sqrt(math.pi) * math.sqrt(1.5) / rms
        R = rms * (math.sqrt(5 / 3.0) if kind == "Spherical" else 1.0)
        if r >= R: return -Z / r
        return -Z / R if kind == "Hollow" else -Z / (2 * R) * (3 - (r / R) ** 2)
    def nuclei(self, sc, suf):
        for kind in ("Point", "Gaussian", "Spherical", "Hollow"):
            cn = kind + "Nucleus" + suf; ms = self.cls(cn); fv = pick(ms, "V", 1)
            for x, Z, S in [(x, Z, 1.0) for x in (1e-9, 1e-5, 1e-3, 2e-3, 3.5e-3, 8e-3, 0.05, 0.4, 0.9, 1.1, 1.25, 1.35, 3.0, 30.0) for Z in (1, 26)] + [(x, 7, S) for S in (1e-5, 40.0) for x in (1e-5, 3.5e-3, 0.05, 0.3, 0.9, 1.35, 4.0)]:
                if 1:
                    key = "atom|nucleus|%s" % kind; what = "potential of the %s nucleus (%s) at %g times its radius, Z=%d%s" % (kind.lower(), sc, x, Z, "" if S == 1 else ", radius %g" % S)
                    def go(kind=kind, x=x, Z=Z, S=S, ms=ms, fv=fv, cn=cn, key=key, what=what):
                        I = PotI(self.P, sc); o = self.pot(I, cn, kind + "NucleusT", [Z] + ([] if kind == "Point" else [qscale(Sy("rms"), S)]))
                        g = I.rd(I.call(fv, o, [qscale(Sy("nr", x), S)]))
                        w = [self.nref(kind, Z, S * v.sym(("rms",)), S * v.sym(("nr", x))) for v in PVALS]
                        self.num_equal(fv, key, what, [qscale(Q(g), 1.0)], [[y] for y in w], 1e-10 if x > 0.01 or S != 1 else 1e-12 * max(1, abs(w[0])))
                    self.guard(fv, key, what, go)
            if kind in ("Spherical", "Hollow"):
                fb = pick(ms, "breakpoints", 2)
                for a, b, inside in ((0.2, 3.0, 1), (2.0, 3.0, 0), (0.1, 0.5, 0)):
                    key = "atom|nucleus|%s|kink" % kind; what = "kink of the %s nucleus (%s) in an interval" % (kind.lower(), sc)
                    def go(kind=kind, a=a, b=b, inside=inside, fb=fb, cn=cn, key=key, what=what):
                        I = PotI(self.P, sc); o = self.pot(I, cn, kind + "NucleusT", [3, Sy("rms")])
                        l = I.rd(I.call(fb, o, [Sy("nr", a), Sy("nr", b)])); l = list(l.items) if isinstance(l, Vc) else list(l.vals())
                        if len(l) != inside: self.C.violation(key, "%s: %s: %d points are reported instead of %d" % (self.site(fb), what, len(l), inside)); return
                        if inside: self.num_equal(fb, key, what, [Q(I.rd(l[0]) if not isinstance(l[0], dict) else l[0])], [[v.sym(("rms",)) * (math.sqrt(5 / 3.0) if kind == "Spherical" else 1)] for v in PVALS])
                    self.guard(fb, key, what, go)
    def factory(self):
        models = pot_models(self.P)
        for f in self.P.find(NUC + "get_nuclear_model"):
            if f.body is None: continue
            for nm, val in models.items():
                key = "atom|nucleus|model"; what = "the potential handed out for %s" % nm
                kind = {"POINT_NUCLEUS": "Point", "GAUSSIAN_NUCLEUS": "Gaussian", "HOLLOW_NUCLEUS": "Hollow", "SPHERICAL_NUCLEUS": "Spherical", "REGULARIZED_NUCLEUS": "Regularized"}.get(nm)
                def go(f=f, nm=nm, val=val, kind=kind, key=key, what=what):
                    I = PotI(self.P)
                    try: o = I.rd(I.call(f, None, [val, 4, Sy("rms")]))
                    except Rejected:
                        if kind: raise
                        self.C.count("rejections"); return
                    if not kind: self.C.violation(key, "%s: %s is accepted" % (self.site(f), what)); return
                    while isinstance(o, PtrTo): o = I.rd(o.v)
                    if not isinstance(o, Obj): und("model object")
                    if not o.cls.startswith(NUC + kind + "Nucleus"): self.C.violation(key, "%s: %s is a %s" % (self.site(f), what, o.cls)); return
                    fv = pick(methods(self.P, o.cls), "V", 1)
                    for x in (0.5, 2.0):
                        g = I.rd(I.call(fv, o, [Sy("nr", x)]))
                        if kind != "Regularized": self.num_equal(f, key, what, [Q(g)], [[self.nref(kind, 4, v.sym(("rms",)), v.sym(("nr", x)))] for v in PVALS])
                        else: self.num_equal(f, key, what, [Q(g)], [[16 * self.gy(v.sym(("rms",)), v.sym(("gb",)), 4 * v.sym(("nr", x)))] for v in PVALS])
                self.guard(f, key, what, go)
    def gy(self, a, b, r):
        E = math.exp(-a * a * r * r); s = 2 * a / math.sqrt(math.pi)
        h1r = -math.erf(a * r) / r - s * E + 2 * a * a * b * E      # h'/r
        h1 = h1r * r; h2 = -2 * s * E + 2 * a * a * s * r * r * E + 2 * a * a * b * E - 4 * a ** 4 * b * r * r * E
        return -0.5 + 0.5 * (h2 + h1 * h1 + 2 * h1r)
    def gygi(self):
        cn = "RegularizedNucleusT<double>"; ms = self.cls(cn); fv = pick(ms, "V", 1); key = "atom|nucleus|Regularized"
        for x in (1e-7, 1e-6, 1.9e-6, 5e-6, 1e-3, 0.3, 1.0, 2.5):
            for Z in (1, 3):
                what = "regularised potential at r=%g, Z=%d" % (x, Z)
                def go(x=x, Z=Z, what=what):
                    I = PotI(self.P); o = self.pot(I, cn, "RegularizedNucleusT", [Z, Sy("ga")]); g = I.rd(I.call(fv, o, [Sy("pr", x)]))
                    self.num_equal(fv, key, what, [Q(g)], [[Z * Z * self.gy(v.sym(("ga",)), v.sym(("gb",)), Z * v.sym(("pr", x)))] for v in PVALS], 1e-11 if Z * x < 5.8e-6 else 1e-7)
                self.guard(fv, key, what, go)
        for f in self.P.find(NUC + "phi_normalization"):
            if f.body is None or len(f.params) != 3: continue
            def nrm(f=f):
                I = PotI(self.P); I.rule = True; g = I.rd(I.call(f, None, [Sy("ga"), Sy("gb"), 3]))
                def one(v):
                    a, b = v.sym(("ga",)), v.sym(("gb",)); s = 0.0
                    for k in range(3): r = v.sym(("qr", k)); s += v.sym(("qw", k)) * 4 * r * r * math.exp(-2 * r * math.erf(a * r) - 2 * b * math.exp(-a * a * r * r))
                    return s
                self.num_equal(f, key + "|norm", "norm of the regularised wave function", [Q(g)], [[one(v)] for v in PVALS])
            self.guard(f, key + "|norm", "norm of the regularised wave function", nrm)
        for f in self.P.find(NUC + "find_b"):
            if f.body is None: continue
            for b0 in (0.5, 0.0021, 6.0, 1e-3, 1e-5, 8.5, 50.0):
                inside = 1e-3 < b0 < 10; what = "parameter b that normalises the wave function (%s)" % ("inside the search range" if inside else "outside of the search range")
                def go(f=f, b0=b0, inside=inside, what=what):
                    I = PotI(self.P); I.hide_b = False; I.norm = lambda b: math.exp(-(b - b0))
                    try: r = qcval(Q(I.rd(I.call(f, None, [Qc(1.0), 20]))))
                    except Rejected:
                        if inside: raise
                        self.C.count("rejections"); return
                    self.C.count("searches")
                    if r is None: und("result")
                    if abs(r - b0) > 1e-8 * b0 + 1e-12: self.C.violation(key + "|b", "%s: %s: %.10g instead of %.10g" % (self.site(f), what, r, b0))
                self.guard(f, key + "|b", what, go)
    def screened(self):
        fz = lambda r, Z, d: 1 + (Z - 1) / (1 + (math.exp(r / d) - 1) * d * (Z - 1) ** 0.4) if Z else 0.0
        def tf(r, Z):
            x = r * (128 * Z / (9 * math.pi ** 2)) ** (1 / 3.0); return Z * (1 + 0.7280642371 * math.sqrt(x) - 0.5430794693 * x * math.exp(-0.3612163121 * math.sqrt(x))) ** 2 * math.exp(-2 * 0.7280642371 * math.sqrt(x))
        f = [g for g in self.P.find("helfem::GSZ::GSZ_parameters") if g.body is not None][0]
        for Z in (-1, -7, 103, 104, 119, 1000):
            what = "a charge outside of the table of GSZ parameters (Z=%d)" % Z
            def go(Z=Z, what=what):
                try: PotI(self.P).call(f, None, [Z, Cell({}), Cell({})])
                except Rejected: self.C.count("rejections"); return
                self.C.violation("atom|gsz|range", "%s: %s is accepted" % (self.site(f), what))
            self.guard(f, "atom|gsz|range", what, go)
        for cn, args in (("GSZAtom", 1), ("GSZAtom", 3), ("TFAtom", 1)):
            ms = self.cls(cn); fv = pick(ms, "V", 1)
            for Z in (0, 1, 2, 10, 54, 102):
                for x in (1e-3, 0.1, 1.0, 4.0):
                    key = "atom|screened|" + cn; what = "%s potential of Z=%d at r=%g" % (cn, Z, x)
                    def go(cn=cn, args=args, Z=Z, x=x, fv=fv, key=key, what=what):
                        if args == 3 and not Z: return
                        I = PotI(self.P); o = self.pot(I, cn, cn, [Z] + ([Qc(0.8), Qc(0.8 * (Z - 1) ** 0.4)] if args == 3 else [])); g = I.rd(I.call(fv, o, [Sy("pr", x)]))
                        if cn == "GSZAtom":
                            if args == 3: d = 0.8
                            else:
                                d, H = Cell({}), Cell({}); I.call(f, None, [Z, d, H]); d = qcval(Q(I.rd(d.v)))
                                if d is None or not 0.1 < d <= 1.5: und("parameters")
                            ref = lambda r: -fz(r, Z, d) / r
                        else: ref = lambda r: -tf(r, Z) / r
                        self.num_equal(fv, key, what, [Q(g)], [[ref(v.sym(("pr", x)))] for v in PVALS], 1e-9)
                    self.guard(fv, key, what, go)
    def sap(self):
        for f in [g for g in self.P.funcs.values() if g.q.split("::")[-1] == "sap_effective_charge" and g.body is not None]:
            X = PotI.sapx; key = "atom|sap"
            pts = [(-1.0, 0), (0.0, 0), (X(700), 700), (X(700) + 3, 700), (X(350), 350), (X(1), 1), (X(699), 699)] + [(X(k) + t * (X(k + 1) - X(k)), (k, t)) for k, t in ((0, 0.5), (0, 0.01), (1, 0.3), (348, 0.7), (349, 0.2), (350, 0.6), (699, 0.4), (698, 0.9))]
            for Z in (1, 30, 118):
                for x, w in pts:
                    what = "tabulated effective charge of Z=%d at %.5g" % (Z, x)
                    def go(f=f, Z=Z, x=x, w=w, what=what):
                        I = PotI(self.P); g = I.rd(I.call(f, None, [Z, Qc(x)]))
                        ref = (lambda v: v.sym(("sap", Z, w))) if isinstance(w, int) else (lambda v: v.sym(("sap", Z, w[0])) * (1 - w[1]) + v.sym(("sap", Z, w[0] + 1)) * w[1])
                        self.num_equal(f, key, what, [Q(g)], [[ref(v)] for v in PVALS], 1e-8)
                    self.guard(f, key, what, go)
            for Z in (0, 119, -1):
                what = "effective charge of an element that is not tabulated (Z=%d)" % Z
                def go(f=f, Z=Z, what=what):
                    try: g = PotI(self.P); g = g.rd(g.call(f, None, [Z, Qc(0.3)]))
                    except Rejected: self.C.count("rejections"); return
                    self.num_equal(f, key, what, [Q(g)], [[0.0]] * SAMPLES)
                self.guard(f, key, what, go)
        cn = "SAPAtom"; fv = pick(self.cls(cn), "V", 1); what = "superposition-of-atomic-potentials potential"
        def go():
            I = PotI(self.P); o = self.pot(I, cn, cn, [7]); x = PotI.sapx(10); g = I.rd(I.call(fv, o, [Qc(x)]))
            self.num_equal(fv, "atom|sap|V", what, [Q(g)], [[-v.sym(("sap", 7, 10)) / x] for v in PVALS])
        self.guard(fv, "atom|sap|V", what, go)
    def sapfe(self):
        cn = "SAPFEAtom"; ms = self.cls(cn); fv = pick(ms, "V", 1); fb = pick(ms, "breakpoints", 2)
        for args, xc in (([6], (1, 0)), ([6, 101, 130], (101, 130)), ([0], None)):
            key = "atom|sapfe"; what = "potential of a tabulated atom, arguments %s" % args
            def go(args=args, xc=xc, key=key, what=what):
                I = PotI(self.P); o = self.pot(I, cn, cn, args)
                g = I.rd(I.call(fv, o, [Sy("pr", 0.8)]))
                self.num_equal(fv, key, what, [Q(g)], [[-v.sf("zeff|%d|%d" % xc, v.sym(("pr", 0.8))).real / v.sym(("pr", 0.8)) if xc else 0.0] for v in PVALS])
                for a, b in ((0.0, 4.0), (0.7, 1.9), (0.5, 2.5), (1.0, 1.5), (1.0, 1.95)):
                    l = I.rd(I.call(fb, o, [Qc(a), Qc(b)])); l = [qcval(Q(I.rd(t))) for t in (l.items if isinstance(l, Vc) else l.vals())]
                    w = [t for t in (0.0, 0.7, 1.9, 4.0) if a < t < b] if xc else []
                    self.C.count("potential_values")
                    if l != w: self.C.violation(key + "|kinks", "%s: kinks between %g and %g: %s instead of %s" % (self.site(fb), a, b, l, w)); return
            self.guard(fv, key, what, go)
    def power(self):
        cn = "RadialPotentialT<double>"; fv = pick(self.cls(cn), "V", 1)
        for k in (-2, -1, 0, 1, 3):
            def go(k=k):
                I = PotI(self.P); o = self.pot(I, cn, "RadialPotentialT", [k]); g = I.rd(I.call(fv, o, [Sy("pr", 1.3)]))
                self.num_equal(fv, "atom|power", "r^%d" % k, [Q(g)], [[v.sym(("pr", 1.3)) ** k] for v in PVALS])
            self.guard(fv, "atom|power", "r^%d" % k, go)
