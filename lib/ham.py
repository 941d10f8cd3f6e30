"""Models used when the assembly of the Hamiltonian matrices is interpreted: radial bases and Gaunt tables."""
import math
from conc import *
import sph

ABAS = "helfem::atomic::basis::"
def lohi(i, j): return (i, j) if i <= j else (j, i)

class Rad:
    """a radial basis: element e holds the functions first..last"""
    def __init__(self, els, tag="R", cross=None):
        self.els = els; self.tag = tag; self.nbf = els[-1][1] + 1; self.cross = cross or {}
        self.rank = 2
    def nprim(self, e): return self.els[e][1] - self.els[e][0] + 1
    def eint(self, what, e):
        """element matrix of a multiplicative operator: symmetric in its two functions"""
        n = self.nprim(e)
        return mat(n, n, lambda i, j: Sy(self.tag, what, e, *lohi(i, j)))
    def full(self, what):
        r = {}
        M = mat(self.nbf, self.nbf, lambda i, j: {})
        for e, (a, b) in enumerate(self.els):
            m = self.eint(what, e)
            for j in range(m.c):
                for i in range(m.r): k = M.pos(a + i, a + j); M.st[k] = qadd(M.st[k], m.get(i, j))
        return M
    def chol(self, what, e):
        """factor of the two-electron integrals of one element"""
        n = self.nprim(e)
        return A([Sy(self.tag, "C" + what, e, *lohi(k % n, k // n), p) for p in range(self.rank) for k in range(n * n)], n * n, self.rank)
    def tei(self, what, e):
        c = self.chol(what, e); n = self.nprim(e)
        def f(x, y):
            s = {}
            for p in range(self.rank): s = qadd(s, qmul(c.get(x, p), c.get(y, p)))
            return s
        return mat(n * n, n * n, f)
    def pairint(self, what, e, f):
        """two-electron integrals (ab|cd), a,b in e and c,d in f, of a kernel that does not factorise"""
        n, m = self.nprim(e), self.nprim(f)
        def g(x, y):
            p = (e,) + lohi(x % n, x // n); q = (f,) + lohi(y % m, y // m)
            return Sy(self.tag, what, *(p + q if p <= q else q + p))
        return mat(n * n, m * m, g)

def pkey(x):
    """name of a scalar argument"""
    if isinstance(x, int): return x
    c = qcval(Q(x))
    if c is not None: return int(c) if float(c).is_integer() else c
    return qtext(x, 9)

class Ham(Conc):
    limit = 30000000
    screen_max = 1e-12
    def __init__(self, P, scal="double"):
        super().__init__(P); self.scal = scal; self.log = []; self.viol = []; self.gaunt_used = 0
    # ---- building objects
    def radobj(self, rad):
        o = Obj(ABAS + "FEMRadialBasisT"); o.f["#rad"] = rad; return o
    def symbolic_cond(self, n, op, a, b):
        c = qcval(b)
        sgn = 1
        if c is None:
            c = qcval(a); a = b; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if c is not None:
            key = [nm[1] for m in a for k, p in m for nm in [_nm(k)] if nm[0] == "fn"]
            if key and all(k in ("norm", "squaredNorm", "cwiseAbs.maxCoeff") for k in key):
                # magnitude of a generic block against a screening threshold
                c = c / max(abs(x) for x in a.values())
                if abs(c) > self.screen_max: self.viol.append("a block is dropped when its magnitude is below %g (line %s)" % (c, n.get("l") if n else "?"))
                return {"<": 0, "<=": 0, ">": 1, ">=": 1, "==": 0, "!=": 1}[op]
            if c == 0 and op in ("==", "!="): return op == "!="
        und("condition on a symbolic value", n)
    def symbolic_extremum(self, n, nm, v): return qfn("cwiseAbs.maxCoeff", *[Q(x) for x in v.vals()])
    def hook(self, n, q, nm, args, obj):
        if obj is not None:
            if "RadialBasis" in q:
                o = self.rd(self.ev(obj))
                while isinstance(o, PtrTo): o = self.rd(o.v)
                if isinstance(o, Obj) and "#rad" in o.f: return self.radial(n, nm, o.f["#rad"], args, o)
            if "GauntT" in q and nm == "coeff": 
                o = self.rd(self.ev(obj))
                while isinstance(o, PtrTo): o = self.rd(o.v)
                if isinstance(o, Obj) and "#g" in o.f: return self.gcoeff(o.f["#g"], [self.num(a) for a in args], n)
            return NotImplemented
        if n["k"] == "Ctor":
            if "GauntT" in q:
                a = [x for x in args]
                if len(a) == 1 and n.get("cp"): return NotImplemented
                o = Obj("helfem::gaunt::GauntT<%s>" % self.scal)
                if a:
                    v = [self.num(x) for x in a]
                    la = max(v[:3]); cap = v[3] if len(v) > 3 else -1
                    o.f["#g"] = (v[0], v[1], v[2], la if cap < 0 else min(cap, la))
                else: o.f["#g"] = (0, 0, 0, 0)
                return o
        else:
            if nm in ("printf", "fflush"): return 0
            if q.endswith("gaunt::gaunt_coefficient") or q.endswith("gaunt::gaunt_coefficient_T"): return Qc(sph.gaunt(*[self.num(a) for a in args]))
        return NotImplemented
    def gcoeff(self, caps, v, n):
        L, M, l, m, lp = v; LM, lm, lpm, cap = caps
        self.gaunt_used += 1
        if not (0 <= L <= LM and 0 <= l <= lm and 0 <= lp <= lpm): return {}
        if abs(M) > L or abs(m) > l: return {}
        if abs(M) > cap or abs(m) > cap: raise Rejected("Gaunt coefficient outside the stored window")
        return Qc(sph.gaunt(L, M, l, m, lp))
    def elem(self, rad, e):
        if not 0 <= e < len(rad.els): raise OutOfRange("element %d of %d" % (e, len(rad.els)))
        return e
    def radial(self, n, nm, rad, args, o):
        ar = [x for x in args if x.get("k") != "DefArg"]
        if nm in ("Nel",): return len(rad.els)
        if nm == "Nbf": return rad.nbf
        if nm == "Nprim": return rad.nprim(self.elem(rad, self.num(ar[0])))
        if nm == "max_Nprim": return max(rad.nprim(e) for e in range(len(rad.els)))
        if nm == "get_idx":
            e = self.elem(rad, self.num(ar[0])); a, b = rad.els[e]
            self.store(self.ev(ar[1]), "=", a, n); self.store(self.ev(ar[2]), "=", b, n); return None
        vs = [self.rd(self.ev(x)) for x in ar]
        def op(name, k):
            """element or whole operator, by the presence of the element index"""
            if len(vs) > k: return rad.eint(name, self.elem(rad, vs[k]))
            return rad.full(name)
        if nm == "overlap" or nm == "radial_integral" and vs and isinstance(vs[0], Obj):
            if vs and isinstance(vs[0], Obj):
                rh = vs[0].f["#rad"]; k = 0 if nm == "overlap" else vs[1]
                if len(vs) > 2 and any(vs[2:]): und("derivative cross integral", n)
                return mat(rad.nbf, rh.nbf, lambda i, j: Sy("X", rad.tag, rh.tag, ("r", k), i, j))
            return op(("r", 0), 0)
        if nm == "radial_integral":
            if len(vs) > 2: und("partial element", n)
            return rad.eint(("r", vs[0]), self.elem(rad, vs[1]))
        if nm == "kinetic": return op("kin", 0)
        if nm == "kinetic_l":
            m = op(("r", -2), 0); return A([qscale(x, 0.5) for x in m.st], m.r, m.c)
        if nm == "nuclear":
            m = op(("r", -1), 0); return A([qscale(x, -1.0) for x in m.st], m.r, m.c)
        if nm == "model_potential":
            if len(vs) == 2 and isinstance(vs[1], int): return rad.eint(("mp", self.potname(vs[0])), self.elem(rad, vs[1]))
            und("cross model potential", n)
        if nm == "nuclear_offcenter": return rad.eint(("off", pkey(vs[1]), vs[2]), self.elem(rad, vs[0]))
        if nm == "confinement_potential": return rad.eint(("conf",) + tuple(pkey(v) for v in vs[1:]), self.elem(rad, vs[0]))
        if nm in ("bessel_il_integral", "bessel_kl_integral"): return rad.eint((nm[7:9], vs[0], pkey(vs[1])), self.elem(rad, vs[2]))
        if nm == "twoe_integral": return rad.tei("c%d" % vs[0], self.elem(rad, vs[1]))
        if nm == "yukawa_integral": return rad.tei("y%d,%s" % (vs[0], pkey(vs[1])), self.elem(rad, vs[2]))
        if nm == "twoe_integral_cholesky": return self.fact(rad.chol("c%d" % vs[0], self.elem(rad, vs[1])), vs[2:], n)
        if nm == "yukawa_integral_cholesky": return self.fact(rad.chol("y%d,%s" % (vs[0], pkey(vs[1])), self.elem(rad, vs[2])), vs[3:], n)
        if nm == "erfc_integral": return rad.pairint(("e", vs[0], pkey(vs[1])), self.elem(rad, vs[2]), self.elem(rad, vs[3]))
        und("radial method " + nm, n)
    tol_max = 1e-10
    def fact(self, m, tol, n):
        for t in tol:
            c = qcval(Q(t))
            if c is not None and c > self.tol_max: self.viol.append("two-electron integrals are factorised only to %g (line %s)" % (c, n.get("l")))
        return m
    def potname(self, v):
        while isinstance(v, PtrTo): v = self.rd(v.v)
        if isinstance(v, Opq): return v.what
        if isinstance(v, Obj): return v.cls
        und("potential")

def _nm(k):
    import conc
    return conc._names[k]
