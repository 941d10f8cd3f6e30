"""Diatomic program: Hamiltonian matrices in prolate spheroidal coordinates against the formulas written from the physics."""
import zlib
from qatomic import *
import conc
DB = "helfem::diatomic::basis::"
DT = DB + "TwoDBasis"

DELS = [(0, 1), (1, 3), (3, 4)]
DELS2 = [(0, 2), (2, 3)]
DCH1 = [(0, 0), (1, 0), (2, 0), (1, 1), (1, -1), (2, 1), (2, -1), (3, 0), (2, -2), (3, 1), (4, 0)]
DCH2 = [(0, 0), (1, 1), (1, -1), (2, 0)]
DCH3 = [(1, -1), (0, 0), (3, 1)]
DCH4 = [(0, 0), (1, 0), (1, 1), (1, -1), (2, 1), (2, -1), (2, 2), (2, -2)]

class DRad(Rad):
    def plm(self, what, k, e, L, M): return self.eint((what, k, L, M), e)
    def fvec(self, p, e, L, M):
        """vector p of the two-channel factor of one element; the second vanishes where the first is pivoted"""
        n = self.nprim(e); out = []
        for ch in (0, 2):
            for k in range(n * n):
                a, b = lohi(k % n, k // n)
                out.append({} if p == 1 and (ch, a, b) == (0, 0, 0) else Sy(self.tag, "D%d" % p, e, L, M, ch, a, b))
        return out
    def kernel(self, e, L, M):
        n2 = self.nprim(e) ** 2; b, c = self.fvec(0, e, L, M), self.fvec(1, e, L, M)
        s = -1.0 if (e + L) % 2 else 1.0          # either sign may be pivoted first
        return mat(2 * n2, 2 * n2, lambda x, y: qscale(qadd(qmul(b[x], b[y]), qmul(c[x], c[y]), -1.0), s))
    def twoe(self, al, be, e, L, M):
        n2 = self.nprim(e) ** 2; W = self.kernel(e, L, M); s = 1.0 if al == be else -1.0; o = {0: 0, 2: n2}
        return mat(n2, n2, lambda x, y: qscale(W.get(o[al] + x, o[be] + y), s))

class Leg:
    pass

class Diatomic(Atomic):
    tol_rel = 1e-9
    def dbasis(self, ms, rad, ch, Z1=3, Z2=5, legendre=1):
        lv = A([l for l, m in ch], len(ch), 1); mv = A([m for l, m in ch], len(ch), 1)
        f = pick(ms, "TwoDBasis", 9); self.newrad = rad
        o = self.construct(f, [Z1, Z2, Sy("Rh"), Opq("poly"), 5, vec([Sy("b", k) for k in range(len(rad.els) + 1)]), lv, mv, legendre])
        o.cls = DT; return o
    # ---- magnitudes of generic symbols
    def symval(self, k):
        a = conc._names[k]
        if a[0] == "inv":
            w = self.qval(dict(a[1])); return None if not w else 1.0 / w
        if a[0] == "fn":
            w = [self.qval(dict(x)) for x in a[2:]]
            if a[1] == "sqrt" and w[0] is not None and w[0] >= 0: return math.sqrt(w[0])
            if a[1] == "abs" and w[0] is not None: return abs(w[0])
            return None
        if len(a) > 5 and a[1] == "D0" and a[5:] == (0, 0, 0): return 3.0
        return 0.3 + 0.5 * (zlib.crc32(repr(a).encode()) % 997) / 997.0
    def qval(self, p):
        s = 0.0
        for m, c in Q(p).items():
            for k, e in m:
                v = self.symval(k)
                if v is None: return None
                c *= v ** e
            s += c
        return s
    def symbolic_extremum(self, n, nm, v):
        """largest entry of generic values; with an argument, also its position"""
        l = [self.absq(Q(x)) if False else Q(x) for x in v.vals()]
        w = [self.qval(x) for x in l]
        if None in w: return super().symbolic_extremum(n, nm, v)
        k = max(range(len(w)), key=lambda i: w[i]) if nm == "maxCoeff" else min(range(len(w)), key=lambda i: w[i])
        a = [x for x in n["a"] if x.get("k") != "DefArg"]
        if a: self.store_ptr(a[0], k, n)
        return l[k]
    def store_ptr(self, a, k, n):
        p = self.rd(self.ev(a))
        if isinstance(p, PtrTo): self.store(p.v, "=", k, n)
        else: und("pointer to the position of an extremum", n)
    def absval(self, v):
        w = self.qval(v)
        if w is None: return super().absval(v)
        return v if w >= 0 else qscale(v, -1.0)
    def un_abs(self, x): return self.absval(Q(x)) if not isinstance(x, int) else abs(x)
    def symbolic_cond(self, n, op, a, b):
        x, y = self.qval(a), self.qval(b)
        if x is None or y is None: return super().symbolic_cond(n, op, a, b)
        if op in ("<", "<=", ">", ">=") and x > 0 and y > 0:
            r = min(x, y) / max(x, y)
            if 1e-9 < r < 1e-2: self.viol.append("a contribution is dropped below a relative threshold of about %.0e (line %s)" % (r, n.get("l") if n else "?"))
        if abs(x - y) < 1e-9 * max(abs(x), abs(y)): x = y
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    # ---- objects of the diatomic program
    def hook(self, n, q, nm, args, obj):
        if n["k"] == "Ctor" and obj is None:
            if "FiniteElementBasis" in q: return Opq("fem")
            if q.split("::")[-1] == "Timer" or q.startswith("Timer"): return Opq("timer")
            if q.startswith(DB + "RadialBasis"):
                if not args: return Obj(DB + "RadialBasis")
                if n.get("cp"): return NotImplemented
                o = Obj(DB + "RadialBasis"); o.f["#rad"] = self.newrad; return o
            if "MLegendreCache" in q:
                o = Obj("MLegendreCache"); o.f["#leg"] = [self.num(a) for a in args]; return o
        if obj is not None and "MLegendreCache" in q:
            o = self.rd(self.ev(obj))
            if nm == "reset": o.f["#leg"] = [self.num(a) for a in args]; return None
            und("Legendre cache", n)
        if obj is not None and q.startswith("Timer"): return Qc(0.0)
        if obj is None and nm in ("twoe_integral",) and "quadrature" in q: return self.free_twoe(args, n)
        if nm == "converge_block":
            # refining the order of a rule: the result is what the probe yields
            ar = [x for x in args if x.get("k") != "DefArg"]
            v = self.callv(self.rd(self.ev(ar[0])), [7])
            if len(ar) > 3: self.store_ptr(ar[3], 7, n)
            return v
        return super().hook(n, q, nm, args, obj)
    def radial(self, n, nm, rad, args, o):
        if "diatomic" not in (n.get("q") or ""): return super().radial(n, nm, rad, args, o)
        ar = [x for x in args if x.get("k") != "DefArg"]
        if nm in ("Nel", "Nbf", "Nprim", "max_Nprim", "get_idx"): return super().radial(n, nm, rad, args, o)
        vs = [self.rd(self.ev(x)) for x in ar]
        if nm == "radial_integral": return rad.full(("sc", vs[0], vs[1]))
        if nm == "kinetic": return rad.full("kin")
        if nm == "overlap":
            rh = vs[0].f["#rad"]; return mat(rad.nbf, rh.nbf, lambda i, j: Sy("X", rad.tag, rh.tag, ("c", vs[1]), i, j))
        if nm in ("Plm_integral", "Qlm_integral"):
            k, e, L, M, leg = vs; return rad.plm(nm[0], k, self.elem(rad, e), L, self.legm(leg, L, M, n))
        if nm == "twoe_element":
            x = Opq("twoe"); x.e = self.elem(rad, vs[0]); return x
        if nm == "twoe_integral":
            al, be, el, L, M, leg = vs; return rad.twoe(al, be, el.e if isinstance(el, Opq) else self.elem(rad, el), L, self.legm(leg, L, M, n))
        if nm == "get_nquad": return 5
        und("radial method " + nm, n)
    def legm(self, leg, L, M, n):
        m, l = leg.f["#leg"]
        if L > l: raise OutOfRange("Legendre functions are tabulated to L=%d, L=%d is used (line %s)" % (l, L, n.get("l")))
        if abs(M) > L: raise OutOfRange("|M| exceeds L")
        return m
    def free_twoe(self, args, n):
        vs = [self.rd(self.ev(x)) for x in args if x.get("k") != "DefArg"]
        el, al, be, L, M, leg = vs
        return self.newrad.twoe(al, be, el.e, L, self.legm(leg, L, M, n))

class DiatomicJobs(AtomicJobs):
    def __init__(self, C, P): Judge.__init__(self, C, P); self.scal = "double"; self.ms = methods(P, DT); self.models = pot_models(P)
    def interp(self): I = Diatomic(self.P, "double"); I.models = self.models; return I
    def equal(self, f, key, what, got, want):
        # quotients that do not cancel are compared at a generic point
        if isinstance(got, A) and isinstance(want, A) and (got.r, got.c) == (want.r, want.c):
            I = self.interp(); got = got.copy()
            for k, (g, w) in enumerate(zip(got.vals(), want.vals())):
                if isinstance(g, dict) and any(conc._names[x][0] in ("inv", "fn") for m in g for x, e in m):
                    a, b = I.qval(g), I.qval(w)
                    if a is not None and abs(a - b) <= 1e-7 * max(abs(a), abs(b), 1e-6): got.st[k] = w
        super().equal(f, key, what, got, want)
    def pure(self, ch, rad): return [c * rad.nbf + i for c in range(len(ch)) for i in range(rad.nbf) if ch[c][1] == 0 or i > 0]
    def trim(self, M, r, c): return mat(len(r), len(c), lambda i, j: M.get(r[i], c[j]))
    def done(self, nm, what, ch, rad, args, fn, pref, tag="", pred=None, Z1=3, Z2=5):
        f = self.named(nm, len(args), pred); key = "diatomic|%s%s" % (nm, tag)
        for leg in (0, 1):
            I = self.interp()
            def go():
                o = I.dbasis(self.ms, rad, ch, Z1, Z2, leg)
                w = self.blocks(ch, rad, fn); px = self.pure(ch, rad)
                w = self.trim(A([qmul(pref, x) for x in w.st], w.r, w.c), px, px)
                self.equal(f, key, what, I.run(f, o, args), w)
            self.guard(f, key, what, go, I)
    def one_electron(self):
        Y = sph.yfy; Rh = Sy("Rh")
        d = lambda a, b: 1.0 if a == b else 0.0
        sc = lambda m, n: ("sc", m, n)
        def y(a, b, c, s=0): return Y(b[0], b[1], a[0], a[1], c, s)
        for ch, els in ((DCH1, DELS), (DCH3, DELS2)):
            rad = DRad(els)
            # volume element Rh^3 sinh (cosh^2 - cos^2)
            self.done("overlap", "overlap", ch, rad, [], lambda a, b: [(d(a, b), sc(1, 2)), (-y(a, b, 2), sc(1, 0))], qpow(Rh, 3))
            self.done("kinetic", "kinetic energy", ch, rad, [], lambda a, b: [(d(a, b), "kin"), (d(a, b) * a[0] * (a[0] + 1), sc(1, 0)), (d(a, b) * a[1] ** 2, sc(-1, 0))], qscale(Rh, 0.5))
            for Z1, Z2 in ((3, 5), (4, 4), (0, 2), (7, 0)):
                self.done("nuclear", "nuclear attraction with charges %d and %d" % (Z1, Z2), ch, rad, [], lambda a, b: [(float(Z1 + Z2) * d(a, b), sc(1, 1)), (float(Z2 - Z1) * y(a, b, 1), sc(1, 0))], qscale(qpow(Rh, 2), -1.0), "|%s" % ("equal" if Z1 == Z2 else "different"), Z1=Z1, Z2=Z2)
            # z = Rh cosh cos
            self.done("dipole_z", "dipole z = R_h cosh cos", ch, rad, [], lambda a, b: [(y(a, b, 1), sc(1, 3)), (-y(a, b, 3), sc(1, 1))], qpow(Rh, 4))
            # (3 z^2 - r^2)/2, r^2 = Rh^2 (cosh^2 + cos^2 - 1)
            self.done("quadrupole_zz", "quadrupole (3 z^2 - r^2)/2", ch, rad, [],
                      lambda a, b: [(0.5 * x, k) for x, k in [(3 * y(a, b, 2), sc(1, 4)), (-d(a, b), sc(1, 4)), (-y(a, b, 2), sc(1, 2)), (d(a, b), sc(1, 2)), (-3 * y(a, b, 4), sc(1, 2)), (y(a, b, 2), sc(1, 2)), (y(a, b, 4), sc(1, 0)), (-y(a, b, 2), sc(1, 0))]], qpow(Rh, 5))
            B = Sy("B"); B2 = qscale(qmul(B, B), 1 / 8.0); R3 = qpow(Rh, 3); R5 = qpow(Rh, 5)
            # B^2/8 rho^2 - B m/2, rho = Rh sinh sin
            self.done("Bz_field", "magnetic field B^2/8 rho^2 - B m/2", ch, rad, [B],
                      lambda a, b: [(qscale(qmul(B2, R5), y(a, b, 0, 1)), sc(3, 2)), (qscale(qmul(B2, R5), -y(a, b, 2, 1)), sc(3, 0)), (qscale(qmul(B, R3), -0.5 * b[1] * d(a, b)), sc(1, 2)),
                                    (qscale(qmul(B, R3), 0.5 * b[1] * y(a, b, 2) if a[1] == b[1] else 0.0), sc(1, 0))], Qc(1.0))
            # overlap with another basis
            rad2 = DRad(DELS2, "S"); ch2 = [ch[k] for k in range(len(ch) - 1, 0, -1)] + [(4, 1), (6, 0)]
            pred = lambda f: "TwoDBasis" in f.params[0]["t"]
            f = self.named("overlap", 1, pred); key = "diatomic|overlap|cross"; what = "overlap with another basis"
            I = self.interp()
            def go():
                o = I.dbasis(self.ms, rad, ch); o2 = I.dbasis(self.ms, rad2, ch2); R3 = qpow(Rh, 3)
                X = lambda k, i, j: Sy("X", "R", "S", ("c", k), i, j)
                def e(i, j):
                    a, b = ch[i // rad.nbf], ch2[j // rad2.nbf]; x, z = i % rad.nbf, j % rad2.nbf
                    return qmul(R3, lin((d(a, b), X(2, x, z)), (-y(a, b, 2), X(0, x, z))))
                w = mat(len(ch) * rad.nbf, len(ch2) * rad2.nbf, e)
                self.equal(f, key, what, I.run(f, o, [o2]), self.trim(w, self.pure(ch, rad), self.pure(ch2, rad2)))
            self.guard(f, key, what, go, I)
    # ---- two-electron
    def tensors(self, rad, L, M):
        """radial kernels K_ab of one (L,|M|) for the channels without (0) and with (2) cosh^2, including the sign of the volume element"""
        R = {}
        for e, (a0, a1) in enumerate(rad.els):
            for f, (c0, c1) in enumerate(rad.els):
                ne, nf = rad.nprim(e), rad.nprim(f); W = rad.kernel(e, L, M) if e == f else None
                for x, ca in enumerate((0, 2)):
                    for y, cb in enumerate((0, 2)):
                        s = 1.0 if ca == cb else -1.0
                        T = R.setdefault((ca, cb), {})
                        if e != f:
                            p = rad.plm("P" if e < f else "Q", ca, e, L, M); q = rad.plm("Q" if e < f else "P", cb, f, L, M)
                        for a in range(ne):
                            for b in range(ne):
                                for c in range(nf):
                                    for d in range(nf):
                                        v = W.get(x * ne * ne + a + b * ne, y * nf * nf + c + d * nf) if W is not None else qscale(qmul(p.get(a, b), q.get(c, d)), s)
                                        if not v: continue
                                        k = (a0 + a, a0 + b, c0 + c, c0 + d); T[k] = qadd(T.get(k, {}), v)
        return R
    def dang(self, ch, rad, P, exch):
        n = rad.nbf; nc = len(ch); out = mat(nc * n, nc * n, lambda i, j: {})
        lmax = max(l for l, m in ch); Rh5 = qscale(qpow(Sy("Rh"), 5), 4 * math.pi)
        def ang(c, a, L, M, b): return sph.ycy(a[0], a[1], L, M, b[0], b[1]) if c == 0 else sph.gaunt(a[0], a[1], L, M, b[0])
        cols = {}
        for i, j in itertools.product(range(nc), repeat=2):
            M = ch[j][1] - ch[i][1]
            for k, l in itertools.product(range(nc), repeat=2):
                if ch[k][1] - ch[l][1] != M: continue
                if not any(P.get((k if not exch else i) * n + x, l * n + y) for x in range(n) for y in range(n)): continue
                for L in range(abs(M), 2 * lmax + 3):
                    for ca in (0, 2):
                        u = ang(ca, ch[j], L, M, ch[i])
                        if abs(u) < 1e-14: continue
                        for cb in (0, 2):
                            v = ang(cb, ch[k], L, M, ch[l])
                            if abs(v) < 1e-14: continue
                            kk, b = ((L, M, ca, cb, i, j), (k, l)) if not exch else ((L, M, ca, cb, j, k), (i, l))
                            dd = cols.setdefault(kk, {}); dd[b] = dd.get(b, 0.0) + u * v
        T = {}
        for (L, M, ca, cb, x, y), dd in cols.items():
            if (L, abs(M)) not in T: T[L, abs(M)] = self.tensors(rad, L, abs(M))
            Pr = mat(n, n, lambda a, b: lin(*[(c, P.get(p * n + a, q * n + b)) for (p, q), c in dd.items()]))
            m = self.fe(rad, T[L, abs(M)][ca, cb], Pr, exch)
            s = qscale(Rh5, (-1) ** (abs(M) % 2) * math.factorial(L - abs(M)) / math.factorial(L + abs(M)) * (-1.0 if exch else 1.0))
            for b in range(n):
                for a in range(n):
                    k = out.pos(x * n + a, y * n + b); out.st[k] = qadd(out.st[k], qmul(s, m.get(a, b)))
        return out
    def dtwo(self, nm, what, ch, els, absm=False, tag=""):
        f = self.named(nm, 1); rad = DRad(els); I = self.interp(); key = "diatomic|%s%s" % (nm, tag)
        def go():
            o = I.dbasis(self.ms, rad, ch)
            if absm: I.run(self.named("set_absm_symmetric", 1), o, [1])
            I.run(self.named("compute_tei", 1), o, [1])
            px = self.pure(ch, rad); inv = {p: k for k, p in enumerate(px)}; n = rad.nbf
            def el(i, j):
                (l1, m1), (l2, m2) = ch[i // n], ch[j // n]
                if absm:
                    if m1 != m2: return {}
                    return Sy("P", abs(m1), *lohi((l1, i % n), (l2, j % n)))
                return Sy("P", *lohi(i, j))
            full = mat(len(ch) * n, len(ch) * n, lambda i, j: el(i, j) if i in inv and j in inv else {})
            got = I.run(f, o, [self.trim(full, px, px)])
            self.equal(f, key, what, got, self.trim(self.dang(ch, rad, full, nm == "exchange"), px, px))
        self.guard(f, key, what, go, I)
    J = "J is the sum over L,M of 4 pi R_h^5 (-1)^M (L-|M|)!/(L+|M|)! times both angular channels and P_L^M Q_L^M"
    def dcoulomb(self):
        self.dtwo("coulomb", self.J, [(0, 0), (1, 0)], [(0, 0), (1, 1)])
        for ch, els in ((DCH2, [(0, 1), (1, 2)]), (DCH3, [(0, 1), (1, 2), (2, 3)])): self.dtwo("coulomb", self.J, ch, els)
    def dexchange(self):
        for ch, els in ((DCH2, [(0, 1), (1, 2)]), (DCH3, [(0, 1), (1, 2), (2, 3)])): self.dtwo("exchange", self.J.replace("J", "-K", 1), ch, els)
    def dexchange_absm(self):
        self.dtwo("exchange", "with a +-m symmetric density the copied half equals the exchange matrix", [(0, 0), (1, 1), (1, -1), (2, 1), (2, -1)], [(0, 1), (1, 2)], True, "|absm")
        self.dtwo("coulomb", self.J, [(1, 1), (0, 0), (1, -1)], [(0, 1), (1, 2)], True, "|absm")
