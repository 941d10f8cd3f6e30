"""Assembly of the Hamiltonian matrices of the atomic program against the textbook formulas (references written from the physics)."""
import math, itertools, time, signal
from ham import *
import sph
TB = ABAS + "TwoDBasisT<%s>"

def methods(P, cls):
    out = {}
    for f in P.funcs.values():
        if f.q.startswith(cls + "::") and f.body is not None: out.setdefault(f.q[len(cls) + 2:], []).append(f)
    return out
def pick(ms, name, np_, pred=None):
    for f in ms.get(name, []):
        if len(f.params) == np_ and (pred is None or pred(f)): return f
    und("no function " + name)

ELS = [(0, 1), (1, 3), (3, 4)]          # three elements of unequal size, one shared function between neighbours
ELS2 = [(0, 1), (1, 2)]
CH1 = [(0, 0), (1, -1), (2, 1), (1, 0), (3, 0), (2, 0), (1, 1), (2, -2), (3, 2)]
CH2 = [(0, 0), (1, 0), (1, 1), (1, -1), (2, 1)]
CH3 = [(1, 1), (2, -1), (0, 0)]

class Atomic(Ham):
    cls = ABAS + "TwoDBasisT"
    def basis(self, ms, rad, ch, Z=3, Zl=0, Zr=0, model=None):
        lv = A([l for l, m in ch], len(ch), 1); mv = A([m for l, m in ch], len(ch), 1)
        f = pick(ms, "TwoDBasisT", 12)
        self.newrad = rad
        pt = self.models["POINT_NUCLEUS"] if model is None else model
        o = self.construct(f, [Z, pt, Sy("Rrms"), Opq("poly"), 0, 5, vec([Sy("b", k) for k in range(len(rad.els) + 1)]), lv, mv, Zl, Zr, Sy("Rhalf")])
        o.cls = TB % self.scal
        return o
    def hook(self, n, q, nm, args, obj):
        if n["k"] == "Ctor" and obj is None:
            if "FiniteElementBasisT" in q: return Opq("fem")
            if "FEMRadialBasisT" in q:
                if not args: return Obj(ABAS + "FEMRadialBasisT")
                if n.get("cp"): return NotImplemented
                return self.radobj(self.newrad)
        if nm == "get_nuclear_model" and obj is None: return Opq("nuc:" + ",".join(str(pkey(self.num(a))) for a in args))
        if nm == "form_Sinvh":
            S = self.rd(self.ev(args[0])); ch = self.num(args[1])
            key = tuple(sid(("k", qkey(x))) for x in S.vals())
            return mat(S.r, S.r, lambda i, j: Sy("Sinvh", ch, sid(key), i, j))
        return super().hook(n, q, nm, args, obj)
    def e_Delete(self, n): return None

def emb(nch, nr, f):
    """matrix of nch x nch blocks of nr x nr"""
    return mat(nch * nr, nch * nr, lambda i, j: f(i // nr, j // nr, i % nr, j % nr))
def lin(*terms):
    r = {}
    for c, q in terms:
        if c: r = qadd(r, qmul(Q(c) if isinstance(c, dict) else Qc(c), q))
    return r

BUDGET = 420.0          # seconds one analysis process may take
START = [time.monotonic()]

class Judge:
    """compares interpreted matrices with reference ones and reports"""
    def __init__(self, C, P): self.C = C; self.P = P
    def site(self, f): return "%s (%s:%d)" % (f.q, f.file, f.line)
    def guard(self, f, key, what, fn, interp=None):
        """run one obligation; one that does not end in time is reported as undecided"""
        left = BUDGET - (time.monotonic() - START[0])
        if left < 5: self.C.undecide("%s: %s: no time left" % (f.q, what)); return
        limit = min(45.0, left)
        DEADLINE[0] = time.monotonic() + limit
        def late(sig, fr): raise Undecided("takes more than %d seconds" % limit)
        old = signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, limit + 1.0)
        try:
            try: fn()
            finally: signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
        except Rejected as e: self.C.violation(key + "|throws", "%s: %s: %s" % (self.site(f), what, e))
        except OutOfRange as e: self.C.violation(key + "|range", "%s: %s: reads or writes outside a matrix: %s" % (self.site(f), what, e))
        except Undecided as e: self.C.undecide("%s: %s: %s" % (f.q, what, e))
        except RecursionError: self.C.undecide("%s: %s: recursion" % (f.q, what))
        except Exception as e: self.C.undecide("%s: %s: not interpretable (%s: %s)" % (f.q, what, type(e).__name__, str(e)[:80]))
        if interp is not None:
            for v in interp.viol: self.C.violation(key + "|screen", "%s: %s: %s" % (self.site(f), what, v))
            interp.viol = []
    def equal(self, f, key, what, got, want):
        C = self.C
        if isinstance(got, A) and isinstance(want, A):
            C.count("matrices"); C.count("matrix_entries", want.r * want.c)
            if (got.r, got.c) != (want.r, want.c):
                C.violation(key, "%s: %s: the matrix is %dx%d instead of %dx%d" % (self.site(f), what, got.r, got.c, want.r, want.c)); return
            for j in range(want.c):
                for i in range(want.r):
                    g, w = got.get(i, j), want.get(i, j)
                    if g is None: C.violation(key, "%s: %s: element (%d,%d) is never set" % (self.site(f), what, i, j)); return
                    d = qdiff(Q(g), Q(w))
                    if d:
                        m = sorted(d, key=lambda k: -abs(d[k][0] - d[k][1]))[0]
                        C.violation(key, "%s: %s: element (%d,%d) has %.8g * %s where %.8g is required" % (self.site(f), what, i, j, d[m][0], mono(m), d[m][1])); return
            C.sample("%s: %s" % (f.q.split("::")[-1], what))
            return
        C.count("values")
        if got != want: C.violation(key, "%s: %s: is %s instead of %s" % (self.site(f), what, short(got), short(want)))
def short(v): return str(v)[:160]

def pot_models(P):
    out = {}
    for f in P.funcs.values():
        if f.body is None or not f.q.endswith("::get_nuclear_model"): continue
        for n in f.walk():
            if n["k"] == "Ref" and n.get("vk") == "enum": out[n["n"]] = int(n["val"])
    return out

class AtomicJobs(Judge):
    def __init__(self, C, P, scal):
        super().__init__(C, P); self.scal = scal; self.ms = methods(P, TB % scal); self.models = pot_models(P)
    def interp(self):
        I = Atomic(self.P, self.scal); I.models = self.models; return I
    def named(self, nm, np_, pred=None): return pick(self.ms, nm, np_, pred)
    def one(self, nm, what, ch, rad, args, want, Z=3, Zl=0, Zr=0, model=None, np_=None, tag="", pred=None):
        f = self.named(nm, len(args) if np_ is None else np_, pred)
        I = self.interp(); key = "atomic|%s|%s%s" % (self.scal, nm, tag)
        def go():
            o = I.basis(self.ms, rad, ch, Z, Zl, Zr, model)
            self.equal(f, key, what, I.run(f, o, args), want)
        self.guard(f, key, what, go, I)
    def blocks(self, ch, rad, fn):
        """fn(channel i, channel j) -> list of (coefficient, radial operator)"""
        full = {}
        def op(k):
            if k not in full: full[k] = rad.full(k)
            return full[k]
        cache = {}
        def e(a, b, i, j):
            if (a, b) not in cache: cache[a, b] = fn(ch[a], ch[b])
            return lin(*[(c, op(k).get(i, j)) for c, k in cache[a, b]])
        return emb(len(ch), rad.nbf, e)
    def one_electron(self):
        for ch in (CH1, CH3): self.one_electron_(ch)
    def one_electron_(self, ch):
        rad = Rad(ELS)
        d = lambda a, b: 1.0 if a == b else 0.0
        B = lambda fn: self.blocks(ch, rad, fn)
        self.one("overlap", "overlap is the radial overlap on equal channels", ch, rad, [], B(lambda a, b: [(d(a, b), ("r", 0))]))
        self.one("kinetic", "kinetic energy is T_r + l(l+1)/(2 r^2) on equal channels", ch, rad, [], B(lambda a, b: [(d(a, b), "kin"), (d(a, b) * a[0] * (a[0] + 1) / 2.0, ("r", -2))]))
        self.one("nuclear", "nuclear attraction is -Z/r", ch, rad, [], B(lambda a, b: [(-3.0 * d(a, b), ("r", -1))]))
        self.one("nuclear", "no nuclei, no attraction", ch, rad, [], B(lambda a, b: []), Z=0, tag="|Z0")
        def off(zc, zl, zr):
            def f(a, b):
                out = [(-zc * d(a, b), ("r", -1))] if zc else []
                if a[1] == b[1]:
                    for L in range(abs(a[0] - b[0]), a[0] + b[0] + 1):
                        g = sph.gaunt(a[0], a[1], L, 0, b[0]); out.append((g * ((-1) ** L * zl + zr), ("off", pkey(Sy("Rhalf")), L)))
                return out
            return f
        for zc, zl, zr in ((0, 3, 5), (2, 4, 0), (0, 0, 7)):
            self.one("nuclear", "off-center charges couple as sum_L ((-1)^L Zl + Zr) <Y|Y_L0|Y>", ch, rad, [], B(off(float(zc), zl, zr)), Z=zc, Zl=zl, Zr=zr, tag="|off")
        for name, v in sorted(self.models.items()):
            if name in ("POINT_NUCLEUS", "NOSUCH_NUCLEUS"): continue
            k = ("mp", "nuc:%d,3,%s" % (v, pkey(Sy("Rrms"))))
            self.one("nuclear", "finite nucleus uses its own potential (%s)" % name, ch, rad, [], B(lambda a, b: [(d(a, b), k)]), model=v, tag="|finite")
        pred = lambda f: "ModelPotential" in f.params[0]["t"]
        self.one("model_potential", "a central potential is diagonal in the channels", ch, rad, [Opq("pot")], B(lambda a, b: [(d(a, b), ("mp", "pot"))]), pred=pred)
        r0, V, sh = Sy("r0"), Sy("V"), Sy("shift")
        for ic in (1, 2, 3, 4):
            self.one("confinement", "confinement is diagonal in the channels and receives the requested parameters", ch, rad, [2, r0, ic, V, sh],
                     B(lambda a, b: [(d(a, b), ("conf", 2, pkey(r0), ic, pkey(V), pkey(sh)))]))
        self.one("confinement", "no confinement, no potential", ch, rad, [2, r0, 0, V, sh], B(lambda a, b: []), tag="|0")
        Y = sph.yfy
        self.one("dipole_z", "dipole is r cos(theta)", ch, rad, [], B(lambda a, b: [(Y(a[0], a[1], b[0], b[1], 1), ("r", 1))]))
        self.one("quadrupole_zz", "quadrupole is r^2 (3 cos^2 - 1)/2", ch, rad, [], B(lambda a, b: [((3 * Y(a[0], a[1], b[0], b[1], 2) - d(a, b)) * 0.5, ("r", 2))]))
        Bf = Sy("B"); B2 = qmul(Bf, Bf)
        self.one("Bz_field", "magnetic field is B^2/8 r^2 sin^2 - B m/2", ch, rad, [Bf],
                 B(lambda a, b: [(qscale(B2, Y(a[0], a[1], b[0], b[1], 0, 1) / 8.0), ("r", 2)), (qscale(Bf, -0.5 * a[1] * d(a, b)), ("r", 0))]))
        self.cross(ch); self.sinvh(ch)
    def cross(self, ch):
        rad = Rad(ELS); rad2 = Rad(ELS2, "S"); ch2 = [ch[k] for k in range(len(ch) - 1, 0, -1)] + [(4, 1)]
        pred = lambda f: "TwoDBasisT" in f.params[0]["t"]
        f = self.named("overlap", 1, pred); key = "atomic|%s|overlap|cross" % self.scal; what = "overlap with another basis couples channels of equal l and m"
        I = self.interp()
        def go():
            o = I.basis(self.ms, rad, ch); o2 = I.basis(self.ms, rad2, ch2)
            w = mat(len(ch) * rad.nbf, len(ch2) * rad2.nbf, lambda i, j: Sy("X", "R", "S", ("r", 0), i % rad.nbf, j % rad2.nbf) if ch[i // rad.nbf] == ch2[j // rad2.nbf] else {})
            self.equal(f, key, what, I.run(f, o, [o2]), w)
        self.guard(f, key, what, go, I)
    def sinvh(self, ch):
        f = self.named("Sinvh", 2); fi = self.named("get_sym_idx", 1); rad = Rad(ELS)
        for sym in (0, 1, 2):
            for chol in (0, 1):
                I = self.interp(); key = "atomic|%s|Sinvh|%d" % (self.scal, sym); what = "orthonormalises every symmetry block of the overlap on its own functions (symmetry %d)" % sym
                def go():
                    o = I.basis(self.ms, rad, ch); N = len(ch) * rad.nbf
                    S = self.blocks(ch, rad, lambda a, b: [(1.0 if a == b else 0.0, ("r", 0))])
                    idx = [range(N)] if sym == 0 else [[i for i in range(N) if ch[i // rad.nbf][1] == m] for m in sorted({m for l, m in ch})] if sym == 1 else [[k * rad.nbf + i for i in range(rad.nbf)] for k in range(len(ch))]
                    w = mat(N, N, lambda i, j: {}); off = 0
                    for rows in idx:
                        rows = list(rows); key_ = tuple(sid(("k", qkey(S.get(a, b)))) for b in rows for a in rows)
                        for b in range(len(rows)):
                            for a in range(len(rows)): w.st[w.pos(rows[a], off + b)] = Sy("Sinvh", chol, sid(key_), a, b)
                        off += len(rows)
                    self.equal(f, key, what, I.run(f, o, [chol, sym]), w)
                self.guard(f, key, what, go, I)

    # ---- two-electron matrices
    def density(self, N, tag="P"): return mat(N, N, lambda i, j: Sy(tag, *lohi(i, j)))
    def fe_tensor(self, rad, kind, L, par=None):
        """radial two-electron integrals (ab|cd) of one multipole: own element from the factor, other elements from the inner and outer moments"""
        n = rad.nbf; R = {}
        small = {"c": ("r", L), "y": ("il", L, par)}.get(kind); big = {"c": ("r", -L - 1), "y": ("kl", L, par)}.get(kind)
        nm = {"c": "c%d" % L, "y": "y%d,%s" % (L, par)}.get(kind)
        for e, (a0, a1) in enumerate(rad.els):
            for f, (c0, c1) in enumerate(rad.els):
                if kind == "e": t = rad.pairint(("e", L, par), e, f)
                elif e == f: t = rad.tei(nm, e)
                else:
                    x, y = (rad.eint(small, e), rad.eint(big, f)) if e < f else (rad.eint(big, e), rad.eint(small, f)); t = None
                ne, nf = rad.nprim(e), rad.nprim(f)
                for a in range(ne):
                    for b in range(ne):
                        for c in range(nf):
                            for d in range(nf):
                                v = t.get(a + b * ne, c + d * nf) if t is not None else qmul(x.get(a, b), y.get(c, d))
                                k = (a0 + a, a0 + b, c0 + c, c0 + d); R[k] = qadd(R.get(k, {}), v)
        return R
    def fe(self, rad, R, P, exch):
        """J_ab = sum (ab|cd) P_cd or K_ac = sum (ab|cd) P_bd"""
        n = rad.nbf; out = mat(n, n, lambda i, j: {})
        for (a, b, c, d), v in R.items():
            k, p = (out.pos(a, b), P.get(c, d)) if not exch else (out.pos(a, c), P.get(b, d))
            if p: out.st[k] = qadd(out.st[k], qmul(v, p))
        return out
    def radial_two_electron(self):
        """the element-wise assemblies of the radial Coulomb and exchange matrices of one multipole"""
        for els in (ELS, ELS2, [(0, 2)]):
            rad = Rad(els, "R"); P = self.density(rad.nbf); lam = Sy("lambda")
            for nm, exch, kind in (("assemble_J_FE_one_multipole", 0, "c"), ("assemble_K_FE_one_multipole", 1, "c"), ("assemble_J_FE_one_multipole_yukawa", 0, "y"), ("assemble_K_FE_one_multipole_yukawa", 1, "y")):
                f = next((g for g in self.P.find(ABAS + nm) if g.body is not None and "long" not in g.params[0]["t"]), None)
                if f is None: self.C.undecide("no function " + nm); continue
                for L in (0, 2):
                    I = self.interp(); key = "fe|%s" % nm; what = "%s of one multipole over all pairs of elements" % ("exchange" if exch else "Coulomb")
                    def go():
                        r = I.run(f, None, [I.radobj(rad), L] + ([lam] if kind == "y" else []) + [P.copy()])
                        self.equal(f, key, what, r, self.fe(rad, self.fe_tensor(rad, kind, L, pkey(lam) if kind == "y" else None), P, exch))
                    self.guard(f, key, what, go, I)
    def angular(self, ch, rad, P, exch, kind, par=None, scale=lambda L: Qc(4 * math.pi / (2 * L + 1))):
        """Coulomb or exchange matrix from the definition"""
        n = rad.nbf; nc = len(ch); out = mat(nc * n, nc * n, lambda i, j: {})
        lmax = max(l for l, m in ch); g = sph.gaunt
        T = {L: self.fe_tensor(rad, kind, L, par) for L in range(2 * lmax + 1)}
        cols = {}
        for ij in itertools.product(range(nc), repeat=2):
            (li, mi), (lj, mj) = ch[ij[0]], ch[ij[1]]
            for kl in itertools.product(range(nc), repeat=2):
                (lk, mk), (ll, ml) = ch[kl[0]], ch[kl[1]]
                if mj - mi != mk - ml: continue
                for L in range(abs(mj - mi), 2 * lmax + 1):
                    c = g(lj, mj, L, mj - mi, li) * g(lk, mk, L, mk - ml, ll)
                    if not c: continue
                    k = (L, ij[0], ij[1]) if not exch else (L, ij[1], kl[0])
                    b = (kl[0], kl[1]) if not exch else (ij[0], kl[1])
                    d = cols.setdefault(k, {}); d[b] = d.get(b, 0.0) + c
        for (L, x, y), d in cols.items():
            Pr = mat(n, n, lambda a, b: lin(*[(c, P.get(p * n + a, q * n + b)) for (p, q), c in d.items()]))
            m = self.fe(rad, T[L], Pr, exch); s = scale(L)
            for b in range(n):
                for a in range(n):
                    k = out.pos(x * n + a, y * n + b); out.st[k] = qadd(out.st[k], qmul(s, m.get(a, b)), -1.0 if exch else 1.0)
        return out
    def two(self, nm, kind, setup, what, ch, els, scale=None, tag=""):
        f = self.named(nm, 1); rad = Rad(els); I = self.interp(); key = "atomic|%s|%s%s" % (self.scal, nm, tag)
        lam = Sy("lambda")
        def go():
            o = I.basis(self.ms, rad, ch)
            for s, a in setup: I.run(self.named(s, len(a)), o, a)
            P = self.density(len(ch) * rad.nbf)
            got = I.run(f, o, [P.copy()])
            kw = {"scale": scale} if scale else {}
            self.equal(f, key, what, got, self.angular(ch, rad, P, nm != "coulomb", kind, pkey(lam) if kind != "c" else None, **kw))
        self.guard(f, key, what, go, I)
    def coulomb(self):
        for ch, els in ((CH2, ELS2), (CH3, ELS2), ([(0, 0), (2, 0)], ELS)):
            self.two("coulomb", "c", [("compute_tei", [1])], "J is sum over L,M of 4 pi/(2L+1) <Y|Y_LM|Y><Y|Y_LM|Y> (ij|kl)_L P_kl", ch, els)
    def exchange(self):
        for ch, els in ((CH2, ELS2), (CH3, ELS2), ([(0, 0), (2, 0)], ELS)):
            self.two("exchange", "c", [("compute_tei", [1])], "K is - sum over L,M of 4 pi/(2L+1) <Y|Y_LM|Y><Y|Y_LM|Y> (ij|kl)_L P_il", ch, els)
    def rs_exchange(self):
        lam = Sy("lambda"); l4 = qscale(lam, 4 * math.pi)
        for ch, els in ((CH2, ELS2), (CH3, ELS2)):
            self.two("rs_exchange", "y", [("compute_yukawa", [lam])], "screened exchange uses 4 pi lambda and the Yukawa integrals", ch, els, lambda L: l4, "|yukawa")
            self.two("rs_exchange", "e", [("compute_erfc", [lam])], "short-range exchange uses 4 pi mu/(2L+1) and the erfc integrals", ch, els, lambda L: qscale(l4, 1.0 / (2 * L + 1)), "|erfc")
        # both kernels in sequence: the last one requested counts
        self.two("rs_exchange", "e", [("compute_yukawa", [lam]), ("compute_erfc", [lam])], "the kernel requested last is used", CH3, ELS2, lambda L: qscale(l4, 1.0 / (2 * L + 1)), "|erfc")
        self.two("rs_exchange", "y", [("compute_erfc", [lam]), ("compute_yukawa", [lam])], "the kernel requested last is used", CH3, ELS2, lambda L: l4, "|yukawa")

# ---------------------------------------------------------------- spherically averaged atoms
SB = "helfem::sadatom::basis::TwoDBasis"
class Sadatom(Atomic):
    def sbasis(self, ms, rad, lmax, Z=3, model=None):
        f = pick(ms, "TwoDBasis", 9); self.newrad = rad
        pt = self.models["POINT_NUCLEUS"] if model is None else model
        o = self.construct(f, [Z, pt, Sy("Rrms"), Opq("poly"), 0, 5, vec([Sy("b", k) for k in range(len(rad.els) + 1)]), lmax, 1])
        o.cls = SB; return o
    def radial(self, n, nm, rad, args, o):
        if nm == "matrix_element":
            vs = [self.rd(self.ev(x)) for x in args if x.get("k") != "DefArg"]
            if len(vs) >= 3 and isinstance(vs[0], int) and isinstance(vs[1], int): return rad.full(("me", vs[0], vs[1]) + tuple(v.what if isinstance(v, Opq) else "list" if isinstance(v, Vc) else "?" for v in vs[2:]))
            und("matrix_element", n)
        return super().radial(n, nm, rad, args, o)

class SadatomJobs(AtomicJobs):
    def __init__(self, C, P): Judge.__init__(self, C, P); self.scal = "double"; self.ms = methods(P, SB); self.models = pot_models(P)
    def interp(self): I = Sadatom(self.P, "double"); I.models = self.models; return I
    def sone(self, nm, what, rad, args, want, model=None, tag="", pred=None):
        f = self.named(nm, len(args), pred); I = self.interp(); key = "sadatom|%s%s" % (nm, tag)
        def go(): self.equal(f, key, what, I.run(f, I.sbasis(self.ms, rad, 2, 3, model), args), want)
        self.guard(f, key, what, go, I)
    def one_electron(self):
        rad = Rad(ELS); F = rad.full
        def sc(m, c): return A([qscale(x, c) for x in m.st], m.r, m.c)
        self.sone("overlap", "overlap", rad, [], F(("r", 0)))
        self.sone("kinetic", "radial kinetic energy", rad, [], F("kin"))
        self.sone("kinetic_l", "centrifugal term 1/(2 r^2)", rad, [], sc(F(("r", -2)), 0.5))
        self.sone("nuclear", "nuclear attraction is -Z/r", rad, [], sc(F(("r", -1)), -3.0))
        for name, v in sorted(self.models.items()):
            if name in ("POINT_NUCLEUS", "NOSUCH_NUCLEUS"): continue
            self.sone("nuclear", "finite nucleus uses its own potential (%s)" % name, rad, [], F(("mp", "nuc:%d,3,%s" % (v, pkey(Sy("Rrms"))))), model=v, tag="|finite")
        self.sone("model_potential", "model potential", rad, [Opq("pot")], F(("mp", "pot")))
        r0, V, sh = Sy("r0"), Sy("V"), Sy("shift")
        for ic in (1, 2, 3, 4): self.sone("confinement", "confinement receives the requested parameters", rad, [2, r0, ic, V, sh], F(("conf", 2, pkey(r0), ic, pkey(V), pkey(sh))))
        self.sone("confinement", "no confinement, no potential", rad, [2, r0, 0, V, sh], mat(rad.nbf, rad.nbf, lambda i, j: {}), tag="|0")
        f = self.named("overlap", 1); I = self.interp(); rad2 = Rad(ELS2, "S")
        def go():
            o = I.sbasis(self.ms, rad, 2); o2 = I.sbasis(self.ms, rad2, 1)
            self.equal(f, "sadatom|overlap|cross", "overlap with another basis", I.run(f, o, [o2]), mat(rad.nbf, rad2.nbf, lambda i, j: Sy("X", "R", "S", ("r", 0), i, j)))
        self.guard(f, "sadatom|overlap|cross", "cross", go, I)
        f = self.named("Rmatrices", 0); I = self.interp()
        def go():
            r = I.run(f, I.sbasis(self.ms, rad, 2), [])
            for p in r.items:
                k, m = [I.rd(x) for x in I.rd(p).items]; self.equal(f, "sadatom|Rmatrices", "the matrix stored for power %d is the integral of r^%d" % (k, k), m, F(("r", k)))
        self.guard(f, "sadatom|Rmatrices", "powers of r", go, I)
    def scoulomb(self):
        f = self.named("coulomb", 1)
        for els in (ELS, ELS2):
            rad = Rad(els); I = self.interp(); key = "sadatom|coulomb"; what = "J is 4 pi (ij|kl)_0 P_kl"
            def go():
                o = I.sbasis(self.ms, rad, 1); I.run(self.named("compute_tei", 0), o, []); P = self.density(rad.nbf)
                w = self.fe(rad, self.fe_tensor(rad, "c", 0), P, 0)
                self.equal(f, key, what, I.run(f, o, [P.copy()]), A([qscale(x, 4 * math.pi) for x in w.st], w.r, w.c))
            self.guard(f, key, what, go, I)
    def savg(self, lo, li, L):
        s = 0.0
        for a in range(-lo, lo + 1):
            for b in range(-li, li + 1): s += sph.gaunt(lo, a, L, a - b, li) ** 2
        return s / (2 * lo + 1)
    def sexchange(self):
        lam = Sy("lambda"); l4 = qscale(lam, 4 * math.pi)
        for nm, kind, setup, scale, tag in (("exchange", "c", [("compute_tei", [])], lambda L: Qc(4 * math.pi / (2 * L + 1)), ""),
                                            ("rs_exchange", "y", [("compute_yukawa", [lam])], lambda L: l4, "|yukawa"), ("rs_exchange", "e", [("compute_erfc", [lam])], lambda L: qscale(l4, 1.0 / (2 * L + 1)), "|erfc"),
                                            ("rs_exchange", "e", [("compute_yukawa", [lam]), ("compute_erfc", [lam])], lambda L: qscale(l4, 1.0 / (2 * L + 1)), "|erfc"),
                                            ("rs_exchange", "y", [("compute_erfc", [lam]), ("compute_yukawa", [lam])], lambda L: l4, "|yukawa")):
            f = self.named(nm, 1)
            for lmax, els in ((2, ELS2), (1, ELS)):
                rad = Rad(els); I = self.interp(); key = "sadatom|%s%s" % (nm, tag); what = "K of one l is averaged over m and summed over the input shells"
                def go():
                    o = I.sbasis(self.ms, rad, lmax)
                    for s, a in setup: I.run(self.named(s, len(a)), o, a)
                    P = [self.density(rad.nbf, "P%d" % l) for l in range(lmax + 1)]
                    r = I.run(f, o, [Vc([p.copy() for p in P])])
                    if len(r.items) != lmax + 1: self.C.violation(key, "%s: %d blocks instead of %d" % (self.site(f), len(r.items), lmax + 1)); return
                    for lo in range(lmax + 1):
                        w = mat(rad.nbf, rad.nbf, lambda i, j: {})
                        for L in range(2 * lmax + 1):
                            T = None
                            Pr = mat(rad.nbf, rad.nbf, lambda i, j: {})
                            for li in range(lmax + 1):
                                c = self.savg(lo, li, L)
                                if c:
                                    for k in range(len(Pr.st)): Pr.st[k] = qadd(Pr.st[k], P[li].st[k], c)
                            m = self.fe(rad, self.fe_tensor(rad, kind, L, pkey(lam)), Pr, 1); s = scale(L)
                            for k in range(len(w.st)): w.st[k] = qadd(w.st[k], qmul(s, m.st[k]), -1.0)
                        self.equal(f, key, what + " (l=%d)" % lo, I.rd(r.items[lo]), w)
                self.guard(f, key, what, go, I)
        f = self.named("slater_F", 2); rad = Rad(ELS); I = self.interp()
        def go():
            for k in (0, 2):
                o = I.sbasis(self.ms, rad, 1); c = vec([Sy("c", i) for i in range(rad.nbf)])
                w = {}
                for (a, b, cc, d), v in self.fe_tensor(rad, "c", k).items(): w = qadd(w, qmul(v, qmul(qmul(c.get(a), c.get(b)), qmul(c.get(cc), c.get(d)))))
                self.equal(f, "sadatom|slater_F", "F^k is the self-repulsion of the orbital", A([I.run(f, o, [k, c.copy()])], 1, 1), A([w], 1, 1))
        self.guard(f, "sadatom|slater_F", "F^k", go, I)
