"""Angular coupling coefficients: the table, its lookup and the cos^n / sin^n couplings."""
from qatomic import *
G = "helfem::gaunt::"

class GI(Ham):
    table = True
    def hook(self, n, q, nm, args, obj):
        if nm == "eval" and "wigner_gaunt" in q:
            v = [self.num(a) for a in args]
            if any(x % 2 for x in v): raise OutOfRange("half-integer angular momenta %s" % v)
            l1, m1, l2, m2, l3, m3 = [x // 2 for x in v]
            # int Y1 Y2 Y3 = (-1)^m1 int Y_{l1,-m1}* Y2 Y3
            if m1 + m2 + m3: return {}
            return Qc((-1) ** (m1 % 2) * sph.gaunt(l1, -m1, l2, m2, l3, m3))
        if self.table: return NotImplemented
        return super().hook(n, q, nm, args, obj)

class GauntJobs(Judge):
    def __init__(self, C, P, scal): super().__init__(C, P); self.scal = scal; self.ms = methods(P, G + "GauntT<%s>" % scal)
    def table_of(self, caps):
        I = GI(self.P, self.scal); f = pick(self.ms, "GauntT", 4); o = I.construct(f, list(caps)); return I, o
    def lookup(self):
        fc = pick(self.ms, "GauntT", 4); f = pick(self.ms, "coeff", 5)
        for caps in ((3, 3, 3, -1), (2, 4, 2, -1), (4, 2, 3, 1), (5, 5, 5, 0), (3, 1, 3, 2), (0, 0, 0, -1), (4, 6, 4, 2)):
            key = "gaunt|%s|table" % self.scal; what = "the stored coefficient is the integral Y* Y Y (Lmax=%d lmax=%d lpmax=%d mcap=%d)" % caps
            def go():
                I, o = self.table_of(caps); cap = caps[3] if caps[3] >= 0 else max(caps[:3])
                for L in range(-1, caps[0] + 2):
                    for l in range(0, caps[1] + 2):
                        for lp in range(0, caps[2] + 2):
                            for M in range(-min(L, cap), min(L, cap) + 1):
                                for m in range(-min(l, cap), min(l, cap) + 1):
                                    if L > caps[0] or l > caps[1] or lp > caps[2]: continue
                                    g = I.run(f, o, [L, M, l, m, lp]); w = Qc(sph.gaunt(L, M, l, m, lp))
                                    self.C.count("gaunt_coefficients")
                                    if qdiff(Q(g), w): self.C.violation(key, "%s: coefficient <%d %d|%d %d|%d %d> is %s instead of %s" % (self.site(f), L, M, l, m, lp, M - m, qtext(Q(g)), qtext(w))); return
            self.guard(f, key, what, go)
        # requests outside the stored window must not come back as zero
        key = "gaunt|%s|window" % self.scal
        def go():
            I, o = self.table_of((4, 4, 4, 1))
            for M, m in ((2, 0), (0, 2), (-2, -1), (1, 3)):
                try: I.run(f, o, [4, M, 4, m, 4])
                except Rejected: self.C.count("window_requests"); continue
                self.C.violation(key, "%s: a coefficient outside the stored window is returned instead of being refused" % self.site(f)); return
        self.guard(f, key, "window", go)
    def free(self):
        for nm, ref, rng in (("gaunt_coefficient_T", None, 4), ("gaunt_coefficient", None, 4), ("modified_gaunt_coefficient", 1, 3)):
            fs = [g for g in self.P.find(G + nm) if g.body is not None]
            if nm.endswith("_T"): fs = [g for g in fs if True]
            for f in fs[:2]:
                key = "gaunt|%s" % nm
                def go():
                    I = GI(self.P, self.scal)
                    for L, l, lp in itertools.product(range(rng), repeat=3):
                        for M in range(-L, L + 1):
                            for m in range(-l, l + 1):
                                mp = M - m
                                if abs(mp) > lp: continue
                                g = I.run(f, None, [L, M, l, m, lp, mp]); w = Qc(sph.ycy(L, M, l, m, lp, mp) if ref else sph.gaunt(L, M, l, m, lp, mp))
                                self.C.count("gaunt_coefficients")
                                if qdiff(Q(g), w): self.C.violation(key, "%s: <%d %d|%d %d|%d %d> is %s instead of %s" % (self.site(f), L, M, l, m, lp, mp, qtext(Q(g)), qtext(w))); return
                self.guard(f, key, nm, go)
    def couplings(self):
        I0 = GI(self.P, self.scal); I0.table = False
        def obj(*caps): o = Obj(G + "GauntT<%s>" % self.scal); o.f["#g"] = caps; return o
        for nm, c, s in (("cosine_coupling", 1, 0), ("cosine2_coupling", 2, 0), ("cosine3_coupling", 3, 0), ("cosine4_coupling", 4, 0), ("cosine5_coupling", 5, 0), ("sine2_coupling", 0, 1), ("cosine2_sine2_coupling", 2, 1)):
            f = pick(self.ms, nm, 4); key = "gaunt|%s|%s" % (self.scal, nm)
            def go():
                for lj in range(5):
                    for li in range(5):
                        for mj in range(-lj, lj + 1):
                            for mi in range(-li, li + 1):
                                g = I0.run(f, obj(9, 9, 9, 9), [lj, mj, li, mi]); w = Qc(sph.yfy(lj, mj, li, mi, c, s)); self.C.count("couplings")
                                if qdiff(Q(g), w): self.C.violation(key, "%s: <%d %d| |%d %d> is %s instead of %s" % (self.site(f), lj, mj, li, mi, qtext(Q(g)), qtext(w))); return
            self.guard(f, key, nm, go)
        f = pick(self.ms, "mod_coeff", 6); key = "gaunt|%s|mod_coeff" % self.scal
        def go():
            for lj, L, li in itertools.product(range(4), range(6), range(4)):
                for mj in range(-lj, lj + 1):
                    for M in range(-L, L + 1):
                        for mi in range(-li, li + 1):
                            if mj != M + mi and (mj + M + mi) % 3: continue
                            g = I0.run(f, obj(12, 12, 12, 12), [lj, mj, L, M, li, mi]); w = Qc(sph.ycy(lj, mj, L, M, li, mi)); self.C.count("couplings")
                            if qdiff(Q(g), w): self.C.violation(key, "%s: <%d %d|cos^2 Y_%d%d|%d %d> is %s instead of %s" % (self.site(f), lj, mj, L, M, li, mi, qtext(Q(g)), qtext(w))); return
        self.guard(f, key, "mod_coeff", go)
