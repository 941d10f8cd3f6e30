"""The self-consistent-field drivers: main() of the atomic and diatomic programs is interpreted with symbolic matrices, its Fock
builder is applied to symbolic orbitals and occupations, and energies, Fock matrices, block data, guesses and saved densities are
compared with the ones written from the energy expression."""
from qsym import *
import conc

class Stop(Exception): pass

class DriverMix(StrMix):
    opts = {}
    def start(self, opts, charges, hyb, old=1):
        self.opts = dict(opts); self.defaults = {}; self.charges = charges; self.hyb = hyb
        self.rec = {"written": {}, "fock0": None, "orb0": None, "fixed": None, "solver": None, "eig": [], "computed": []}
        self.N = None
    # ---- symbols
    def symbolic_cond(self, n, op, a, b):
        """decided for generic positive values of the symbols"""
        x, y = self.qval(a), self.qval(b)
        if x is None or y is None: und("condition on a symbolic value", n)
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    def symm(self, *k): return mat(self.N, self.N, lambda i, j: Sy(*k, *lohi(i, j)))
    def mkey(self, M): return sid(("m", M.r, M.c) + tuple(qkey(x) for x in M.vals()))
    def opaque(self, nm, *Ms): return self.symm(nm, *[self.mkey(M) for M in Ms])
    def field(self, o, n, t):
        if o.cls == "#timer" or "FockTimer" in o.cls: return {}
        return super().field(o, n, t)
    def hook(self, n, q, nm, args, obj):
        ar = [x for x in args if x.get("k") != "DefArg"]
        V = lambda k: self.rd(self.ev(ar[k]))
        if obj is None:
            if n["k"] == "Ctor":
                if n.get("cp") or not q: return super().hook(n, q, nm, args, obj)
                if "cmdline::parser" in q: return Obj("#parser")
                if "SCFSolver" in q:
                    o = Obj("#solver"); self.rec["solver"] = [self.copyval(V(k)) if not isinstance(V(k), Lam) else V(k) for k in range(len(ar))]; return o
                if "dftgrid" in q and "Grid" in q: o = Obj("#grid"); o.f["purem"] = int("PureM" in q); return o
                if "TwoDGrid" in q: return Obj("#grid")
                if "Checkpoint" in q: return Obj("#chk")
                if "SelfAdjointEigenSolver" in q: o = Obj("#eig"); o.f["m"] = V(0).copy(); self.rec["eig"].append(o.f["m"]); return o
                if "shared_ptr" in q: return V(0) if ar else Opq("null")
                if re.match(r"(helfem::)?Timer(::Timer)?$", q): return Obj("#timer")
                if "FockTimer" in q and not q.startswith("std::"): return Obj("#timer")
                if "TwoDBasis" in q and not ar: return Obj("#oldbasis")
                return super().hook(n, q, nm, args, obj)
            if n["k"] == "New":
                pass
            f = q.split("::")[-1].split("<")[0]
            if f in ("make_unique", "make_shared"):
                m = re.search(r"(?:unique_ptr|shared_ptr|_MakeUniq|_NonArray)<(?:const )?([\w:]+)", (n.get("t") or "") + " " + (n.get("rt") or "") + " " + q)
                if not m: und("make_unique", n)
                return Opq("%s:%s" % (m.group(1).split("::")[-1], ",".join(str(pkey(V(k))) for k in range(len(ar)))))
            if f == "get_Z":
                t = self.text(V(0)); return self.charges.get(t, 0) if t else 0
            if f in ("set_verbosity", "print_info", "print_citation", "set_omp", "fflush", "printf"): return None
            if f == "parse_xc_func":
                self.store(self.ev(ar[0]), "=", self.hyb["x"], n); self.store(self.ev(ar[1]), "=", self.hyb["c"], n); return None
            if f == "is_supported": return 1
            if f == "range_separation":
                for k, v in zip((1, 2, 3), (self.hyb["omega"], self.hyb["kfrac"], self.hyb["kshort"])): self.store(self.ev(ar[k]), "=", v, n)
                return None
            if f == "is_range_separated":
                self.store(self.ev(ar[1]), "=", int(self.hyb["rs"] == "erfc"), n); self.store(self.ev(ar[2]), "=", int(self.hyb["rs"] == "yukawa"), n); return None
            if f in ("get_basis", "get_basis_T"): return Opq("poly")
            if f == "get_nuclear_model": return Opq("nucmodel:%s" % ",".join(str(pkey(V(k))) for k in range(len(ar))))
            if f in ("normal_grid", "form_grid"): return vec([Sy("b", k) for k in range(len(self.newrad.els) + 1)])
            if f == "arcosh": return qfn("arcosh", Q(V(0)))
            if f in ("atoi", "stoi"): return int(self.text(V(0)) or 0)
            if f == "form_Sinvh":
                S = V(0); k = self.mkey(S); return mat(S.r, S.r, lambda i, j: Sy("X", k, i, j))
            if f == "read_raw_ascii_imat":
                o = self.opts["occs"]; return A([o[i][j] for j in range(len(o[0])) for i in range(len(o))], len(o), len(o[0]))
            if f in ("tie",): return Vc([self.ev(x) for x in ar])
            if f == "time": return 0
            return super().hook(n, q, nm, args, obj)
        # ---- methods
        if "cmdline::parser" in q:
            if nm == "add":
                self.defaults[self.text(V(0))] = (self.copyval(V(4)) if len(ar) > 4 else None); return None
            if nm == "get":
                k = self.text(V(0))
                if k not in self.defaults: raise Rejected("option %s is read but not declared" % k)
                v = self.opts.get(k, self.defaults[k])
                if isinstance(v, str): return Sv(v)
                t = n.get("rt") or n.get("t") or ""
                if isinstance(v, int) and "double" in t: return Qc(v)
                return self.copyval(v)
            if nm == "exist": return int(self.text(V(0)) in self.opts)
            return None
        o = self.rd(self.ev(obj))
        while isinstance(o, PtrTo): o = self.rd(o.v)
        c = o.cls if isinstance(o, Obj) else ""
        if isinstance(o, Opq) and o.what == "poly" and nm in ("get_nbf", "get_nnodes", "get_id"): return 5
        if c == "#timer": return Qc(0.0) if nm in ("build_elapsed", "get", "elapsed") else None
        if c == "#grid":
            if nm == "eval_Fxc": return self.xc(n, ar, o)
            if nm == "model_potential":
                return self.symm("Vmp", ",".join(self.pot(V(k)) for k in range(len(ar))))
            und("grid method " + nm, n)
        if c == "#eig":
            m = o.f["m"]; k = self.mkey(m)
            if nm == "eigenvalues": return vec([Qc(EIG(m.r)[i]) for i in range(m.r)])
            if nm == "eigenvectors": return mat(m.r, m.r, lambda i, j: Sy("V", k, i, j))
            if nm == "info": return 0
            und("eigensolver method " + nm, n)
        if c == "#solver":
            if nm == "initialize_with_fock": self.rec["fock0"] = self.copyval(V(0)); return None
            if nm == "initialize_with_orbitals": self.rec["orb0"] = (self.copyval(V(0)), self.copyval(V(1))); return None
            if nm == "fixed_number_of_particles_per_block": self.rec["fixed"] = self.copyval(V(0)); return None
            if nm == "get_orbitals": return self.final()[0]
            if nm == "get_orbital_occupations": return self.final()[1]
            if nm == "get_solution": return Pair(*self.final())
            return None
        if c == "#chk":
            if nm == "write":
                if len(ar) == 1: self.rec["written"]["#basis"] = V(0); return None
                self.rec["written"][self.text(V(0))] = self.copyval(V(1)); return None
            if nm == "read":
                if len(ar) == 1: return None
                k = self.text(V(0)); l = self.ev(ar[1])
                if k in ("Pa", "Pb"): self.store(l, "=", A([Sy("old", k)], 1, 1), n); return None
                self.store(l, "=", {"nela": self.nel[0], "nelb": self.nel[1]}.get(k, 0), n); return None
            return None
        if c == self.bcls:
            if nm == "overlap": return mat(self.N, 1, lambda i, j: Sy("S12", i)) if ar else self.symm("S")
            if nm in ("kinetic", "nuclear", "dipole_z", "quadrupole_zz"): return self.symm(nm)
            if nm == "Bz_field":
                b = Q(V(0)); return self.symm("zero") if False else A([qmul(b, x) for x in self.symm("Bz").st], self.N, self.N)
            if nm == "confinement": return self.symm("conf", *[pkey(V(k)) for k in range(len(ar))])
            if nm in ("coulomb", "exchange", "rs_exchange"):
                if nm == "exchange" and "tei" not in self.rec["computed"] or nm == "coulomb" and not {"tei", "tei0"} & set(self.rec["computed"]): raise Rejected("%s is used before its integrals are computed" % nm)
                if nm == "rs_exchange" and not {"erfc", "yukawa"} & set(self.rec["computed"]): raise Rejected("range-separated exchange is used before its integrals are computed")
                if nm == "exchange" and self.rec.get("absm") and self.esymm != 3: raise Rejected("the exchange matrix of m is copied to -m although the density need not have that symmetry")
                return self.opaque(nm, V(0))
            if nm == "set_absm_symmetric": self.rec["absm"] = V(0); return None
            if nm == "compute_tei": self.rec["computed"].append("tei" if V(0) else "tei0"); return None
            if nm in ("compute_yukawa", "compute_erfc"):
                self.rec["computed"].append(nm[8:]); self.rec["omega"] = Q(V(0)); return None
            if nm == "model_potential": return self.symm("Vmp", self.pot(V(0)))
            if nm == "Sinvh": return mat(self.N, 1, lambda i, j: Sy("Xf", i))
        return super().hook(n, q, nm, args, obj)
    def pot(self, v):
        v = self.rd(v)
        while isinstance(v, PtrTo): v = self.rd(v.v)
        if isinstance(v, Opq) and not v.what.startswith("?"): return v.what
        und("potential")
    def e_New(self, n):
        x = n["c"][-1] if n.get("c") else None
        if x is not None and x["k"] == "Ctor":
            q = (x.get("q") or "").split("::")[-1]
            return Opq("%s:%s" % (q, ",".join(str(pkey(self.num(a))) for a in x["a"] if a.get("k") != "DefArg")))
        und("new", n)
    def xc(self, n, ar, o):
        V = lambda k: self.rd(self.ev(ar[k]))
        f = (V(0), V(2))
        if f != (self.hyb["x"], self.hyb["c"]): raise Rejected("the functional passed to the grid is not the requested one")
        if o.f.get("purem") and self.esymm == 0: raise Rejected("the density is integrated without its dependence on phi although orbitals may mix m")
        st = lambda k, v: self.store(self.ev(ar[k]), "=", v, n)
        ms = [k for k in range(4, len(ar)) if isinstance(V(k), A)]
        if len(ms) == 2:
            P = V(4); st(5, self.opaque("xc", P)); st(6, Sy("Exc", self.mkey(P))); st(7, Sy("nel")); st(8, Sy("ek"))
        elif len(ms) == 4:
            Pa, Pb = V(4), V(5); st(6, self.opaque("xca", Pa, Pb)); st(7, self.opaque("xcb", Pa, Pb))
            st(8, Sy("Exc", self.mkey(Pa), self.mkey(Pb))); st(9, Sy("nel")); st(10, Sy("ek"))
            self.rec["beta"] = V(11)
        else: und("exchange-correlation call", n)
        return None
    def final(self): return self.orbs()
    def orbs(self):
        sizes = self.rec["sizes"]
        return (Vc([mat(s, s, lambda i, j: Sy("C", b, i, j)) for b, s in enumerate(sizes)]), Vc([vec([Sy("n", b, i) for i in range(s)]) for b, s in enumerate(sizes)]))
    # ---- indexed views, diagonal matrices, make_pair results
    def e_OCall(self, n):
        if n["op"] == "()" and len(n["a"]) == 3:
            f = self.rd(self.ev(n["a"][0]))
            if isinstance(f, PtrTo): f = self.rd(f.v)
            if isinstance(f, A):
                i, j = self.rd(self.ev(n["a"][1])), self.rd(self.ev(n["a"][2]))
                if isinstance(i, PtrTo): i = self.rd(i.v)
                if isinstance(j, PtrTo): j = self.rd(j.v)
                if isinstance(i, Vc) and isinstance(j, Vc):
                    ii, jj = [self.rd(x) for x in i.items], [self.rd(x) for x in j.items]
                    return A(f.st, len(ii), len(jj), [f.pos(a, b) for b in jj for a in ii], f.arr)
        if n["op"] == "=" and len(n["a"]) == 2:
            l = self.rd(self.ev(n["a"][0]))
            if isinstance(l, Vc) and "tuple" in (n.get("q") or ""):
                r = self.rd(self.ev(n["a"][1]))
                for x, y in zip(l.items, r.items): self.store(x, "=", self.rd(y), n)
                return l
        if n["op"] in ("==", "!=") and len(n["a"]) == 2 and "vector" in (n["a"][0].get("t") or ""):
            x, y = self.rd(self.ev(n["a"][0])), self.rd(self.ev(n["a"][1]))
            if isinstance(x, Vc) and isinstance(y, Vc): return int(([self.rd(a) for a in x.items] == [self.rd(a) for a in y.items]) == (n["op"] == "=="))
        return super().e_OCall(n)
    def mat_method(self, n, nm, v):
        if nm == "asDiagonal":
            l = v.vals(); return mat(len(l), len(l), lambda i, j: l[i] if i == j else {})
        return super().mat_method(n, nm, v)
def EIG(n): return sorted([7.0, -0.25, 1.25, 0.5, 3.0, 0.125, 1.75, 4.5, 5.5, 0.75, 6.5, 8.5][:n])

class DriverD(DriverMix, Diatomic): bcls = DT
class DriverA(DriverMix, Atomic):
    bcls = TB % "double"
    symval, qval = Diatomic.symval, Diatomic.qval

def mtrace(X, Y):
    s = {}
    for i in range(X.r):
        for j in range(X.c): s = qadd(s, qmul(X.get(i, j), Y.get(j, i)))
    return s
def madd(*ts):
    M = ts[0][1]
    return mat(M.r, M.c, lambda i, j: lin(*[(c, Q(m.get(i, j))) for c, m in ts]))
def mmulA(X, Y):
    def e(i, j):
        s = {}
        for k in range(X.c): s = qadd(s, qmul(X.get(i, k), Y.get(k, j)))
        return s
    return mat(X.r, Y.c, e)
def mT(X): return mat(X.c, X.r, lambda i, j: X.get(j, i))
def sub(M, idx, jdx=None): 
    jdx = idx if jdx is None else jdx
    return mat(len(idx), len(jdx), lambda i, j: M.get(idx[i], jdx[j]))
half = Qc(0.5)

class DriverJobs(Judge):
    """common part"""
    nth = -1; part = None
    def mainf(self):
        for f in self.P.funcs.values():
            if f.q == "main" and f.file.endswith(self.src) and f.body is not None: return f
        und("no main in " + self.src)
    def scenario(self, tag, opts, hyb, nel, restricted, symm, expect_symm=None, load=False):
        self.nth += 1
        if self.part is not None and self.nth % self.part[1] != self.part[0]: return
        f = self.mainf(); key = "%s|%s" % (self.prog, tag)
        I = self.mk(); I.start(opts, self.charges, hyb); I.newrad = self.rad; I.nel = nel
        what = "%s program, %s" % (self.prog, tag)
        def go():
            self.setup(I)
            I.N = self.nbf; I.rec["sizes"] = None
            self.cur = (f, key, what)
            # block structure, from the functions themselves
            s = I.esymm = symm if expect_symm is None else expect_symm
            idx, mir = self.blocks(s)
            np_ = 1 if restricted else 2
            I.rec["sizes"] = [len(b) for b in idx] * np_
            I.run(f, None, [1, Vc([])])
            self.judge(I, f, key, what, opts, hyb, nel, restricted, idx, mir, load)
        self.guard(f, key, what, go, I)
    def ok(self, cond, text):
        f, key, what = self.cur; self.C.count("driver_facts")
        if not cond: self.C.violation("%s|%s" % (key, text.split(":")[0][:40]), "%s: %s: %s" % (self.site(f), what, text))
    def eqm(self, nm, got, want):
        f, key, what = self.cur
        if not isinstance(got, A): und("value of %s" % nm)
        self.equal(f, "%s|%s" % (key, nm), what + ": " + nm, got, want)
    def eqs(self, nm, got, *wants):
        f, key, what = self.cur; self.C.count("energies")
        ds = [qdiff(Q(got), Q(w)) for w in wants]
        if all(ds):
            d = ds[0]; m = sorted(d, key=lambda k: -abs(d[k][0] - d[k][1]))[0]
            self.C.violation("%s|%s" % (key, nm), "%s: %s: the %s has %.8g * %s where %.8g is required" % (self.site(f), what, nm, d[m][0], mono(m), d[m][1]))
    def judge(self, I, f, key, what, opts, hyb, nel, restricted, idx, mir, load):
        N = I.N; nsym = len(idx); np_ = 1 if restricted else 2
        nela, nelb = nel; Ntot = nela + nelb
        if I.rec["solver"] is None: und("the solver is never constructed")
        nb, maxocc, npart, fb, names = I.rec["solver"][:5]
        vals = lambda v: [I.rd(x) for x in (v.vals() if isinstance(v, A) else v.items)]
        num = lambda x: x if isinstance(x, int) else qcval(Q(x))
        self.ok([num(x) for x in vals(nb)] == [nsym] * np_, "number of blocks per particle type: is %s instead of %s" % (vals(nb), [nsym] * np_))
        deg = [2 if m else 1 for m in mir]
        want = [(2.0 if restricted else 1.0) * d for d in deg] * np_
        self.ok([float(num(x) or 0) for x in vals(maxocc)] == want, "maximum occupation: is %s instead of %s" % ([num(x) for x in vals(maxocc)], want))
        want = [float(Ntot)] if restricted else [float(nela), float(nelb)]
        self.ok([float(num(x) or 0) for x in vals(npart)] == want, "number of particles: is %s instead of %s" % ([num(x) for x in vals(npart)], want))
        labs = [I.text(x) for x in vals(names)]
        self.ok(len(labs) == nsym * np_ and len(set(labs)) == len(labs), "block names: %s do not name %d blocks" % (labs, nsym * np_))
        if not isinstance(fb, Lam): und("Fock builder is not a lambda")
        # reference quantities
        S = I.symm("S"); X = []
        for b in idx:
            Sk = sub(S, b); k = I.mkey(Sk); X.append(mat(len(b), len(b), lambda i, j: Sy("X", k, i, j)))
        C, occ = I.orbs()
        P = []
        for t in range(np_):
            M = {}
            for k, b in enumerate(idx):
                o = occ.items[t * nsym + k].vals(); CX = mmulA(X[k], C.items[t * nsym + k])
                for a in range(len(b)):
                    for c in range(len(b)):
                        s = {}
                        for r in range(len(b)): s = qadd(s, qmul(qmul(CX.get(a, r), CX.get(c, r)), o[r]))
                        s = qscale(s, 1.0 / deg[k])
                        M[b[a], b[c]] = s
                        if mir[k]: M[mir[k][a], mir[k][c]] = s
            P.append(mat(N, N, lambda i, j: M.get((i, j), {})))
        H1 = self.h1(I, opts)
        Ez, Qz, Bz = [Q(opts.get(x, Qc(0))) for x in ("Ez", "Qzz", "Bz")]
        hx = bool(hyb["x"] or hyb["c"]); ex = bool(Q(hyb["kfrac"]) or Q(hyb["kshort"]))
        def K(Ps):
            ts = []
            if Q(hyb["kfrac"]): ts.append((Q(hyb["kfrac"]), I.opaque("exchange", Ps)))
            if Q(hyb["kshort"]): ts.append((Q(hyb["kshort"]), I.opaque("rs_exchange", Ps)))
            return madd(*ts)
        const = self.constant(opts)
        zee = qscale(Bz, -0.5 * (nela - nelb))
        if restricted:
            Pt = P[0]; J = I.opaque("coulomb", Pt)
            E = lin((1, mtrace(Pt, H1)), (0.5, mtrace(Pt, J)), (1, const), (1, zee))
            F = [(1, H1), (1, J)]
            if hx: E = qadd(E, Sy("Exc", I.mkey(Pt))); F.append((1, I.opaque("xc", Pt)))
            if ex:
                Pa = madd((0.5, Pt)); Ka = K(Pa); E = lin((1, E), (1.0, mtrace(Pa, Ka))); F.append((1, Ka))
            Fs = [madd(*F)]; alts = [E]
        else:
            Pa, Pb = P; Pt = madd((1, Pa), (1, Pb)); J = I.opaque("coulomb", Pt)
            E = lin((1, mtrace(Pt, H1)), (0.5, mtrace(Pt, J)), (1, const))
            Fa, Fb = [(1, H1), (1, J)], [(1, H1), (1, J)]
            if hx:
                E = qadd(E, Sy("Exc", I.mkey(Pa), I.mkey(Pb))); Fa.append((1, I.opaque("xca", Pa, Pb))); Fb.append((1, I.opaque("xcb", Pa, Pb)))
            if ex:
                Ka, Kb = K(Pa), K(Pb); E = lin((1, E), (0.5, mtrace(Pa, Ka)), (0.5, mtrace(Pb, Kb))); Fa.append((1, Ka)); Fb.append((1, Kb))
            if Bz: Fa.append((qscale(Bz, -0.5), S)); Fb.append((qscale(Bz, 0.5), S))
            Fs = [madd(*Fa), madd(*Fb)]
            alts = [qadd(E, zee)]
            if Bz: alts.append(lin((1, E), (qscale(Bz, -0.5), mtrace(Pa, S)), (qscale(Bz, 0.5), mtrace(Pb, S))))
        r = I.callv(fb, [Pair(C, occ)])
        r = I.rd(r); Eg, fk = I.rd(r.items[0]), I.rd(r.items[1])
        self.eqs("energy of a density", Eg, *alts)
        orth = lambda F, k: mmulA(mT(X[k]), mmulA(sub(F, idx[k]), X[k]))
        self.ok(len(fk.items) == nsym * np_, "Fock matrix: has %d blocks instead of %d" % (len(fk.items), nsym * np_))
        for t in range(np_):
            for k in range(nsym):
                self.eqm("Fock matrix, block %d of spin %d" % (k, t), I.rd(fk.items[t * nsym + k]), orth(Fs[t], k))
        # initial guess
        if not load:
            g = I.rec["fock0"]
            if g is None: und("no initial Fock matrix")
            H0 = self.h0(I, opts)
            for t in range(np_):
                G = H0 if restricted or not Bz else madd((1, H0), (qscale(Bz, -0.5 if t == 0 else 0.5), S))
                for k in range(nsym): self.eqm("initial guess, block %d of spin %d" % (k, t), I.rd(g.items[t * nsym + k]), orth(G, k))
        else:
            if I.rec["orb0"] is None: und("loaded orbitals are not used")
            o0, n0 = I.rec["orb0"]
            Xf = mat(N, 1, lambda i, j: Sy("Xf", i)); S12 = mat(N, 1, lambda i, j: Sy("S12", i)); pr = mmulA(mmulA(Xf, mT(Xf)), S12)
            Pn = []
            for nm, ne in (("Pa", nela), ("Pb", nelb)):
                R = mmulA(mmulA(pr, A([Sy("old", nm)], 1, 1)), mT(pr))
                tr = mtrace(R, S); w = qscale(qinv(tr), float(ne)) if ne else Qc(1)
                Pn.append(mat(N, N, lambda i, j: qmul(w, R.get(i, j))))
            dens = [madd((1, Pn[0]), (1, Pn[1]))] if restricted else Pn
            for t in range(np_):
                for k, b in enumerate(idx):
                    Pk = sub(dens[t], b)
                    if mir[k]: Pk = madd((1, Pk), (1, sub(dens[t], mir[k])))
                    Po = mmulA(mT(X[k]), mmulA(Pk, X[k])); n = len(b); kk = I.mkey(Po)
                    nm = "loaded %%s, block %d of spin %d" % (k, t)
                    seen = any(not any(qdiff(Q(x), Q(y)) for x, y in zip(m.vals(), Po.vals())) for m in I.rec["eig"] if (m.r, m.c) == (n, n)) if n else True
                    self.ok(seen, (nm % "density") + ": the density diagonalised is not that of the block and its partner, in the block's orthonormal basis")
                    top = (2.0 if restricted else 1.0) * deg[k]
                    w = [min(max(EIG(n)[n - 1 - i], 0.0), top) for i in range(n)]
                    g = [num(x) or 0.0 for x in vals(I.rd(n0.items[t * nsym + k]))]
                    self.ok(g == w, (nm % "occupations") + ": %s instead of %s for eigenvalues %s" % (g, w, EIG(n)))
                    o = I.rd(o0.items[t * nsym + k]); cols = []
                    for j in range(o.c):
                        a = [conc._names[kx] for mm in Q(o.get(0, j)) for kx, e in mm]
                        cols.append(a[0][3] if len(a) == 1 and a[0][0] == "V" else None)
                    self.ok(cols == list(range(n - 1, -1, -1)), (nm % "orbitals") + ": do not go with the occupations")
        # saved densities
        w = I.rec["written"]
        if opts.get("save"):
            if restricted: W = {"Pa": madd((0.5, P[0])), "Pb": madd((0.5, P[0]))}
            else: W = {"Pa": P[0], "Pb": P[1]}
            for k in W:
                self.ok(k in w, "saved density: %s is not saved" % k)
                if k in w: self.eqm("saved density " + k, w[k], W[k])
            for k, v in (("nela", nela), ("nelb", nelb)): self.ok(w.get(k) == v, "saved electron count: %s is %s instead of %s" % (k, w.get(k), v))
        if opts.get("readocc"):
            fx = I.rec["fixed"]
            self.ok(fx is not None, "frozen occupations: are not passed on")
            if fx is not None:
                want = self.frozen(opts["occs"], idx, restricted, nsym)
                self.ok([float(num(x) or 0) for x in vals(fx)] == want, "frozen occupations: %s instead of %s" % ([num(x) for x in vals(fx)], want))
        if Q(hyb["kshort"]):
            self.ok(hyb["rs"] in I.rec["computed"] and not qdiff(I.rec.get("omega", {}), Q(hyb["omega"])), "range separation: the %s kernel is not computed with the functional's parameter" % hyb["rs"])
        self.C.count("scenarios"); self.C.sample(what)

HF = dict(x=0, c=0, omega={}, kfrac=Qc(1.0), kshort={}, rs="")
DFT = dict(x=1, c=7, omega={}, kfrac={}, kshort={}, rs="")
HYB = dict(x=402, c=0, omega={}, kfrac=Sy("kfrac"), kshort={}, rs="")
RSH = dict(x=433, c=0, omega=Sy("omega"), kfrac=Sy("kfrac"), kshort=Sy("kshort"), rs="erfc")
RSY = dict(RSH, rs="yukawa")
FIELD = dict(Ez=Sy("Ez"), Qzz=Sy("Qzz")); MAG = dict(Bz=Sy("Bz"))

class DiatomicDriver(DriverJobs):
    prog = "diatomic"; src = "diatomic/main.cpp"
    charges = {"Li": 3, "B": 5, "C": 6}
    def __init__(self, C, P): super().__init__(C, P); self.models = pot_models(P); self.ms = methods(P, DT)
    def mk(self):
        I = DriverD(self.P); I.models = self.models; return I
    def setup(self, I):
        self.ch = [(0, 0), (1, 0), (1, 1), (1, -1)]
        self.fun = [(k, j) for k in range(4) for j in range(self.rad.nbf) if j > 0 or self.ch[k][1] == 0]
        self.nbf = len(self.fun)
    rad = DRad([(0, 1)])
    def blocks(self, symm):
        l = lambda i: self.ch[self.fun[i][0]]
        A_ = range(self.nbf)
        if symm == 0: return [list(A_)], [[]]
        if symm == 1: r = [[i for i in A_ if l(i)[1] == m] for m in (-1, 0, 1)]; return r, [[]] * 3
        if symm == 2: r = [[i for i in A_ if l(i)[1] == m and l(i)[0] % 2 == p] for m in (-1, 0, 1) for p in (0, 1)]; return r, [[]] * 6
        return [[i for i in A_ if l(i)[1] == m] for m in (0, 1)], [[], [i for i in A_ if l(i)[1] == -1]]
    def h1(self, I, o, nuc=None):
        ts = [(1, I.symm("kinetic")), (1, nuc or I.symm("nuclear"))]
        ts += [(Q(o.get("Ez", {})), I.symm("dipole_z")), (qscale(Q(o.get("Qzz", {})), 1 / 3.0), I.symm("quadrupole_zz"))]
        if "Bz" in o: ts.append((o["Bz"], I.symm("Bz")))
        return madd(*ts)
    def h0(self, I, o):
        z1, z2 = self.charges[o["Z1"]], self.charges[o["Z2"]]
        g = {0: None, 1: "GSZAtom", 2: "SAPAtom", 3: "TFAtom", 4: "SAPFEAtom"}[o.get("iguess", 2)]
        return self.h1(I, o, I.symm("Vmp", "%s:%d,%s:%d" % (g, z1, g, z2)) if g else None)
    def constant(self, o):
        z1, z2 = self.charges[o["Z1"]], self.charges[o["Z2"]]; R = o["Rbond"]
        c = qscale(qinv(R), z1 * z2)
        c = lin((1, c), (-(z2 - z1) * 0.5, qmul(Q(o.get("Ez", {})), R)), (-(z1 + z2) * 0.25 / 3.0, qmul(Q(o.get("Qzz", {})), qmul(R, R))))
        return c
    def frozen(self, occs, idx, restricted, nsym):
        out = [0.0] * (nsym * (1 if restricted else 2))
        for row in occs:
            for k, b in enumerate(idx):
                l = [self.ch[self.fun[i][0]] for i in b]
                if l and l[0][1] == row[2] and (len(row) < 4 or l[0][0] % 2 == (row[3] == -1)):
                    if restricted: out[k] = float(row[0] + row[1])
                    else: out[k] = float(row[0]); out[nsym + k] = float(row[1])
        return out
    def base(self, **k):
        o = dict(Z1="Li", Z2="B", Rbond=Sy("Rbond"), lmax="1", mmax=1, verbosity=0, iguess=0); o.update(k); return o
    def job(self):
        for symm in (0, 1, 2, 3):
            hom = dict(Z1="B", Z2="B")
            self.scenario("restricted, symmetry %d" % symm, self.base(symmetry=symm, nela=4, nelb=4, save="s", **hom), HYB, (4, 4), True, symm)
            self.scenario("unrestricted, symmetry %d" % symm, self.base(symmetry=symm, nela=5, nelb=3, save="s", **hom), HYB, (5, 3), False, symm)
        self.scenario("unlike nuclei, symmetry 2", self.base(symmetry=2, nela=4, nelb=4), HF, (4, 4), True, 2, 1)
        for nm, h in (("Hartree-Fock", HF), ("density functional", DFT)):
            self.scenario(nm, self.base(symmetry=1, nela=5, nelb=3), h, (5, 3), False, 1)
            self.scenario(nm + ", restricted", self.base(symmetry=1, nela=4, nelb=4), h, (4, 4), True, 1)
        for sy in (0, 1, 2, 3):
            self.scenario("electric field, symmetry %d" % sy, self.base(symmetry=sy, nela=5, nelb=3, Z1="B", Z2="B", save="s", **FIELD), DFT, (5, 3), False, sy, {2: 1}.get(sy))
            self.scenario("magnetic field, symmetry %d" % sy, self.base(symmetry=sy, nela=5, nelb=3, Z1="B", Z2="B", save="s", **MAG), HF, (5, 3), False, sy, {2: 1, 3: 1}.get(sy))
        for nm, o in (("dipole field", ("Ez",)), ("field gradient", ("Qzz",)), ("magnetic field and field gradient", ("Bz", "Qzz")), ("all fields", ("Ez", "Qzz", "Bz"))):
            for sy in (1, 2, 3): self.scenario(nm + ", symmetry %d" % sy, self.base(symmetry=sy, nela=5, nelb=3, Z1="B", Z2="B", iguess=2, **{k: Sy(k) for k in o}), HF, (5, 3), False, sy, 1 if "Bz" in o or sy == 2 else sy)
        self.scenario("electric field, unlike nuclei, restricted", self.base(symmetry=1, nela=4, nelb=4, **FIELD), HF, (4, 4), True, 1)
        for g in (1, 2, 3, 4): self.scenario("guess %d" % g, self.base(symmetry=1, nela=5, nelb=3, iguess=g), HF, (5, 3), False, 1)
        for sy in (1, 3):
            self.scenario("continued from a checkpoint, symmetry %d" % sy, self.base(symmetry=sy, nela=4, nelb=4, load="l"), HF, (4, 4), True, sy, load=True)
            self.scenario("continued from a checkpoint, unrestricted, symmetry %d" % sy, self.base(symmetry=sy, nela=5, nelb=3, load="l"), HF, (5, 3), False, sy, load=True)
        self.scenario("frozen occupations", self.base(symmetry=1, nela=5, nelb=3, readocc=1, occs=[(3, 1, 0), (1, 1, 1), (1, 1, -1)]), HF, (5, 3), False, 1)
        self.scenario("frozen occupations with parity", self.base(symmetry=2, nela=4, nelb=4, Z1="B", Z2="B", readocc=1, occs=[(2, 2, 0, 1), (1, 1, 0, -1), (1, 1, 1, -1)]), HF, (4, 4), True, 2)

class AtomicDriver(DriverJobs):
    prog = "atomic"; src = "atomic/main.cpp"
    charges = {"Li": 3, "B": 5, "C": 6, "He": 2}
    rad = Rad([(0, 1)])
    def __init__(self, C, P): super().__init__(C, P); self.models = pot_models(P); self.ms = methods(P, TB % "double")
    def mk(self):
        I = DriverA(self.P); I.models = self.models; return I
    def setup(self, I):
        f = [g for g in self.P.funcs.values() if g.q == "helfem::atomic::basis::angular_basis" and g.body is not None and len(g.params) == 4]
        if len(f) != 1: und("angular_basis")
        lv, mv = Cell(A([], 0, 1)), Cell(A([], 0, 1))
        self.ch = [(0, 0), (1, -1), (1, 0), (1, 1)]
        I.run(f[0], None, [1, 1, LCell(lv), LCell(mv)])
        got = list(zip([I.rd(x) for x in lv.v.vals()], [I.rd(x) for x in mv.v.vals()]))
        if sorted(got) != sorted(self.ch): self.cur = (f[0], "atomic|angular", "angular basis of lmax=1, mmax=1"); self.ok(False, "channels: %s" % got)
        self.ch = got
        self.fun = [(k, j) for k in range(4) for j in range(2)]; self.nbf = 8
    def blocks(self, symm):
        l = lambda i: self.ch[self.fun[i][0]]
        if symm == 0: r = [list(range(8))]
        elif symm == 1: r = [[i for i in range(8) if l(i)[1] == m] for m in (-1, 0, 1)]
        else: r = [[2 * k, 2 * k + 1] for k in range(4)]
        return r, [[]] * len(r)
    def h1(self, I, o, nuc=None):
        ts = [(1, I.symm("kinetic")), (1, nuc or I.symm("nuclear"))]
        ts += [(Q(o.get("Ez", {})), I.symm("dipole_z")), (qscale(Q(o.get("Qzz", {})), 1 / 3.0), I.symm("quadrupole_zz"))]
        if "Bz" in o: ts.append((o["Bz"], I.symm("Bz")))
        if o.get("iconf"): ts.append((1, I.symm("conf", *[pkey(o[k]) for k in ("conf_N", "conf_R", "iconf", "conf_barrier", "shift_conf")])))
        return madd(*ts)
    def h0(self, I, o):
        g = {0: None, 1: "GSZAtom", 2: "SAPAtom", 3: "TFAtom", 4: "SAPFEAtom"}[o.get("iguess", 2)]
        return self.h1(I, o, I.symm("Vmp", "%s:%d" % (g, self.charges[o["Z"]])) if g else None)
    def constant(self, o):
        if "Rmid" not in o: return {}
        z, a, b = [self.charges.get(o.get(k), 0) for k in ("Z", "Zl", "Zr")]
        return qscale(qinv(o["Rmid"]), z * (a + b) + a * b / 2.0)
    def frozen(self, occs, idx, restricted, nsym):
        out = [0.0] * (nsym * (1 if restricted else 2))
        for row in occs:
            for k, b in enumerate(idx):
                l = self.ch[self.fun[b[0]][0]]
                if (len(row) == 3 and l[1] == row[2]) or (len(row) == 4 and l == tuple(row[2:])):
                    if restricted: out[k] = float(row[0] + row[1])
                    else: out[k] = float(row[0]); out[nsym + k] = float(row[1])
        return out
    def base(self, **k):
        o = dict(Z="B", lmax=1, mmax=1, verbosity=0, iguess=0); o.update(k); return o
    def job(self):
        for symm in (0, 1, 2):
            self.scenario("restricted, symmetry %d" % symm, self.base(symmetry=symm, nela=3, nelb=3, save="s"), HYB if symm else DFT, (3, 3), True, symm)
            self.scenario("unrestricted, symmetry %d" % symm, self.base(symmetry=symm, nela=3, nelb=2, save="s"), RSH if symm else HF, (3, 2), False, symm)
        for nm, h in (("Hartree-Fock", HF), ("density functional", DFT), ("hybrid functional", HYB), ("screened hybrid functional", RSH), ("Yukawa-screened hybrid functional", RSY)):
            self.scenario(nm, self.base(symmetry=2, nela=3, nelb=2), h, (3, 2), False, 2)
            self.scenario(nm + ", restricted", self.base(symmetry=2, nela=3, nelb=3), h, (3, 3), True, 2)
        for sy in (1, 2):
            self.scenario("electric field, symmetry %d" % sy, self.base(symmetry=sy, nela=3, nelb=2, save="s", **FIELD), HF, (3, 2), False, sy, 1)
            self.scenario("magnetic field, symmetry %d" % sy, self.base(symmetry=sy, nela=3, nelb=2, save="s", **MAG), HF, (3, 2), False, sy, 1)
            for nm, o in (("dipole field", ("Ez",)), ("field gradient", ("Qzz",)), ("magnetic field and field gradient", ("Bz", "Qzz")), ("all fields", ("Ez", "Qzz", "Bz"))):
                self.scenario(nm + ", symmetry %d" % sy, self.base(symmetry=sy, nela=3, nelb=2, iguess=2, **{k: Sy(k) for k in o}), HF, (3, 2), False, sy, 1)
            for z in ("Zl", "Zr"): self.scenario("off-centre charge %s, symmetry %d" % (z, sy), self.base(symmetry=sy, nela=3, nelb=2, Rmid=Sy("Rmid"), nelem0=1, **{z: "Li"}), HF, (3, 2), False, sy, 1)
            self.scenario("off-centre charges, symmetry %d" % sy, self.base(symmetry=sy, nela=3, nelb=2, Zl="He", Zr="Li", Rmid=Sy("Rmid"), nelem0=1), HF, (3, 2), False, sy, 1)
        self.scenario("confinement", self.base(symmetry=2, nela=3, nelb=2, iconf=2, conf_N=4, conf_R=Sy("cR"), conf_barrier=Sy("cV"), shift_conf=Sy("cs")), HF, (3, 2), False, 2)
        for g in (1, 2, 3, 4): self.scenario("guess %d" % g, self.base(symmetry=2, nela=3, nelb=2, iguess=g), HF, (3, 2), False, 2)
        self.scenario("continued from a checkpoint", self.base(symmetry=2, nela=3, nelb=3, load="l"), HF, (3, 3), True, 2, load=True)
        self.scenario("continued from a checkpoint, unrestricted", self.base(symmetry=1, nela=3, nelb=2, load="l"), HF, (3, 2), False, 1, load=True)
        self.scenario("frozen occupations", self.base(symmetry=1, nela=3, nelb=2, readocc=1, occs=[(1, 2, 0), (1, 0, 1), (1, 0, -1)]), HF, (3, 2), False, 1)
        self.scenario("frozen occupations by shell", self.base(symmetry=2, nela=3, nelb=3, readocc=1, occs=[(2, 2, 0, 0), (1, 1, 1, -1)]), HF, (3, 3), True, 2)

class ElectronJobs(Judge):
    """electron counts from the charge, multiplicity or explicit numbers"""
    def job(self):
        fs = [f for f in self.P.find("helfem::scf_driver::derive_nela_nelb_restricted") if f.body is not None]
        if not fs: self.C.undecide("electron counts: derive_nela_nelb_restricted not found"); return
        f = fs[0]; key = "electrons"; what = "electron counts follow from Z, Q, M, or explicit numbers"
        def ref(a, b, restr, Q, M, Z):
            if a == 0 and b == 0:
                N = Z - Q
                if M == 0:
                    if restr == 0 or N <= 0: return None
                    return (N + 1) // 2, N // 2, 1, N
                if M < 1 or N < 0 or (N + M) % 2 == 0 or M - 1 > N: return None
                a = (N + M - 1) // 2; b = N - a
            elif a < b: return None
            return a, b, (int(restr != 0) if restr != -1 else int(a == b)), a + b
        def go():
            for Z in range(0, 5):
                for Q in range(-2, 4):
                    for M in range(-1, 7):
                        for a, b in ((0, 0), (1, 0), (0, 1), (2, 2), (3, 1), (1, 3), (7, 2)):
                            for restr in (-1, 0, 1):
                                w = ref(a, b, restr, Q, M, Z)
                                ce = [Cell(x) for x in (a, b, restr)]; rs, nt = Cell(None), Cell(None)
                                I = self.mk()
                                try: I.run(f, None, ce + [Q, M, Z, rs, nt]); g = (I.rd(ce[0].v), I.rd(ce[1].v), int(bool(I.rd(rs.v))), I.rd(nt.v))
                                except Rejected: g = None
                                self.C.count("electron_counts")
                                if g != w:
                                    self.C.violation(key, "%s: %s: Z=%d Q=%d M=%d nela=%d nelb=%d restricted=%d gives %s instead of %s" % (self.site(f), what, Z, Q, M, a, b, restr, self.show(g), self.show(w))); return
        self.guard(f, key, what, go)
    def show(self, g): return "an error" if g is None else "%d alpha and %d beta electrons, %s, %d in total" % (g[0], g[1], "restricted" if g[2] else "unrestricted", g[3])
    def mk(self): return Ham(self.P, "double")

class DriverS(DriverMix, Sadatom):
    """run_atomic_scf of the spherically averaged program"""
    bcls = SB
    qval = Diatomic.qval
    def symval(self, k):
        a = conc._names[k]
        if a[:2] == ("fn", "cwiseAbs.maxCoeff"):
            w = [self.qval(dict(x)) for x in a[2:]]
            return None if None in w else max(abs(x) for x in w)
        return Diatomic.symval(self, k)
    def hook(self, n, q, nm, args, obj):
        ar = [x for x in args if x.get("k") != "DefArg"]
        V = lambda k: self.rd(self.ev(ar[k]))
        if obj is None:
            if n["k"] == "Ctor" and not n.get("cp") and q:
                if "TwoDBasis" in q and "sadatom" in q:
                    if not ar: return Obj("#oldbasis")
                    k = "newargs" if "newargs" not in self.rec else "oldargs"
                    self.rec[k] = [V(i) for i in range(len(ar))]
                    return Obj(self.bcls if k == "newargs" else "#oldbasis")
                if "shared_ptr" in q: return V(0) if ar else Opq("null")
                if "function<" in q and len(ar) == 1: return V(0)
            f = q.split("::")[-1].split("<")[0]
            if f == "to_string": return Sv(self.text(V(0)))
            if f in ("get_basis", "get_basis_T") and len(ar) == 2: return Opq("oldpoly%d,%d" % (V(0), V(1)))
        else:
            o = self.rd(self.ev(obj))
            while isinstance(o, PtrTo): o = self.rd(o.v)
            c = o.cls if isinstance(o, Obj) else ""
            if c == "#chk":
                if nm == "exist": return int(self.text(V(0)) in self.chk)
                if nm == "read":
                    k = self.text(V(0)); v = self.chk.get(k)
                    if v is None: raise Rejected("%s is read from the checkpoint but not stored there" % k)
                    self.store(self.ev(ar[1]), "=", self.copyval(v), n); return None
            if isinstance(o, Opq) and o.what == "poly" and nm in ("get_id", "get_nnodes"): return {"get_id": 4, "get_nnodes": 7}[nm]
            if c == "#solver" and nm == "set_batched_fock_builder": self.rec["batched"] = V(0); return None
            if c == "#grid" and nm == "prime_quadrature_cache": return None
            if c == self.bcls:
                if nm == "Sinvh": return mat(self.N, self.N, lambda i, j: Sy("X", i, j))
                if nm == "kinetic_l": return self.symm("kinetic_l")
                if nm == "overlap": return mat(self.N, 1, lambda i, j: Sy("S12", i)) if ar else self.symm("S")
                if nm == "Nbf": return self.N
                if nm == "compute_tei": self.rec["computed"].append("tei"); return None
                if nm in ("exchange", "rs_exchange"):
                    if nm == "rs_exchange" and not {"erfc", "yukawa"} & set(self.rec["computed"]): raise Rejected("range-separated exchange is used before its integrals are computed")
                    return self.xcube(nm, V(0))
        return super().hook(n, q, nm, args, obj)
    FINAL = [[1.75, 0.0], [0.0, 2.5], [0.0, 0.0], [0.625, 1.0], [2.0, 0.0], [0.25, 0.5], [0.0, 3.0], [1.0, 1.0]]
    def final(self):
        C, o = self.orbs()
        return C, Vc([vec([Qc(x) if x else {} for x in self.FINAL[b]]) for b in range(len(o.items))])
    def ckey(self, *cs): return sid(tuple(self.mkey(self.rd(m)) for c in cs for m in c.items))
    def xcube(self, nm, *cs):
        k = self.ckey(*cs); return Vc([self.symm(nm, k, l) for l in range(len(cs[0].items))])
    def xc(self, n, ar, o):
        V = lambda k: self.rd(self.ev(ar[k]))
        if (V(0), V(2)) != (self.hyb["x"], self.hyb["c"]): raise Rejected("the functional passed to the grid is not the requested one")
        st = lambda k, v: self.store(self.ev(ar[k]), "=", v, n)
        if len(ar) == 9:
            P = V(4); st(5, self.xcube("xc", P)); st(6, Sy("Exc", self.ckey(P))); st(7, Sy("nel"))
        elif len(ar) == 12:
            Pa, Pb = V(4), V(5); beta = V(10); self.rec["beta"] = beta
            st(6, self.xcube("xca", Pa, Pb))
            if beta: st(7, self.xcube("xcb", Pa, Pb))
            st(8, Sy("Exc", self.ckey(Pa, Pb))); st(9, Sy("nel"))
        else: und("exchange-correlation call", n)
        return None

class SadatomDriver(DriverJobs):
    prog = "sadatom"
    N = 2
    def __init__(self, C, P): super().__init__(C, P); self.models = pot_models(P); self.ms = methods(P, SB)
    def mk(self):
        I = DriverS(self.P); I.models = self.models; return I
    def scenario(self, tag, hyb, nel, restricted, lmax=1, fixed=None, load=None, empty=(), **over):
        self.nth += 1
        if self.part is not None and self.nth % self.part[1] != self.part[0]: return
        fs = [f for f in self.P.find("helfem::sadatom::scf::run_atomic_scf") if f.body is not None]
        if not fs: self.C.undecide("run_atomic_scf not found"); return
        f = fs[0]; key = "sadatom|%s" % tag; what = "sadatom program, %s" % tag
        I = self.mk(); I.start({}, {}, hyb); I.N = self.N; I.rec["sizes"] = [self.N] * ((lmax + 1) * (1 if restricted else 2))
        I.chk = load or {}
        I.empty = set(empty)
        I.orbs = lambda: (Vc([mat(self.N, self.N, lambda i, j: Sy("C", b, i, j)) for b in range(len(I.rec["sizes"]))]),
                          Vc([vec([{} if b in I.empty else Sy("n", b, i) for i in range(self.N)]) for b in range(len(I.rec["sizes"]))]))
        def go():
            self.cur = (f, key, what)
            o = Obj("#options")
            o.f.update(Z=6, lmax=lmax, poly=Opq("poly"), Nquad=50, bval=vec([Sy("b", 0), Sy("b", 1)]), nela=nel[0], nelb=nel[1], restricted=int(restricted),
                       x_func=hyb["x"], c_func=hyb["c"], x_pars=vec([Sy("xp")]), c_pars=vec([Sy("cp")]), dftthr=Sy("thr"), iguess=0, finitenuc=0, Rrms=Sy("Rrms"), zeroder=0,
                       iconf=0, conf_N=0, conf_R={}, conf_barrier={}, shift_conf={}, fixed_per_l_a=vec([]), fixed_per_l_b=vec([]), verbosity=0, scf_methods=Sv("DIIS"), maxiter=128, convthr=Qc(1e-7),
                       load_file=Sv("l" if load else ""), save_file=Sv("s"))
            o.f.update(over)
            if fixed:
                o.f["fixed_per_l_a"] = vec([Qc(x) for x in fixed[0]])
                if len(fixed) > 1: o.f["fixed_per_l_b"] = vec([Qc(x) for x in fixed[1]])
            res = I.rd(I.run(f, None, [o]))
            self.sjudge(I, o, hyb, nel, restricted, lmax, fixed, load, res)
        self.guard(f, key, what, go, I)
    def sjudge(self, I, o, hyb, nel, restricted, lmax, fixed, load, res):
        f, key, what = self.cur; N = self.N; nl = lmax + 1; np_ = 1 if restricted else 2
        if I.rec["solver"] is None: und("the solver is never constructed")
        nb, maxocc, npart, fb, names = I.rec["solver"][:5]
        vals = lambda v: [I.rd(x) for x in (v.vals() if isinstance(v, A) else v.items)]
        num = lambda x: float(x) if isinstance(x, int) else float(qcval(Q(x)) or 0)
        self.ok([num(x) for x in vals(nb)] == [float(nl)] * np_, "number of blocks per particle type: is %s" % vals(nb))
        want = [(2.0 if restricted else 1.0) * (2 * l + 1) for l in range(nl)] * np_
        self.ok([num(x) for x in vals(maxocc)] == want, "maximum occupation: is %s instead of %s" % ([num(x) for x in vals(maxocc)], want))
        want = [float(sum(nel))] if restricted else [float(x) for x in nel]
        self.ok([num(x) for x in vals(npart)] == want, "number of particles: is %s instead of %s" % ([num(x) for x in vals(npart)], want))
        labs = [I.text(x) for x in vals(names)]
        self.ok(len(set(labs)) == nl * np_, "block names: %s do not name %d blocks" % (labs, nl * np_))
        g = lambda k: o.f[k]
        a = I.rec["newargs"]
        X = mat(N, N, lambda i, j: Sy("X", i, j)); S = I.symm("S")
        C, occ = I.orbs(); P = []
        for b in range(nl * np_):
            CX = mmulA(X, C.items[b]); w = occ.items[b].vals()
            P.append(mmulA(mmulA(CX, mat(N, N, lambda i, j: w[i] if i == j else {})), mT(CX)))
        ls = [b % nl for b in range(nl * np_)]
        H = [(1, I.symm("kinetic")), (1, I.symm("nuclear"))]
        conf = [(1, I.symm("conf", *[pkey(g(k)) for k in ("conf_N", "conf_R", "iconf", "conf_barrier", "shift_conf")]))] if g("iconf") else []
        h1 = lambda l, nuc=None: madd(*([H[0], nuc or H[1]] + conf + ([(float(l * (l + 1)), I.symm("kinetic_l"))] if l else [])))
        tot = madd(*[(1, p) for p in P]); ang = 4 * math.pi
        J = I.opaque("coulomb", madd((1 / ang, tot)))
        E = qscale(mtrace(tot, J), 0.5)
        for b, p in enumerate(P): E = qadd(E, mtrace(p, h1(ls[b])))
        F = [[(1, h1(l)), (1, J)] for l in ls]
        hx = bool(hyb["x"] or hyb["c"]); ex = bool(Q(hyb["kfrac"]) or Q(hyb["kshort"]))
        if hx:
            D = [Vc([madd((1 / ang, P[t * nl + l])) for l in range(nl)]) for t in range(np_)]
            E = qadd(E, Sy("Exc", I.ckey(*D)))
            for t in range(np_):
                if t == 1 and not nel[1]: continue
                XC = I.xcube("xc" if restricted else ("xca", "xcb")[t], *D)
                for l in range(nl): F[t * nl + l].append((1 / ang, XC.items[l]))
            if not restricted: self.ok(bool(I.rec.get("beta", 1)) == bool(nel[1]), "beta electrons: the exchange-correlation routine is told the wrong thing about their presence") if "beta" in I.rec else None
        if ex:
            for t in range(np_):
                A_ = Vc([madd((1.0 / ((2 if restricted else 1) * (2 * l + 1)), P[t * nl + l])) for l in range(nl)])
                ks = [(Q(hyb[k]), I.xcube(nm, A_)) for k, nm in (("kfrac", "exchange"), ("kshort", "rs_exchange")) if Q(hyb[k])]
                for l in range(nl):
                    K = madd(*[(c, x.items[l]) for c, x in ks])
                    E = qadd(E, qscale(mtrace(K, P[t * nl + l]), 0.5))
                    if t == 0 or nel[1]: F[t * nl + l].append((1, K))
        orth = lambda M: mmulA(mT(X), mmulA(M, X))
        for nm, call in (("", lambda: I.rd(I.callv(fb, [Pair(C, occ)]))), ("batched, ", lambda: self.batch(I, C, occ)), ("second of a batch, ", lambda: self.batch(I, C, occ, 2))):
            if nm and I.rec.get("batched") is None: continue
            r = call(); Eg, fk = I.rd(r.items[0]), I.rd(r.items[1])
            self.eqs(nm + "energy of a density", Eg, E)
            self.ok(len(fk.items) == nl * np_, "Fock matrix: has %d blocks instead of %d" % (len(fk.items), nl * np_))
            for b in range(nl * np_): self.eqm(nm + "Fock matrix, l=%d of spin %d" % (ls[b], b // nl), I.rd(fk.items[b]), orth(madd(*F[b])))
        # guess
        if not load:
            k = {0: None, 1: "GSZAtom", 2: "SAPAtom", 3: "TFAtom", 4: "SAPFEAtom"}[g("iguess")]
            nuc = (1, I.symm("Vmp", "%s:%d" % (k, g("Z")))) if k else None
            G = I.rec["fock0"]
            if G is None: und("no initial Fock matrix")
            for b in range(nl * np_): self.eqm("initial guess, l=%d of spin %d" % (ls[b], b // nl), I.rd(G.items[b]), orth(h1(ls[b], nuc)))
        else: self.loaded(I, o, nel, restricted, nl, load, S, X)
        C, occ = I.final(); P = []
        for b in range(nl * np_):
            CX = mmulA(X, C.items[b]); w = occ.items[b].vals()
            P.append(mmulA(mmulA(CX, mat(N, N, lambda i, j: w[i] if i == j else {})), mT(CX)))
        tot = madd(*[(1, p) for p in P])
        for t in range(np_):
            w = [int(math.floor(sum(I.FINAL[t * nl + l]) + 0.5)) for l in range(nl)]
            for k, v in (("resulting electron counts", I.rd(res.f.get("occs_" + "ab"[t]))), ("saved electron counts", I.rec["written"].get("sadatom_occs_" + "ab"[t]))):
                got = [num(x) for x in vals(v)] if v is not None else None
                self.ok(got == [float(x) for x in w], "%s: %s instead of %s" % (k, got, w))
        # result and checkpoint
        for t in range(np_):
            s = "ab"[t]
            for l in range(nl):
                b = t * nl + l
                self.eqm("resulting density P%s, l=%d" % (s, l), I.rd(I.rd(res.f["Pl_" + s]).items[l]), P[b])
                self.eqm("resulting orbitals %s, l=%d" % (s, l), I.rd(I.rd(res.f["orbs_" + s]).items[l]), mmulA(X, C.items[b]))
                k = "sadatom_P%sl_%d" % (s, l); w = I.rec["written"]
                self.ok(k in w, "saved density: %s is not saved" % k)
                if k in w: self.eqm("saved density " + k, w[k], P[b])
                c_, o_ = w.get("sadatom_C%sl_%d" % (s, l)), w.get("sadatom_occ%sl_%d" % (s, l))
                self.ok(isinstance(c_, A) and isinstance(o_, A), "saved orbitals: those of l=%d, spin %s, are not saved" % (l, s))
                if isinstance(c_, A) and isinstance(o_, A):
                    ov = o_.vals(); self.eqm("density of the saved orbitals, l=%d of spin %s" % (l, s), mmulA(mmulA(c_, mat(len(ov), len(ov), lambda i, j: ov[i] if i == j else {})), mT(c_)) if ov else mat(N, N, lambda i, j: {}), P[b])
        self.eqm("resulting total density", I.rd(res.f["Prad"]), tot)
        w = I.rec["written"]
        for k, v in (("sadatom_Z", g("Z")), ("sadatom_lmax", lmax), ("sadatom_Nquad", g("Nquad")), ("sadatom_primbas", 4), ("sadatom_nnodes", 7)): self.ok(w.get(k) == v, "saved parameter: %s is %s instead of %s" % (k, w.get(k), v))
        if fixed:
            fx = I.rec["fixed"]; self.ok(fx is not None, "frozen occupations: are not passed on")
            if fx is not None:
                want = [float(x) for r in fixed for x in r]
                self.ok([num(x) for x in vals(fx)] == want, "frozen occupations: %s instead of %s" % ([num(x) for x in vals(fx)], want))
        if Q(hyb["kshort"]):
            self.ok(hyb["rs"] in I.rec["computed"] and not qdiff(I.rec.get("omega", {}), Q(hyb["omega"])), "range separation: the %s kernel is not computed with the functional's parameter" % hyb["rs"])
        self.C.count("scenarios"); self.C.sample(what)
    def batch(self, I, C, occ, n=1):
        other = Vc([vec([Sy("m", b, i) for i in range(self.N)]) for b in range(len(occ.items))])
        r = I.rd(I.callv(I.rec["batched"], [Vc([Pair(C, other)] * (n - 1) + [Pair(C, occ)])]))
        self.ok(len(r.items) == n, "batch: %d results for %d densities" % (len(r.items), n))
        return I.rd(r.items[n - 1])
    def loaded(self, I, o, nel, restricted, nl, load, S, X):
        f, key, what = self.cur; np_ = 1 if restricted else 2; N = self.N
        if I.rec["orb0"] is None: und("loaded orbitals are not used")
        o0, n0 = I.rec["orb0"]; a = I.rec.get("oldargs")
        if a is None: und("the stored basis is not rebuilt")
        ok = a[0] == load["sadatom_Z"] and any(isinstance(x, Opq) and x.what == "oldpoly%d,%d" % (load["sadatom_primbas"], load["sadatom_nnodes"]) for x in a) and load["sadatom_Nquad"] in a and any(isinstance(x, A) and len(x.vals()) == 2 and not qdiff(Q(x.vals()[0]), Sy("ob", 0)) and not qdiff(Q(x.vals()[1]), Sy("ob", 1)) for x in a)
        self.ok(ok, "stored basis: is rebuilt from other parameters than those stored")
        S12 = mat(N, 1, lambda i, j: Sy("S12", i)); pr = mmulA(mmulA(X, mT(X)), S12)
        vals = lambda v: [I.rd(x) for x in (v.vals() if isinstance(v, A) else v.items)]
        for t in range(np_):
            s = "ab"[t]
            for l in range(nl):
                nm = "loaded %%s, l=%d of spin %s" % (l, s); k = "sadatom_P%sl_%d" % (s, l)
                ne = load["sadatom_occs_" + s].vals(); ne = ne[l] if l < len(ne) else 0
                if k in load:
                    R = mmulA(mmulA(pr, load[k]), mT(pr)); w = qscale(qinv(mtrace(R, S)), float(ne)) if ne else Qc(1)
                    Pn = mat(N, N, lambda i, j: qmul(w, R.get(i, j)))
                else: Pn = mat(N, N, lambda i, j: {})
                Po = mmulA(mT(X), mmulA(Pn, X))
                seen = any(not any(qdiff(Q(x), Q(y)) for x, y in zip(m.vals(), Po.vals())) for m in I.rec["eig"] if (m.r, m.c) == (N, N))
                self.ok(seen, (nm % "density") + ": the density diagonalised is not the stored one, projected and scaled to the stored number of electrons")
                top = (2.0 if restricted else 1.0) * (2 * l + 1); b = t * nl + l
                w = [min(max(EIG(N)[N - 1 - i], 0.0), top) for i in range(N)]
                g = [qcval(Q(x)) or 0.0 for x in vals(I.rd(n0.items[b]))]
                self.ok(g == w, (nm % "occupations") + ": %s instead of %s for eigenvalues %s" % (g, w, EIG(N)))
                oo = I.rd(o0.items[b]); cols = []
                for j in range(oo.c):
                    nmz = [conc._names[kx] for mm in Q(oo.get(0, j)) for kx, e in mm]
                    cols.append(nmz[0][3] if len(nmz) == 1 and nmz[0][0] == "V" else None)
                self.ok(cols == list(range(N - 1, -1, -1)), (nm % "orbitals") + ": do not go with the occupations")
    def stored(self, lmax, spins):
        d = dict(sadatom_Z=5, sadatom_lmax=lmax, sadatom_primbas=8, sadatom_nnodes=3, sadatom_Nquad=77, sadatom_bval=vec([Sy("ob", 0), Sy("ob", 1)]))
        for s in spins:
            d["sadatom_occs_" + s] = A([{"a": 2, "b": 1}[s] + l for l in range(lmax + 1)], lmax + 1, 1)
            for l in range(lmax + 1): d["sadatom_P%sl_%d" % (s, l)] = A([Sy("old", s, l)], 1, 1)
        return d
    def job(self):
        for nm, h in (("Hartree-Fock", HF), ("density functional", DFT), ("hybrid functional", HYB), ("screened hybrid functional", RSH), ("Yukawa-screened hybrid functional", RSY)):
            self.scenario(nm + ", restricted", h, (3, 2), True)
            self.scenario(nm + ", unrestricted", h, (4, 2), False)
            self.scenario(nm + ", no beta electrons", h, (2, 0), False, empty=(2, 3))
        self.scenario("channels up to f", HYB, (4, 2), False, lmax=3)
        self.scenario("one channel", HYB, (1, 1), True, lmax=0)
        self.scenario("empty channels", HYB, (4, 2), False, lmax=2, empty=(1, 5))
        self.scenario("confinement", HYB, (4, 2), False, iconf=2, conf_N=4, conf_R=Sy("cR"), conf_barrier=Sy("cV"), shift_conf=Sy("cs"))
        for k in (1, 2, 3, 4): self.scenario("guess %d" % k, HF, (3, 2), False, iguess=k)
        self.scenario("frozen occupations, restricted", HF, (3, 2), True, fixed=[[4, 1]])
        self.scenario("frozen occupations", HF, (4, 2), False, fixed=[[2, 2], [1, 1]])
        self.scenario("continued, restricted", HF, (3, 2), True, load=self.stored(1, "a"))
        self.scenario("continued", HF, (3, 2), False, load=self.stored(1, "ab"))
        self.scenario("continued with fewer stored channels", HF, (3, 2), False, lmax=2, load=self.stored(1, "ab"))
