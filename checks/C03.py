"""C03: the exchange-correlation Fock matrix is the exact derivative of the exchange-correlation energy."""
import program
from program import *
import tensor
from tensor import *
from report import Check

RULE = ("For every grid worker class and every kind of functional (LDA, GGA, tau and/or Laplacian meta-GGA; spin-restricted and polarized; "
        "beta channel on/off), the worker's pipeline compute_bf -> update_density -> init_xc -> compute_xc -> eval_Exc/eval_Fxc is evaluated to an "
        "index-notation normal form over uninterpreted basis-function values, densities and libxc outputs; the accumulated Fock matrix must equal "
        "sum_points w * sum_q v_q * d q / d P, the energy sum_points w * e * rho, with every libxc argument in its role.")

LIBXC = {"xc_lda_exc_vxc": "rho zk vrho", "xc_lda_exc": "rho zk", "xc_lda_vxc": "rho vrho",
         "xc_gga_exc_vxc": "rho sigma zk vrho vsigma", "xc_gga_exc": "rho sigma zk", "xc_gga_vxc": "rho sigma vrho vsigma",
         "xc_mgga_exc_vxc": "rho sigma lapl tau zk vrho vsigma vlapl vtau", "xc_mgga_exc": "rho sigma lapl tau zk", "xc_mgga_vxc": "rho sigma lapl tau vrho vsigma vlapl vtau"}
KINDS = {"LDA": (0, 0, 0), "GGA": (1, 0, 0), "MGGA(tau)": (0, 1, 0), "MGGA(lapl)": (0, 0, 1), "MGGA(tau,lapl)": (0, 1, 1)}

class Bad(Exception):
    def __init__(self, key, msg): self.key = key; self.msg = msg

class W(Eval):
    """one worker object"""
    def __init__(self, P, kinds, sym=None):
        super().__init__(P)
        self.kinds = kinds          # functional id -> kind name
        self.cur = None
        self.sym = sym or {}
        self.libcalls = 0
    def field_default(self, name, t):
        return self.opaque(name, t)
    def opaque(self, name, t):
        if t == "bool":
            v = self.ctor_value(name)
            if v is None: und("flag %s read before it is set" % name)
            return ("scalar", const(v), 0, False)
        if t in ("int", "double", "size_t", "unsigned long", "long"): return ("scalar", atom(("a", name)), 0, False)
        r = self.rank_of(t)
        if r == 0: return Opaque(name)
        T = Tn(name, [None] * r, None, 0)
        T.cplx = "complex" in t
        T.defs = []; self.make_opaque(T)
        return T
    def ctor_value(self, name):
        """constant the constructors leave in a flag"""
        vals = set()
        for f in self.P.funcs.values():
            if f.kind != "ctor" or f.q.rsplit("::", 1)[0] != self.this.cls: continue
            v = None
            for i in f.inits or []:
                if i.get("n") == name and strip(i["v"]).get("k") in ("Bool", "Int"): v = int(strip(i["v"])["v"])
            for x in walk(f.body) if f.body else ():
                if x["k"] == "Bin" and x["op"] == "=" and strip(x["c"][0]).get("k") == "Mem" and strip(x["c"][0])["n"] == name:
                    r = strip(x["c"][1]); v = int(r["v"]) if r.get("k") in ("Bool", "Int") else "?"
            if v is not None: vals.add(v)
        return vals.pop() if len(vals) == 1 and "?" not in vals else None
    def global_ref(self, n):
        if n["n"] == "verbose": return const(0)
        if n["n"] in ("stderr", "stdout"): return Opaque("stream")
        return Opaque(n["n"])
    def call_hook(self, n, q, args, obj):
        nm = n.get("n") or ""
        base = q.split("::")[-1]
        a = n["a"]
        if base == "is_gga_mgga":
            g, t, l = self.kind(a[0])
            for x, v in zip(a[1:4], (g, t, l)):
                self.assign(n, self.lv(x), "=", const(v))
            return const(0)
        if base == "has_exc": return const(1)
        if base == "gradient_needed":
            return const(int(any(self.kind(a[0]))))
        if base == "tau_needed": return const(self.kind(a[0])[1])
        if base == "laplacian_needed": return const(self.kind(a[0])[2])
        if base in ("xc_func_init", "xc_func_end", "xc_func_set_dens_threshold", "xc_func_set_ext_params"): return const(0)
        if base in LIBXC: return self.libxc(n, base)
        if base == "mirror_block" and n["k"] == "MCall":
            if self.sym.get("mirror"): return atom(("a", "imirror", index_of(self.sc(a[0]))))
            return atom(("fn", "dim", "mlist", "size"))
        if n["k"] == "MCall" and n.get("o") is not None:
            o = self.unwrap(n["o"])
            if o["k"] == "Mem" and o["n"] == "basp" or (o["k"] == "OCall" and o.get("op") == "->" and self.unwrap(o["a"][0]).get("n") == "basp"):
                if nm == "is_absm_symmetric": return const(int(bool(self.sym.get("mirror"))))
                if nm == "expand_boundaries":
                    src = self.ev(a[0]); src = src if isinstance(src, Tn) else None
                    if src is None or src.defs: und("expanded density", n)
                    return src
                for i, x in enumerate(a):
                    if (n.get("pm") or "")[i:i + 1] == "r":
                        T = self.lv(x)
                        if isinstance(T, Tn):
                            T.cplx = "complex" in (self.unwrap(x).get("t") or x.get("t") or ""); T.dims = [None] * self.rank_of(x.get("t") or ""); T.name = "%s.%d" % (nm, i); self.make_opaque(T)
                t = n.get("rt") or n.get("t") or ""
                if t == "void": return const(0)
                return self.rd(self.opaque(nm, t)) if self.rank_of(t) == 0 else self.opaque(nm, t)
        return NotImplemented
    def opaque_call(self, n):
        for i, x in enumerate(n["a"]):
            if (n.get("pm") or "")[i:i + 1] in ("r", "p"): und("call of %s" % (n.get("q") or n.get("n")), n)
        t = n.get("rt") or n.get("t") or ""
        if t in ("double", "int", "size_t"): return atom(("fn", n.get("q") or n.get("n"), n["l"]))
        und("call of %s" % (n.get("q") or n.get("n")), n)
    def kind(self, a):
        p = self.sc(a)
        for fid, k in self.kinds.items():
            if peq(p, atom(("a", fid))):
                self.cur = fid; return KINDS[k]
        und("functional id")
    def assume(self, n, text):
        if n["k"] == "Bin" and n["op"] in (">", "<", ">=", "<=", "!=", "=="):
            # functional ids are positive
            try: x, y = self.sc(n["c"][0]), self.sc(n["c"][1])
            except Undecided: return None
            for p, o, op in ((x, y, n["op"]), (y, x, {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(n["op"], n["op"]))):
                if any(peq(p, atom(("a", f))) for f in self.kinds) and cval(o) == 0.0: return op in (">", ">=", "!=")
                if len(p) == 1 and len(list(p)[0]) == 1 and list(p)[0][0][0][:2] == ("a", "imirror"): return {"!=": True, "==": False}.get(op)
                if self.sym.get("msign") is not None and len(p) == 1:
                    (m, c), = p.items()
                    if len(m) == 1 and m[0][0][:2] == ("a", "mlist") and cval(o) == 0.0:
                        s = self.sym["msign"]
                        return {">": s > 0, "<": s < 0, ">=": s >= 0, "<=": s <= 0, "!=": s != 0, "==": s == 0}[op]
        if n["k"] == "MCall" and n.get("n") == "empty": return self.nonempty(n)
        if n["k"] == "MCall" and n.get("n") == "size" and self.unwrap(n["o"])["k"] != "Ref": return None
        return None
    def nonempty(self, n):
        try: v = self.lv(n["o"]) if self.is_lvalue(self.unwrap(n["o"])) else self.ev(n["o"])
        except Undecided: return None
        if isinstance(v, Lst): return not v.items
        if isinstance(v, (TV, Tn)):
            d = v.dims[0]
            return d == 0 if isinstance(d, int) else False
        return None
    def cond(self, n, stmt=None):
        b = super().cond(n, stmt)
        if b is None:
            m = self.unwrap(n)
            # "no functions in this block" never holds for a block that contributes
            if m["k"] == "Un" and m["op"] == "!":
                t = strip(m["c"][0])
                if t.get("k") == "Ref":
                    try: p = self.sc(t)
                    except Undecided: return None
                    if len(p) == 1 and list(p)[0] and list(p)[0][0][0][:2] == ("fn", "dim"): return False
            if m["k"] == "Ref" or m["k"] == "MCall":
                try: p = self.sc(m)
                except Undecided: return None
                if len(p) == 1 and list(p)[0] and list(p)[0][0][0][:2] == ("fn", "dim"): return True
        return b
    def scatter(self, n, T, idx, op, v):
        # the partner block is a different block; its copy is not read again
        if op == "=" and any(isinstance(x, tuple) and x[:2] == ("a", "imirror") for x in idx): return
        return super().scatter(n, T, idx, op, v)
    def libxc(self, n, base):
        roles = LIBXC[base].split()
        args = n["a"][2:]
        self.libcalls += 1
        g, t, l = KINDS[self.kinds[self.cur]]
        fam = base.split("_")[1]
        need = "mgga" if (t or l) else "gga" if g else "lda"
        if fam != need: raise Bad("family", "line %d: a functional of kind %s is evaluated with %s" % (n["l"], self.kinds[self.cur], base))
        wo = self.this
        for r, a in zip(roles, args):
            v = self.ev(a)
            if isinstance(v, Ptr): v = v.v
            null = isinstance(v, Opaque)
            wanted = {"lapl": l, "vlapl": l, "tau": t, "vtau": t}.get(r, True)
            if null:
                if wanted: raise Bad("null", "line %d: %s receives no %s for a functional that depends on it" % (n["l"], base, r))
                continue
            if isinstance(v, Tn): v = whole(v)
            if not isinstance(v, TV): und("libxc argument %s" % r, n)
            if r in ("rho", "sigma", "lapl", "tau"):
                if not wanted: continue
                f = wo.f.get(r)
                if not isinstance(f, Tn): raise Bad("unset", "line %d: %s is given %s although it was not computed" % (n["l"], base, r))
                rows = f.dims[0]
                for s in range(rows if isinstance(rows, int) else 1):
                    if v.rank != 2: und("libxc argument shape", n)
                    if not peq(v.get((s, ("s", "x"))), f.get((s, ("s", "x")))):
                        raise Bad("role", "line %d: argument '%s' of %s is not the worker's %s" % (n["l"], r, base, r))
                exp = {"rho": 2, "sigma": 3, "lapl": 2, "tau": 2}[r] if self.polarized() else 1
                if isinstance(rows, int) and rows != exp: raise Bad("rows", "line %d: %s has %s components per point, libxc expects %d" % (n["l"], r, rows, exp))
            else:
                if not v.place: und("libxc output", n)
                T = v.place[0]
                nm = r + "#" + self.cur
                rows = T.dims[0] if len(T.dims) == 2 else None
                exp = {"vrho": 2, "vsigma": 3, "vlapl": 2, "vtau": 2}.get(r) if self.polarized() else 1
                if len(T.dims) == 2 and isinstance(rows, int) and r != "zk" and rows != exp:
                    raise Bad("rows", "line %d: output %s has room for %s components per point, libxc writes %d" % (n["l"], r, rows, exp))
                if r == "zk" and len(T.dims) == 2: und("zk shape", n)
                T.replace(lambda idx, nm=nm: atom(("a", nm) + tuple(idx)))
                self.outs.setdefault(self.cur, set()).add(r)
        return const(0)
    def polarized(self): return bool(cval(self.rd(self.this.f["polarized"])))

def worker_classes(P):
    out = {}
    for f in P.funcs.values():
        if f.name == "update_density" and f.cls: out.setdefault(f.q.rsplit("::", 1)[0], []).append(f)
    return out

def method(P, cls, base, name, npar=None):
    fs = [f for q in (cls, base) if q for f in P.by_q.get(q + "::" + name, [])]
    if npar is not None: fs = [f for f in fs if len(f.params) == npar]
    return fs[0] if fs else None

def dP(p, names, tgt):
    """derivative with respect to the density element with the given index pattern; result over target symbols"""
    out = {}
    for m, c in p.items():
        for k, (a, q) in enumerate(m):
            if a[0] == "a" and a[1] == names:
                mp = {}
                if not unify(a[2:], tgt, mp): continue
                rest = list(m[:k]) + ([(a, q - 1)] if q != 1 else []) + list(m[k + 1:])
                fs = {}
                for b, r in rest:
                    b2 = subst_t(b, mp); fs[b2] = fs.get(b2, 0) + r
                s, mm = mkmono(fs)
                out[mm] = out.get(mm, 0.0) + s * c * q
    return out
def unify(a, t, mp):
    if isinstance(a, tuple) and len(a) == 2 and a[0] == "d":
        if a in mp: return mp[a] == t
        mp[a] = t; return True
    if isinstance(a, tuple) and isinstance(t, tuple):
        return len(a) == len(t) and all(unify(x, y, mp) for x, y in zip(a, t))
    return a == t

def setup(P, cls, base, kinds, polarized, dens, sym=None):
    """evaluate the pipeline up to the potentials"""
    it = W(P, kinds, sym); it.outs = {}
    wo = Obj(cls)
    for f in ("do_grad", "do_tau", "do_lapl", "polarized", "do_gga", "do_mgga_t", "do_mgga_l"): wo.f[f] = ("scalar", {}, 0, True)
    x = [("scalar", atom(("a", f)), 0, False) for f in kinds]
    ids = list(kinds)
    m = method(P, cls, base, "check_grad_tau_lapl")
    it.call_function(m, wo, [x[0], x[1] if len(x) > 1 else x[0]])
    cb = method(P, cls, base, "compute_bf")
    it.call_function(cb, wo, [("scalar", atom(("a", p["n"])), 0, False) for p in cb.params])
    ud = method(P, cls, base, "update_density", 2 if polarized else 1)
    it.call_function(ud, wo, dens)
    it.call_function(method(P, cls, base, "init_xc"), wo, [])
    cx = method(P, cls, base, "compute_xc")
    for i, f in enumerate(ids):
        it.cur = f
        args = [x[i], Tn("params", [0], lambda i: {}, 0), ("scalar", atom(("a", "thr")), 0, False), ("scalar", const(1), 0, False)]
        it.call_function(cx, wo, args)
    return it, wo, ud

def mkdens(t, name):
    r = 3 if "vector" in t else 2
    T = Tn(name, [None] * r, lambda idx: atom(("a", name) + tuple(idx)), 0)
    return T

def expected(wo, kinds, sp, name, tgt, polarized):
    """sum_ip w v_q dq/dP over all inputs"""
    ip = ("s", "ip")
    w = wo.f["wtot"].get((ip,))
    tot = {}
    for fid, k in kinds.items():
        g, t, l = KINDS[k]
        qs = [("rho", "vrho", 2)]
        if g or t or l: qs.append(("sigma", "vsigma", 3))
        if t: qs.append(("tau", "vtau", 2))
        if l: qs.append(("lapl", "vlapl", 2))
        for q, v, ncomp in qs:
            for s in range(ncomp if polarized else 1):
                if q not in wo.f or not isinstance(wo.f[q], Tn): raise Bad("unset", "%s is not computed for %s" % (q, k))
                d = dP(wo.f[q].get((s, ip)), name, tgt)
                if not d: continue
                tot = padd(tot, pmul(pmul(w, atom(("a", v + "#" + fid, s, ip))), d))
    return msum(tot, ip)

def rename(idx, v, frames, mus):
    """rename the loop symbols of a scatter to the target symbols"""
    return psubst(v, mus), tuple(subst_t(x, mus) if isinstance(x, tuple) else x for x in idx)

def loopsyms(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "l":
            if t not in out: out.append(t)
        else:
            for x in t: loopsyms(x, out)
    return out

def compare(C_, cls, f, kinds, label, name, H, wo, polarized, spin):
    """one accumulated Fock matrix against the derivative with respect to density `name`"""
    if not H.scatter and not H.defs and not getattr(H, "opq", False): raise Bad("missing", "nothing is added to the %sFock matrix" % spin)
    if getattr(H, "opq", False): und("Fock matrix written through a computed position")
    if H.defs: und("Fock matrix written outside of the element scatter")
    # group scatters by index pattern
    tot = {}
    pats = {}
    for idx, v, frames, n in H.scatter:
        syms = loopsyms(idx, [])
        mus = {s: ("s", "m%d" % k) for k, s in enumerate(syms)}
        v2, i2 = rename(idx, v, frames, mus)
        left = [s for s in frames if s not in mus]
        for s in left: v2 = msum(v2, s)
        pats.setdefault(i2, {})
        pats[i2] = padd(pats[i2], v2)
    return pats

def symmetrised(p, a, b):
    sw = psubst(psubst(p, {a: ("s", "tmpx")}), {b: a})
    sw = psubst(sw, {("s", "tmpx"): b})
    return pscale(padd(p, sw), 0.5)

def last2(tgt):
    syms = []
    for x in tgt[-2:]:
        l = []
        def go(t):
            if isinstance(t, tuple):
                if len(t) == 2 and t[0] == "s": l.append(t)
                else:
                    for y in t: go(y)
        go(x); syms.append(l[-1] if l else None)
    return syms

def diffmsg(got, want):
    d = pdiff(got, want)
    miss = {m: -c for m, c in d.items()}
    return "computed minus exact derivative: " + pp(d, 3)

def run_class(C_, P, cls, base, tier):
    combos = [{"x": k} for k in KINDS] + [{"x": a, "c": b} for a, b in (("LDA", "GGA"), ("GGA", "LDA"), ("MGGA(tau)", "GGA"), ("GGA", "MGGA(tau,lapl)"), ("MGGA(lapl)", "MGGA(tau)"))]
    if tier == "thorough": combos = [{"x": k} for k in KINDS] + [{"x": a, "c": b} for a in KINDS for b in KINDS]
    ev = [f for f in P.by_q.get(cls + "::eval_Fxc", [])]
    for polarized in (False, True):
        ud = method(P, cls, base, "update_density", 2 if polarized else 1)
        ef = [f for f in ev if len(f.params) == (3 if polarized else 1)]
        if ud is None or not ef: C_.undecide("%s: %s pipeline incomplete" % (cls, "polarized" if polarized else "restricted")); continue
        ef = ef[0]
        names = ["Pa0", "Pb0"] if polarized else ["P0"]
        tensor.SYM.clear(); tensor.SYM.update(names)
        for combo in combos:
            lab = "%s/%s/%s" % (cls.replace("helfem::", "").replace("::dftgrid", ""), "polarized" if polarized else "restricted", "+".join(combo.values()))
            for beta in ((True, False) if polarized else (True,)):
                C_.count("pipelines")
                try:
                    dens = [mkdens(p["t"], nm) for p, nm in zip(ud.params, names)]
                    it, wo, _ = setup(P, cls, base, combo, polarized, dens)
                    if beta: check_energy(C_, P, it, wo, cls, base, combo, polarized, lab)
                    Hs = []
                    for p in ef.params:
                        if p["t"].rstrip().endswith("&") or "vector" in p["t"]:
                            r = 3 if "vector" in p["t"] else 2
                            Hs.append(Tn("H", [None] * r, lambda idx: {}, 0))
                    args = Hs + ([("scalar", const(int(beta)), 0, False)] if polarized else [])
                    it.call_function(ef, wo, args)
                    for e in it.events:
                        if e[0] == "empty":
                            raise Bad("empty|beta=%d" % beta, "line %d: values are added to the matrix '%s', which has not been allocated" % (e[1]["l"], e[2]))
                    for s, H in enumerate(Hs):
                        spin = ("alpha ", "beta ")[s] if polarized else ""
                        if s == 1 and not beta:
                            if H.scatter or H.defs: raise Bad("beta-off", "the beta Fock matrix is modified although the beta channel is switched off")
                            continue
                        pats = compare(C_, cls, ef, combo, lab, names[s], H, wo, polarized, spin)
                        for idx, got in pats.items():
                            want = expected(wo, combo, s, names[s], idx, polarized)
                            mu, nu = last2(idx)
                            if mu is None or nu is None or mu == nu: und("index pattern of the Fock matrix")
                            g2 = got
                            w2 = symmetrised(want, mu, nu)
                            C_.count("matrices_compared")
                            C_.count("terms_compared", len(canon(w2)))
                            if not peq(g2, w2):
                                raise Bad("derivative|%s%s" % (spin.strip(), ""), "%sFock matrix is not the derivative of the energy (%s)" % (spin, diffmsg(g2, w2)))
                    C_.sample({"pipeline": lab, "beta": beta, "at": ef.loc()}, 80)
                except Bad as b:
                    C_.violation("%s|%s" % (lab, b.key), "%s: %s, functional %s%s: %s" % (ef.loc(), cls, "+".join(combo.values()), ", beta off" if not beta else "", b.msg))
                except Rejected as u:
                    C_.count("rejected_by_the_code")
                except Undecided as u:
                    C_.undecide("%s%s: %s" % (lab, "" if beta else " (beta off)", u))

def check_energy(C_, P, it, wo, cls, base, kinds, polarized, lab):
    ee = method(P, cls, base, "eval_Exc")
    r = it.call_function(ee, wo, [])
    ip = ("s", "ip")
    w = wo.f["wtot"].get((ip,))
    rho = {}
    for s in range(2 if polarized else 1): rho = padd(rho, wo.f["rho"].get((s, ip)))
    e = {}
    for f in kinds: e = padd(e, atom(("a", "zk#" + f, ip)))
    want = msum(pmul(pmul(w, e), rho), ip)
    C_.count("energies_compared")
    if not isinstance(r, dict): und("eval_Exc result")
    if not peq(r, want): raise Bad("energy", "eval_Exc is not the integral of the energy density times the density (%s)" % diffmsg(r, want))
    ne = method(P, cls, base, "compute_Nel")
    if ne is not None:
        r = it.call_function(ne, wo, [])
        if isinstance(r, dict) and not peq(r, msum(pmul(w, rho), ip)): raise Bad("nel", "compute_Nel is not the integral of the density (%s)" % diffmsg(r, msum(pmul(w, rho), ip)))
    ek = method(P, cls, base, "compute_Ekin")
    if ek is not None and cval(it.rd(wo.f["do_tau"])):
        tau = {}
        for s in range(2 if polarized else 1): tau = padd(tau, wo.f["tau"].get((s, ip)))
        r = it.call_function(ek, wo, [])
        if isinstance(r, dict) and not peq(r, msum(pmul(w, tau), ip)): raise Bad("ekin", "compute_Ekin is not the integral of the kinetic energy density")

def inputs(C_, P, cls, base):
    """definitions of the libxc inputs themselves: sigma from the gradients, spin symmetry"""
    for polarized in (False, True):
        ud = method(P, cls, base, "update_density", 2 if polarized else 1)
        names = ["Pa0", "Pb0"] if polarized else ["P0"]
        tensor.SYM.clear(); tensor.SYM.update(names)
        for k in ("MGGA(tau,lapl)", "MGGA(tau)"):
            try:
                dens = [mkdens(p["t"], nm) for p, nm in zip(ud.params, names)]
                it, wo, _ = setup(P, cls, base, {"x": k}, polarized, dens)
                break
            except Undecided as u:
                wo = None
            except Bad as u:
                wo = None
        if wo is None: C_.undecide("%s: libxc inputs not evaluated" % cls); continue
        ip = ("s", "ip")
        try:
            if "grho" in wo.f:
                g = wo.f["grho"]; nr = g.dims[0]
                ns = 2 if polarized else 1; nc = nr // ns
                gr = [[g.get((s * nc + c, ip)) for c in range(nc)] for s in range(ns)]
                dot = lambda a, b: _sum(pmul(x, y) for x, y in zip(a, b))
                want = [dot(gr[0], gr[0])] if not polarized else [dot(gr[0], gr[0]), dot(gr[0], gr[1]), dot(gr[1], gr[1])]
                for s, wv in enumerate(want):
                    C_.count("inputs_compared")
                    if not peq(wo.f["sigma"].get((s, ip)), wv):
                        C_.violation("%s|sigma%d|%d" % (cls, s, polarized), "%s: sigma component %d is not the product of the density gradients" % (ud.loc(), s))
            if polarized:
                sw = lambda p: psubst_names(p, {"Pa0": "Pb0", "Pb0": "Pa0"})
                for q in ("rho", "tau", "lapl"):
                    if q in wo.f and isinstance(wo.f[q], Tn) and wo.f[q].dims and wo.f[q].dims[0] == 2:
                        C_.count("inputs_compared")
                        a, b = wo.f[q].get((0, ip)), wo.f[q].get((1, ip))
                        if not peq(sw(a), b):
                            C_.violation("%s|spin|%s" % (cls, q), "%s: the beta %s is not the alpha expression with the beta density" % (ud.loc(), q))
                # polarized alpha channel equals the restricted expression
                udr = method(P, cls, base, "update_density", 1)
                tensor.SYM.update(["P0"])
                it2, wr, _ = setup(P, cls, base, {"x": k}, False, [mkdens(udr.params[0]["t"], "P0")])
                for q in ("rho", "tau", "lapl", "grho"):
                    if q in wo.f and q in wr.f and isinstance(wr.f[q], Tn) and isinstance(wo.f[q], Tn):
                        for s in range(wr.f[q].dims[0]):
                            C_.count("inputs_compared")
                            if not peq(psubst_names(wo.f[q].get((s, ip)), {"Pa0": "P0"}), wr.f[q].get((s, ip))):
                                C_.violation("%s|restricted|%s" % (cls, q), "%s: %s of the polarized and the restricted code differ for the same density" % (ud.loc(), q))
        except Undecided as u:
            C_.undecide("%s inputs: %s" % (cls, u))

def _sum(it):
    r = {}
    for x in it: r = padd(r, x)
    return r
def psubst_names(p, mp):
    out = {}
    for m, c in p.items():
        mm = tuple(sorted(((("a", mp.get(a[1], a[1])) + a[2:] if a[0] == "a" else a), q) for a, q in m)) if False else tuple(((("a", mp.get(a[1], a[1])) + a[2:] if a[0] == "a" else a), q) for a, q in m)
        out[mm] = out.get(mm, 0.0) + c
    return out

def mirrored(C_, P, cls, base):
    """blocks shared between +m and -m must count twice, their partners not at all"""
    ud = method(P, cls, base, "update_density", 1)
    if method(P, cls, base, "mirror_block") is None: return
    tensor.SYM.clear(); tensor.SYM.update(["P0"])
    try:
        q = {}
        for lab, sym in (("alone", {}), ("plus", {"mirror": True, "msign": 1}), ("minus", {"mirror": True, "msign": -1}), ("zero", {"mirror": True, "msign": 0})):
            it, wo, _ = setup(P, cls, base, {"x": "MGGA(tau,lapl)"}, False, [mkdens(ud.params[0]["t"], "P0")], sym)
            ef = [f for f in P.by_q.get(cls + "::eval_Fxc", []) if len(f.params) == 1][0]
            H = Tn("H", [None, None], lambda idx: {}, 0)
            it.call_function(ef, wo, [H])
            q[lab] = (wo, H)
        ip = ("s", "ip")
        for nm in ("rho", "grho", "tau", "lapl"):
            for s in range(q["alone"][0].f[nm].dims[0]):
                a = q["alone"][0].f[nm].get((s, ip))
                for lab, fac in (("plus", 2.0), ("minus", 0.0), ("zero", 1.0)):
                    C_.count("mirror_relations")
                    b = q[lab][0].f[nm].get((s, ip))
                    if not peq(b, pscale(a, fac)):
                        C_.violation("%s|mirror|%s|%s" % (cls, nm, lab), "%s: with +m/-m blocks shared, %s of a block with %s is not %g times its own contribution" % (ud.loc(), nm, {"plus": "m>0", "minus": "m<0", "zero": "m=0"}[lab], fac))
        # Fock side: +m block scattered to both partners with the same value, -m skipped
        n = {lab: len(h.scatter) for lab, (w_, h) in q.items()}
        C_.count("mirror_relations")
        if n["minus"] != 0 or n["plus"] != 2 * n["alone"] or n["zero"] != n["alone"]:
            C_.violation("%s|mirror|H" % cls, "%s: the +m block is not accumulated once for each partner (%s)" % (ud.loc(), n))
    except Bad as b: C_.undecide("%s mirrored: %s" % (cls, b.msg))
    except Undecided as u: C_.undecide("%s mirrored: %s" % (cls, u))

# ------------------------------------------------------------------ drivers
STEPS = ("compute_bf", "update_density", "init_xc", "compute_xc", "eval_Exc", "eval_Fxc", "compute_Nel")
class Drv:
    """the per-batch call sequence of a driver, looking through helper functions and local lambdas"""
    def __init__(self, P, f):
        self.P = P; self.f = f
        self.memo = {}
    def step(self, n): return n["k"] == "MCall" and n.get("n") in STEPS and "DFTGridWorker" in (n.get("q") or "")
    def callee(self, n, lam):
        if n["k"] == "OCall" and n.get("op") == "()":
            o = strip(n["a"][0])
            l = lam.get(o.get("d")) if o.get("k") == "Ref" else None
            if l is not None: return l.get("p") or [], l["body"], n["a"][1:]
        if n["k"] in ("Call", "MCall") and not self.step(n) and n.get("inproj"):
            t = self.P.targets(n, self.f)
            if len(t) == 1 and t[0].body: return t[0].params, t[0].body, n["a"]
        return None
    def lams(self, body):
        return {x["d"]: strip(x["i"]) for x in walk(body) if x.get("k") == "Var" and x.get("i") is not None and strip(x["i"]).get("k") == "Lambda"}
    def contains(self, n, name, lam, depth=0):
        if n is None: return False
        st = [n]
        while st:
            x = st.pop()
            if x["k"] == "Lambda" : continue
            if self.step(x) and x["n"] == name: return True
            if depth < 3:
                c = self.callee(x, lam)
                if c is not None:
                    k = (id(c[1]), name)
                    if k not in self.memo:
                        self.memo[k] = False
                        self.memo[k] = self.contains(c[1], name, dict(lam, **self.lams(c[1])), depth + 1)
                    if self.memo[k]: return True
            st.extend(y for y in kids(x) if y is not None)
        return False
    def loops(self, body, lam, mp, depth=0, out=None, outer=None):
        """(loop, enclosing loop, lambda table, parameter map) of every loop around the pipeline"""
        out = [] if out is None else out
        def go(x, outer):
            if x is None or x["k"] == "Lambda": return
            if x["k"] in ("For", "ForRange", "While", "Do") and self.contains(x.get("body"), "update_density", lam):
                out.append((x, outer, lam, mp)); outer = x
            if depth < 3 and not self.step(x):
                c = self.callee(x, lam)
                if c is not None and self.contains(c[1], "update_density", dict(lam, **self.lams(c[1]))):
                    m2 = dict(mp)
                    for p, a in zip(c[0], c[2]): m2[p["d"]] = a
                    self.loops(c[1], dict(lam, **self.lams(c[1])), m2, depth + 1, out, outer)
            for y in kids(x): go(y, outer)
        go(body, outer)
        return out
    def seq(self, body, lam, mp, conds=(), depth=0):
        out = []
        def go(n, conds):
            if n is None or n["k"] == "Lambda": return
            if n["k"] == "If":
                go(n["cond"], conds)
                go(n.get("then"), conds + (n["cond"],)); go(n.get("else"), conds + (n["cond"],)); return
            for x in kids(n): go(x, conds)
            if self.step(n): out.append((n["n"], n, conds, mp))
            elif depth < 4:
                c = self.callee(n, lam)
                if c is not None:
                    m2 = dict(mp)
                    for p, a in zip(c[0], c[2]): m2[p["d"]] = a
                    l2 = dict(lam, **self.lams(c[1]))
                    if any(self.contains(c[1], s, l2) for s in STEPS): out.extend(self.sub(c[1], l2, m2, conds, depth + 1))
        go(body, conds)
        return out
    def sub(self, body, lam, mp, conds, depth): return self.seq(body, lam, mp, conds, depth)
    def root(self, n, mp, depth=0):
        """the driver's parameter (or local) an argument stands for"""
        n = strip(n)
        while n is not None and depth < 12:
            depth += 1
            if n.get("k") == "Ref" and n.get("d") in mp: n = strip(mp[n["d"]]); continue
            if n.get("k") == "Ref":
                v = next((x for x in walk(self.f.body) if x.get("k") == "Var" and x.get("d") == n["d"]), None)
                if v is not None and v.get("i") is not None and (v.get("t") or "").rstrip().endswith("&"): n = strip(v["i"]); continue
            break
        return n

def drivers(C_, P, classes):
    for f in P.funcs.values():
        if f.name != "eval_Fxc" or len(f.params) < 6: continue
        C_.count("drivers")
        D = Drv(P, f)
        pid = {p["d"]: p["n"] for p in f.params}
        loops = D.loops(f.body, D.lams(f.body), {})
        inner = [l for l in loops if not any(m[1] is l[0] for m in loops)]
        if not inner: C_.undecide("%s: no grid loop found" % f.loc()); continue
        for lp, _, lam, mp0 in inner:
            seq = D.seq(lp.get("body"), lam, mp0)
            names = [x[0] for x in seq]
            where = "%s:%d" % (f.file, lp["l"])
            C_.count("driver_loops")
            def need(c, key, msg):
                if not c: C_.violation("driver|%s|%s" % (f.q, key), "%s: %s" % (where, msg))
            def pos(x): return names.index(x) if x in names else None
            for a, b, msg in (("compute_bf", "update_density", "the density is evaluated before the basis functions of the point"),
                              ("update_density", "compute_xc", "the functional is evaluated before the density"),
                              ("init_xc", "compute_xc", "functional contributions are accumulated into potentials that were not reset"),
                              ("update_density", "init_xc", "the potentials are reset before the density says whether it is polarized"),
                              ("compute_xc", "eval_Exc", "the energy is taken before the functionals are evaluated"),
                              ("compute_xc", "eval_Fxc", "the Fock matrix is built before the functionals are evaluated")):
                pa, pb = pos(a), pos(b)
                if pa is None or pb is None: need(False, "missing|%s" % (a if pa is None else b), "%s is not called for each point batch" % (a if pa is None else b)); continue
                last_a = max(i for i, x in enumerate(names) if x == a)
                need(last_a < pb, "%s<%s" % (a, b), msg)
            roles = []
            for nme, n, conds, mp in seq:
                if nme != "compute_xc": continue
                a = [D.root(x, mp) for x in n["a"]]
                r = tuple(pid.get(x.get("d")) for x in a[:2])
                roles.append(r)
                if len(a) > 3 and a[3].get("k") in ("Bool", "Int") and not int(a[3]["v"]): need(False, "pot", "a functional is evaluated without its potential")
                for c in conds:
                    c = strip(c)
                    if c["k"] == "Bin":
                        x = D.root(c["c"][0], mp)
                        if x.get("k") == "Ref" and pid.get(x.get("d")) and r[0] and x["d"] != a[0].get("d"):
                            need(False, "cond|%s" % r[0], "the %s contribution depends on %s" % (r[0], pid.get(x["d"])))
            idp = [p["n"] for p in f.params if p["t"] == "int"]
            parp = [p["n"] for p in f.params if "Eigen" in p["t"] and "const" in p["t"] and "vector" not in p["t"] and ",-1,1" in p["t"].replace(" ", "")][:len(idp)]
            want = sorted(zip(idp, parp))
            if len(parp) == len(idp) and None not in [y for x in roles for y in x]:
                need(sorted(roles) == want, "functionals", "the functionals evaluated are %s, expected each of %s once" % (sorted(roles), want))
            else: C_.undecide("%s: functional arguments of the driver" % where)
            for nme, n, conds, mp in seq:
                if nme in ("update_density", "eval_Fxc") and len(n["a"]) >= 2:
                    ds = [origin(f, D.root(x, mp)) for x in n["a"][:2]]
                    idx = [next((i for i, p in enumerate(f.params) if p["n"] == d), None) for d in ds]
                    if None not in idx: need(idx[0] < idx[1], "spin|%s" % nme, "alpha and beta are exchanged in the call of %s" % nme)
        # the element loops cover every element exactly once
        hd = Eval(P)
        heads = []
        for l, o, lam, mp in loops:
            if o is not None: continue
            hd.env = {}
            try: h = hd.loop_head(l) if l["k"] == "For" else None
            except Undecided: h = None
            if h is None: heads = None; break
            li = D.root(h[1], mp) if h[1] is not None else None
            heads.append((int(li["v"]) if li is not None and li.get("k") == "Int" else None, h[4], h[3], show(strip(h[2]))))
        if heads and all(h[0] is not None for h in heads):
            starts = sorted(h[0] for h in heads); steps = {h[1] for h in heads}; ups = {h[3] for h in heads}; ops = {h[2] for h in heads}
            ok = len(steps) == 1 and len(ups) == 1 and ops == {"<"} and starts == list(range(int(list(steps)[0])))
            C_.count("element_sweeps")
            if not ok and len(ups) == 1: C_.violation("driver|%s|cover" % f.q, "%s: the element loops (%s) do not visit every element exactly once" % (f.loc(), ", ".join("from %s step %s %s %s" % (h[0], h[1], h[2], h[3]) for h in heads)))
        else: C_.undecide("%s: element loops of another shape" % f.loc())

def origin(f, n, depth=0):
    n = strip(n)
    if n.get("k") != "Ref": return None
    for p in f.params:
        if p["d"] == n["d"]: return p["n"]
    if depth > 3: return None
    for x in walk(f.body):
        if x.get("k") == "Var" and x.get("d") == n["d"] and x.get("i") is not None:
            refs = [y for y in walk(x["i"]) if y.get("k") == "Ref" and any(p["d"] == y.get("d") for p in f.params)]
            ds = {y["d"] for y in refs}
            if len(ds) == 1: return next(p["n"] for p in f.params if p["d"] in ds)
    return None

def run():
    C_ = Check("C03", RULE)
    P = program.load()
    import os
    tier = os.environ.get("VERIF_TIER", "quick")
    classes = sorted(worker_classes(P))
    base = next((f.q.rsplit("::", 1)[0] for f in P.funcs.values() if f.name == "compute_xc" and f.cls), None)
    for cls in classes:
        C_.count("worker_classes")
        run_class(C_, P, cls, base, tier)
        inputs(C_, P, cls, base)
        mirrored(C_, P, cls, base)
    drivers(C_, P, classes)
    for k, m in (("worker_classes", 3), ("matrices_compared", 20), ("energies_compared", 10), ("driver_loops", 4)): C_.need(k, m)
    C_.assume = ["libxc returns v_q = d(rho*e)/dq for every input q it is given (its documented contract)",
                 "density matrices are symmetric", "grid points are generic (clamps such as max(x,0) inactive)",
                 "basis-function and derivative arrays are uninterpreted: their own correctness is not part of this property"]
    C_.explain = "abstract evaluation to index-notation polynomials and comparison of normal forms"
    return C_.finish()
