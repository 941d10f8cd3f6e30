"""Evaluation of finite-element and radial-basis code: primitive polynomial bases are uninterpreted, quadrature rules
are symbolic, element loops stay symbolic and block updates are recorded with their offsets and extents."""
import tensor, calc
from tensor import *
from calc import *
from program import *

IEL = ("s", "iel"); Q = ("s", "q")
C0 = lambda i: atom(("a", "c", i))
EH = lambda i: atom(("a", "e", i))
NEL = atom(("a", "nel"))

def is_frozen(t):
    return isinstance(t, tuple) and len(t) > 0 and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], float) and isinstance(x[0], tuple) and
        all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) and isinstance(y[1], (int, float)) for y in x[0]) for x in t)
def thaw(t):
    """polynomial of a frozen term; substitution may have made monomials coincide"""
    out = {}
    for m, c in t:
        fs = {}
        for a, q in m: fs[a] = fs.get(a, 0) + q
        s, mm = mkmono(fs)
        out[mm] = out.get(mm, 0.0) + c * s
    return {m: c for m, c in out.items() if c != 0.0}
_nt = {}
def normterm(t):
    if not isinstance(t, tuple): return t
    r = _nt.get(t)
    if r is None:
        if len(_nt) > 300000: _nt.clear()
        r = _nt[t] = freeze(norm(thaw(t))) if is_frozen(t) else fixaff(tuple(normterm(x) for x in t))
    return r
def norm(p):
    """renormalise nested frozen polynomials and invert single terms"""
    out = {}
    for m, c in p.items():
        r = {ONE: c}; fs = {}; back = None
        ds = set()
        for a, q in m: dummies(a, ds)
        if ds:              # bound indices stay linked between the factors
            mp = {d: ("s", "bound%d" % k) for k, d in enumerate(sorted(ds, key=repr))}
            back = {v: fresh("d") for v in mp.values()}
            m = tuple((subst_t(a, mp), q) for a, q in m)
        for a, q in m:
            b = normterm(a)
            if b[0] == "fn" and b[1] == "inv" and is_frozen(b[2]) and len(b[2]) == 1: r = pmul(r, ppow(pinv(thaw(b[2])), q)); continue
            if b[0] == "fn" and b[1] == "inv" and b[2] == (): und("division by zero")
            if b[0] == "fn" and b[1] == "pow" and b[3:] and is_frozen(b[3]):
                k = cval(thaw(b[3]))
                if k is not None and float(k).is_integer(): r = pmul(r, ppow(thaw(b[2]), int(k) * q)); continue
            if b[0] == "ixv" and (isinstance(b[1], int) or b[1][0] == "aff"): r = pmul(r, ppow(ixval(b[1]), q)); continue
            if b[0] == "ixv" and b[1][0] == "ixp": r = pmul(r, ppow(norm(thaw(b[1][1])), q)); continue
            fs[b] = fs.get(b, 0) + q
        s, mm = mkmono(fs)
        t = pmul(r, {mm: s})
        out = padd(out, psubst(t, back) if back else t)
    return out
def nf(p):
    for _ in range(2): p = norm(canon(norm(p)))
    return canon(p)
def nsame(a, b, scale=0.0):
    a, b = nf(a), nf(b)
    bad = same(a, b, scale)
    if bad and cleared(padd(a, b, -1.0), max(scale_of(a), scale_of(b), scale)): return []
    if bad and all(len(dum(m)) == 1 for p in (a, b) for m in p):
        # one summation everywhere: equal summands suffice
        f = lambda p: psubst(p, {d: ("s", "summand") for m in p for d in dum(m)})
        a, b = nf(f(a)), nf(f(b))
        if cleared(padd(a, b, -1.0), max(scale_of(a), scale_of(b), scale)): return []
    return bad
def dum(m):
    ds = set()
    for a, _ in m: dummies(a, ds)
    return ds
def cleared(d, mx):
    """the difference vanishes once multiplied by its denominators (those free of bound indices)"""
    dens = {}
    for m in d:
        for a, q in m:
            if a[0] == "fn" and a[1] == "inv" and is_frozen(a[2]) and not dummies(a, set()): dens[a] = max(dens.get(a, 0), q)
    if not dens or len(dens) > 4 or any(q <= 0 for q in dens.values()): return False
    out = {}
    for m, c in d.items():
        fs = dict(m); r = {}
        t = const(1)
        for a, q in dens.items():
            have = fs.pop(a, 0)
            if q - have > 8: return False
            t = pmul(t, ppow(thaw(a[2]), q - have))
        s, mm = mkmono(fs)
        out = padd(out, pmul({mm: c * s}, t))
    # denominators may be products of each other: clear once more against inverses left by products
    z = nf(out)
    return all(abs(c) < 1e-9 * max(mx, 1e-3) for c in z.values())
def nsub(p, mp): return norm(psubst(p, mp))

class Lam:
    def __init__(self, n, env, this): self.n, self.env, self.this = n, env, this
class PFn(Lam):
    """a function supplied by the analysis"""
    def __init__(self, fn): super().__init__({"p": []}, {}, None); self.fn = fn
class Alt(Exception): pass

class FemEval(Calc):
    max_depth = 22
    def __init__(self, P, scal="double"):
        super().__init__(P, scal)
        self.first = False; self.last = False; self.val = {}; self.mode = "rho"; self.flags = {}
        self.inner = ()
        self.coincide = False       # equal valuations mean equal quantities
        self.alts = None; self.trace = []; self.nbf = None; self.rule_n = None; self.ends = None
    def b(self, i): return ("a", "bv", i)
    # ---- the finite-element object
    def fe_object(self, cls, tag=""):
        o = Obj(cls); o.tag = tag
        return o
    def field_default(self, name, t):
        if name == "bval":
            tag = getattr(self._fo, "tag", "")
            def base(idx):
                i = idx[0]
                if isinstance(i, tuple) and i[0] == "aff" and i[1] == 1 and i[2] == 1: return padd(atom(("a", "c" + tag, i[3])), atom(("a", "e" + tag, i[3])))
                if i == 1: return padd(atom(("a", "c" + tag, 0)), atom(("a", "e" + tag, 0)))
                return padd(atom(("a", "c" + tag, i)), atom(("a", "e" + tag, i)), -1.0)
            T = CTn("bval" + tag, [None], base); return T
        if "shared_ptr" in t and "Basis" in t or name == "poly":
            o = Obj("Poly"); o.f["drops"] = (); o.tag = getattr(self._fo, "tag", ""); return Ptr(o)
        if t.replace("const ", "").strip() == "bool": 
            if name in self.flags: return ("scalar", const(int(self.flags[name])), 0, False)
            return ("scalar", atom(("a", name)), 0, False)
        r = self.rank_of(t)
        if t.replace("const ", "").strip().startswith("std::vector<"): return Lst([])
        if r:
            tag = getattr(self._fo, "tag", "")
            return CTn(name + tag, [None] * r, lambda idx, nm=name + tag: atom(("a", nm) + tuple(idx)))
        if isint(t): return ("scalar", atom(("a", name)), 0, False)
        if t.replace("const ", "").strip() in ("double", "long double"): return ("scalar", atom(("a", name)), 0, False)
        if "FiniteElementBasisT" in t: return self.fe_object(t.replace("const ", "").strip(), getattr(self._fo, "tag", ""))
        return super().field_default(name, t)
    _fo = None
    dimval = {"xq": 15, "wq": 15, "xqR": 15}
    def lv(self, n):
        n0 = self.unwrap(n)
        if n0["k"] == "Mem":
            o = self.obj(n0["c"][0])
            if n0["n"] not in o.f:
                self._fo = o; o.f[n0["n"]] = self.field_default(n0["n"], n0.get("t") or "")
        return super().lv(n)
    # ---- primitive polynomial bases
    def pts(self, v):
        v = self.rd(v) if isinstance(v, tuple) else v
        if isinstance(v, Tn): v = whole(v)
        return colv(v)
    def poly_call(self, n, nm, ob):
        a = n["a"]
        if nm == "copy":
            o = Obj("Poly"); o.f["drops"] = ob.f["drops"]; o.tag = ob.tag; return Ptr(o)
        if nm in ("drop_first", "drop_last"):
            ob.f["drops"] = tuple(sorted(ob.f["drops"] + ((nm, freeze(self.sc(a[0])), freeze(self.sc(a[1]))),)))
            return const(0)
        if nm in ("eval_dnf", "eval_over_r"):
            kind = "B" if nm == "eval_dnf" else "BR"
            byref = len(a) == 4
            x = self.pts(self.ev(a[0])); k = freeze(self.sc(a[2 if byref else 1])); sf = freeze(self.sc(a[3 if byref else 2]))
            dr = ob.f["drops"]; tag = ob.tag
            vals = lambda idx: atom(("a", kind + tag, k, freeze(norm(x.get((idx[0],)))), sf, dr, idx[1]))
            T = TV(2, [x.dims[0], self.nbf], vals)
            if not byref: return T
            self.assign(n, whole(self.lv(a[1])) if isinstance(self.lv(a[1]), Tn) else self.lv(a[1]), "=", T)
            return const(0)
        if nm == "get_enabled": return CTn("enabled:" + repr(ob.f["drops"]), [None], lambda idx: atom(("a", "enabled", ob.f["drops"]) + tuple(idx)))
        if nm == "get_nnodes": return const(5)
        if nm == "get_noverlap": return const(1) if not getattr(self, "symbolic_poly", False) else atom(("a", "noverlap"))
        if nm == "get_nbf" and self.nbf: return const(self.nbf)
        if nm == "get_nbf": return atom(("fn", "dim", "enabled:" + repr(ob.f["drops"]), "size"))
        if nm == "get_nprim": return atom(("a", "nprim"))
        if nm == "get_id": return atom(("a", "id"))
        und("primitive basis method " + nm, n)
    # ---- calls
    def e_MCall(self, n):
        q = n.get("q") or ""; nm = n.get("n") or ""
        o = n.get("o")
        if q.startswith("std::") or q.startswith("__") :
            if nm.startswith("operator bool") and ("function" in q or "shared_ptr" in q):
                v = self.ev(o)
                return const(int(isinstance(v, (Lam, Obj, Ptr))))
            if nm == "exchange": return const(1)
            if "shared_ptr" in q and nm == "get": return self.ev(o)
        if n.get("inproj") and nm in ("V", "breakpoints"):
            try: ob = self.obj(o)
            except Undecided: ob = None
            if ob is not None and ob.cls == "Model":
                if nm == "V": return atom(("fn", "V", freeze(norm(self.sc(n["a"][0])))))
                self.bpcall = [norm(self.sc(x)) for x in n["a"]]
                return Lst(list(ob.f["bp"]))
        if "Basis" in q and n.get("inproj"):
            try: ob = self.obj(o)
            except Undecided: ob = None
            if ob is not None and ob.cls == "Poly": return self.poly_call(n, nm, ob)
        return super().e_MCall(n)
    def call_hook(self, n, q, args, obj):
        base = q.split("::")[-1]
        if n["k"] == "Call" and base in ("lobatto_compute", "chebyshev") and len(n["a"]) == 3:
            for k, nm in ((1, "x"), (2, "w")):
                T = self.lv(n["a"][k])
                if not isinstance(T, Tn): und("quadrature rule", n)
                T.dims = [self.rule_n]; T.replace(self.rule_base(nm, base))
            return const(0)
        if base == "find_element" and n["k"] == "MCall": return ixval(IEL)
        if base == "sort" and n["k"] == "Call" and n["a"]:
            b = self.unwrap(n["a"][0])
            if b.get("k") == "MCall" and b.get("n") in ("begin", "data"):
                L = self.ev(b["o"])
                if isinstance(L, Lst):
                    vs = [self.numval(x) for x in L.items]
                    if any(v is None for v in vs): und("sort", n)
                    L.items[:] = [x for _, x in sorted(zip(vs, L.items), key=lambda t: t[0])]
                    return const(0)
            und("sort", n)
        return NotImplemented
    def rule_base(self, nm, fam):
        if nm == "w": return lambda idx: atom(("a", "wq", idx[0]))
        if self.mode == "rho": return lambda idx: pmul(padd(atom(("a", "rho", idx[0])), C0(IEL), -1.0), pinv(EH(IEL)))
        if self.mode == "rhoab": return lambda idx: pmul(padd(pmul(padd(atom(("a", "rho", idx[0])), C0(IEL), -1.0), pinv(EH(IEL))), atom(("a", "xb")), -1.0), pinv(atom(("a", "xa"))))
        return lambda idx: atom(("a", "xq", idx[0]))
    def e_Call(self, n):
        base = (n.get("q") or "").split("::")[-1]
        if base in ("memcpy", "copy_n", "copy") and len(n["a"]) == 3 and not n.get("inproj"):
            ops = []
            for x in n["a"]:
                x = self.unwrap(x)
                if x.get("k") == "MCall" and x.get("n") in ("data", "begin"): ops.append(self.lv(x["o"]))
            if len(ops) == 2 and base == "memcpy" and all(isinstance(x, Tn) for x in ops):
                dst, src = ops[0], whole(ops[1])
                if len(dst.dims) == 1 and src.rank == 2 and all(isinstance(d, int) for d in src.dims):
                    R = src.dims[0]; N = R * src.dims[1]
                    vals = {k: src.get((k % R, k // R)) for k in range(N)}
                    self.assign(n, whole(dst), "=", TV(1, [N], lambda i: vals[i[0]]))
                    return const(0)
            und(base, n)
        if base in ("abs", "fabs") and not n.get("inproj") and self.val and len(n["a"]) == 1:
            x = self.sc(n["a"][0]); v = self.numval(x)
            if v: return x if v > 0 else pscale(x, -1.0)
        if base in ("max", "min") and len(n["a"]) == 2 and self.val:
            x, y = self.sc(n["a"][0]), self.sc(n["a"][1]); vx, vy = self.numval(x), self.numval(y)
            if vx is not None and vy is not None and (vx != vy or self.coincide): return x if vx == vy or (vx > vy) == (base == "max") else y
        if base == "isfinite": return const(1)
        if base in ("isnan", "isinf"): return const(0)
        if base in ("epsilon", "infinity", "quiet_NaN") and not n["a"]: return atom(("a", base))
        if base in ("max", "min") and len(n["a"]) == 1:
            v = self.ev(n["a"][0])
            if isinstance(v, Lst):
                r = v.items[0]
                r = self.rd(r) if isinstance(r, tuple) else r
                for y in v.items[1:]:
                    y = self.rd(y) if isinstance(y, tuple) else y
                    cx, cy = cval(r), cval(y)
                    if cx is not None and cy is not None: r = const(max(cx, cy) if base == "max" else min(cx, cy))
                    else: r = atom(("fn", base, freeze(r), freeze(y)))
                return r
        return super().e_Call(n)
    # ---- lambdas
    def e_Lambda(self, n): return Lam(n, dict(self.env), self.this)
    def own(self, v, t, name):
        if isinstance(v, Lam): return v
        return super().own(v, t, name)
    def store_whole(self, T, v, r):
        sc = self.pend(v)
        super().store_whole(T, v, r)
        T.scatter = sc
    # ---- block updates pending on an array follow it through scaling and addition
    def pend(self, v):
        if isinstance(v, Tn): return list(v.scatter)
        if isinstance(v, TV):
            if getattr(v, "spend", None): return v.spend
            if v.place and isinstance(v.place[0], Tn) and v.place[1] == [("free", k, 0) for k in range(v.rank)]: return list(v.place[0].scatter)
        return []
    def scaled(self, sc, s):
        return [dict(r, val=pmul(s, r["val"])) for r in sc]
    def arith(self, op, x, y, n):
        px, py = self.pend(x), self.pend(y)
        r = super().arith(op, x, y, n)
        if px or py:
            if op == "*" and isinstance(x, dict): sc = self.scaled(py, x)
            elif op == "*" and isinstance(y, dict): sc = self.scaled(px, y)
            elif op == "/" and isinstance(y, dict): sc = self.scaled(px, pinv(y))
            elif op == "+": sc = px + py
            elif op == "-": sc = px + self.scaled(py, const(-1))
            else: und("operator %s on an assembled array" % op, n)
            if isinstance(r, TV): r.spend = sc
        return r
    def neg(self, v):
        sc = self.pend(v); r = super().neg(v)
        if sc and isinstance(r, TV): r.spend = self.scaled(sc, const(-1))
        return r
    def e_OCall(self, n):
        if n["op"] == "()":
            f = self.unwrap(n["a"][0])
            v = None
            if f["k"] == "Ref" and f.get("vk") in ("local", "param"): v = self.env.get(f["d"])
            elif f["k"] == "Mem":
                try: v = self.lv(f)
                except Undecided: v = None
            elif f["k"] in ("Call", "MCall", "Lambda"):
                v = self.ev(f)
            if isinstance(v, PFn):
                vs = [self.ev(x) for x in n["a"][1:]]
                return v.fn(*[self.rd(x) if isinstance(x, tuple) else x for x in vs])
            if isinstance(v, Lam): return self.apply(v, n["a"][1:], n)
        return super().e_OCall(n)
    def element(self, base, idx, n):
        t = (self.unwrap(base).get("t") or "").replace("const ", "").replace("&", "").strip()
        if t.startswith("std::vector<") and self.rank_of(t) > len(idx):
            b = self.lv(base) if self.is_lvalue(self.unwrap(base)) else self.ev(base)
            if isinstance(b, Tn): b = whole(b)
            if isinstance(b, TV) and b.rank > len(idx):
                ix = tuple(self.index(self.sc(x)) for x in idx); m = len(ix)
                pl = (b.place[0], self.shift_entries(b.place[1], ix)) if b.place else None
                return TV(b.rank - m, b.dims[m:], lambda j: b.get(ix + tuple(j)), b.arr, pl)
        return super().element(base, idx, n)
    def shift_entries(self, ent, ix):
        out = []
        for e in ent:
            if isinstance(e, tuple) and e and e[0] == "free":
                if e[1] < len(ix): out.append(shift(ix[e[1]], e[2]))
                else: out.append(("free", e[1] - len(ix), e[2]))
            else: out.append(e)
        return out
    def apply(self, lam, argn, n):
        ps = lam.n.get("p") or []
        args = [self.arg(p, a) for p, a in zip(ps, argn)]
        return self.apply_values(lam, args, n)
    def apply_values(self, lam, args, n=None):
        ps = lam.n.get("p") or []
        if len(self.stack) > self.max_depth or self.stack.count(lam) > 1: und("depth", n)
        senv, sthis, sret = self.env, self.this, self.retval
        env = dict(senv)
        for c in lam.n.get("cap") or []:
            d = c.get("d")
            if d is not None and c.get("by") == "copy" and d in lam.env: env[d] = lam.env[d]
            elif d is not None and d in lam.env and d not in env: env[d] = lam.env[d]
        # names visible at the point of definition (reference captures of enclosing frames)
        for d, v in lam.env.items(): env.setdefault(d, v)
        for p, a in zip(ps, args): env[p["d"]] = a
        self.env, self.this, self.retval = env, lam.this, None
        self.stack.append(lam)
        body = lam.n.get("body") or getattr(self.P.funcs.get(lam.n.get("f")), "body", None)
        if body is None: und("lambda body", n)
        try: self.exec(body)
        except Ret: pass
        finally:
            self.stack.pop(); r = self.retval; new = self.env
            self.env, self.this, self.retval = senv, sthis, sret
            for d in list(senv):
                if d in new and d not in {p["d"] for p in ps} and not any(c.get("d") == d and c.get("by") == "copy" for c in lam.n.get("cap") or []): senv[d] = new[d]
        return r if r is not None else const(0)
    def s_Return(self, n):
        if n.get("v") is not None:
            v = self.unwrap(n["v"])
            if v.get("k") == "Lambda": self.retval = self.ev(v); raise Ret()
        return super().s_Return(n)
    def e_Ref(self, n):
        if n.get("vk") == "enum" and n.get("val") is not None: return const(int(n["val"]))
        return super().e_Ref(n)
    def global_ref(self, n):
        if n.get("d") in self.env:
            v = self.env[n["d"]]
            return ("var", n["d"]) if isinstance(v, tuple) and v[0] == "scalar" else v
        if "atomic<" in (n.get("t") or n.get("dt") or ""): return Opaque("flag")
        if isint((n.get("t") or n.get("dt") or "")) and "const" in (n.get("t") or n.get("dt") or ""):
            for (q, fl), g in self.P.globals.items():
                if g.get("d") == n.get("d") and g.get("i") is not None: return ("scalar", self.sc(g["i"]), 0, False)
        return super().global_ref(n)
    # ---- lists
    def default(self, t, n):
        tt = t.replace("const ", "").strip()
        if tt.startswith("std::vector<") and self.rank_of(tt) == 1 or tt.startswith("std::vector<std::pair") or tt.startswith("std::vector<bool"): return Lst([])
        return super().default(t, n)
    def e_Ctor(self, n):
        q = n.get("q") or ""
        if q.startswith("std::vector") and not [a for a in n["a"] if a.get("k") != "DefArg"] and self.rank_of(n.get("t") or "") <= 1: return Lst([])
        if q.startswith("std::vector") and (n.get("t") or "").replace("const ", "").startswith("std::vector<std::vector<") and isint(n["t"].replace("const ", "")[24:].split(">")[0].split(",")[0]):
            a = [x for x in n["a"] if x.get("k") != "DefArg"]
            if len(a) == 1:
                v = self.ev(a[0])
                v = self.rd(v) if isinstance(v, tuple) else v
                if isinstance(v, dict) and cval(v) is not None: return Lst([Lst([]) for _ in range(int(cval(v)))])
                if isinstance(v, Lst): return v
        if (q.startswith("std::shared_ptr") or q.startswith("std::function")) and n["a"]: return self.ev(n["a"][0])
        if "Basis" in q and n.get("inproj") and len(n["a"]) == 1 and not n.get("cp"):
            v = self.ev(n["a"][0])
            if isinstance(v, (Ptr, Obj)): return v
        return super().e_Ctor(n)
    # ---- branches
    def assume_rel(self, n, d):
        d = norm(d)
        for pol, key in ((ixval(IEL), "first"), (padd(padd(ixval(IEL), self.nelp(), -1.0), const(1)), "last")):
            for s in (1.0, -1.0):
                if d == pscale(pol, s) or not nsame(d, pscale(pol, s)):
                    t = getattr(self, key)
                    if n["op"] in ("==", "!="): return t == (n["op"] == "==")
                    if key == "first": return {("<", -1): not t, (">", 1): not t, (">=", -1): t, ("<=", 1): t}.get((n["op"], int(s)))
                    return {("<", 1): not t, (">=", 1): t, (">", -1): not t, ("<=", -1): t}.get((n["op"], int(s)))
        dn = self.nelp()
        for s in (1.0, -1.0):
            if not nsame(d, pscale(padd(dn, const(1), -1.0), s)) and n["op"] in ("==", "!="): return self.last == (n["op"] == "==")
        for sy in self.inner:       # further element indices, neither first nor last
            for pol in (ixval(sy), padd(padd(ixval(sy), self.nelp(), -1.0), const(1))):
                for s in (1.0, -1.0):
                    if not nsame(d, pscale(pol, s)) and n["op"] in ("==", "!="): return n["op"] == "!="
        v = self.numval(d)
        if v is not None: return {"<": v < 0, ">": v > 0, "<=": v <= 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[n["op"]]
        syms = [a for m in d for a, q in m if a[0] == "ixv"]
        if len(syms) == 1 and syms[0][1][0] == "l":
            for pol, key in ((ixval(syms[0][1]), "first"), (padd(padd(ixval(syms[0][1]), self.nelp(), -1.0), const(1)), "last")):
                for s in (1.0, -1.0):
                    if not nsame(d, pscale(pol, s)) and n["op"] in ("==", "!="): return getattr(self, key) == (n["op"] == "==")
        return None
    def nelp(self): return padd(atom(("fn", "dim", "bval", "size")), const(1), -1.0)
    def numval(self, p):
        if isinstance(p, tuple): p = self.rd(p)
        if not isinstance(p, dict): return None
        r = 0.0
        for m, c in p.items():
            t = c
            for a, q in m:
                v = self.val.get(a)
                if v is None: v = self.val.get(a[:2])
                if v is None and a[0] == "fn" and a[1] == "inv":
                    v = self.numval(dict(a[2])); v = 1.0 / v if v else None
                if v is None and a[0] == "fn" and a[1] == "dim": v = self.dimval.get(a[2])
                if v is None: return None
                t *= v ** q
            r += t
        return r
    def cond(self, n, stmt=None):
        k = n.get("k")
        if k == "Bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!=") and self.val and not isint2(n):
            try: a, b = self.sc(n["c"][0]), self.sc(n["c"][1])
            except Undecided: a = b = None
            if a is not None: 
                a, b = (self.numval(a), self.numval(b)) if cval(pdiff(a, b)) is None else (None, None)
            if a is not None and b is not None: return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[n["op"]]
        if k in ("Ref", "MCall") and "function<" in (n.get("t") or ""):
            v = self.ev(n); return isinstance(v, Lam)
        return super().cond(n, stmt)
    # ---- loops that end by returning
    def s_For(self, n):
        c = n.get("cond")
        if c is None or c.get("k") == "Null" or self.unwrap(c).get("k") == "Bool": return self.forever(n, n.get("init"), n.get("inc"))
        h = self.loop_head(n)
        if h is None: return self.unroll(n)
        return super().s_For(n)
    def unroll(self, n):
        """a loop whose condition is decidable at every step"""
        if n.get("init"): self.exec(n["init"])
        for it in range(70):
            c = self.cond(n["cond"])
            if c is None: und("loop of unsupported form", n)
            if not c: return
            try: self.exec(n["body"])
            except Cont: pass
            except Brk: return
            if n.get("inc"): self.ev(n["inc"])
        und("loop too long", n)
    def s_While(self, n):
        if self.unwrap(n["cond"]).get("k") in ("Bool", "Int"): return self.forever(n, None, None)
        return super().s_While(n)
    def forever(self, n, init, inc):
        if init: self.exec(init)
        alts = self.alts; self.alts = []
        try:
            for it in range(4):
                try: self.exec(n["body"])
                except Cont: pass
                except Brk: break
                except Ret:
                    self.alts.append(self.retval); break
                if inc: self.ev(inc)
            else:
                if not self.alts: und("loop does not end", n)
                self.retval = self.alts[-1]; self.check_alts(n); raise Ret()
            if self.alts:
                self.check_alts(n); raise Ret()
        finally: self.alts = alts
    def check_alts(self, n):
        last = self.alts[-1]
        for v in self.alts[:-1]:
            if not self.same_value(v, last): und("loop results differ", n)
        self.retval = last
    def same_value(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict): return not nsame(a, b)
        if isinstance(a, (Tn, TV)) and isinstance(b, (Tn, TV)):
            idx = tuple(("s", "p%d" % k) for k in range(len(a.dims)))
            if len(a.dims) != len(b.dims): return False
            return not nsame(a.get(idx), b.get(idx))
        return False
    def guess(self, n):
        g = super().guess(n)
        if g is None and self.alts is not None and n.get("else") is None:
            t = n.get("then")
            st = t["c"] if t["k"] == "Block" else [t]
            if st and st[-1]["k"] == "Return":
                env = dict(self.env); sret = self.retval
                try: self.exec(t)
                except Ret: self.alts.append(self.retval)
                self.env = env; self.retval = sret
                return False
        return g
    # ---- Eigen
    def method(self, n, nm, v):
        if nm in ("cwiseAbs", "cwiseMax", "cwiseMin"):
            w = whole(v) if isinstance(v, Tn) else v
            if nm == "cwiseAbs": return TV(w.rank, w.dims, lambda i: {} if not nf(w.get(i)) else atom(("fn", "abs", freeze(w.get(i)))), w.arr)
            b = self.sc(n["a"][0])
            return self.clamp(w, nm, b)
        if nm in ("maxCoeff", "minCoeff") :
            w = whole(v) if isinstance(v, Tn) else v
            p = w.get(tuple(0 if isinstance(w.dims[k], int) else ("pv", 60 + k) for k in range(w.rank)))
            return atom(("fn", nm, freeze(p))) if p else {}
        if nm in ("any", "all"): return const(0)
        if nm == "isNaN": return TV(1, [None], lambda i: {})
        if nm == "cast" or nm == "template cast": return v
        if nm in ("begin", "end", "data"): return Opaque("iter")
        if nm == "value":
            w = whole(v) if isinstance(v, Tn) else v
            return w.get((0,) * w.rank)
        return super().method(n, nm, v)
    def clamp(self, w, nm, b):
        """clamping an affine image of the rule's nodes to the image of [-1,1] changes nothing"""
        p = w.get(tuple(("s", "cl%d" % k) for k in range(w.rank)))
        sv = dict(self.val)
        active = False; vb = self.numval(b)
        for x in (-1.0, 1.0):
            self.val[("a", "xq")] = x
            v = self.numval(p)
            if v is None and any(a[0] == "fn" and a[1] in ("cwiseMax", "cwiseMin") for m in p for a, k in m): active = True; continue
            if v is None or vb is None:
                self.val = sv; und("clamp")
            if v < vb - 1e-12 if nm == "cwiseMax" else v > vb + 1e-12: active = True
        self.val = sv
        # a clamp that moves some node is a different quantity
        if active: return TV(w.rank, w.dims, lambda i: atom(("fn", nm, freeze(w.get(i)), freeze(b))), w.arr)
        return TV(w.rank, w.dims, w.get, w.arr)
    def block_view(self, n, nm, v):
        a = n["a"]
        v = v if isinstance(v, TV) else whole(v)
        S = [self.sc(x) for x in a]
        if nm == "block" and len(S) == 4: off = S[:2]; cnt = S[2:]
        elif nm == "segment" and len(S) == 2: off = S[:1]; cnt = S[1:]
        elif nm == "head" and len(S) == 1: off = [{}]; cnt = S
        elif nm in ("middleRows", "middleCols") and v.rank == 2:
            k = 0 if nm == "middleRows" else 1
            off = [{}, {}]; cnt = [None, None]; off[k] = S[0]; cnt[k] = S[1]
            cnt[1 - k] = self.extent(v, 1 - k)
        elif nm == "topLeftCorner": off = [{}, {}]; cnt = S
        elif nm == "topRows" and v.rank == 2: off = [{}, {}]; cnt = [S[0], self.extent(v, 1)]
        elif nm == "leftCols" and v.rank == 2: off = [{}, {}]; cnt = [self.extent(v, 0), S[0]]
        elif nm == "tail" and v.rank == 1: cnt = S; off = [padd(self.extent(v, 0), S[0], -1.0)]
        else: und("view " + nm, n)
        def get(i): return v.get(tuple(self.index(padd(ixval(x), o)) for x, o in zip(i, off)))
        pl = None
        if v.place and v.place[1] != "opaque":
            pl = (v.place[0], [("blk", list(v.place[1]), off, cnt)])
        r = TV(v.rank, [self.dim(c) if c is not None else None for c in cnt], get, v.arr, pl)
        r.off, r.cnt = off, cnt
        return r
    def extent(self, v, k):
        d = v.dims[k]
        if isinstance(d, int): return const(d)
        return atom(("fn", "dim", v.place[0].name if v.place else "?", ("rows", "cols")[k] if v.rank == 2 else "size"))
    def assign(self, n, place, op, v):
        if isinstance(place, TV) and place.place and isinstance(place.place[1], list) and place.place[1] and isinstance(place.place[1][0], tuple) and place.place[1][0] and place.place[1][0][0] == "blk":
            T = place.place[0]; _, ent, off, cnt = place.place[1][0]
            if isinstance(v, tuple): v = self.rd(v)
            if isinstance(v, Tn): v = whole(v)
            if isinstance(v, dict): s = v; v = TV(place.rank, place.dims, lambda idx: s)
            v = self.conform(v, place.rank) if v.rank != place.rank else v
            idx = tuple(("s", "b%d" % k) for k in range(place.rank))
            T.scatter.append({"ent": ent, "off": [norm(o) for o in off], "cnt": [norm(c) for c in cnt], "val": norm(v.get(idx)), "vdims": list(v.dims), "frames": list(self.frames[T.birth:]), "op": op, "n": n})
            return
        return super().assign(n, place, op, v)
    def assign_misc(self, n, lhs, v):
        l = self.unwrap(lhs)
        if l["k"] == "OCall" and isinstance(v, Lst): und("list element assigned", n)
        return super().assign_misc(n, lhs, v)
