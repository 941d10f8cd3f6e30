"""Polynomial calculus over element-library code: extends the index-notation evaluator with affine indices, constant
switches, arrays of matrices, objects built by running their constructors, and a derivation operator."""
import tensor
from tensor import *
from program import *

def shift(i, c):
    if c == 0: return i
    if isinstance(i, int): return i + c
    if i[0] == "aff": return mkaff(i[1], i[2] + c, i[3])
    return mkaff(1, c, i)
def mkaff(s, c, sym):
    return sym if s == 1 and c == 0 else ("aff", s, c, sym)
def ixval(i):
    """index term -> scalar polynomial"""
    if isinstance(i, int): return const(i)
    if i[0] == "aff": return padd(pscale(ixval(i[3]), i[1]), const(i[2]))
    return atom(("ixv", i))
_fa = {}
def fixaff(t):
    """renormalise affine index terms after substitution"""
    if not isinstance(t, tuple): return t
    r = _fa.get(t)
    if r is None:
        if len(_fa) > 300000: _fa.clear()
        r = _fa[t] = fixaff0(t)
    return r
def fixaff0(t):
    if isinstance(t, tuple):
        t = tuple(fixaff(x) if isinstance(x, tuple) else x for x in t)
        if len(t) == 4 and t[0] == "aff":
            s, c, y = t[1], t[2], t[3]
            if isinstance(y, int): return s * y + c
            if isinstance(y, tuple) and y[0] == "aff": return mkaff(s * y[1], s * y[2] + c, y[3])
            return mkaff(s, c, y)
    return t
def fix(p):
    """renormalise a polynomial: affine indices, ('ixv', affine)"""
    out = {}
    for m, c in p.items():
        fs = {}
        extra = None
        for a, q in m:
            b = fixaff(a)
            if b[0] == "ixv" and (isinstance(b[1], int) or b[1][0] == "aff"):
                e = ppow(ixval(b[1]), q); extra = e if extra is None else pmul(extra, e)
            else: fs[b] = fs.get(b, 0) + q
        s, mm = mkmono(fs)
        r = {mm: s * c}
        if extra is not None: r = pmul(r, extra)
        out = padd(out, r)
    return out
def psub(p, mp): return fix(psubst(p, mp)) if mp else p
def prepl(p, f):
    """replace atoms by polynomials: f(atom) -> poly or None"""
    out = {}
    for m, c in p.items():
        r = {ONE: c}
        for a, q in m:
            v = f(a)
            r = pmul(r, ppow(v, q) if v is not None else {((a, q),): 1.0})
        out = padd(out, r)
    return out
def deriv(p, d):
    """d(atom) -> poly derivative (or None for constants)"""
    out = {}
    for m, c in p.items():
        for k, (a, q) in enumerate(m):
            da = d(a)
            if not da: continue
            rest = dict(m)
            if q == 1: del rest[a]
            else: rest[a] = q - 1
            s, mm = mkmono(rest)
            out = padd(out, pmul({mm: c * q * s}, da))
    return out
def scale_of(p): return max([abs(c) for c in p.values()] + [0.0])
def same(a, b, scale=0.0):
    """list of differing monomials"""
    a, b = canon(a), canon(b)
    mx = max(scale_of(a), scale_of(b), scale)
    bad = []
    for m in set(a) | set(b):
        x, y = a.get(m, 0.0), b.get(m, 0.0)
        if abs(x - y) > 1e-9 * max(abs(x), abs(y)) + 1e-12 * mx: bad.append(m)
    return bad
def diff_text(a, b):
    bad = sorted(same(a, b), key=repr)
    a, b = canon(a), canon(b)
    return "; ".join("%s where %s is due" % (pp({m: a.get(m, 0.0)}) if m in a else "no term %s" % pp({m: 1.0}), pp({m: b[m]}) if m in b else "nothing") for m in bad[:2])

class CTn(Tn):
    def get(self, idx):
        idx = tuple(fixaff(i) if isinstance(i, tuple) else i for i in idx)
        p = self.base(idx)
        for pat, poly, op in self.defs:
            mp = {}; ok = True; pend = []
            for a, b in zip(pat, idx):
                m = match(a, b, mp, self)
                if m is False: ok = False; break
            if not ok: continue
            v = psub(poly, mp)
            p = v if op == "=" else padd(p, v)
        return fix(p)
def match(a, b, mp, T):
    if isinstance(a, tuple) and a[0] == "pv":
        if a in mp and mp[a] != b:
            if isinstance(b, int) and isinstance(mp[a], int): return False
            und("diagonal definition of %s" % T.name)
        mp[a] = b; return True
    if a == b: return True
    if isinstance(a, int) and isinstance(b, int): return False
    if isinstance(a, tuple) and a[0] == "aff":
        s, c = a[1], a[2]
        if isinstance(b, tuple) and b[0] == "aff" and b[1] % s == 0:
            if (b[2] - c) % s: return False
            return match(a[3], fixaff(("aff", b[1] // s, (b[2] - c) // s, b[3])), mp, T)
        if isinstance(b, int):
            if (b - c) % s or b < c: return False
            return match(a[3], (b - c) // s, mp, T)
        if s == 1: return match(a[3], shift(b, -c), mp, T)
    # nonnegative index symbols: sym + c (c>0) never equals a smaller constant
    for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple) and x[0] == "aff" and isinstance(y, int) and y < x[2]: return False
    if isinstance(a, tuple) and a[0] == "aff" and isinstance(b, tuple) and b[0] == "aff" and a[1] == b[1] and a[3] == b[3]: return False
    und("element (%s) of %s against a definition for (%s)" % (b, T.name, a))

class Calc(Eval):
    max_depth = 14
    limit = 2000000
    def __init__(self, P, scal="double"):
        super().__init__(P); self.scal = scal
    # ---- objects
    def construct(self, cls_q, args, pick=None):
        """run the constructor of a class with these argument values"""
        cands = [f for f in self.P.funcs.values() if f.kind == "ctor" and f.q.rsplit("::", 1)[0] == cls_q and (pick is None or pick(f))]
        if len(cands) != 1: und("constructor of %s" % cls_q)
        o = Obj(cls_q); self.init_obj(o, cands[0], args); return o
    def init_obj(self, o, f, args):
        st = self.this
        saved = {p["d"]: self.env.get(p["d"]) for p in f.params}
        for p, a in zip(f.params, args): self.env[p["d"]] = a
        self.this = o; self.stack.append(f)
        try:
            for i in f.inits:
                if i.get("base"):
                    c = self.unwrap(i["v"])
                    if c["k"] == "Ctor" and c.get("inproj"):
                        b = self.P.funcs.get(c.get("f"))
                        if b is None:
                            if not c["a"]: continue
                            und("base constructor")
                        bargs = [self.arg(p, x) for p, x in zip(b.params, c["a"])]
                        self.init_obj(o, b, bargs)
                    continue
                if i.get("n"):
                    v = i.get("v")
                    o.f[i["n"]] = self.own(self.ev(v), i.get("t") or "", i["n"]) if v is not None else self.default(i.get("t") or "", i)
            self.exec(f.body)
        except Ret: pass
        finally:
            self.stack.pop(); self.this = st
        for d, v in saved.items():
            if v is not None: self.env[d] = v
    def method_of(self, cls_q, name, nparam=None, pick=None):
        """the most derived definition of a method"""
        q = cls_q
        seen = set()
        while q and q not in seen:
            seen.add(q)
            c = [f for f in self.P.find(q + "::" + name) if (nparam is None or len(f.params) == nparam) and (pick is None or pick(f))]
            if len(c) == 1: return c[0]
            if len(c) > 1: und("overloads of %s" % name)
            r = self.P.records.get(q)
            q = r["b"][0] if r and r["b"] else None
        und("method %s of %s" % (name, cls_q))
    # ---- variables and arrays
    def newt(self, name, rank, dims): return CTn(name, dims, lambda idx: {}, len(self.frames))
    def default(self, t, n):
        if t.endswith("]"):
            base, _, k = t[:-1].rpartition("[")
            if k.isdigit() and int(k) <= 64: return Lst([self.default(base.strip(), n) for _ in range(int(k))])
            und("array type " + t)
        if t in ("std::ostringstream", "std::stringstream") or "stringstream" in t: return Opaque(t)
        return super().default(t, n)
    def s_Var(self, n):
        t = n.get("t") or ""
        if t.endswith("]"):
            i = n.get("i")
            if i is None or i["k"] == "Ctor" or (i["k"] == "IList" and not i["c"]): self.env[n["d"]] = self.default(t, n); return
            v = self.ev(i)
            if isinstance(v, Lst):
                self.env[n["d"]] = Lst([self.own(x, "", n["n"]) for x in v.items]); return
            und("array initialiser", n)
        return super().s_Var(n)
    def own(self, v, t, name):
        r = super().own(v, t, name)
        if isinstance(r, Tn) and not isinstance(r, CTn): r.__class__ = CTn
        return r
    def e_Ctor(self, n):
        if n.get("inproj") and not n.get("cp"):
            r = self.call_hook(n, n.get("q") or "", None, None)
            if r is not NotImplemented: return r
            f = self.P.funcs.get(n.get("f"))
            if f is not None:
                o = Obj(f.q.rsplit("::", 1)[0])
                self.init_obj(o, f, [self.arg(p, x) for p, x in zip(f.params, n["a"])])
                return o
        r = super().e_Ctor(n)
        if isinstance(r, Tn) and not isinstance(r, CTn): r.__class__ = CTn
        return r
    def index(self, p):
        """index term of a scalar polynomial"""
        p = fix(p)
        c = cval(p)
        if c is not None: return int(round(c))
        sym = None; s = 0; k = 0
        for m, c in p.items():
            if m == ONE: k = c; continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "ixv" and sym is None: sym = m[0][0][1]; s = c
            else: return ("ixp", freeze(p))
        if float(s).is_integer() and float(k).is_integer() and s > 0: return mkaff(int(s), int(k), sym)
        return ("ixp", freeze(p))
    def element(self, base, idx, n):
        b = self.lv(base) if self.is_lvalue(self.unwrap(base)) else self.ev(base)
        if isinstance(b, Ptr): b = b.v
        if isinstance(b, Lst):
            i = cval(self.sc(idx[0]))
            if i is None or not 0 <= int(i) < len(b.items): und("list index", n)
            return b.items[int(i)]
        if isinstance(b, Tn): b = whole(b)
        if not isinstance(b, TV): und("indexing " + show(base)[:50], n)
        iv = []
        for x in idx:
            y = self.unwrap(x)
            if y.get("k") == "Ref" and y.get("q") in ("Eigen::all", "Eigen::placeholders::all"): iv.append("all"); continue
            v = self.ev(x)
            if isinstance(v, tuple): v = self.rd(v)
            if isinstance(v, (Tn, TV)) and not all(d == 1 for d in v.dims): iv.append(whole(v) if isinstance(v, Tn) else v); continue
            if isinstance(v, (Tn, TV)): v = (whole(v) if isinstance(v, Tn) else v).get((0,) * len(v.dims))
            if not isinstance(v, dict): und("index", n)
            iv.append(self.index(v))
        if any(i == "all" or isinstance(i, TV) for i in iv):
            if len(iv) != b.rank: und("indexed view", n)
            free = [k for k, i in enumerate(iv) if i == "all" or isinstance(i, TV)]
            dims = [b.dims[k] if iv[k] == "all" else iv[k].dims[0] for k in free]
            def g(j):
                full = list(iv)
                for pos, k in enumerate(free):
                    full[k] = j[pos] if iv[k] == "all" else self.index(iv[k].get((j[pos],)))
                return b.get(tuple(full))
            return TV(len(free), dims, g, b.arr)
        ix = tuple(iv)
        if b.rank == 2 and len(ix) == 1 and b.dims[1] == 1: ix = ix + (0,)
        if b.rank == 2 and len(ix) == 1 and b.dims[0] == 1: ix = (0,) + ix
        if len(ix) == b.rank:
            if b.place: return ("elem", b.place[0], ent_apply2(b.place[1], ix))
            return b.get(ix)
        und("index count", n)
    def put(self, n, T, idx, op, val):
        v = val()
        if isinstance(v, tuple): v = self.rd(v)
        if not isinstance(v, dict): und("element value", n)
        if op in ("*=", "/="):
            old = T.get(idx)
            v = pmul(old, v if op == "*=" else pinv(v)); op = "="
        if op == "-=": v = pscale(v, -1.0); op = "+="
        out = self.outer(T.birth, idx)
        if op == "+=":
            for s in out: v = msum(v, s)
        elif any(mentions_sym(v, s) for s in out): und("element overwritten in a loop", n)
        mp = {}; pat = []; k = 0
        for x in idx:
            if isinstance(x, tuple):
                y = x[3] if x[0] == "aff" else x
                if y[0] not in ("l", "pv", "s"): return self.scatter(n, T, idx, op, v)
                if y[0] in ("l", "pv"):
                    if y not in mp: mp[y] = ("pv", k); k += 1
                    x = ("aff", x[1], x[2], mp[y]) if x[0] == "aff" else mp[y]
            pat.append(x)
        tmp = {x: ("tmp", i) for i, x in enumerate(mp)}
        v = psubst(v, tmp)
        v = psubst(v, {("tmp", i): mp[x] for i, x in enumerate(mp)})
        T.defs.append((tuple(pat), v, "=" if op == "=" else "+"))
    def scatter(self, n, T, idx, op, v): und("element written through a computed index", n)
    # ---- control
    def exec(self, n):
        if n is None: return
        self.steps += 1
        if self.steps > self.limit: und("too long")
        m = getattr(self, "s_" + n["k"], None)
        if m: return m(n)
        self.ev(n)
    def s_Switch(self, n):
        if n.get("init"): self.exec(n["init"])
        c = cval(self.sc(n["cond"]))
        if c is None: und("switch on a symbolic value", n)
        st = n["body"]["c"] if n["body"]["k"] == "Block" else [n["body"]]
        on = False; seq = []
        def flat(x):
            if x["k"] in ("Case", "Default"):
                seq.append((x["k"], x))
                for y in x.get("c") or []: flat(y)
                if isinstance(x.get("body"), dict): flat(x["body"])
            else: seq.append(("s", x))
        for x in st: flat(x)
        start = None
        for i, (k, x) in enumerate(seq):
            if k == "Case":
                lv = self.case_value(x)
                if lv is None: und("case label", x)
                if lv == int(c): start = i; break
        if start is None: start = next((i for i, (k, x) in enumerate(seq) if k == "Default"), None)
        if start is None: return
        try:
            for k, x in seq[start:]:
                if k == "s": self.exec(x)
        except Brk: pass
    def case_value(self, x):
        v = x.get("lhs")
        if isinstance(v, dict):
            w = strip(v)
            if w.get("ev") is not None: return int(w["ev"])
            try: return int(cval(self.sc(v)))
            except (Undecided, TypeError): return None
        return None
    def s_Break(self, n): raise Brk()
    def s_For(self, n):
        try: return super().s_For(n)
        except Brk: und("break out of a loop", n)
    def e_Cast(self, n):
        if n.get("ck") == "ToVoid": return const(0)
        return super().e_Cast(n)
    def e_Bin(self, n):
        op = n["op"]
        if op in ("/", "%") and isint(n.get("t")):
            x, y = self.sc(n["c"][0]), self.sc(n["c"][1])
            x = fix(x); cx, cy = cval(x), cval(y)
            if cy:
                cy = int(cy)
                if cx is not None: return const(int(cx) // cy if op == "/" else int(cx) % cy)
                q = {}; r = {}
                ok = True
                for m, c in x.items():
                    if c % cy == 0 and all(a[0] == "ixv" for a, _ in m): q[m] = c / cy
                    elif m == ONE: r[m] = c
                    else: ok = False
                if ok:
                    k = int(r.get(ONE, 0))
                    if k // cy: q = padd(q, const(k // cy))
                    return q if op == "/" else const(k % cy)
            return atom(("fn", "idiv" if op == "/" else "mod", freeze(x), freeze(y)))
        if op in ("&", "|", "^", "<<", ">>") : und("bit operation", n)
        return super().e_Bin(n)
    def cond(self, n, stmt=None):
        k = n.get("k")
        if k == "Bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!=") and isint2(n):
            r = self.assume(n, show(n))
            if r is not None: return r
            try: a, b = self.sc(n["c"][0]), self.sc(n["c"][1])
            except Undecided: return None
            d = fix(padd(a, b, -1.0))
            c = cval(d)
            if c is not None: return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[n["op"]]
            # index symbols are nonnegative
            if all(a[0] == "ixv" and q > 0 for m in d for a, q in m):
                lo = all(v >= 0 for m, v in d.items() if m != ONE); hi = all(v <= 0 for m, v in d.items() if m != ONE)
                c0 = d.get(ONE, 0)
                if lo and c0 > 0: return {"<": False, ">": True, "<=": False, ">=": True, "==": False, "!=": True}[n["op"]]
                if hi and c0 < 0: return {"<": True, ">": False, "<=": True, ">=": False, "==": False, "!=": True}[n["op"]]
                if lo and c0 == 0 and n["op"] in ("<", ">="): return n["op"] == ">="
                if hi and c0 == 0 and n["op"] in (">", "<="): return n["op"] == "<="
            return self.assume_rel(n, d)
        return super().cond(n, stmt)
    def assume_rel(self, n, d): return None
    def e_MCall(self, n):
        q = n.get("q") or ""
        if n.get("inproj") and not q.startswith("Eigen"):
            r = self.call_hook(n, q, None, n.get("o"))
            if r is not NotImplemented: return r
            ob = self.obj(n["o"])
            f = self.dispatch(n, ob)
            if f is None: return self.opaque_call(n)
            args = [self.arg(p, x) for p, x in zip(f.params, n["a"])]
            fr = self.call_function(f, ob, args)
            return fr if fr is not None else const(0)
        return super().e_MCall(n)
    def ancestry(self, q):
        out = []
        while q and q not in out:
            out.append(q)
            r = self.P.records.get(q)
            q = r["b"][0] if r and r["b"] else None
        return out
    def dispatch(self, n, ob):
        tg = self.P.targets(n, self.stack[-1] if self.stack else None)
        if len(tg) == 1: return tg[0]
        if not tg or not isinstance(ob, Obj): return None
        chain = self.ancestry(ob.cls)
        best = [t for t in tg if t.q.rsplit("::", 1)[0] in chain]
        best.sort(key=lambda t: chain.index(t.q.rsplit("::", 1)[0]))
        return best[0] if best else None
    # ---- Eigen
    def method(self, n, nm, v):
        if nm in ("segment", "head", "tail", "middleRows", "middleCols", "topRows", "leftCols", "bottomRows", "rightCols"):
            a = n["a"]; w = whole(v) if isinstance(v, Tn) else v
            dim = 0 if "Row" in nm or w.rank == 1 else 1
            off = {} if nm in ("head", "topRows", "leftCols") else self.sc(a[0]) if nm in ("segment", "middleRows", "middleCols") else None
            if off is not None:
                k = self.sc(a[-1])
                c0 = cval(fix(off))
                if c0 is not None:
                    c0 = int(c0); ck = cval(k)
                    def g(i):
                        i = list(i); i[dim] = shift(i[dim], c0); return w.get(tuple(i))
                    ds = list(w.dims); ds[dim] = int(ck) if ck is not None else None
                    pl = None
                    if w.place and w.place[1] != "opaque": pl = (w.place[0], [("free", e[1], e[2] + c0) if isinstance(e, tuple) and e and e[0] == "free" and e[1] == dim else e for e in w.place[1]])
                    r = TV(w.rank, ds, g, w.arr, pl); r.cnt = k
                    return r
        if nm == "eval" and isinstance(v, Tn): return whole(v)
        return super().method(n, nm, v)
    def e_Call(self, n):
        q = n.get("q") or ""; base = q.split("::")[-1]
        if base == "LinSpaced" and q.startswith("Eigen::"):
            r = self.call_hook(n, q, None, None)
            if r is not NotImplemented: return r
            cnt, lo, hi = [self.sc(x) for x in n["a"][-3:]]
            if not same(padd(hi, lo, -1.0), padd(cnt, const(1), -1.0)): return TV(1, [self.dim(cnt)], lambda i: padd(lo, ixval(i[0])))
            und("LinSpaced", n)
        if base == "sort" and q.startswith("std::"):
            r = self.call_hook(n, q, None, None)
            return const(0) if r is NotImplemented else r
        if base == "make_unique" or base == "make_shared": und(base, n)
        return super().e_Call(n)
def ent_apply2(entries, idx):
    out = []
    for e in entries:
        if isinstance(e, tuple) and e and e[0] == "free": out.append(shift(idx[e[1]], e[2]))
        else: out.append(e)
    return tuple(out)
INTT = ("int", "long", "unsigned long", "size_t", "unsigned int", "long long", "unsigned long long", "Eigen::Index", "short", "unsigned short")
def isint(t): return (t or "").replace("const ", "").strip() in INTT
def isint2(n):
    ts = [(x.get("t") or "") for x in n["c"]]
    return all(isint(t) for t in ts)
