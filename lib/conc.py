"""Abstract interpretation over small structures.  Integers (sizes, element and channel indices, quantum numbers) are folded to
constants; floating-point quantities are formal polynomials in uninterpreted symbols (density-matrix elements, radial integrals,
model parameters).  The value of a routine is therefore an identity in those symbols, valid for every value they can take."""
import math, re, time
from tensor import Undecided, Rejected, und
from program import strip, show

# ---------------------------------------------------------------- polynomials
_ids = {}; _names = []
def sid(a):
    k = _ids.get(a)
    if k is None: k = len(_names); _ids[a] = k; _names.append(a)
    return k
ONE = ()
DEADLINE = [1e30]
def Qc(c): return {ONE: float(c)} if c else {}
NANDIV = [False]
def Sy(*a): return {((sid(a), 1),): 1.0}
def isQ(x): return isinstance(x, dict)
def Q(x): return x if isinstance(x, dict) else Qc(x)
def qcval(p):
    if not p: return 0.0
    if len(p) == 1 and ONE in p: return p[ONE]
    return None
def qadd(a, b, s=1.0):
    if not b: return a
    if not a and s == 1.0: return b
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0.0) + s * c
        if v == 0.0: r.pop(m, None)
        else: r[m] = v
    return r
def qscale(a, s): return {m: c * s for m, c in a.items()} if s else {}
def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, p in b:
        q = d.get(k, 0) + p
        if q: d[k] = q
        else: d.pop(k, None)
    return tuple(sorted(d.items()))
def qmul(a, b):
    if not a or not b: return {}
    if len(a) == 1 and ONE in a: return qscale(b, a[ONE])
    if len(b) == 1 and ONE in b: return qscale(a, b[ONE])
    w = len(a) * len(b)
    if w > 400:
        if w > 100000: und("expression too large")
        if time.monotonic() > DEADLINE[0]: und("takes too long")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2); r[m] = r.get(m, 0.0) + c1 * c2
    return {m: c for m, c in r.items() if c != 0.0}
def qfn(nm, *a): return Sy("fn", nm, *[qkey(x) for x in a])
def qkey(p): return tuple(sorted((m, round(c, 12)) for m, c in Q(p).items()))
def qinv(p):
    if len(p) == 1:
        (m, c), = p.items(); return {tuple((k, -q) for k, q in m): 1.0 / c}
    if not p:
        if NANDIV[0]: return Sy("nan")
        und("division by zero")
    return {((sid(("inv", qkey(p))), 1),): 1.0}
def qpow(p, k):
    if k == 0: return Qc(1)
    if k < 0: return qinv(qpow(p, -k))
    r = p
    for _ in range(k - 1): r = qmul(r, p)
    return r
def qdiff(a, b):
    """monomials in which two polynomials differ beyond rounding"""
    d = {}; sc = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [1e-300])
    for m in set(a) | set(b):
        x, y = a.get(m, 0.0), b.get(m, 0.0)
        if abs(x - y) > 1e-9 * max(abs(x), abs(y)) + 1e-12 * max(sc, 1.0): d[m] = (x, y)
    return d
def mono(m):
    def s(k):
        a = _names[k]
        return a[0] + ("[" + ",".join(map(str, a[1:])) + "]" if len(a) > 1 else "")
    return "*".join(s(k) + ("^%d" % p if p != 1 else "") for k, p in m)[:160] or "1"
def qtext(p, n=3): return (" + ".join("%.6g*%s" % (c, mono(m)) for m, c in list(p.items())[:n]) + (" + ..." if len(p) > n else "")) or "0"

# ---------------------------------------------------------------- values
class A:
    """matrix, vector or a view of one; st: storage, ix: positions of the entries (column-major), None for all in order"""
    __slots__ = ("st", "ix", "r", "c", "arr", "tag")
    def __init__(self, st, r, c, ix=None, arr=False): self.st = st; self.r = r; self.c = c; self.ix = ix; self.arr = arr; self.tag = None
    def pos(self, i, j):
        if not (0 <= i < self.r and 0 <= j < self.c): raise OutOfRange("element (%d,%d) of a %d x %d matrix" % (i, j, self.r, self.c))
        k = i + j * self.r
        return self.ix[k] if self.ix is not None else k
    def get(self, i, j=0): return self.st[self.pos(i, j)]
    def vals(self): return [self.st[k] for k in self.ix] if self.ix is not None else self.st
    def idx(self): return self.ix if self.ix is not None else range(self.r * self.c)
    def copy(self): return A(list(self.vals()), self.r, self.c)
    def sub(self, pos, r, c): ix = self.idx(); return A(self.st, r, c, [ix[p] for p in pos], self.arr)
    def block(self, i0, j0, r, c):
        if r < 0 or c < 0 or i0 < 0 or j0 < 0 or i0 + r > self.r or j0 + c > self.c: raise OutOfRange("block (%d,%d)+(%d,%d) of a %d x %d matrix" % (i0, j0, r, c, self.r, self.c))
        return self.sub([i0 + a + (j0 + b) * self.r for b in range(c) for a in range(r)], r, c)
def mat(r, c, f): return A([f(i, j) for j in range(c) for i in range(r)], r, c)
def vec(l): return A(list(l), len(l), 1)
class OutOfRange(Exception): pass
class Vc:
    def __init__(self, items): self.items = items
class Pair:
    def __init__(self, a, b): self.items = [a, b]
class Obj:
    def __init__(self, cls): self.cls = cls; self.f = {}
class Opq:
    def __init__(self, what=""): self.what = what
class PtrTo:
    def __init__(self, v, off=0): self.v = v; self.off = off
class It:
    def __init__(self, v, k): self.v = v; self.k = k
class Cell:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
class LItem:
    def __init__(self, l, k): self.l = l; self.k = k
    def get(self): return self.l[self.k]
    def set(self, v): self.l[self.k] = v
class LField:
    def __init__(self, o, n): self.o = o; self.n = n
    def get(self): return self.o.f[self.n]
    def set(self, v): self.o.f[self.n] = v
class LCell:
    def __init__(self, c): self.c = c
    def get(self): return self.c.v
    def set(self, v): self.c.v = v
LT = (LItem, LField, LCell)
class Lam:
    def __init__(self, n, env, this): self.n = n; self.env = env; self.this = this
class PyFn:
    def __init__(self, fn): self.fn = fn
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass

def base_t(t):
    t = (t or "").strip()
    while t.endswith("&"): t = t[:-1].strip()
    if t.startswith("const "): t = t[6:].strip()
    return t
UNS = ("unsigned long", "size_t", "unsigned int", "unsigned long long", "unsigned short", "unsigned char")
INTS = UNS + ("int", "long", "long long", "short", "Eigen::Index", "char", "bool", "signed char")
FLT = ("double", "float", "long double", "_Float128", "__float128")
def is_eig(t): return t.startswith("Eigen::")
def owned_eig(t): return t.startswith("Eigen::Matrix<") or t.startswith("Eigen::Array<")
def wrapint(v, t):
    t = base_t(t)
    if t in ("unsigned long", "size_t", "unsigned long long"): return v & (2**64 - 1)
    if t == "unsigned int": return v & (2**32 - 1)
    return v

class Conc:
    max_depth = 60
    limit = 3000000
    def __init__(self, P): self.P = P; self.depth = 0; self.steps = 0; self.this = None; self.env = {}; self.stack = []; self.globals = {}; self.writes = None
    # ---- hooks
    def hook(self, n, q, nm, args, obj): return NotImplemented
    def symbolic_cond(self, n, op, a, b): und("condition on a symbolic value", n)
    def field(self, o, n, t): return self.default(t)
    # ---- calls
    def call(self, f, this, args):
        if f.body is None: und("no body of " + f.q)
        self.depth += 1
        if self.depth > self.max_depth: und("depth")
        se, st = self.env, self.this
        self.env = {}; self.this = this
        for p, a in zip(f.params, args): self.env[p["d"]] = a if isinstance(a, Cell) else Cell(a)
        self.stack.append(f)
        try:
            self.exec(f.body); r = None
        except Ret as x: r = x.v
        finally: self.env, self.this = se, st; self.depth -= 1; self.stack.pop()
        return r
    def run(self, f, this, args): return self.call(f, this, args)
    def construct(self, f, args):
        o = Obj(f.q.rsplit("::", 1)[0]); self.init(o, f, args); return o
    def init(self, o, f, args):
        se, st = self.env, self.this
        self.env = {}; self.this = o
        for p, a in zip(f.params, args): self.env[p["d"]] = a if isinstance(a, Cell) else Cell(a)
        self.stack.append(f)
        try:
            for i in f.inits:
                if i.get("base") or i.get("deleg"):
                    c = self.unwrap(i["v"])
                    b = self.P.funcs.get(c.get("f")) if c["k"] == "Ctor" else None
                    if b is not None: self.init(o, b, [self.arg(p, x) for p, x in zip(b.params, c["a"])])
                    continue
                if i.get("n"):
                    v = i.get("v")
                    o.f[i["n"]] = self.own(self.ev(v), i.get("t") or "") if v is not None else self.default(i.get("t") or "")
            self.exec(f.body)
        except Ret: pass
        finally: self.env, self.this = se, st; self.stack.pop()
    def apply(self, lam, args, n=None):
        if isinstance(lam, PyFn): return lam.fn(*args)
        if not isinstance(lam, Lam): und("call of a value", n)
        se, st = self.env, self.this
        self.depth += 1
        if self.depth > self.max_depth: und("depth")
        self.env = dict(lam.env); self.this = lam.this
        for p, a in zip(lam.n.get("p") or [], args): self.env[p["d"]] = a if isinstance(a, Cell) else Cell(a)
        body = lam.n.get("body") or getattr(self.P.funcs.get(lam.n.get("f")), "body", None)
        if body is None: und("lambda body", n)
        try: self.exec(body); r = None
        except Ret as x: r = x.v
        finally: self.env, self.this = se, st; self.depth -= 1
        return r
    def arg(self, p, a):
        t = (p.get("t") or "").rstrip()
        if t.endswith("&"):
            v = self.ev(a)
            if isinstance(v, LT): return self.bind(v)
            if "const" in t and isinstance(v, A) and owned_eig(base_t(t)) and v.ix is not None: return Cell(v.copy())
            return Cell(v)
        return Cell(self.own(self.ev(a), t))
    def bind(self, l):
        if isinstance(l, LCell): return l.c
        v = l.get()
        return Cell(v) if isinstance(v, (A, Vc, Obj, Pair, Opq)) else Cell(l)
    # ---- statements
    def exec(self, n):
        if n is None: return
        self.steps += 1
        if self.steps > self.limit: und("too long")
        if not self.steps & 255 and time.monotonic() > DEADLINE[0]: und("takes too long")
        m = getattr(self, "s_" + n["k"], None)
        if m: return m(n)
        self.ev(n)
    def s_Block(self, n):
        for x in n["c"]: self.exec(x)
    s_Decl = s_Block
    def s_Null(self, n): pass
    def s_Omp(self, n):
        if n.get("body"): self.exec(n["body"])
    def s_Var(self, n):
        t = n.get("t") or ""; i = n.get("i")
        if i is None: self.env[n["d"]] = Cell(self.default(t, n)); return
        if t.rstrip().endswith("&"):
            v = self.ev(i)
            self.env[n["d"]] = self.bind(v) if isinstance(v, LT) else Cell(v)
            return
        self.env[n["d"]] = Cell(self.own(self.ev(i), t))
    def s_Bind(self, n):
        v = self.rd(self.ev(n["i"])) if n.get("i") else und("binding", n)
        ns = n.get("b") or n.get("c") or []
        if not isinstance(v, (Pair, Vc)): und("binding", n)
        for k, b in enumerate(ns): self.env[b["d"]] = self.bind(LItem(v.items, k))
    def default(self, t, n=None):
        t = base_t(t)
        if t in INTS: return None
        if t in FLT: return None
        if t.endswith("]"):
            b, _, k = t[:-1].rpartition("[")
            if k.isdigit(): return Vc([self.default(b.strip()) for _ in range(int(k))])
        if t.startswith("Eigen::") or t.startswith("helfem::Mat") or t.startswith("helfem::Vec"):
            p = t.replace(" ", "")
            return A([], 0, 1 if ",-1,1" in p else 0)
        if t.startswith("std::vector"): return Vc([])
        if t.startswith("std::pair<"): 
            inner = split_t(t[10:-1]); return Pair(*[self.zero_of(x) for x in inner[:2]])
        if t.startswith(("std::function", "std::unique_ptr", "std::shared_ptr")): return Opq("null")
        r = self.P.records.get(t)
        if r is not None: return Obj(t)
        return Opq(t)
    def zero_of(self, t):
        t = base_t(t)
        if t in INTS: return 0
        if t in FLT: return {}
        return self.default(t)
    def own(self, v, t):
        v = self.rd(v)
        if isinstance(v, A):
            bt = base_t(t)
            if is_eig(bt) and not owned_eig(bt): return v
            return v.copy()
        if isinstance(v, Vc): return Vc([self.copyval(x) for x in v.items])
        if isinstance(v, Pair): return Pair(*[self.copyval(x) for x in v.items])
        bt = base_t(t)
        if isinstance(v, int) and bt in FLT: return Qc(v)
        if isinstance(v, dict) and bt in INTS:
            c = qcval(v)
            if c is None: und("integer from a symbolic value")
            return int(c)
        if isinstance(v, Obj) and not bt.endswith("*"): 
            o = Obj(v.cls); o.f = {k: self.copyval(x) for k, x in v.f.items()}; return o
        return v
    def copyval(self, v):
        if isinstance(v, A): return v.copy()
        if isinstance(v, Vc): return Vc([self.copyval(x) for x in v.items])
        if isinstance(v, Pair): return Pair(*[self.copyval(x) for x in v.items])
        if isinstance(v, LT): return self.copyval(v.get())
        return v
    def s_If(self, n):
        if n.get("init"): self.exec(n["init"])
        if n.get("cx"):
            c = n["cond"]; ev = strip(c)
            val = n.get("cv")
            r = bool(val) if val is not None else self.cond(c)
        else: r = self.cond(n["cond"])
        if r: self.exec(n.get("then"))
        elif n.get("else") is not None: self.exec(n["else"])
    def cond(self, n):
        if n["k"] == "Decl":
            self.exec(n); n = n["c"][-1]; v = self.env[n["d"]].v
        else: v = self.rd(self.ev(n))
        if isinstance(v, (int, bool)): return bool(v)
        if isinstance(v, dict):
            c = qcval(v)
            if c is not None: return c != 0
            return bool(self.symbolic_cond(n, "!=", v, {}))
        if isinstance(v, Opq): return v.what != "null"
        if isinstance(v, (Lam, PyFn, PtrTo)): return True
        und("condition", n)
    def s_For(self, n):
        if n.get("init"): self.exec(n["init"])
        k = 0
        while n.get("cond") is None or self.cond(n["cond"]):
            try: self.exec(n["body"])
            except Cont: pass
            except Brk: break
            if n.get("inc"): self.ev(n["inc"])
            k += 1
            if k > 20000: und("long loop", n)
    def s_While(self, n):
        k = 0
        while self.cond(n["cond"]):
            try: self.exec(n["body"])
            except Cont: pass
            except Brk: break
            k += 1
            if k > 20000: und("long loop", n)
    def s_Do(self, n):
        k = 0
        while True:
            try: self.exec(n["body"])
            except Cont: pass
            except Brk: break
            k += 1
            if k > 20000: und("long loop", n)
            if not self.cond(n["cond"]): break
    def s_ForRange(self, n):
        v = self.rd(self.ev(n["range"]))
        if isinstance(v, Vc): items = v.items
        elif isinstance(v, A): items = v.st
        else: und("range", n)
        var = n["var"]; t = var.get("t") or ""
        for k in range(len(items)):
            self.env[var["d"]] = self.bind(LItem(items, k)) if t.rstrip().endswith("&") else Cell(self.own(items[k], t))
            try: self.exec(n["body"])
            except Cont: pass
            except Brk: break
    def s_Continue(self, n): raise Cont()
    def s_Break(self, n): raise Brk()
    def s_Return(self, n):
        if n.get("v") is None: raise Ret(None)
        f = self.stack[-1] if self.stack else None
        v = self.ev(n["v"])
        if isinstance(v, LT):
            x = v.get()
            v = x if isinstance(x, (A, Vc, Obj, Pair)) else x
        raise Ret(v)
    def s_Throw(self, n): raise Rejected("rejected by the code (line %d)" % n["l"])
    e_Throw = s_Throw
    def s_Try(self, n): self.exec(n["body"])
    def s_Switch(self, n):
        if n.get("init"): self.exec(n["init"])
        c = self.rd(self.ev(n["cond"]))
        if not isinstance(c, int): und("switch", n)
        seq = []
        def flat(x):
            if x["k"] in ("Case", "Default"):
                seq.append((x["k"], x))
                for y in x.get("c") or []: flat(y)
                if isinstance(x.get("body"), dict): flat(x["body"])
            else: seq.append(("s", x))
        for x in (n["body"]["c"] if n["body"]["k"] == "Block" else [n["body"]]): flat(x)
        start = None
        for i, (k, x) in enumerate(seq):
            if k == "Case":
                l = x.get("lhs"); w = strip(l)
                lv = int(w["ev"]) if w.get("ev") is not None else self.rd(self.ev(l))
                if lv == c: start = i; break
        if start is None: start = next((i for i, (k, x) in enumerate(seq) if k == "Default"), None)
        if start is None: return
        try:
            for k, x in seq[start:]:
                if k == "s": self.exec(x)
        except Brk: pass
    # ---- expressions
    def unwrap(self, n):
        while n["k"] in ("ICast", "Cast", "DefArg", "DefInit") and n.get("c"): n = n["c"][0]
        return n
    def rd(self, v):
        while isinstance(v, LT): v = v.get()
        return v
    def ev(self, n):
        m = getattr(self, "e_" + n["k"], None)
        if m is None: und("expression " + n["k"], n)
        return m(n)
    def num(self, n):
        v = self.rd(self.ev(n))
        if v is None: und("use of an uninitialised value", n)
        return v
    def e_Int(self, n): return int(n["v"])
    def e_Bool(self, n): return int(n["v"]) if not isinstance(n["v"], bool) else int(n["v"])
    def e_Flt(self, n): return Qc(float(n["v"]))
    def e_Str(self, n): return Opq("str:" + str(n.get("v")))
    def e_Char(self, n): return Opq("char")
    def e_Nullptr(self, n): return Opq("null")
    def e_Null(self, n): return Opq("null")
    def e_ZeroInit(self, n): return self.zero_of(n.get("t") or "int")
    def e_SizeOf(self, n): return int(n["v"]) if str(n.get("v") or "").isdigit() else 8
    def e_This(self, n): return PtrTo(self.this)
    def e_Lambda(self, n):
        env = {}
        cop = {c.get("d") for c in n.get("cap") or [] if c.get("by") == "copy"}
        for d, c in self.env.items(): env[d] = Cell(self.copyval(c.v)) if d in cop else c
        return Lam(n, env, self.this)
    def e_DefArg(self, n): return self.ev(n["c"][0]) if n.get("c") else und("default argument", n)
    e_DefInit = e_DefArg
    def e_ICast(self, n):
        v = self.ev(n["c"][0]); ck = n.get("ck")
        if ck in ("IntegralToFloating",):
            v = self.rd(v); return Qc(v) if isinstance(v, int) else v
        if ck == "FloatingToIntegral":
            v = self.rd(v)
            if isinstance(v, dict):
                c = qcval(v)
                if c is None: und("integer from a symbolic value", n)
                return int(c)
            return v
        if ck in ("IntegralCast",):
            v = self.rd(v); return wrapint(v, n.get("t")) if isinstance(v, int) else v
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            v = self.rd(v)
            if isinstance(v, int): return int(v != 0)
            return int(self.cond_val(v, n))
        if ck in ("LValueToRValue",):
            return self.rd(v)
        return v
    def cond_val(self, v, n):
        c = qcval(v)
        if c is not None: return c != 0
        return bool(self.symbolic_cond(n, "!=", v, {}))
    def e_Cast(self, n):
        if n.get("ck") == "ToVoid": return None
        v = self.e_ICast(n)
        if not n.get("c"): return v
        w = self.rd(v); t = base_t(n.get("t"))
        if isinstance(w, int) and t in FLT: return Qc(w)
        if isinstance(w, dict) and t in INTS:
            c = qcval(w)
            if c is None: und("integer from a symbolic value", n)
            return int(c)
        if isinstance(w, int) and t in INTS: return wrapint(w, t)
        return v
    def e_Ref(self, n):
        if n.get("vk") == "enum" or n.get("val") is not None and n.get("vk") not in ("local", "param"): return int(n["val"])
        c = self.env.get(n.get("d"))
        if c is not None: return LCell(c) if not isinstance(c.v, LT) else c.v
        return self.global_ref(n)
    def global_ref(self, n):
        if n["n"] in self.globals: return self.globals[n["n"]]
        if n.get("f") and n["f"] in self.P.funcs: return PyFn(lambda *a, f=self.P.funcs[n["f"]]: self.call(f, None, list(a)))
        if n["n"] in ("verbose",): return 0
        if n["n"] == "all" and "Eigen" in str(n.get("t")) + str(n.get("q")): return Opq("Eigen::all")
        for (q, fl), g in self.P.globals.items():
            if g.get("d") == n.get("d") and g.get("i") is not None and "const" in (n.get("dt") or n.get("t") or ""): return self.ev(g["i"])
        und("global " + n["n"], n)
    def e_Mem(self, n):
        b = self.rd(self.ev(n["c"][0]))
        if isinstance(b, PtrTo): b = self.rd(b.v)
        if isinstance(b, It): b = b.v.items[b.k]
        if isinstance(b, Pair) and n["n"] in ("first", "second"): return LItem(b.items, 0 if n["n"] == "first" else 1)
        if isinstance(b, Obj):
            if n["n"] not in b.f: b.f[n["n"]] = self.field(b, n["n"], n.get("t") or "")
            return LField(b, n["n"])
        if b is None or b == 0 and isinstance(b, int): raise OutOfRange("member %s of an object that was never created is used (line %s)" % (n["n"], n.get("l")))
        und("member " + n["n"], n)
    def e_Sub(self, n): return self.index(self.ev(n["c"][0]), [self.num(x) for x in n["c"][1:]], n)
    def index(self, v, ix, n):
        v = self.rd(v)
        if isinstance(v, PtrTo): 
            w = self.rd(v.v)
            if isinstance(w, Obj): return v.v
            v = w
        if isinstance(v, A) and any(isinstance(i, (Vc, A)) or isinstance(i, Opq) and i.what == "Eigen::all" for i in ix):
            if len(ix) == 2: ix = [Vc(list(range((v.r, v.c)[k]))) if isinstance(i, Opq) and i.what == "Eigen::all" else i for k, i in enumerate(ix)]
            ls = [[self.rd(x) for x in (i.items if isinstance(i, Vc) else i.vals())] if isinstance(i, (Vc, A)) else [i] for i in ix]
            if any(not isinstance(x, int) for l in ls for x in l): und("index", n)
            if len(ls) == 1: ls = [ls[0], [0]] if v.c == 1 else [[0], ls[0]] if v.r == 1 else und("index", n)
            return v.sub([i + j * v.r if 0 <= i < v.r and 0 <= j < v.c else self.outside(i, j, v, n) for j in ls[1] for i in ls[0]], len(ls[0]), len(ls[1]))
        for i in ix:
            if not isinstance(i, int): und("index", n)
        if isinstance(v, Vc):
            if not 0 <= ix[0] < len(v.items): raise OutOfRange("element %d of a list of %d (line %s)" % (ix[0], len(v.items), n.get("l")))
            return LItem(v.items, ix[0])
        if isinstance(v, A):
            if len(ix) == 1:
                if v.c == 1: p = v.pos(ix[0], 0)
                elif v.r == 1: p = v.pos(0, ix[0])
                else: p = v.pos(ix[0] % v.r, ix[0] // v.r)
            else: p = v.pos(*ix)
            return LItem(v.st, p)
        und("subscript", n)
    def outside(self, i, j, v, n): raise OutOfRange("element (%d,%d) of a %d x %d matrix (line %s)" % (i, j, v.r, v.c, n.get("l")))
    def e_Un(self, n):
        op = n["op"]
        if op == "&":
            v = self.ev(n["c"][0])
            return PtrTo(v if isinstance(v, LT) and not isinstance(v.get(), (A, Vc, Obj, Pair)) else self.rd(v))
        if op == "*":
            v = self.rd(self.ev(n["c"][0]))
            if isinstance(v, PtrTo): return v.v
            if isinstance(v, It): return LItem(v.v.items, v.k)
            return v
        if op in ("++", "--"):
            l = self.ev(n["c"][0]); v = self.rd(l)
            if isinstance(v, It): l.set(It(v.v, v.k + (1 if op == "++" else -1))); return v if n.get("post") else l
            if not isinstance(v, int): und("increment", n)
            l.set(wrapint(v + (1 if op == "++" else -1), n.get("t")))
            return v if n.get("post") else l
        v = self.num(n["c"][0])
        if op == "!":
            if isinstance(v, int): return int(not v)
            if isinstance(v, dict): return int(not self.cond_val(v, n))
            if isinstance(v, Opq): return int(v.what == "null")
            if isinstance(v, (PtrTo, Lam, PyFn)): return 0
            und("not", n)
        if op == "-": return wrapint(-v, n.get("t")) if isinstance(v, int) else self.neg(v)
        if op == "+": return v
        if op == "~" and isinstance(v, int): return ~v
        und("unary " + op, n)
    def neg(self, v):
        if isinstance(v, int): return -v
        if isinstance(v, dict): return qscale(v, -1.0)
        if isinstance(v, A): r = A([self.neg(x) for x in v.vals()], v.r, v.c); r.arr = v.arr; return r
        und("negation")
    def e_Cond(self, n):
        c = n["cond"] if n.get("cond") else n["c"][0]
        a, b = (n["then"], n["else"]) if n.get("then") else (n["c"][1], n["c"][2])
        return self.ev(a) if self.cond(c) else self.ev(b)
    def e_Bin(self, n):
        op = n["op"]; a = n["c"]
        if op == "&&": return int(self.cond(a[0]) and self.cond(a[1]))
        if op == "||": return int(self.cond(a[0]) or self.cond(a[1]))
        if op == ",": self.ev(a[0]); return self.ev(a[1])
        if op == "=":
            l = self.ev(a[0]); v = self.own(self.ev(a[1]), n.get("t") or ""); return self.store(l, "=", v, n)
        if op in ("+=", "-=", "*=", "/=", "%=", "|=", "&=", "<<=", ">>="):
            v = self.rd(self.ev(a[1])); l = self.ev(a[0]); return self.store(l, op, v, n)
        x, y = self.num(a[0]), self.num(a[1])
        return self.binop(op, x, y, n)
    def store(self, l, op, v, n):
        if not isinstance(l, LT):
            t = self.rd(l)
            if isinstance(t, A) and isinstance(v, A): self.assign(t, op, v, n); return t
            und("assignment", n)
        old = l.get()
        while isinstance(old, LT): l = old; old = l.get()
        if isinstance(old, A) and (isinstance(v, A) or op != "="): self.assign(old, op, v, n); return l
        if op == "=":
            if isinstance(old, Vc) and isinstance(v, Vc): old.items[:] = [self.copyval(x) for x in v.items]; return l
            if isinstance(old, Obj) and isinstance(v, Obj):
                old.cls = v.cls
                if old is not v: old.f = {k: self.copyval(x) for k, x in v.f.items()}
                return l
            if isinstance(old, dict) and isinstance(v, int): v = Qc(v)
            if isinstance(old, int) and isinstance(v, dict):
                c = qcval(v)
                if c is None: und("integer from a symbolic value", n)
                v = int(c)
            l.set(v if isinstance(v, (int, dict)) else self.copyval(v)); return l
        if old is None: und("update of an uninitialised value", n)
        r = self.binop(op[:-1], old, v, n)
        if isinstance(old, int) and isinstance(r, dict):
            c = qcval(r); r = int(c) if c is not None else und("integer from a symbolic value", n)
        l.set(wrapint(r, n.get("t")) if isinstance(r, int) else r); return l
    def assign(self, t, op, v, n):
        if not isinstance(v, A):
            v = self.rd(v)
            if op in ("*=", "/=") or t.arr:
                if op == "=": new = [Q(v)] * (t.r * t.c)
                else: new = [self.binop(op[:-1], x, v, n) for x in t.vals()]
            elif isinstance(v, Opq): und("assignment", n)
            else: und("scalar assigned to a matrix", n)
            for k, x in zip(t.idx(), new): t.st[k] = x
            return
        vals = list(v.vals())
        if op == "=":
            if t.ix is None and (t.r, t.c) != (v.r, v.c) and not t.tag:
                if t.c == 1 and v.r == 1 and v.c != 1: t.st[:] = vals; t.r, t.c = v.c, 1; return
                t.st[:] = vals; t.r, t.c = v.r, v.c; return
            if (t.r, t.c) != (v.r, v.c) and t.r * t.c == 0 and t.ix is None: t.st[:] = vals; t.r, t.c = v.r, v.c; return
            self.conform(t, v, n)
            for k, x in zip(t.idx(), vals): t.st[k] = x
            return
        if op == "*=" and not (t.arr or v.arr):
            r = self.matmul(t, v, n)
            if t.ix is None: t.st[:] = r.st; t.r, t.c = r.r, r.c
            else:
                for k, x in zip(t.idx(), r.st): t.st[k] = x
            return
        self.conform(t, v, n)
        for k, x in zip(t.idx(), vals):
            if t.st[k] is None: und("update of an uninitialised element", n)
            t.st[k] = self.binop(op[:-1], t.st[k], x, n)
    def conform(self, a, b, n):
        if (a.r, a.c) != (b.r, b.c):
            if a.r * a.c == b.r * b.c and 1 in (a.r, a.c) and 1 in (b.r, b.c): return
            raise OutOfRange("sizes %dx%d and %dx%d do not match (line %s)" % (a.r, a.c, b.r, b.c, n.get("l") if n else "?"))
    def binop(self, op, x, y, n=None):
        if isinstance(x, It) or isinstance(y, It): return self.iterop(op, x, y, n)
        if isinstance(x, PtrTo) and isinstance(y, int) and op in "+-": return PtrTo(x.v, x.off + (y if op == "+" else -y))
        if isinstance(x, A) or isinstance(y, A): return self.arrop(op, x, y, n)
        if isinstance(x, Opq) or isinstance(y, Opq):
            if op in ("==", "!="):
                null = [isinstance(v, Opq) and v.what == "null" for v in (x, y)]
                if any(null): return int(all(null) == (op == "=="))
            return Opq("opaque") if op == "+" else und("operand", n)
        if isinstance(x, PtrTo) or isinstance(y, PtrTo):
            if op in ("==", "!="): return int((x is y) == (op == "=="))
        if isinstance(x, Pair) and isinstance(y, Pair) and op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = [self.rd(v) for v in x.items], [self.rd(v) for v in y.items]
            return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
        if x is None or y is None: und("use of an uninitialised value", n)
        if isinstance(x, int) and isinstance(y, int):
            x, y = int(x), int(y)
            if op == "+": r = x + y
            elif op == "-": r = x - y
            elif op == "*": r = x * y
            elif op == "/":
                if y == 0: raise OutOfRange("division by zero")
                r = abs(x) // abs(y); r = r if (x >= 0) == (y >= 0) else -r
            elif op == "%":
                if y == 0: raise OutOfRange("division by zero")
                r = abs(x) % abs(y); r = r if x >= 0 else -r
            elif op == "&": r = x & y
            elif op == "|": r = x | y
            elif op == "^": r = x ^ y
            elif op == "<<": r = x << y
            elif op == ">>": r = x >> y
            elif op in CMP: return int(CMP[op](x, y))
            else: und("operator " + op, n)
            return wrapint(r, n.get("t")) if n is not None else r
        x, y = Q(x), Q(y)
        if op == "+": return qadd(x, y)
        if op == "-": return qadd(x, y, -1.0)
        if op == "*": return qmul(x, y)
        if op == "/": return qmul(x, qinv(y))
        if op in CMP:
            d = qadd(x, y, -1.0); c = qcval(d)
            if c is not None: return int(CMP[op](c, 0.0))
            return int(bool(self.symbolic_cond(n, op, x, y)))
        und("operator " + op, n)
    def iterop(self, op, x, y, n):
        if isinstance(x, It) and isinstance(y, It):
            if op == "-": return x.k - y.k
            if op in CMP: return int(CMP[op](x.k, y.k))
        if isinstance(x, It) and isinstance(y, int) and op in "+-": return It(x.v, x.k + (y if op == "+" else -y))
        if isinstance(y, It) and isinstance(x, int) and op == "+": return It(y.v, y.k + x)
        und("iterator", n)
    def arrop(self, op, x, y, n):
        if isinstance(x, A) and isinstance(y, A):
            if op == "*" and not (x.arr or y.arr): return self.matmul(x, y, n)
            self.conform(x, y, n)
            r = A([self.binop(op, a, b, None) for a, b in zip(x.vals(), y.vals())], x.r, x.c); r.arr = x.arr; return r
        a, s = (x, y) if isinstance(x, A) else (y, x)
        if not isinstance(s, (int, dict)): und("operand", n)
        if op in "*/" or a.arr:
            if a is x: r = A([self.binop(op, v, s, None) for v in a.vals()], a.r, a.c)
            else: r = A([self.binop(op, s, v, None) for v in a.vals()], a.r, a.c)
            r.arr = a.arr; return r
        und("matrix and scalar", n)
    def matmul(self, x, y, n):
        if x.tag == "diag" or y.tag == "diag":
            if x.tag == "diag":
                if x.r != y.r: raise OutOfRange("sizes of a product")
                return mat(y.r, y.c, lambda i, j: self.binop("*", x.get(i, 0), y.get(i, j)))
            if y.r != x.c: raise OutOfRange("sizes of a product")
            return mat(x.r, x.c, lambda i, j: self.binop("*", x.get(i, j), y.get(j, 0)))
        if x.c != y.r:
            if x.c == 1 and x.r == y.r and y.c == 1 and 0: pass
            raise OutOfRange("product of %dx%d and %dx%d (line %s)" % (x.r, x.c, y.r, y.c, n.get("l") if n else "?"))
        xv, yv = x.vals(), y.vals()
        out = []
        for j in range(y.c):
            for i in range(x.r):
                s = 0
                for k in range(x.c):
                    a, b = xv[i + k * x.r], yv[k + j * y.r]
                    if a is None or b is None: und("use of an uninitialised element", n)
                    if a == {} or b == {}: s = Q(s) if s == 0 else s; continue
                    t = self.binop("*", a, b); s = self.binop("+", s, t) if s != 0 else t
                out.append(s if s != 0 else {})
        return A(out, x.r, y.c)
    # ---- calls
    def e_IList(self, n):
        t = base_t(n.get("t"))
        vs = [self.ev(x) for x in n["c"]]
        if t.startswith("std::pair") and len(vs) == 2: return Pair(self.own(vs[0], ""), self.own(vs[1], ""))
        if len(vs) == 1 and (t in INTS or t in FLT): return vs[0]
        if not vs and (t in INTS or t in FLT): return self.zero_of(t)
        return Vc([self.copyval(self.rd(v)) for v in vs])
    def e_Ctor(self, n):
        a = [x for x in n["a"] if x.get("k") != "DefArg"]; q = n.get("q") or ""; t = base_t(n.get("t"))
        r = self.hook(n, q, n.get("n"), n["a"], None)
        if r is not NotImplemented: return r
        if q.startswith("Eigen::"):
            if not a: return self.default(t)
            if len(a) == 1:
                v = self.rd(self.ev(a[0]))
                if isinstance(v, A):
                    if q.startswith("Eigen::Map") or not owned_eig(t): return v
                    return v.copy()
                if isinstance(v, int): return A([None] * v, v, 1) if ",-1,1" in t.replace(" ", "") else A([None] * v, 1, v)
                if isinstance(v, Vc): return vec([self.rd(x) for x in v.items])
                if isinstance(v, PtrTo): und("map", n)
            if q.startswith("Eigen::Map"): return self.mapped(a, t, n)
            vs = [self.num(x) for x in a]
            if len(vs) == 2 and all(isinstance(v, int) for v in vs): return A([None] * (vs[0] * vs[1]), vs[0], vs[1])
            und("Eigen constructor", n)
        if q.startswith("std::vector"):
            if not a: return Vc([])
            vs = [self.rd(self.ev(x)) for x in a]
            if len(vs) == 1 and isinstance(vs[0], (Vc,)): return vs[0] if n.get("cp") else Vc([self.copyval(x) for x in vs[0].items])
            if isinstance(vs[0], int):
                if len(vs) == 1:
                    et = split_t(t[12:-1])[0] if t.startswith("std::vector<") else ""
                    return Vc([self.zero_of(et) for _ in range(vs[0])])
                return Vc([self.conv(self.copyval(vs[1]), t) for _ in range(vs[0])])
            if isinstance(vs[0], It) and len(vs) == 2: return Vc([self.copyval(x) for x in vs[0].v.items[vs[0].k:vs[1].k]])
            und("vector constructor", n)
        if q.startswith("std::pair"):
            vs = [self.ev(x) for x in a]
            if len(vs) == 2: return Pair(self.own(vs[0], ""), self.own(vs[1], ""))
            if len(vs) == 1: return self.rd(vs[0])
            return self.default(t)
        if q.startswith("std::function") or q.startswith("std::shared_ptr") or q.startswith("std::unique_ptr"):
            return self.ev(a[0]) if a else Opq("null")
        if n.get("inproj"):
            if n.get("cp") and len(a) == 1: return self.ev(a[0])
            f = self.P.funcs.get(n.get("f"))
            if f is not None: return self.construct(f, [self.arg(p, x) for p, x in zip(f.params, n["a"])])
            if not a: return Obj(q.rsplit("::", 1)[0])
            if len(a) == 1: return self.ev(a[0])
        if q.startswith("std::"): return Opq(q)
        if len(a) == 1: return self.ev(a[0])
        und("constructor " + q, n)
    def conv(self, v, t):
        et = split_t(t[12:-1])[0] if t.startswith("std::vector<") else ""
        if isinstance(v, int) and base_t(et) in FLT: return Qc(v)
        return v
    def mapped(self, a, t, n):
        p = self.rd(self.ev(a[0])); ds = [self.num(x) for x in a[1:]]
        if not isinstance(p, PtrTo) or not isinstance(self.rd(p.v), (A, Vc)): und("map", n)
        b = self.rd(p.v); r = ds[0]; c = ds[1] if len(ds) > 1 else 1
        if isinstance(b, Vc): b = A(b.items, len(b.items), 1)
        if p.off + r * c > b.r * b.c: raise OutOfRange("map of %d values onto storage of %d (line %s)" % (p.off + r * c, b.r * b.c, n.get("l")))
        return b.sub(range(p.off, p.off + r * c), r, c)
    def e_New(self, n): und("new", n)
    def e_Delete(self, n): return None
    def e_OCall(self, n):
        op = n["op"]; a = n["a"]
        r = self.hook(n, n.get("q") or "", n.get("n"), a, None)
        if r is not NotImplemented: return r
        if op in ("=", "+=", "-=", "*=", "/="):
            if n.get("inproj") and op == "=":
                f = self.P.funcs.get(n.get("f"))
                if f is not None and f.body is not None and not n.get("dflt"):
                    o = self.rd(self.ev(a[0])); return self.call(f, o, [self.arg(p, x) for p, x in zip(f.params, a[1:])])
            v = self.rd(self.ev(a[1])); l = self.ev(a[0])
            if op == "=" and isinstance(l, A) is False and not isinstance(l, LT): und("assignment", n)
            if isinstance(v, Opq) and op != "=": return l
            return self.store(l, op, v, n)
        if op in ("()", "[]"):
            f = self.rd(self.ev(a[0]))
            if isinstance(f, PtrTo): f = self.rd(f.v)
            if isinstance(f, (Lam, PyFn)):
                if isinstance(f, Lam): return self.apply(f, [self.arg(p, x) for p, x in zip(f.n.get("p") or [], a[1:])], n)
                return f.fn(*[self.rd(self.ev(x)) for x in a[1:]])
            if isinstance(f, Obj) or n.get("inproj"):
                g = self.P.funcs.get(n.get("f"))
                if g is not None: return self.call(g, f, [self.arg(p, x) for p, x in zip(g.params, a[1:])])
            return self.index(f, [self.num(x) for x in a[1:]], n)
        if op == "->": return self.ev(a[0])
        if op == "*" and len(a) == 1:
            v = self.rd(self.ev(a[0]))
            if isinstance(v, PtrTo): return v.v
            if isinstance(v, It): return LItem(v.v.items, v.k)
            return v
        if op in ("++", "--"):
            l = self.ev(a[0]); v = self.rd(l)
            if isinstance(v, It): l.set(It(v.v, v.k + (1 if op == "++" else -1))); return v if len(a) == 2 else l
            und("increment", n)
        if op == "<<" or op == ">>":
            l = self.ev(a[0])
            return self.comma_init(l, a[1], n)
        if op == ",":
            l = self.ev(a[0])
            if isinstance(l, Comma): l.push(self.rd(self.ev(a[1]))); return l
            self.ev(a[0]); return self.ev(a[1])
        if n.get("inproj"):
            f = self.P.funcs.get(n.get("f"))
            if f is not None:
                if f.cls and len(f.params) == len(a) - 1: return self.call(f, self.rd(self.ev(a[0])), [self.arg(p, x) for p, x in zip(f.params, a[1:])])
                return self.call(f, None, [self.arg(p, x) for p, x in zip(f.params, a)])
        if len(a) == 1:
            v = self.num(a[0])
            return self.neg(v) if op == "-" else int(not v) if op == "!" and isinstance(v, int) else v if op == "+" else und("operator " + op, n)
        x, y = self.rd(self.ev(a[0])), self.rd(self.ev(a[1]))
        return self.binop(op, x, y, n)
    def comma_init(self, l, x, n):
        t = self.rd(l)
        if isinstance(t, A):
            c = Comma(t); c.push(self.rd(self.ev(x))); return c
        return Opq("stream")
    def e_Call(self, n):
        q = n.get("q") or ""; nm = n.get("n") or ""; a = n["a"]
        r = self.hook(n, q, nm, a, None)
        if r is not NotImplemented: return r
        base = nm or q.split("::")[-1]
        if n.get("inproj"):
            tg = self.P.targets(n, self.stack[-1] if self.stack else None)
            if len(tg) == 1 and tg[0].body is not None: return self.call(tg[0], None, [self.arg(p, x) for p, x in zip(tg[0].params, a)])
            und("call of " + q, n)
        if base in ("printf", "fflush", "fprintf", "puts", "putchar", "snprintf", "sprintf", "perror", "omp_set_num_threads"): return 0
        if q.startswith("Eigen::") and base in ("Zero", "Ones", "Constant", "Identity", "LinSpaced"):
            vs = [self.num(x) for x in a if x.get("k") != "DefArg"]
            t = base_t(n.get("rt") or n.get("t"))
            rk1 = ",-1,1" in q.replace(" ", "")
            if base == "Constant": c = vs[-1]; ds = vs[:-1]
            elif base == "LinSpaced":
                k, lo, hi = vs
                if all(isinstance(v, int) for v in vs): return vec([lo + (hi - lo) * i // max(k - 1, 1) for i in range(k)])
                und("LinSpaced", n)
            else: c = Qc(1) if base == "Ones" else {}; ds = vs
            if base != "Constant" and "<int" in q: c = 1 if base == "Ones" else 0
            if len(ds) == 1: r, cc = (ds[0], 1) if rk1 or True else (1, ds[0])
            else: r, cc = ds
            if base == "Identity": return mat(r, cc, lambda i, j: Qc(1) if i == j else {})
            return A([c] * (r * cc), r, cc)
        if "numeric_limits" in q:
            t = (n.get("rt") or n.get("t") or "").strip()
            if t in LIMITS: return {"max": LIMITS[t][1], "min": LIMITS[t][0], "lowest": LIMITS[t][0]}.get(base, 0)
            big = 1e300; return Qc({"max": big, "min": 1e-300, "lowest": -big, "epsilon": 2.0 ** -52, "infinity": big}.get(base, 0.0))
        if base in ("max", "min"):
            vs = [self.num(x) for x in a]
            if len(vs) == 1 and isinstance(vs[0], Vc): vs = [self.rd(v) for v in vs[0].items]
            if all(isinstance(v, int) for v in vs): return max(vs) if base == "max" else min(vs)
            cs = [qcval(Q(v)) for v in vs]
            if None not in cs: return Qc(max(cs) if base == "max" else min(cs))
            return qfn(base, *sorted((Q(v) for v in vs), key=qkey))
        if base in ("abs", "fabs", "labs"):
            v = self.num(a[0])
            if isinstance(v, int): return abs(v)
            c = qcval(v)
            return Qc(abs(c)) if c is not None else self.absval(v)
        if base == "pow":
            x, k = self.num(a[0]), self.num(a[1])
            kc = k if isinstance(k, int) else qcval(k)
            if kc is not None and float(kc).is_integer() and abs(kc) < 40: return qpow(Q(x), int(kc))
            xc = qcval(Q(x))
            if xc is not None and kc is not None: return Qc(xc ** kc)
            return qfn("pow", Q(x), Q(k))
        if base in ("move", "forward", "as_const", "ref", "cref"): return self.ev(a[0])
        if base == "make_pair": return Pair(*[self.copyval(self.rd(self.ev(x))) for x in a])
        if base in MATH:
            v = Q(self.num(a[0])); c = qcval(v)
            if c is not None:
                try: return Qc(MATH[base](c))
                except ValueError: und("argument of " + base, n)
            if base == "sqrt": return self.qsqrt(v)
            return qfn(base, v)
        if base in ("isnan", "isinf"): return 0
        if base in ("isfinite", "isnormal"): return 1
        if base == "swap":
            x, y = self.ev(a[0]), self.ev(a[1])
            u, v = self.rd(x), self.rd(y)
            if isinstance(x, LT) and isinstance(y, LT): u, v = self.copyval(u), self.copyval(v); self.store(x, "=", v, n); self.store(y, "=", u, n); return None
            und("swap", n)
        if base in ("find", "sort", "lower_bound", "upper_bound", "reverse", "iota", "fill", "accumulate", "unique", "max_element", "min_element", "stable_sort", "find_if", "count", "count_if", "any_of", "all_of", "none_of"): return self.algo(base, a, n)
        if base in ("epsilon",): return Qc(2.0**-52)
        if base in ("max_digits10",): return 17
        if base == "memcpy": return self.memcpy(a, n)
        und("call of " + (q or base), n)
    def memcpy(self, a, n):
        d, s = self.rd(self.ev(a[0])), self.rd(self.ev(a[1]))
        if isinstance(d, PtrTo) and isinstance(s, PtrTo):
            x, y = self.rd(d.v), self.rd(s.v)
            if isinstance(x, A) and isinstance(y, A) and x.r * x.c == y.r * y.c and not d.off and not s.off:
                for k, v in zip(x.idx(), list(y.vals())): x.st[k] = v
                return None
        und("memcpy", n)
    def absval(self, v): return qfn("abs", v)
    def qsqrt(self, v):
        # even powers and positive symbols are left inside
        if len(v) == 1:
            (m, c), = v.items()
            if c > 0 and all(p % 2 == 0 for _, p in m): return {tuple((k, p // 2) for k, p in m): math.sqrt(c)}
        return qfn("sqrt", v)
    def algo(self, base, a, n):
        vs = [self.rd(self.ev(x)) for x in a]
        if not isinstance(vs[0], It) or not isinstance(vs[1], It): und(base, n)
        l = vs[0].v.items; lo, hi = vs[0].k, vs[1].k
        def val(x): x = self.rd(x); return tuple(self.rd(y) for y in x.items) if isinstance(x, (Pair, Vc)) else x
        def cmp2(f, x, y): return bool(self.truth(self.callv(f, [x, y]), n))
        if base == "find":
            for k in range(lo, hi):
                if val(l[k]) == val(vs[2]): return It(vs[0].v, k)
            return It(vs[0].v, hi)
        if base in ("find_if", "count_if", "any_of", "all_of", "none_of", "count"):
            hit = [k for k in range(lo, hi) if (val(l[k]) == val(vs[2]) if base == "count" else self.truth(self.callv(vs[2], [l[k]]), n))]
            if base == "find_if": return It(vs[0].v, hit[0] if hit else hi)
            if base in ("count_if", "count"): return len(hit)
            return int({"any_of": bool(hit), "all_of": len(hit) == hi - lo, "none_of": not hit}[base])
        if base in ("sort", "stable_sort"):
            import functools
            s = l[lo:hi]
            if len(vs) > 2: s.sort(key=functools.cmp_to_key(lambda x, y: -1 if cmp2(vs[2], x, y) else (1 if cmp2(vs[2], y, x) else 0)))
            else:
                for x in s:
                    if isinstance(self.rd(x), dict) and qcval(self.rd(x)) is None: und("sort of symbolic values", n)
                s.sort(key=lambda x: qcval(self.rd(x)) if isinstance(self.rd(x), dict) else val(x))
            l[lo:hi] = s; return None
        if base in ("lower_bound", "upper_bound"):
            def less(x, y):
                if len(vs) > 3: return cmp2(vs[3], x, y)
                op = self.pair_less(x)
                return op(x, y)
            for k in range(lo, hi):
                if base == "lower_bound" and not less(l[k], vs[2]): return It(vs[0].v, k)
                if base == "upper_bound" and less(vs[2], l[k]): return It(vs[0].v, k)
            return It(vs[0].v, hi)
        if base == "reverse": l[lo:hi] = l[lo:hi][::-1]; return None
        if base == "iota":
            v = vs[2]
            for k in range(lo, hi): l[k] = v; v = v + 1 if isinstance(v, int) else qadd(v, Qc(1))
            return None
        if base == "fill":
            for k in range(lo, hi): l[k] = self.copyval(vs[2])
            return None
        if base == "accumulate":
            s = vs[2]
            for k in range(lo, hi): s = self.callv(vs[3], [s, l[k]]) if len(vs) > 3 else self.binop("+", s, self.rd(l[k]), None)
            return s
        if base == "unique":
            out = []
            for x in l[lo:hi]:
                if not out or val(out[-1]) != val(x): out.append(x)
            l[lo:lo + len(out)] = out; return It(vs[0].v, lo + len(out))
        if base in ("max_element", "min_element"):
            ks = list(range(lo, hi))
            if not ks: return It(vs[0].v, hi)
            g = lambda k: qcval(Q(self.rd(l[k])))
            if any(g(k) is None for k in ks): und(base, n)
            return It(vs[0].v, max(ks, key=g) if base == "max_element" else min(ks, key=g))
        und(base, n)
    def pair_less(self, x):
        """operator< on the element type: the program's own if it defines one for pairs of indices"""
        return lambda u, v: tuple(self.rd(y) for y in self.rd(u).items) < tuple(self.rd(y) for y in self.rd(v).items) if isinstance(self.rd(u), (Pair, Vc)) else self.rd(u) < self.rd(v)
    def callv(self, f, args):
        f = self.rd(f)
        if isinstance(f, PtrTo): f = self.rd(f.v)
        if isinstance(f, PyFn): return f.fn(*args)
        if isinstance(f, Lam): return self.apply(f, [Cell(self.rd(x)) for x in args])
        und("callable")
    def truth(self, v, n):
        v = self.rd(v)
        return v if isinstance(v, int) else self.cond_val(v, n)
    def dispatch(self, n, ob):
        tg = self.P.targets(n, self.stack[-1] if self.stack else None)
        if len(tg) == 1: return tg[0]
        if not tg or not isinstance(ob, Obj): return None
        chain = []; q = ob.cls
        while q and q not in chain:
            chain.append(q); r = self.P.records.get(q); q = r["b"][0] if r and r["b"] else None
        best = sorted((t for t in tg if t.q.rsplit("::", 1)[0] in chain), key=lambda t: chain.index(t.q.rsplit("::", 1)[0]))
        return best[0] if best else None
    def e_MCall(self, n):
        q = n.get("q") or ""; nm = n.get("n") or ""
        r = self.hook(n, q, nm, n["a"], n.get("o"))
        if r is not NotImplemented: return r
        l = self.ev(n["o"]); v = self.rd(l)
        if isinstance(v, PtrTo): l = v.v; v = self.rd(v.v)
        if n.get("inproj") and not q.startswith("Eigen"):
            f = self.dispatch(n, v)
            if f is None or f.body is None: und("call of " + q, n)
            return self.call(f, v, [self.arg(p, x) for p, x in zip(f.params, n["a"])])
        if isinstance(v, It): v = self.rd(v.v.items[v.k])
        if isinstance(v, Vc): return self.vec_method(n, nm, v)
        if isinstance(v, A): return self.mat_method(n, nm, v)
        if isinstance(v, Comma): return v.t
        if re.match(r"(const )?std::(unique_ptr|shared_ptr|__uniq_ptr|__shared_ptr)\b", (n["o"].get("t") or "")) or re.match(r"std::(unique_ptr|shared_ptr|__shared_ptr)\b", q):
            if nm == "get": return v if isinstance(v, (Opq, PtrTo)) else PtrTo(v)
            if nm in ("reset", "release"):
                a = [x for x in n["a"] if x.get("k") != "DefArg"]
                self.store(l, "=", self.rd(self.ev(a[0])) if a else Opq("null"), n); return v
        if isinstance(v, (Opq,)):
            if nm in ("operator bool",): return int(v.what != "null")
            return Opq("?" + nm)
        if isinstance(v, (Lam, PyFn)) and nm == "operator bool": return 1
        if isinstance(v, int) and nm == "operator bool": return v
        if isinstance(v, (Lam, PyFn)) and nm == "operator()": return self.callv(v, [self.ev(x) for x in n["a"]])
        if isinstance(v, Obj) and nm in ("get", "operator->", "operator*"): return PtrTo(v)
        und("method %s" % nm, n)
    def vec_method(self, n, nm, v):
        a = n["a"]
        if nm in ("size",): return len(v.items)
        if nm == "empty": return int(not v.items)
        if nm in ("begin", "cbegin"): return It(v, 0)
        if nm in ("end", "cend"): return It(v, len(v.items))
        if nm in ("rbegin", "rend"): und(nm, n)
        if nm in ("push_back",): v.items.append(self.own(self.ev(a[0]), "")); return None
        if nm == "emplace_back":
            vs = [self.copyval(self.rd(self.ev(x))) for x in a]
            v.items.append(vs[0] if len(vs) == 1 else Pair(*vs)); return None
        if nm == "pop_back": v.items.pop(); return None
        if nm == "clear": v.items[:] = []; return None
        if nm in ("reserve", "shrink_to_fit"): return None
        if nm in ("back", "front"):
            if not v.items: raise OutOfRange("%s of an empty list" % nm)
            return LItem(v.items, len(v.items) - 1 if nm == "back" else 0)
        if nm == "at": return self.index(v, [self.num(a[0])], n)
        if nm == "data": return PtrTo(v)
        et = self.elem_t(n)
        if nm == "resize":
            k = self.num(a[0]); fillv = self.rd(self.ev(a[1])) if len(a) > 1 else None
            del v.items[k:]
            while len(v.items) < k: v.items.append(self.copyval(fillv) if fillv is not None else self.zero_of(et))
            return None
        if nm == "assign":
            vs = [self.rd(self.ev(x)) for x in a]
            if isinstance(vs[0], It): v.items[:] = [self.copyval(x) for x in vs[0].v.items[vs[0].k:vs[1].k]]
            else: v.items[:] = [self.copyval(vs[1] if not (isinstance(vs[1], int) and et in FLT) else Qc(vs[1])) for _ in range(vs[0])]
            return None
        if nm == "insert":
            vs = [self.rd(self.ev(x)) for x in a]
            if len(vs) == 2: v.items.insert(vs[0].k, self.copyval(vs[1])); return It(v, vs[0].k)
            if len(vs) == 3 and isinstance(vs[1], It): v.items[vs[0].k:vs[0].k] = [self.copyval(x) for x in vs[1].v.items[vs[1].k:vs[2].k]]; return It(v, vs[0].k)
        if nm == "erase":
            vs = [self.rd(self.ev(x)) for x in a]
            if len(vs) == 1: del v.items[vs[0].k]
            else: del v.items[vs[0].k:vs[1].k]
            return It(v, vs[0].k)
        und("vector method " + nm, n)
    def elem_t(self, n):
        t = base_t(n["o"].get("t"))
        return base_t(split_t(t[12:-1])[0]) if t.startswith("std::vector<") else ""
    def mat_method(self, n, nm, v):
        a = n["a"]
        def I(): return [self.num(x) for x in a if x.get("k") != "DefArg"]
        if v.tag in ("colwise", "rowwise"):
            ls = [[v.get(i, j) for i in range(v.r)] for j in range(v.c)] if v.tag == "colwise" else [[v.get(i, j) for j in range(v.c)] for i in range(v.r)]
            if nm not in ("sum", "mean"): und("Eigen method %s().%s" % (v.tag, nm), n)
            out = []
            for l in ls:
                s = {}
                for x in l: s = self.binop("+", s, x)
                out.append(s if nm == "sum" else qscale(Q(s), 1.0 / max(len(l), 1)))
            return A(out, 1, v.c, None, v.arr) if v.tag == "colwise" else A(out, v.r, 1, None, v.arr)
        if nm in ("colwise", "rowwise"):
            r = A(v.st, v.r, v.c, list(v.idx()), v.arr); r.tag = nm; return r
        if nm == "size": return v.r * v.c
        if nm == "rows": return v.r
        if nm == "cols": return v.c
        if nm in ("block", "template block"): return v.block(*I())
        if nm == "segment":
            o, k = I(); return v.block(o, 0, k, 1) if v.c == 1 else v.block(0, o, 1, k)
        if nm == "head": k, = I(); return v.block(0, 0, k, 1) if v.c == 1 else v.block(0, 0, 1, k)
        if nm == "tail": k, = I(); return v.block(v.r - k, 0, k, 1) if v.c == 1 else v.block(0, v.c - k, 1, k)
        if nm == "col": j, = I(); return v.block(0, j, v.r, 1)
        if nm == "row": i, = I(); return v.block(i, 0, 1, v.c)
        if nm == "middleCols": j, k = I(); return v.block(0, j, v.r, k)
        if nm == "middleRows": j, k = I(); return v.block(j, 0, k, v.c)
        if nm == "leftCols": k, = I(); return v.block(0, 0, v.r, k)
        if nm == "rightCols": k, = I(); return v.block(0, v.c - k, v.r, k)
        if nm == "topRows": k, = I(); return v.block(0, 0, k, v.c)
        if nm == "bottomRows": k, = I(); return v.block(v.r - k, 0, k, v.c)
        if nm == "topLeftCorner": r, c = I(); return v.block(0, 0, r, c)
        if nm == "topRightCorner": r, c = I(); return v.block(0, v.c - c, r, c)
        if nm == "bottomLeftCorner": r, c = I(); return v.block(v.r - r, 0, r, c)
        if nm == "bottomRightCorner": r, c = I(); return v.block(v.r - r, v.c - c, r, c)
        if nm == "transpose" or nm == "adjoint":
            ix = v.idx(); r = A(v.st, v.c, v.r, [ix[j + i * v.r] for i in range(v.c) for j in range(0)] if False else [ix[i + j * v.r] for i in range(v.r) for j in range(v.c)], v.arr); return r
        if nm == "diagonal":
            k = min(v.r, v.c); return v.sub([i + i * v.r for i in range(k)], k, 1)
        if nm == "asDiagonal": r = A(list(v.vals()), v.r * v.c, 1); r.tag = "diag"; return r
        if nm in ("array", "matrix", "noalias", "derived", "nestedExpression", "const_cast_derived"):
            if nm == "array" or nm == "matrix":
                r = A(v.st, v.r, v.c, v.ix if v.ix is not None else list(range(v.r * v.c)), nm == "array"); return r
            return v
        if nm in ("eval",): r = v.copy(); r.arr = v.arr; return r
        if nm in ("trace",):
            s = {}
            for i in range(min(v.r, v.c)): s = self.binop("+", s, v.get(i, i))
            return s
        if nm == "sum":
            s = 0 if v.vals() and all(isinstance(x, int) for x in v.vals()) else {}
            for x in v.vals(): s = self.binop("+", s, x)
            return s
        if nm == "mean":
            s = {}
            for x in v.vals(): s = self.binop("+", s, x)
            return qscale(s, 1.0 / (v.r * v.c))
        if nm == "dot":
            w = self.rd(self.ev(a[0])); s = {}
            if len(w.vals()) != len(v.vals()): raise OutOfRange("dot product of vectors of different length")
            for x, y in zip(v.vals(), w.vals()): s = self.binop("+", s, self.binop("*", x, y))
            return s
        if nm == "cwiseProduct": w = self.rd(self.ev(a[0])); self.conform(v, w, n); return A([self.binop("*", x, y) for x, y in zip(v.vals(), w.vals())], v.r, v.c)
        if nm in ("cwiseMax", "cwiseMin") and len(n["a"]) == 1:
            w = self.rd(self.ev(n["a"][0])); op = "<" if nm == "cwiseMax" else ">"
            ws = list(w.vals()) if isinstance(w, A) else [w] * (v.r * v.c)
            def pickv(x, y):
                x, y = Q(x), Q(y); d = qcval(qadd(x, y, -1.0))
                t = CMP[op](d, 0) if d is not None else self.symbolic_cond(n, op, x, y)
                return y if t else x
            return A([pickv(x, y) for x, y in zip(v.vals(), ws)], v.r, v.c, None, v.arr)
        if nm in ("cwiseAbs", "abs"): return A([self.un_abs(x) for x in v.vals()], v.r, v.c, None, v.arr)
        if nm in ("square", "cwiseAbs2"): return A([self.binop("*", x, x) for x in v.vals()], v.r, v.c, None, v.arr)
        if v.arr and nm in ("inverse", "sqrt", "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "cube", "pow") or nm in ("cwiseInverse", "cwiseSqrt"):
            nm = {"cwiseInverse": "inverse", "cwiseSqrt": "sqrt"}.get(nm, nm); l = [Q(x) for x in v.vals()]
            if nm == "inverse": o = [qinv(x) for x in l]
            elif nm == "cube": o = [qpow(x, 3) for x in l]
            elif nm == "pow":
                k = self.num(a[0]); k = k if isinstance(k, int) else qcval(Q(k))
                if k is None or not float(k).is_integer() or abs(k) > 40: und("pow", n)
                o = [qpow(x, int(k)) for x in l]
            else:
                o = []
                for x in l:
                    c = qcval(x)
                    if c is not None:
                        try: o.append(Qc(MATH[nm](c)))
                        except ValueError: und("argument of " + nm, n)
                    else: o.append(self.qsqrt(x) if nm == "sqrt" else qfn(nm, x))
            return A(o, v.r, v.c, None, v.arr)
        if nm in ("maxCoeff", "minCoeff"):
            l = v.vals()
            if l and all(isinstance(x, int) for x in l) and not a: return max(l) if nm == "maxCoeff" else min(l)
            cs = [qcval(Q(x)) for x in l]
            if cs and None not in cs and not a: return Qc(max(cs) if nm == "maxCoeff" else min(cs))
            return self.symbolic_extremum(n, nm, v)
        if nm in ("norm", "squaredNorm"):
            if all(not Q(x) for x in v.vals()): return {}
            return qfn(nm, *[Q(x) for x in v.vals()])
        if nm in ("setZero", "setOnes", "setConstant", "fill"):
            d = I()
            c = {} if nm == "setZero" else Qc(1) if nm == "setOnes" else Q(d.pop())
            if d: k = d[0] * (d[1] if len(d) > 1 else 1); v.st[:] = [c] * k; v.r = d[0]; v.c = d[1] if len(d) > 1 else 1
            for k in v.idx(): v.st[k] = 0 if isinstance(v.st[k], int) and nm == "setZero" else c
            return v
        if nm in ("resize", "conservativeResize"):
            d = I()
            r, c = (d[0], d[1]) if len(d) > 1 else (d[0], 1)
            old = v.copy()
            v.st[:] = [None] * (r * c); v.r, v.c = r, c
            if nm == "conservativeResize":
                for j in range(min(c, old.c)):
                    for i in range(min(r, old.r)): v.st[i + j * r] = old.st[i + j * old.r]
            return None
        if nm == "data": return PtrTo(v)
        if nm in ("begin", "end", "cbegin", "cend"):
            w = Vc(v.st); return It(w, 0 if "begin" in nm else len(v.st))
        if nm in ("value",): return v.vals()[0]
        if nm in ("cast", "template cast", "real", "selfadjointView", "triangularView"):
            if nm == "cast" and all(isinstance(x, int) for x in v.vals()) and "int" not in (n.get("rt") or ""): return A([Qc(x) for x in v.vals()], v.r, v.c)
            return v
        if nm == "coeff" or nm == "coeffRef" or nm == "operator()": return self.index(v, I(), n)
        if nm == "swap":
            w = self.rd(self.ev(a[0])); x, y = list(v.vals()), list(w.vals())
            for k, z in zip(v.idx(), y): v.st[k] = z
            for k, z in zip(w.idx(), x): w.st[k] = z
            return None
        if nm in ("allFinite",): return 1
        if nm in ("hasNaN",): return 0
        und("Eigen method " + nm, n)
    def un_abs(self, x):
        if isinstance(x, int): return abs(x)
        c = qcval(x); return Qc(abs(c)) if c is not None else self.absval(x)
    def symbolic_extremum(self, n, nm, v): und(nm, n)

LIMITS = {"int": (-2**31, 2**31 - 1), "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1), "unsigned int": (0, 2**32 - 1)}
class Comma:
    def __init__(self, t): self.t = t; self.k = 0
    def push(self, v):
        vals = v.vals() if isinstance(v, A) else [v]
        for x in vals:
            i, j = self.k // self.t.c, self.k % self.t.c
            self.t.st[self.t.pos(i, j)] = x; self.k += 1
import operator
CMP = {"<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
MATH = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "tgamma": math.gamma,
        "lgamma": math.lgamma, "floor": math.floor, "ceil": math.ceil, "acos": math.acos, "asin": math.asin, "atan": math.atan, "asinh": math.asinh, "acosh": math.acosh, "erf": math.erf, "erfc": math.erfc, "round": lambda x: math.copysign(math.floor(abs(x) + 0.5), x), "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "trunc": math.trunc}
def split_t(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    out.append(cur.strip()); return out
