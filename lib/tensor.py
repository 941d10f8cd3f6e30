"""Abstract evaluation of Eigen-style numerical code to an index-notation normal form.

Values are multivariate polynomials (with negative powers) over indexed atoms; contractions and
accumulating loops become sums over bound indices.  Straight-line paths only: branches are decided by
known flags, by the client, or skipped when they only throw or print.  Anything not understood raises
Undecided (never a verdict)."""
import itertools
from program import *

class Undecided(Exception): pass
class Rejected(Undecided): pass
def und(msg, n=None): raise Undecided(msg + (" (line %d)" % n["l"] if n and "l" in n else ""))

# ------------------------------------------------------------------ polynomials
# monomial: tuple(sorted((atom,power)));  poly: dict monomial -> float.  Bound indices are ("d",k).
ONE = ()
I = ("I",)
_cnt = [0]
def fresh(tag="l"):
    _cnt[0] += 1
    return (tag, _cnt[0])

def const(c): return {ONE: float(c)} if c != 0 else {}
def atom(a): return {((a, 1),): 1.0}
def isconst(p): return not p or (len(p) == 1 and ONE in p)
def cval(p): return p.get(ONE, 0.0) if isconst(p) else None

def subst_t(t, m):
    """substitute in a nested tuple term"""
    if isinstance(t, tuple):
        if t in m: return m[t]
        return tuple(subst_t(x, m) if isinstance(x, tuple) else x for x in t)
    return t

def dummies(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "d": out.add(t)
        else:
            for x in t:
                if isinstance(x, tuple): dummies(x, out)
    return out

SYM = set()         # names of symmetric two-index (last two) atoms
ANTI = set()
def normatom(a):
    if isinstance(a, tuple) and a and a[0] == "a" and a[1] in SYM and len(a) >= 4:
        x, y = a[-2], a[-1]
        if repr(y) < repr(x): a = a[:-2] + (y, x)
    return a

def mkmono(fs):
    """fs: dict atom->power; returns (sign, mono)"""
    sgn = 1.0
    out = []
    for a, p in fs.items():
        if p == 0: continue
        if a == I:
            p %= 4
            if p >= 2: sgn = -sgn
            if p % 2: out.append((I, 1))
            continue
        out.append((a, p))
    return sgn, tuple(sorted(out, key=repr))

def canon_mono(m):
    ds = set()
    for a, p in m: dummies(a, ds)
    if not ds: return tuple(sorted(((normatom(a), p) for a, p in m), key=repr))
    ds = sorted(ds)
    if len(ds) > 6: und("too many bound indices")
    best = None
    # signature-based pre-ordering
    def sig(d): return tuple(sorted(repr(subst_t(normsig(a, d), {x: ("d", "x") if x == d else ("d", "o") for x in ds})) + str(p) for a, p in m if d in dummies(a, set())))
    sg = {d: sig(d) for d in ds}
    groups = []
    for s in sorted(set(sg.values())): groups.append([d for d in ds if sg[d] == s])
    for perm in itertools.product(*[list(itertools.permutations(g)) for g in groups]):
        order = [d for g in perm for d in g]
        mp = {d: ("d", k) for k, d in enumerate(order)}
        fs = {}
        for a, p in m:
            b = normatom(subst_t(a, mp)); fs[b] = fs.get(b, 0) + p
        c = tuple(sorted(fs.items(), key=repr))
        if best is None or repr(c) < repr(best): best = c
    return best
def normsig(a, d):
    if isinstance(a, tuple) and a and a[0] == "a" and a[1] in SYM and len(a) >= 4:
        x, y = a[-2], a[-1]
        if sym_in(x, d): return a
        if sym_in(y, d): return a[:-2] + (y, x)
        return a[:-2] + tuple(sorted((x, y), key=repr))
    return a

def clean(p):
    mx = max((abs(c) for c in p.values()), default=0.0)
    return {m: c for m, c in p.items() if abs(c) > 1e-13 * max(1.0, mx) or (mx < 1 and abs(c) > 1e-13 * mx)}

def canon(p):
    out = {}
    for m, c in p.items():
        k = canon_mono(m); out[k] = out.get(k, 0.0) + c
    return clean(out)
def freeze(p):
    """nested form of a polynomial; bound indices keep their names (they may be bound outside)"""
    if not any(dummies(a, set()) for m in p for a, _ in m): p = canon(p)
    else: p = clean(p)
    return tuple(sorted(((m, round(c, 10)) for m, c in p.items()), key=repr))

def padd(a, b, s=1.0):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0.0) + s * c
        if out[m] == 0.0: del out[m]
    return out
def pscale(a, s): return {m: c * s for m, c in a.items()} if s else {}
def apart(p):
    """rename bound indices of each monomial to fresh ones"""
    out = {}
    for m, c in p.items():
        ds = set()
        for a, q in m: dummies(a, ds)
        if ds:
            mp = {d: fresh("d") for d in ds}
            m = tuple((subst_t(a, mp), q) for a, q in m)
        out[m] = out.get(m, 0.0) + c
    return out
def hasd(p): return any("'d'" in repr(m) for m in p)
def pmul(a, b):
    if not a or not b: return {}
    if isconst(a): return pscale(b, a[ONE])
    if isconst(b): return pscale(a, b[ONE])
    if hasd(a) and hasd(b): b = apart(b)
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            fs = dict(m1)
            for x, q in m2: fs[x] = fs.get(x, 0) + q
            s, m = mkmono(fs)
            out[m] = out.get(m, 0.0) + s * c1 * c2
    if len(out) > 20000: und("expression too large")
    return {m: c for m, c in out.items() if c != 0.0}
def pinv(p):
    if len(p) == 1:
        (m, c), = p.items()
        if not any(dummies(a, set()) for a, _ in m):
            s, mm = mkmono({a: -q for a, q in m})
            return {mm: s / c}
    if not p: und("division by zero")
    return atom(("fn", "inv", freeze(p)))
def ppow(p, k):
    r = const(1)
    if k < 0: p = pinv(p); k = -k
    for _ in range(int(k)): r = pmul(r, p)
    return r
def conj(p):
    return {m: (-c if any(a == I for a, _ in m) else c) for m, c in p.items()}
def real(p): return {m: c for m, c in p.items() if not any(a == I for a, _ in m)}
def imag(p): return {tuple(x for x in m if x[0] != I): c for m, c in p.items() if any(a == I for a, _ in m)}
def psubst(p, mp):
    if not mp: return resolve_ix(p)
    out = {}
    for m, c in p.items():
        fs = {}
        for a, q in m:
            b = subst_t(a, mp)
            fs[b] = fs.get(b, 0) + q
        s, mm = mkmono(fs)
        out[mm] = out.get(mm, 0.0) + s * c
    return resolve_ix(out)
def resolve_ix(p):
    """('ixv', int) atoms become numbers"""
    if not any(a[0] == "ixv" and isinstance(a[1], int) for m in p for a, _ in m): return p
    out = {}
    for m, c in p.items():
        r = []
        for a, q in m:
            if a[0] == "ixv" and isinstance(a[1], int):
                if a[1] == 0: c = 0.0 if q > 0 else und("0 power")
                else: c = c * a[1] ** q
            else: r.append((a, q))
        if c: r = tuple(r); out[r] = out.get(r, 0.0) + c
    return out
def msum(p, sym):
    """sum over an index symbol"""
    d = fresh("d")
    return psubst(p, {sym: d}) if p else p
def mentions_sym(p, sym): return any(sym_in(a, sym) for m in p for a, _ in m)
def sym_in(t, sym):
    if t == sym: return True
    return isinstance(t, tuple) and any(sym_in(x, sym) for x in t if isinstance(x, tuple))
def peq(a, b):
    d = canon(padd(a, b, -1.0))
    sc = max([abs(c) for c in a.values()] + [1e-300])
    return all(abs(c) < 1e-9 * max(sc, 1e-3) for c in d.values())
def pdiff(a, b): return canon(padd(a, b, -1.0))

def short(nm):
    """readable form of a table name"""
    if nm.startswith("F:_Z"):
        import re
        ids = re.findall(r"(\d+)([a-zA-Z_]\w*)", nm)
        ids = [b[:int(a)] for a, b in ids if len(b) >= int(a)]
        ids = [x for x in ids if x not in ("helfem", "Eigen", "Matrix")]
        return ids[1] if len(ids) > 1 else ids[0] if ids else nm
    return nm
def pp(p, limit=4):
    """readable"""
    def sa(a):
        if a == I: return "i"
        if a[0] == "a": return short(a[1]) + ("(" + ",".join(si(x) for x in a[2:]) + ")" if len(a) > 2 else "")
        if a[0] == "fn": return a[1] + "(" + ",".join(x if isinstance(x, str) else si(x) for x in a[2:]) + ")"
        if a[0] == "ixv": return si(a[1])
        return str(a)[:30]
    def si(x):
        if isinstance(x, int): return str(x)
        if isinstance(x, tuple):
            if not x: return ""
            if x[0] == "d": return "k%s" % x[1]
            if x[0] in ("l", "v", "pv"): return str(x[1])
            if x[0] == "s": return x[1]
            if x[0] == "a": return sa(x)
            if x[0] == "aff": return "%s%s%+d" % ("" if x[1] == 1 else "%d" % x[1], si(x[3]), x[2])
            if x[0] == "ixp" and len(x) > 1: x = x[1]
            if isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][1], float): return pp(dict(x), 4)
        return "?"
    ts = []
    for m, c in sorted(p.items(), key=repr)[:limit]:
        ts.append("%.6g" % c + "".join("*" + sa(a) + ("^%g" % q if q != 1 else "") for a, q in m))
    return " + ".join(ts) + (" + ..." if len(p) > limit else "") if ts else "0"

# ------------------------------------------------------------------ tensors
SMALL = 8
class Tn:
    """a mutable array; definitions applied in order"""
    def __init__(self, name, dims, base, birth=0):
        self.name = name; self.dims = list(dims); self.base = base; self.defs = []; self.birth = birth; self.scatter = []; self.shared = None
    def get(self, idx):
        p = self.base(idx)
        for pat, poly, op in self.defs:
            mp = {}
            ok = True
            for a, b in zip(pat, idx):
                if isinstance(a, tuple) and a[0] == "pv":
                    if a in mp and mp[a] != b: ok = False; break
                    mp[a] = b
                elif a == b: continue
                elif isinstance(a, int) and isinstance(b, int): ok = False; break
                else:
                    und("element (%s) of %s against a definition for (%s)" % (idx, self.name, pat))
            if not ok: continue
            v = psubst(poly, mp)
            p = v if op == "=" else padd(p, v)
        return p
    def replace(self, other_base): self.base = other_base; self.defs = []; self.scatter = []

class TV:
    """tensor value: rank, dims, element function; optionally a place"""
    def __init__(self, rank, dims, get, arr=False, place=None):
        self.rank = rank; self.dims = list(dims); self.get = get; self.arr = arr; self.place = place

class Lst:      # small list of values (initialiser lists, vectors of pointers)
    def __init__(self, items): self.items = items
class Ptr:
    def __init__(self, v): self.v = v
class Obj:      # record with fields
    def __init__(self, cls): self.cls = cls; self.f = {}
class Str:
    def __init__(self, s): self.s = s
class Opaque:
    def __init__(self, what): self.what = what

def ent_apply(entries, idx):
    out = []
    for e in entries:
        if isinstance(e, tuple) and e and e[0] == "free":
            x = idx[e[1]]
            if e[2]:
                if isinstance(x, int): x = x + e[2]
                else: und("offset view at symbolic index")
            out.append(x)
        else: out.append(e)
    return tuple(out)

def view(t, entries, rank, dims, arr=False):
    return TV(rank, dims, lambda idx: t.get(ent_apply(entries, idx)), arr, (t, list(entries)))
def whole(t): return view(t, [("free", k, 0) for k in range(len(t.dims))], len(t.dims), t.dims)

def colv(v):
    if v.rank == 2 and v.dims[1] == 1: return TV(1, v.dims[:1], lambda idx: v.get((idx[0], 0)), v.arr)
    return v
def asmat(v):
    if v.rank == 1: return TV(2, [v.dims[0], 1], lambda idx: v.get((idx[0],)), v.arr)
    return v

def index_of(p):
    """index term from a scalar polynomial"""
    if isinstance(p, int): return p
    c = cval(p)
    if c is not None: return int(c)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1.0 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            return a[1] if a[0] == "ixv" else a
    return ("ixp", freeze(p))

# ------------------------------------------------------------------ evaluation
class Ret(Exception): pass
class Cont(Exception): pass
class Brk(Exception): pass
class Thrown(Exception): pass

DIAG = {"printf", "fprintf", "fflush", "puts", "print", "fputs"}

class Eval:
    max_depth = 8
    def __init__(self, P):
        self.P = P
        self.env = {}           # decl id -> value
        self.this = None        # Obj
        self.frames = []        # enclosing symbolic loops
        self.stack = []
        self.retval = None
        self.steps = 0
        self.events = []
    # ---- client hooks
    def assume(self, n, text): return None
    def call_hook(self, n, name, args, obj): return NotImplemented
    def field_default(self, name, t): und("field %s" % name)
    def opaque_call(self, n): und("call of %s" % (n.get("q") or n.get("n")), n)
    # ---- functions
    def run(self, f, this, args):
        self.call_function(f, this, args)
        return self.retval
    def call_function(self, f, this, args):
        if len(self.stack) > self.max_depth or f in self.stack: und("recursion into %s" % f.q)
        sthis, sret = self.this, self.retval
        saved = {p["d"]: self.env.get(p["d"]) for p in f.params}
        for p, a in zip(f.params, args): self.env[p["d"]] = a
        self.this = this; self.retval = None
        self.stack.append(f)
        try:
            self.exec(f.body)
        except Ret: pass
        finally:
            self.stack.pop(); self.this = sthis
        r = self.retval; self.retval = r
        for d, v in saved.items():
            if v is not None: self.env[d] = v
        return r
    # ---- statements
    def exec(self, n):
        if n is None: return
        self.steps += 1
        if self.steps > 400000: und("too long")
        m = getattr(self, "s_" + n["k"], None)
        if m: return m(n)
        self.ev(n)
    def s_Block(self, n):
        for x in n["c"]: self.exec(x)
    def s_Decl(self, n):
        for x in n["c"]: self.exec(x)
    def s_Null(self, n): pass
    def s_Omp(self, n):
        if n.get("body"): self.exec(n["body"])
    def s_Bind(self, n): und("structured binding", n)
    def s_Var(self, n):
        t = n.get("t") or ""
        i = n.get("i")
        if i is None: self.env[n["d"]] = self.default(t, n); return
        if t.rstrip().endswith("&"):
            v = self.lv(i) if self.is_lvalue(i) else self.ev(i)
            if isinstance(v, tuple) and v[0] == "elem":      # scalar reference
                self.env[n["d"]] = ("ref", v); return
            self.env[n["d"]] = v if not isinstance(v, TV) else self.bindref(v)
            return
        v = self.ev(i)
        self.env[n["d"]] = self.own(v, t, n["n"])
    def is_lvalue(self, n):
        n = strip(n)
        return n.get("k") in ("Ref", "Mem", "Sub") or n.get("k") == "OCall" and n.get("op") in ("()", "[]") or (n.get("k") == "Un" and n.get("op") == "*")
    def bindref(self, v): return v
    def default(self, t, n):
        if "Eigen::" in t or "std::vector" in t: return self.newt(n["n"], self.rank_of(t), [0] * self.rank_of(t))
        if t in ("double", "int", "bool", "long", "size_t", "unsigned long", "long double", "float", "long long", "unsigned int") : return ("scalar", {}, len(self.frames), True)
        return Opaque(t)
    def rank_of(self, t):
        t = t.replace("const ", "").replace("&", "").strip()
        r = 0
        while t.startswith("std::vector<"): r += 1; t = t[len("std::vector<"):]
        if t.startswith("Eigen::"):
            c = t.replace(" ", "")
            if c.startswith("Eigen::Matrix<") and ",-1,1" in c or "VectorX" in c or ",-1,1," in c: return r + 1
            if c.startswith("Eigen::Array<") and ",-1,1" in c: return r + 1
            return r + 2
        if t.startswith("helfem::Vec"): return r + 1
        if t.startswith("helfem::Mat"): return r + 2
        return r
    def newt(self, name, rank, dims):
        return Tn(name, dims, lambda idx: {}, len(self.frames))
    def own(self, v, t, name):
        """value initialising a new variable of type t"""
        if isinstance(v, tuple) and v and v[0] in ("elem", "sfield", "var", "ref"): v = self.rd(v)
        if isinstance(v, dict): return ("scalar", v, len(self.frames), False)
        if isinstance(v, Tn): v = whole(v)
        if isinstance(v, TV):
            r = self.rank_of(t) if ("Eigen::" in t or "helfem::" in t or "std::vector" in t) and not self.lazy_type(t) else v.rank
            T = Tn(name, [], lambda idx: {}, len(self.frames))
            self.store_whole(T, v, r)
            return T
        return v
    def lazy_type(self, t): return any(x in t for x in ("CwiseBinaryOp", "Transpose<", "Block<", "ArrayWrapper", "CwiseUnaryOp", "Product<", "Diagonal"))
    def conform(self, v, r):
        if isinstance(v, Tn): v = whole(v)
        if r == 1 and v.rank == 2:
            if v.dims[1] == 1: return colv(v)
            if v.dims[0] == 1: return TV(1, [v.dims[1]], lambda idx: v.get((0, idx[0])))
            und("matrix used as vector")
        if r == 2 and v.rank == 1: return asmat(v)
        return v
    def store_whole(self, T, v, r=None):
        v = self.conform(v, r if r is not None else (len(T.dims) or v.rank))
        dims = list(v.dims)
        defs = self.template(v)
        T.dims = dims
        T.base = lambda idx: {}
        T.defs = [(pat, poly, "=") for pat, poly in defs]
        T.scatter = []
    def template(self, v, fixed=None):
        """list of (index pattern over view indices, polynomial)"""
        ranges = []
        for k, d in enumerate(v.dims):
            if isinstance(d, int) and d <= SMALL: ranges.append(list(range(d)))
            else: ranges.append([("pv", k)])
        out = []
        for idx in itertools.product(*ranges):
            out.append((idx, v.get(idx)))
        return out
    def s_If(self, n):
        if n.get("init"): self.exec(n["init"])
        if n.get("cv"): self.exec(n["cv"])
        b = self.cond(n["cond"], n)
        if b is None:
            b = self.guess(n)
        if b is None: und("branch on " + show(n["cond"])[:80], n)
        self.exec(n.get("then") if b else n.get("else"))
    def guess(self, n):
        if self.leaves(n.get("then")) and n.get("else") is None: return False
        if self.leaves(n.get("then")): return False
        if n.get("else") is not None and self.leaves(n.get("else")): return True
        return None
    def leaves(self, n):
        """only throws or prints"""
        if n is None: return False
        k = n["k"]
        if k == "Block": return bool(n["c"]) and (all(self.leaves(x) or self.pure_decl(x) for x in n["c"]) or any(self.throws(x) for x in n["c"]))
        if k == "Throw": return True
        if k == "Call" and n.get("n") in DIAG: return True
        if k == "OCall" and n.get("op") == "<<": return True
        if k == "ICast" and n.get("c"): return self.leaves(n["c"][0])
        return self.throws(n)
    def throws(self, n): return n is not None and (n["k"] == "Throw" or (n["k"] == "ICast" and n.get("c") and self.throws(n["c"][0])))
    def pure_decl(self, n): return n["k"] == "Decl"
    def cond(self, n, stmt=None):
        k = n.get("k")
        if k in ("ICast", "Cast") and n.get("c"): return self.cond(n["c"][0])
        if k == "Bool": return bool(int(n["v"]))
        if k == "Int": return bool(int(n["v"]))
        if k == "Un" and n["op"] == "!":
            b = self.cond(n["c"][0]); return None if b is None else not b
        if k == "Bin" and n["op"] in ("&&", "||"):
            a = self.cond(n["c"][0])
            if a is not None and a == (n["op"] == "||"): return a
            b = self.cond(n["c"][1])
            if a is None: return b if b is not None and b == (n["op"] == "||") else None
            return b
        r = self.assume(n, show(n))
        if r is not None: return r
        if k == "Bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
            try:
                a, b = self.sc(n["c"][0]), self.sc(n["c"][1])
            except Undecided: return None
            d = pdiff(a, b)
            c = cval(d)
            if c is not None:
                return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[n["op"]]
            # generic grid point: floating quantities compared with zero are positive
            ty = [strip(x).get("t", "") for x in n["c"]] + [n["c"][0].get("t", "")]
            if any("double" in x for x in ty) or any(strip(x).get("k") == "Flt" for x in n["c"]):
                if cval(b) == 0.0: return {">": True, ">=": True, "!=": True, "<": False, "<=": False, "==": False}[n["op"]]
                if cval(a) == 0.0: return {"<": True, "<=": True, "!=": True, ">": False, ">=": False, "==": False}[n["op"]]
            return None
        try: v = self.ev(n)
        except Undecided: return None
        if isinstance(v, tuple) and v and v[0] in ("elem", "scalar", "sfield", "var", "ref"): v = self.rd(v)
        if isinstance(v, dict):
            c = cval(v)
            return None if c is None else bool(c)
        return None
    def s_Return(self, n):
        if n.get("v") is not None:
            v = self.ev(n["v"])
            if isinstance(v, tuple) and v and v[0] in ("elem", "scalar", "sfield", "var", "ref"): v = self.rd(v)
            if isinstance(v, TV): v = self.own(v, "", "ret")
            self.retval = v
        raise Ret()
    def s_Continue(self, n): raise Cont()
    def s_Break(self, n): und("break", n)
    def s_Throw(self, n): raise Rejected("rejected by the code (line %d)" % n["l"])
    def s_Try(self, n): self.exec(n["body"])
    def s_Switch(self, n): und("switch", n)
    def s_While(self, n): und("while loop", n)
    s_Do = s_While
    def s_ForRange(self, n):
        v = self.ev(n["range"])
        if isinstance(v, Lst):
            for it in v.items:
                self.env[n["var"]["d"]] = it
                try: self.exec(n["body"])
                except Cont: pass
            return
        und("range loop", n)
    def loop_head(self, n):
        """(var decl, lower poly, upper node, strict, step)"""
        ini = n.get("init")
        v = None
        if ini and ini["k"] == "Decl" and len(ini["c"]) >= 1: v = ini["c"][0]; lo = v.get("i"); d = v["d"]
        elif ini and ini["k"] == "Bin" and ini["op"] == "=" and strip(ini["c"][0])["k"] == "Ref": d = strip(ini["c"][0])["d"]; lo = ini["c"][1]
        else: return None
        c = n.get("cond")
        while c and c["k"] in ("ICast", "Cast"): c = c["c"][0]
        if not c or c["k"] != "Bin" or c["op"] not in ("<", "<=", "!=", ">", ">="): return None
        a, b, op = c["c"][0], c["c"][1], c["op"]
        if strip(b).get("k") == "Ref" and strip(b).get("d") == d: a, b = b, a; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op]
        if strip(a).get("k") != "Ref" or strip(a).get("d") != d: return None
        inc = n.get("inc")
        while inc and inc["k"] in ("ICast", "Cast"): inc = inc["c"][0]
        step = None
        if inc and inc["k"] == "Un" and inc["op"] in ("++", "--") and strip(inc["c"][0]).get("d") == d: step = 1 if inc["op"] == "++" else -1
        elif inc and inc["k"] == "Bin" and inc["op"] in ("+=", "-=") and strip(inc["c"][0]).get("d") == d:
            try: step = cval(self.sc(inc["c"][1]))
            except Undecided: step = None
            if step is not None and inc["op"] == "-=": step = -step
        if step is None: return None
        return d, lo, b, op, step
    def s_For(self, n):
        h = self.loop_head(n)
        if h is None: und("loop of unsupported form", n)
        d, lo, up, op, step = h
        plo = self.sc(lo) if lo is not None else const(0)
        try: pup = self.sc(up)
        except Undecided: pup = None
        cl = cval(plo); cu = cval(pup) if pup is not None else None
        if cl is not None and cu is not None and abs(cu - cl) <= 64:
            k = cl
            def go(k): return {"<": k < cu, "<=": k <= cu, "!=": k != cu, ">": k > cu, ">=": k >= cu}[op]
            it = 0
            while go(k):
                self.env[d] = ("scalar", const(k), len(self.frames), False)
                try: self.exec(n["body"])
                except Cont: pass
                v = self.env[d]; k = cval(v[1]) + step; it += 1
                if it > 80: und("loop too long", n)
            return
        if step == -1 and cu is not None and op in (">=", ">"): pass      # downward full sweep
        elif not (step == 1 and cl == 0 and op in ("<", "!=")):
            return self.odd_loop(n, h)
        sym = fresh("l")
        self.loop_sym(n, sym, pup)
        self.env[d] = ("scalar", atom(("ixv", sym)), len(self.frames) + 1, False)
        self.frames.append(sym)
        try:
            self.exec(n["body"])
        except Cont: pass
        finally: self.frames.pop()
    def loop_sym(self, n, sym, up): pass
    def odd_loop(self, n, h): und("loop not over a full range", n)
    # ---- scalars
    def rd(self, v):
        if isinstance(v, tuple):
            if v[0] == "elem": return v[1].get(v[2])
            if v[0] == "ref": return self.rd(v[1])
            if v[0] == "scalar":
                if v[3]: und("uninitialised scalar read")
                return v[1]
            if v[0] == "sfield": return self.rd(v[1].f[v[2]])
            if v[0] == "var": return self.rd(self.env[v[1]])
        return v
    def sc(self, n):
        v = self.ev(n)
        if isinstance(v, tuple): v = self.rd(v)
        if isinstance(v, TV):
            if all(d == 1 for d in v.dims): return v.get((0,) * v.rank)
        if isinstance(v, Tn) and all(d == 1 for d in v.dims): return v.get((0,) * len(v.dims))
        if not isinstance(v, dict): und("scalar expected: " + show(n)[:60], n)
        return v
    # ---- places
    def lv(self, n):
        n = self.unwrap(n)
        k = n["k"]
        if k == "Ref":
            if n.get("vk") not in ("local", "param"): return self.global_ref(n)
            v = self.env.get(n["d"])
            if v is None: und("unknown variable %s" % n["n"], n)
            if isinstance(v, tuple) and v[0] == "scalar": return ("var", n["d"])
            if isinstance(v, tuple) and v[0] == "ref": return v[1]
            return v
        if k == "Mem":
            o = self.obj(n["c"][0])
            if n["n"] not in o.f: o.f[n["n"]] = self.field_default(n["n"], n.get("t") or "")
            v = o.f[n["n"]]
            if isinstance(v, tuple) and v[0] == "scalar": return ("sfield", o, n["n"])
            return v
        if k in ("Sub",) or k == "OCall" and n["op"] in ("[]", "()"):
            ks = n["c"] if k == "Sub" else n["a"]
            return self.element(ks[0], ks[1:], n)
        if k == "Un" and n["op"] == "*":
            v = self.ev(n["c"][0])
            if isinstance(v, Ptr): return v.v
            return v
        if k == "MCall": return self.ev(n)
        if k == "This": return self.this
        und("place " + show(n)[:60], n)
    def unwrap(self, n):
        while n["k"] in ("ICast", "Cast", "DefArg", "DefInit") and n.get("c"): n = n["c"][0]
        return n
    def obj(self, n):
        n0 = self.unwrap(n)
        if n0["k"] == "This": return self.this
        v = self.ev(n0)
        if isinstance(v, Ptr): v = v.v
        if isinstance(v, Obj): return v
        und("member of " + show(n0)[:50], n0)
    def global_ref(self, n): und("global %s" % n["n"], n)
    def element(self, base, idx, n):
        b = self.lv(base) if self.is_lvalue(self.unwrap(base)) else self.ev(base)
        if isinstance(b, Ptr): b = b.v
        if isinstance(b, Lst):
            i = cval(self.sc(idx[0]))
            if i is None: und("list index", n)
            return b.items[int(i)]
        if isinstance(b, Tn): b = whole(b)
        if not isinstance(b, TV): und("indexing " + show(base)[:50], n)
        ix = tuple(index_of(self.sc(x)) for x in idx)
        if b.rank == 2 and len(ix) == 1 and b.dims[1] == 1: ix = ix + (0,)
        if b.rank == 2 and len(ix) == 1 and b.dims[0] == 1: ix = (0,) + ix
        if len(ix) == b.rank:
            if b.place: return ("elem", b.place[0], ent_apply(b.place[1], ix))
            return b.get(ix)
        if len(ix) < b.rank and (n["k"] == "Sub" or n.get("op") == "[]"):
            m = len(ix)
            full = lambda j, ix=ix: ix + tuple(j)
            pl = None
            if b.place: pl = (b.place[0], self.shift_entries(b.place[1], ix))
            return TV(b.rank - m, b.dims[m:], lambda j: b.get(full(j)), b.arr, pl)
        und("index count", n)
    def shift_entries(self, ent, ix):
        out = []
        for e in ent:
            if isinstance(e, tuple) and e and e[0] == "free":
                if e[1] < len(ix):
                    x = ix[e[1]]
                    out.append(x + e[2] if isinstance(x, int) else x)
                else: out.append(("free", e[1] - len(ix), e[2]))
            else: out.append(e)
        return out
    # ---- assignment
    def outer(self, birth, idxs):
        """symbolic loops entered since the target's declaration that do not select the element"""
        return [s for s in self.frames[birth:] if not any(sym_in(x, s) if isinstance(x, tuple) else False for x in idxs)]
    def assign(self, n, place, op, v):
        if isinstance(place, tuple) and place[0] == "ref": place = place[1]
        if isinstance(v, tuple): v = self.rd(v)
        if isinstance(place, tuple) and place[0] in ("var", "sfield"):
            old = self.env[place[1]] if place[0] == "var" else place[1].f[place[2]]
            birth = old[2]
            if isinstance(v, TV) and all(d == 1 for d in v.dims): v = v.get((0,) * v.rank)
            if isinstance(v, Tn) and all(d == 1 for d in v.dims): v = v.get((0,) * len(v.dims))
            if not isinstance(v, dict): und("scalar assigned from non-scalar", n)
            out = self.frames[birth:]
            if op == "=":
                nv = v
                if any(mentions_sym(v, s) for s in out): und("scalar overwritten in a loop", n)
            else:
                if op in ("+=", "-="):
                    for s in out: v = msum(v, s)
                    nv = padd(self.rd(old), v, 1.0 if op == "+=" else -1.0)
                else:
                    if out: und("scalar %s in a loop" % op, n)
                    nv = pmul(self.rd(old), v if op == "*=" else pinv(v))
            new = ("scalar", nv, birth, False)
            if place[0] == "var": self.env[place[1]] = new
            else: place[1].f[place[2]] = new
            return
        if isinstance(place, tuple) and place[0] == "elem":
            T, idx = place[1], place[2]
            if isinstance(v, TV) or isinstance(v, Tn): und("element assigned from tensor", n)
            return self.put(n, T, idx, op, lambda: v)
        if isinstance(place, Tn): place = whole(place)
        if isinstance(place, TV) and place.place:
            T, ent = place.place
            if ent == "opaque":
                self.make_opaque(T); return
            if isinstance(v, Tn): v = whole(v)
            if op != "=" and T.dims and all(isinstance(d, int) and d == 0 for d in T.dims): self.events.append(("empty", n, T.name))
            full = all(isinstance(e, tuple) and e and e[0] == "free" and not e[2] for e in ent) and [e[1] for e in ent] == list(range(len(ent)))
            if full and len(ent) == len(T.dims) and any(isinstance(a, int) and isinstance(b, int) and a > 0 and a != b for a, b in zip(T.dims, place.dims)): full = False
            if op == "=" and isinstance(v, TV) and full and len(ent) == len(T.dims):
                vv = self.conform(v, len(T.dims))
                out = self.frames[T.birth:]
                tmpl = self.template(vv)
                if any(mentions_sym(p, s) for _, p in tmpl for s in out): und("array overwritten in a loop", n)
                self.store_whole(T, vv, len(T.dims)); return
            # view assignment
            if isinstance(v, TV):
                v = self.conform(v, place.rank) if v.rank != place.rank else v
            elif isinstance(v, dict):
                s = v; v = TV(place.rank, place.dims, lambda idx: s)
            else: und("assigned value", n)
            dims = [d if isinstance(d, int) else e for d, e in zip(place.dims, v.dims)]
            ranges = []
            for k, d in enumerate(dims):
                if isinstance(d, int) and d <= SMALL and d > 0: ranges.append(list(range(d)))
                else: ranges.append([("pv", 10 + k)])
            if op == "=" and T.dims and len(ent) == len(T.dims):
                # learn extents of a newly assigned slice
                for e_i, e in enumerate(ent):
                    if isinstance(e, tuple) and e and e[0] == "free" and not T.dims[e_i] : T.dims[e_i] = dims[e[1]]
            vals = []
            for idx in itertools.product(*ranges):
                val = v.get(idx)
                vals.append((idx, val))
            for idx, val in vals:
                bidx = ent_apply(ent, idx)
                if op in ("*=", "/="):
                    old = T.get(bidx)
                    self.put(n, T, bidx, "=", lambda: pmul(old, val if op == "*=" else pinv(val)))
                else: self.put(n, T, bidx, op, lambda: val)
            return
        und("assignment to " + str(type(place)), n)
    def put(self, n, T, idx, op, val):
        v = val()
        if isinstance(v, tuple): v = self.rd(v)
        if not isinstance(v, dict): und("element value", n)
        if op in ("*=", "/="):
            old = T.get(idx)
            v = pmul(old, v if op == "*=" else pinv(v)); op = "="
        if op == "-=": v = pscale(v, -1.0); op = "+="
        out = self.outer(T.birth, idx)
        if op == "+=":
            for s in out: v = msum(v, s)
        elif any(mentions_sym(v, s) for s in out): und("element overwritten in a loop", n)
        # index pattern: every symbolic loop index of this nest becomes a pattern variable
        simple = all(isinstance(x, int) or (isinstance(x, tuple) and (x[0] in ("l", "pv", "s"))) for x in idx)
        if not simple:
            return self.scatter(n, T, idx, op, v)
        mp = {}
        pat = []
        for k, x in enumerate(idx):
            if isinstance(x, tuple) and x[0] in ("l", "pv"):
                if x in mp: und("repeated index", n)      # diagonal writes
                mp[x] = ("pv", k); pat.append(("pv", k))
            else: pat.append(x)
        # avoid clashes between old pv symbols and new ones
        tmp = {x: ("tmp", k) for k, x in enumerate(mp)}
        v = psubst(v, tmp)
        v = psubst(v, {("tmp", k): mp[x] for k, x in enumerate(mp)})
        T.defs.append((tuple(pat), v, "=" if op == "=" else "+"))
    def scatter(self, n, T, idx, op, v):
        if op == "+=":
            T.scatter.append((idx, v, list(self.frames), n)); return
        # assignment through a computed index: the array is opaque from here on
        self.make_opaque(T)
    def accum(self, op, lhs, rhs):
        """x = x + e  is  x += e"""
        if op != "=": return op, rhs
        r = strip(rhs)
        if r.get("k") in ("Bin", "OCall") and r.get("op") in ("+", "-"):
            c = r["c"] if r["k"] == "Bin" else r["a"]
            if len(c) == 2:
                t = show(strip(lhs))
                if show(strip(c[0])) == t: return r["op"] + "=", c[1]
                if r["op"] == "+" and show(strip(c[1])) == t: return "+=", c[0]
        return op, rhs
    def make_opaque(self, T):
        T.opq = True
        name = T.name
        if getattr(T, "cplx", False): T.replace(lambda idx: padd(atom(("a", name + ".re") + tuple(idx)), pmul(atom(I), atom(("a", name + ".im") + tuple(idx)))))
        else: T.replace(lambda idx: atom(("a", name) + tuple(idx)))
    # ---- expressions
    def ev(self, n):
        m = getattr(self, "e_" + n["k"], None)
        if m: return m(n)
        und("expression %s" % n["k"], n)
    def e_Int(self, n): return const(int(n["v"]))
    def e_Bool(self, n): return const(int(n["v"]))
    def e_Flt(self, n): return const(float(n["v"]))
    def e_Str(self, n): return Str(n["v"])
    def e_ICast(self, n):
        return self.ev(n["c"][0]) if n.get("c") else und("cast", n)
    e_Cast = e_DefArg = e_DefInit = e_ICast
    def e_Nullptr(self, n): return Opaque("null")
    def e_Null(self, n): return Opaque("null")
    def e_Ref(self, n):
        if n.get("vk") == "enum" or n.get("ev") is not None: return Opaque(n.get("n"))
        if n.get("vk") in ("local", "param"):
            v = self.env.get(n["d"])
            if v is None: und("unknown variable %s" % n["n"], n)
            return v
        return self.global_ref(n)
    def e_Mem(self, n):
        v = self.lv(n)
        return v
    def e_This(self, n): return Ptr(self.this)
    def e_Sub(self, n): return self.lv(n)
    def e_Un(self, n):
        op = n["op"]
        if op == "&":
            v = self.lv(n["c"][0]); return Ptr(v)
        if op == "*":
            v = self.ev(n["c"][0]); return v.v if isinstance(v, Ptr) else v
        if op == "!":
            b = self.cond(n)
            if b is None: und("condition value", n)
            return const(int(b))
        if op in ("++", "--"):
            p = self.lv(n["c"][0]); old = self.rd(p)
            self.assign(n, p, "+=", const(1 if op == "++" else -1))
            return old if n.get("post") else self.rd(p)
        v = self.ev(n["c"][0])
        if isinstance(v, tuple): v = self.rd(v)
        if op == "-": return self.neg(v)
        if op == "+": return v
        und("operator " + op, n)
    def neg(self, v):
        if isinstance(v, dict): return pscale(v, -1.0)
        if isinstance(v, Tn): v = whole(v)
        return TV(v.rank, v.dims, lambda idx: pscale(v.get(idx), -1.0), v.arr)
    def e_Bin(self, n):
        op = n["op"]; a, b = n["c"]
        if op == ",":
            self.ev(a); return self.ev(b)
        if op == "=" or op in ("+=", "-=", "*=", "/="):
            op, b = self.accum(op, a, b)
            v = self.ev(b)
            if isinstance(v, tuple): v = self.rd(v)
            p = self.lv(a)
            self.assign(n, p, op, v)
            return p if isinstance(p, tuple) else p
        if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
            r = self.cond(n)
            if r is None: und("condition value " + show(n)[:60], n)
            return const(int(r))
        x, y = self.ev(a), self.ev(b)
        if isinstance(x, tuple): x = self.rd(x)
        if isinstance(y, tuple): y = self.rd(y)
        t = n.get("t") or ""
        if op == "/" and t in ("int", "long", "unsigned long", "size_t", "unsigned int"):
            cx, cy = (cval(x) if isinstance(x, dict) else None), (cval(y) if isinstance(y, dict) else None)
            if cx is not None and cy: return const(int(cx / cy))
            return atom(("fn", "idiv", freeze(x), freeze(y)))
        if op == "%":
            cx, cy = cval(x), cval(y)
            if cx is not None and cy: return const(int(cx) % int(cy))
            return atom(("fn", "mod", freeze(x), freeze(y)))
        return self.arith(op, x, y, n)
    def arith(self, op, x, y, n):
        if isinstance(x, Ptr) or isinstance(y, Ptr): und("pointer arithmetic", n)
        if isinstance(x, dict) and isinstance(y, dict):
            if op == "+": return padd(x, y)
            if op == "-": return padd(x, y, -1.0)
            if op == "*": return pmul(x, y)
            if op == "/": return pmul(x, pinv(y))
            und("operator " + op, n)
        if isinstance(x, Tn): x = whole(x)
        if isinstance(y, Tn): y = whole(y)
        if isinstance(x, dict) and isinstance(y, TV):
            if op == "*": return TV(y.rank, y.dims, lambda i: pmul(x, y.get(i)), y.arr)
            if op == "+" and y.arr: return TV(y.rank, y.dims, lambda i: padd(x, y.get(i)), True)
            if op == "-" and y.arr: return TV(y.rank, y.dims, lambda i: padd(x, y.get(i), -1.0), True)
            if op == "/" and y.arr: return TV(y.rank, y.dims, lambda i: pmul(x, pinv(y.get(i))), True)
        if isinstance(x, TV) and isinstance(y, dict):
            if op == "*": return TV(x.rank, x.dims, lambda i: pmul(x.get(i), y), x.arr)
            if op == "/":
                iy = pinv(y); return TV(x.rank, x.dims, lambda i: pmul(x.get(i), iy), x.arr)
            if op in "+-" and x.arr: return TV(x.rank, x.dims, lambda i: padd(x.get(i), y, 1.0 if op == "+" else -1.0), True)
        if isinstance(x, TV) and isinstance(y, TV):
            if op in ("+", "-"):
                if x.rank != y.rank: x, y = colv(x), colv(y)
                if x.rank != y.rank: und("shape mismatch", n)
                dims = [a if isinstance(a, int) else b for a, b in zip(x.dims, y.dims)]
                return TV(x.rank, dims, lambda i: padd(x.get(i), y.get(i), 1.0 if op == "+" else -1.0), x.arr)
            if x.arr or y.arr:
                if x.rank != y.rank: x, y = colv(x), colv(y)
                if x.rank != y.rank: und("shape mismatch", n)
                dims = [a if isinstance(a, int) else b for a, b in zip(x.dims, y.dims)]
                if op == "*": return TV(x.rank, dims, lambda i: pmul(x.get(i), y.get(i)), True)
                if op == "/": return TV(x.rank, dims, lambda i: pmul(x.get(i), pinv(y.get(i))), True)
            if op == "*": return self.matmul(x, y, n)
        und("operator %s on these operands" % op, n)
    def contract(self, dim, f):
        if isinstance(dim, int) and 0 < dim <= SMALL:
            r = {}
            for k in range(dim): r = padd(r, f(k))
            return r
        if dim == 0: und("empty contraction")
        s = fresh("l")
        return msum(f(s), s)
    def matmul(self, x, y, n):
        if getattr(x, "diag", None) is not None or getattr(y, "diag", None) is not None:
            if getattr(x, "diag", None) is not None:
                d = x.diag
                if y.rank == 1: return TV(1, y.dims, lambda i: pmul(d.get((i[0],)), y.get(i)))
                return TV(2, y.dims, lambda i: pmul(d.get((i[0],)), y.get(i)))
            d = y.diag
            return TV(2, asmat(x).dims, lambda i: pmul(asmat(x).get(i), d.get((i[1],))))
        r1 = y.rank == 1
        X = asmat(x); Y = asmat(y)
        kd = X.dims[1] if isinstance(X.dims[1], int) else Y.dims[0]
        g = lambda i, j: self.contract(kd, lambda k: pmul(X.get((i, k)), Y.get((k, j))))
        if r1: return TV(1, [X.dims[0]], lambda i: g(i[0], 0))
        r = TV(2, [X.dims[0], Y.dims[1]], lambda i: g(i[0], i[1]))
        return r
    def e_Cond(self, n):
        b = self.cond(n["c"][0])
        if b is None:
            b = self.assume_cond(n)
        if b is None: und("conditional value " + show(n)[:60], n)
        return self.ev(n["c"][1 if b else 2])
    def assume_cond(self, n): return None
    def e_IList(self, n): return Lst([self.ev(x) for x in n["c"]])
    def e_ZeroInit(self, n): return const(0)
    def e_Lambda(self, n): return ("lambda", n)
    def e_OCall(self, n):
        op = n["op"]; a = n["a"]
        if op in ("=", "+=", "-=", "*=", "/=") :
            op, rhs = self.accum(op, a[0], a[1])
            v = self.ev(rhs)
            if isinstance(v, tuple) and v[0] != "lambda": v = self.rd(v)
            p = self.lv(a[0])
            if isinstance(p, tuple) and p[0] == "elem" and isinstance(v, (TV, Tn)): und("element from tensor", n)
            if op == "=" and isinstance(v, (Lst, Opaque, Obj)) and not isinstance(p, (TV,)):
                return self.assign_misc(n, a[0], v)
            self.assign(n, p, op, v)
            return p
        if op in ("()", "[]"):
            if op == "()":
                f = self.unwrap(a[0])
                fv = self.env.get(f.get("d")) if f.get("k") == "Ref" else None
                if isinstance(fv, tuple) and fv and fv[0] == "lambda": return self.call_lambda(fv[1], [x for x in a[1:]], n)
            return self.element(a[0], a[1:], n)
        if op in ("->", "*") and len(a) == 1:
            v = self.ev(a[0]); return v if isinstance(v, Ptr) and op == "->" else (v.v if isinstance(v, Ptr) else v)
        if op == "<<": return Opaque("stream")
        if op in ("+", "-", "*", "/"):
            if len(a) == 1:
                v = self.ev(a[0]); v = self.rd(v) if isinstance(v, tuple) else v
                return self.neg(v) if op == "-" else v
            x, y = self.ev(a[0]), self.ev(a[1])
            x = self.rd(x) if isinstance(x, tuple) else x
            y = self.rd(y) if isinstance(y, tuple) else y
            if isinstance(x, (Str, Opaque)) or isinstance(y, (Str, Opaque)): return Opaque("string")
            return self.arith(op, x, y, n)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            r = self.cond(n); return const(int(r)) if r is not None else und("comparison", n)
        und("operator " + op, n)
    def assign_misc(self, n, lhs, v):
        l = self.unwrap(lhs)
        if l["k"] == "Ref": self.env[l["d"]] = v
        elif l["k"] == "Mem": self.obj(l["c"][0]).f[l["n"]] = v
        else: und("assignment", n)
        return v
    def call_lambda(self, lam, argn, n):
        args = []
        for p, a in zip(lam.get("p") or [], argn): args.append(self.arg(p, a))
        if len(self.stack) > self.max_depth: und("depth")
        for p, a in zip(lam.get("p") or [], args): self.env[p["d"]] = a
        sret = self.retval; self.retval = None
        try: self.exec(lam["body"])
        except Ret: pass
        r = self.retval; self.retval = sret
        return r if r is not None else const(0)
    def arg(self, p, a):
        t = (p.get("t") or "").rstrip()
        if t.endswith("&"):
            if self.is_lvalue(self.unwrap(a)):
                v = self.lv(a)
                if isinstance(v, tuple) and v[0] in ("var", "sfield", "elem"):
                    if "const" in t: return ("scalar", self.rd(v), len(self.frames), False)
                    return ("ref", v)
                return v
            v = self.ev(a)
            if isinstance(v, tuple): v = self.rd(v)
            if isinstance(v, dict): return ("scalar", v, len(self.frames), False)
            if isinstance(v, TV): return self.own(v, t, p["n"])
            return v
        v = self.ev(a)
        return self.own(v, t, p["n"])
    def e_Ctor(self, n):
        a = n["a"]
        if n.get("cp") and len(a) == 1: return self.ev(a[0])
        t = n.get("t") or n.get("clst") or n.get("q") or ""
        q = n.get("q") or ""
        r = self.call_hook(n, q, None, None)
        if r is not NotImplemented: return r
        if q.startswith("Eigen::Matrix") or q.startswith("Eigen::Array") or q.startswith("Eigen::PlainObjectBase"):
            rk = self.rank_of(n.get("t") or "")
            if len(a) == 0: return self.newt("tmp", rk, [0] * rk)
            vs = [self.ev(x) for x in a]
            vs = [self.rd(v) if isinstance(v, tuple) else v for v in vs]
            if len(vs) == 1 and isinstance(vs[0], (TV, Tn)):
                T = Tn("tmp", [], None, len(self.frames)); self.store_whole(T, vs[0], rk); return T
            if all(isinstance(v, dict) for v in vs):
                return Tn("tmp", [self.dim(v) for v in vs][:rk], lambda idx: {}, len(self.frames))
            und("constructor", n)
        if q.startswith("std::vector"):
            rk = self.rank_of(n.get("t") or "")
            if len(a) == 0: return self.newt("tmp", rk, [0] * max(rk, 1))
            vs = [self.ev(x) for x in a if x.get("k") != "DefArg"]
            vs = [self.rd(v) if isinstance(v, tuple) else v for v in vs]
            if len(vs) == 1 and isinstance(vs[0], Lst): return vs[0]
            if len(vs) == 1 and isinstance(vs[0], (TV, Tn)): return self.own(vs[0], n.get("t") or "", "tmp")
            if vs and isinstance(vs[0], dict):
                T = Tn("tmp", [self.dim(vs[0])] + [None] * (max(rk, 1) - 1), lambda idx: {}, len(self.frames))
                if len(vs) == 2 and isinstance(vs[1], (TV, Tn)): self.fill(T, vs[1])
                elif len(vs) == 2 and isinstance(vs[1], dict): c = vs[1]; T.base = lambda idx: c
                return T
            und("vector constructor", n)
        if q.startswith("std::complex"):
            vs = [self.sc(x) for x in a]
            if len(vs) == 0: return {}
            return vs[0] if len(vs) == 1 else padd(vs[0], pmul(atom(I), vs[1]))
        if len(a) == 1: return self.ev(a[0])
        if q.startswith("std::") or not a: return Opaque(q)
        und("constructor %s" % q, n)
    def fill(self, T, v):
        if isinstance(v, Tn): v = whole(v)
        tm = self.template(v)
        for idx, p in tm:
            T.defs.append(((("pv", 100),) + idx, p, "="))
        T.dims = [T.dims[0]] + list(v.dims)
    def dim(self, p):
        c = cval(p)
        return int(c) if c is not None else None
    def e_New(self, n): und("new", n)
    def e_Call(self, n):
        q = n.get("q") or ""; nm = n.get("n") or ""
        r = self.call_hook(n, q, None, None)
        if r is not NotImplemented: return r
        if nm in DIAG: return const(0)
        a = n["a"]
        base = q.split("::")[-1]
        if base in ("pow",):
            x = self.sc(a[0]); k = cval(self.sc(a[1]))
            if k is not None and float(k).is_integer(): return ppow(x, int(k))
            return atom(("fn", "pow", freeze(x), freeze(self.sc(a[1]))))
        if base in ("max", "min") and len(a) == 2:
            x, y = self.sc(a[0]), self.sc(a[1])
            if cval(y) == 0.0 and base == "max": return x
            if cval(x) == 0.0 and base == "max": return y
            if cval(x) is not None and cval(y) is not None: return const(max(cval(x), cval(y)) if base == "max" else min(cval(x), cval(y)))
            return atom(("fn", base) + tuple(sorted((freeze(x), freeze(y)), key=repr)))
        if base == "real" and len(a) == 1: return real(self.sc(a[0]))
        if base == "imag" and len(a) == 1: return imag(self.sc(a[0]))
        if base == "conj" and len(a) == 1: return conj(self.sc(a[0]))
        if base in ("move", "forward"): return self.ev(a[0])
        if base in ("Zero", "Ones", "Constant", "Identity") and q.startswith("Eigen::"):
            vs = [self.sc(x) for x in a]
            rk = self.rank_of(self.eigen_result(n))
            if base == "Constant":
                c = vs[-1]; ds = vs[:-1]
            else: c = const(1) if base == "Ones" else {}; ds = vs
            if base == "Identity": return TV(2, [self.dim(v) for v in ds], lambda idx: atom(("a", "delta") + tuple(idx)))
            return TV(len(ds), [self.dim(v) for v in ds], lambda idx: c)
        if not n.get("inproj") and base in ("sqrt", "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "fabs", "abs", "erf", "erfc", "acosh", "atan", "tgamma", "lgamma", "cbrt", "floor", "ceil"):
            x = self.sc(a[0])
            c = cval(x)
            return atom(("fn", "abs" if base == "fabs" else base, freeze(x)))
        if base in ("isnan", "isinf", "isfinite"): und("isnan", n)
        tg = self.P.targets(n, self.stack[-1] if self.stack else None)
        if len(tg) == 1 and n.get("inproj"):
            args = [self.arg(p, x) for p, x in zip(tg[0].params, a)]
            fr = self.call_function(tg[0], None, args)
            return fr if fr is not None else const(0)
        return self.opaque_call(n)
    def eigen_result(self, n): return n.get("rt") or n.get("t") or ""
    def e_MCall(self, n):
        q = n.get("q") or ""; nm = n.get("n") or ""
        r = self.call_hook(n, q, None, n.get("o"))
        if r is not NotImplemented: return r
        o = n["o"]
        if n.get("inproj") and not q.startswith("Eigen"):
            ob = self.obj(o)
            tg = [t for t in self.P.targets(n, self.stack[-1] if self.stack else None)]
            if len(tg) == 1 and isinstance(ob, Obj):
                args = [self.arg(p, x) for p, x in zip(tg[0].params, n["a"])]
                fr = self.call_function(tg[0], ob, args)
                return fr if fr is not None else const(0)
            return self.opaque_call(n)
        v = self.lv(o) if self.is_lvalue(self.unwrap(o)) else self.ev(o)
        if isinstance(v, Ptr): v = v.v
        if isinstance(v, tuple) and v[0] in ("elem", "var", "sfield", "ref", "scalar"): 
            return self.scalar_method(n, nm, v)
        if isinstance(v, Lst):
            if nm == "size": return const(len(v.items))
            if nm == "empty": return const(int(not v.items))
            if nm in ("push_back", "emplace_back"): v.items.append(self.ev(n["a"][0])); return const(0)
            if nm in ("begin", "end"): return Opaque("iter")
            und("list method " + nm, n)
        if isinstance(v, (Opaque, Str)): return Opaque(nm)
        return self.method(n, nm, v)
    def scalar_method(self, n, nm, v):
        if nm in ("real",): return real(self.rd(v))
        if nm in ("imag",): return imag(self.rd(v))
        und("method %s of a scalar" % nm, n)
    def method(self, n, nm, v):
        T = v if isinstance(v, Tn) else None
        if isinstance(v, Tn): v = whole(v)
        a = n["a"]
        S = lambda k: self.sc(a[k])
        pl = v.place
        if pl and pl[1] == "opaque" and nm not in ("noalias", "array", "matrix"): und("computed block", n)
        def remap(newent_fn, rank, dims, get, arr=None):
            p = None
            if pl: p = (pl[0], newent_fn(pl[1]))
            return TV(rank, dims, get, v.arr if arr is None else arr, p)
        if nm in ("noalias", "eval", "derived", "const_cast_derived"): return TV(v.rank, v.dims, v.get, v.arr, pl)
        if nm == "array": return TV(v.rank, v.dims, v.get, True, pl)
        if nm == "matrix": return TV(v.rank, v.dims, v.get, False, pl)
        if nm in ("transpose", "adjoint"):
            cj = (lambda p: conj(p)) if nm == "adjoint" else (lambda p: p)
            if v.rank == 1: return TV(2, [1, v.dims[0]], lambda i: cj(v.get((i[1],))), v.arr)
            sw = lambda ent: [("free", 1 - e[1], e[2]) if isinstance(e, tuple) and e and e[0] == "free" else e for e in ent]
            r = remap(sw, 2, [v.dims[1], v.dims[0]], lambda i: cj(v.get((i[1], i[0]))))
            return r
        if nm in ("real", "imag", "conjugate", "conj"):
            f = {"real": real, "imag": imag}.get(nm, conj)
            return TV(v.rank, v.dims, lambda i: f(v.get(i)), v.arr)
        if nm == "col":
            v = asmat(v); j = index_of(S(0)); pl2 = v.place
            p = (pl2[0], [j if e == ("free", 1, 0) else e for e in pl2[1]]) if pl2 and ("free", 1, 0) in pl2[1] else None
            if p is None and pl and v is not None and len(pl[1]) and v.rank == 2 and pl2 is None: p = None
            return TV(1, [v.dims[0]], lambda i: v.get((i[0], j)), v.arr, p)
        if nm == "row":
            v = asmat(v); i0 = index_of(S(0)); pl2 = v.place
            p = None
            if pl2 and ("free", 0, 0) in pl2[1]:
                p = (pl2[0], [i0 if e == ("free", 0, 0) else (("free", 1, 0) if e == ("free", 1, 0) else e) for e in pl2[1]])
            # a row is a 1 x N matrix; its place is addressed through the second view index
            return TV(2, [1, v.dims[1]], lambda i: v.get((i0, i[1])), v.arr, p)
        if nm in ("topRows", "bottomRows", "leftCols", "rightCols", "head", "tail", "middleRows", "middleCols", "segment"):
            dim = 0 if "Row" in nm or v.rank == 1 else 1
            if nm in ("middleRows", "middleCols", "segment"): off = cval(S(0)); k = cval(S(1)) if len(a) > 1 else None
            else: k = cval(S(0)); off = 0
            if k is None or off is None: return self.block_view(n, nm, v)
            if nm in ("bottomRows", "rightCols", "tail"):
                if not isinstance(v.dims[dim], int): return self.block_view(n, nm, v)
                off = v.dims[dim] - k
            off = int(off); k = int(k)
            if isinstance(v.dims[dim], int) and off + k > v.dims[dim]: und("block outside of matrix", n)
            sh = lambda ent: [("free", e[1], e[2] + off) if isinstance(e, tuple) and e and e[0] == "free" and e[1] == dim else e for e in ent]
            def g(i):
                i = list(i)
                if isinstance(i[dim], int): i[dim] += off
                elif off: und("offset block at symbolic index", n)
                return v.get(tuple(i))
            d2 = list(v.dims); d2[dim] = k
            return remap(sh, v.rank, d2, g)
        if nm in ("block", "topLeftCorner", "bottomRightCorner"): return self.block_view(n, nm, v)
        if nm == "dot":
            w = self.ev(a[0]); w = whole(w) if isinstance(w, Tn) else w
            v1, w1 = self.conform(v, 1), self.conform(w, 1)
            d = v1.dims[0] if isinstance(v1.dims[0], int) else w1.dims[0]
            return self.contract(d, lambda k: pmul(conj(v1.get((k,))), w1.get((k,))))
        if nm in ("cwiseProduct", "cwiseQuotient"):
            w = self.ev(a[0]); w = whole(w) if isinstance(w, Tn) else w
            x = TV(v.rank, v.dims, v.get, True); y = TV(w.rank, w.dims, w.get, True)
            r = self.arith("*" if nm == "cwiseProduct" else "/", x, y, n); r.arr = False; return r
        if nm == "sum":
            if getattr(v, "wise", None) == "col": return TV(2, [1, v.dims[1]], lambda i: self.contract(v.dims[0], lambda k: v.get((k, i[1]))), v.arr)
            if getattr(v, "wise", None) == "row": return TV(1, [v.dims[0]], lambda i: self.contract(v.dims[1], lambda k: v.get((i[0], k))), v.arr)
            if v.rank == 1: return self.contract(v.dims[0], lambda k: v.get((k,)))
            return self.contract(v.dims[0], lambda k: self.contract(v.dims[1], lambda j: v.get((k, j))))
        if nm == "trace":
            return self.contract(v.dims[0], lambda k: v.get((k, k)))
        if nm in ("colwise", "rowwise"):
            w = asmat(v); w = TV(2, w.dims, w.get, w.arr); w.wise = nm[:3]; return w
        if nm in ("square", "cube", "inverse", "abs2"):
            if nm == "inverse" and not v.arr: und("matrix inverse", n)
            f = {"square": lambda p: pmul(p, p), "cube": lambda p: ppow(p, 3), "inverse": pinv, "abs2": lambda p: pmul(p, conj(p))}[nm]
            return TV(v.rank, v.dims, lambda i: f(v.get(i)), v.arr)
        if nm in ("sqrt", "exp", "log", "sinh", "cosh", "abs", "sin", "cos", "tanh", "erf", "erfc"):
            return TV(v.rank, v.dims, lambda i: atom(("fn", nm, freeze(v.get(i)))), v.arr)
        if nm == "pow" and v.arr:
            k = cval(S(0))
            if k is not None and float(k).is_integer(): return TV(v.rank, v.dims, lambda i: ppow(v.get(i), int(k)), True)
            und("pow", n)
        if nm == "asDiagonal":
            w = self.conform(v, 1); r = TV(2, [w.dims[0], w.dims[0]], lambda i: pmul(atom(("a", "delta") + tuple(i)), w.get((i[0],)))); r.diag = w; return r
        if nm == "diagonal": return TV(1, [v.dims[0]], lambda i: v.get((i[0], i[0])))
        if nm in ("size", "rows", "cols", "n_rows", "n_cols", "length"):
            if nm == "cols" and v.rank == 1: return const(1)
            ds = v.dims if nm in ("size", "length") else ([v.dims[0]] if nm in ("rows",) else [v.dims[1]])
            if nm in ("size", "length") and (T is not None or True) and v.rank >= 1 and "std::vector" in (n.get("q") or ""): ds = v.dims[:1]
            if all(isinstance(d, int) for d in ds):
                r = 1
                for d in ds: r *= d
                return const(r)
            nmx = (pl[0].name if pl else "?")
            return atom(("fn", "dim", nmx, nm))
        if nm == "empty":
            if isinstance(v.dims[0], int): return const(int(v.dims[0] == 0))
            und("empty()", n)
        if nm in ("setZero", "fill", "setConstant", "setOnes"):
            if nm == "setZero" and a:
                ds = [self.dim(S(k)) for k in range(len(a))]
                if T is None: und("setZero", n)
                self.check_frames(T, n)
                T.dims = ds; T.replace(lambda idx: {}); return const(0)
            c = {} if nm == "setZero" else const(1) if nm == "setOnes" else S(0)
            self.assign(n, v, "=", TV(v.rank, v.dims, lambda i: c)); return const(0)
        if nm in ("resize", "conservativeResize"):
            if T is None and pl and not any(isinstance(e, tuple) and e and e[0] == "free" for e in pl[1][:0]): T = pl[0] if len(pl[1]) == v.rank else None
            if T is None: und("resize", n)
            ds = [self.dim(S(k)) for k in range(len(a))]
            self.check_frames(T, n)
            nm_ = T.name
            if "std::vector" in (n.get("q") or ""): ds = ds[:1] + list(T.dims[1:])
            T.dims = ds; T.replace(lambda idx: atom(("a", "uninit:" + nm_) + tuple(idx)) if nm == "resize" else {}); return const(0)
        if nm == "assign" and len(a) == 2:
            if T is None: und("assign", n)
            self.check_frames(T, n)
            d0 = self.dim(S(0)); w = self.ev(a[1])
            T.replace(lambda idx: {})
            if isinstance(w, (TV, Tn)):
                T.dims = [d0]; self.fill(T, w)
                if isinstance(w, Tn) and all(d == 0 for d in w.dims): T.dims = [d0] + [None] * len(w.dims)
            else: T.dims = [d0]
            return const(0)
        if nm in ("allFinite", "hasNaN"): und("finiteness test", n)
        if nm == "data": return Ptr(T if T is not None else v)
        if nm == "norm": return atom(("fn", "norm", freeze(v.get(tuple(("pv", 50 + k) for k in range(v.rank))))))
        if nm in ("maxCoeff", "minCoeff", "cwiseAbs", "lpNorm"): und(nm, n)
        if nm in ("begin", "end", "cbegin", "cend"): return Opaque("iter")
        if nm == "value" and v.rank: return v
        if nm == "operator()": und("op()", n)
        und("method " + nm, n)
    def check_frames(self, T, n):
        pass
    def block_view(self, n, nm, v):
        """a block at a computed position: may only be written, which makes the array opaque"""
        if not v.place: und("block", n)
        return TV(v.rank, [None] * v.rank, lambda i: und("reading a computed block", n), v.arr, (v.place[0], "opaque"))
