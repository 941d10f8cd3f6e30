"""Interprocedural effect inference (which memory may a piece of code touch,
at which index) and the OpenMP conflict analysis built on it.

Abstract domain
  place   = (root, path)      root: ('P',i) parameter object, ('T',) *this,
                              ('G',q) global, ('S',d,n) static local,
                              ('L',d) local, ('D',root,field,const) pointee
                              path: ('f',name) | ('i',(IX,..)) |
                                    ('b',((IX,IX),..)) | ('h',)
  IX      = polynomial over region-invariant atoms and loop variables, or
            opaque with a dependency set.
Effects of project callees are summarised once per function and substituted
at each call site; no path is executed.
"""
import itertools
from program import walk, kids, strip, show

# ------------------------------------------------------------------ IX
class IX:
    __slots__ = ("poly", "deps")
    def __init__(self, poly, deps=frozenset()):
        self.poly = poly          # dict monomial -> int, or None (opaque)
        self.deps = deps
    def key(self):
        if self.poly is None:
            return ("?",)
        return tuple(sorted(self.poly.items(), key=repr))
    def __repr__(self):
        if self.poly is None:
            return "?{%s}" % ",".join(sorted(map(str, self.deps)))
        if not self.poly: return "0"
        return "+".join(("%d*" % c if c != 1 or not m else "") + "*".join(_an(a) for a in m) if m else str(c)
                        for m, c in sorted(self.poly.items(), key=repr))

def _an(a):
    if a[0] == "v": return str(a[2]) if len(a) > 2 else "v%d" % a[1]
    if a[0] == "p": return "arg%d" % a[1]
    return "<" + "/".join(str(x) for x in a if isinstance(x, str)) + ">"

def const(n): return IX({(): n} if n else {})
def opaque(deps): return IX(None, frozenset(deps))
def atom(a, deps): return IX({(a,): 1}, frozenset(deps))
def _clean(p): return {m: c for m, c in p.items() if c}
def add(a, b, s=1):
    d = a.deps | b.deps
    if a.poly is None or b.poly is None: return IX(None, d)
    p = dict(a.poly)
    for m, c in b.poly.items(): p[m] = p.get(m, 0) + s * c
    return IX(_clean(p), d)
def mul(a, b):
    d = a.deps | b.deps
    if a.poly is None or b.poly is None: return IX(None, d)
    p = {}
    for m, c in a.poly.items():
        for n, e in b.poly.items():
            k = tuple(sorted(m + n, key=repr)); p[k] = p.get(k, 0) + c * e
    if len(p) > 40: return IX(None, d)
    return IX(_clean(p), d)

VIEW = {"block", "col", "row", "segment", "head", "tail", "array", "matrix", "noalias", "diagonal", "transpose",
        "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols", "topLeftCorner",
        "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "coeffRef", "coeff", "data", "begin", "end",
        "rbegin", "rend", "cbegin", "cend", "front", "back", "at", "reshaped", "real", "imag", "triangularView",
        "selfadjointView", "get", "derived", "colwise", "rowwise", "value", "adjoint", "conjugate", "eval", "c_str"}
VIEWTY = ("Eigen::Block<", "Eigen::Ref<", "Eigen::Map<", "Eigen::Transpose<", "Eigen::Diagonal<", "CwiseUnaryView",
          "ArrayWrapper<", "MatrixWrapper<", "VectorBlock<", "NoAlias<", "__normal_iterator", "_iterator<",
          "reference_wrapper", "Eigen::TriangularView<", "std::span<")
HEADER = {"size", "rows", "cols", "empty", "capacity", "length", "outerStride", "innerStride", "max_size"}
PASS1 = {"move", "forward", "as_const", "addressof", "ref", "cref", "to_address", "begin", "end", "get"}
STREAMS = ("std::cout", "std::cerr", "std::clog", "stdout", "stderr", "std::endl")
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
PURE_READ = {"printf", "fprintf", "snprintf", "sprintf", "fputs", "puts", "fflush"}

def is_view_type(t):
    if not t: return False
    t = t.strip()
    return t.endswith("*") or t.endswith("* const") or t.endswith("&") or any(v in t for v in VIEWTY)
def is_int_type(t):
    t = (t or "").replace("const ", "").strip()
    return t in ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "long long",
                 "unsigned long long", "char", "signed char", "unsigned char", "bool", "size_t")
def is_atomic(t): return t is not None and ("std::atomic" in t or "std::mutex" in t or "once_flag" in t)

class Effect:
    __slots__ = ("root", "path", "mode", "locks", "loc", "chain", "memo", "ty", "ws", "phase", "ext")
    def __init__(self, root, path, mode, locks, loc, chain=(), memo=None, ty=None):
        self.root, self.path, self.mode, self.locks, self.loc = root, path, mode, locks, loc
        self.chain, self.memo, self.ty = chain, memo, ty
        self.ws = None; self.phase = 0; self.ext = None
    def key(self):
        return (self.root, path_key(self.path), self.mode, self.locks, self.memo is not None)

def path_key(path):
    out = []
    for s in path:
        if s[0] == "f": out.append(s)
        elif s[0] == "h": out.append(s)
        elif s[0] == "i": out.append(("i", tuple(x.key() + tuple(sorted(map(str, x.deps))) for x in s[1])))
        else: out.append(("b", tuple((a.key() + tuple(sorted(map(str, a.deps))), b.key() if b else None) for a, b in s[1])))
    return tuple(out)

def path_str(root, path, names=None):
    s = {"P": "arg%s", "T": "*this", "G": "%s", "S": "%s", "L": "%s", "D": "%s", "C": "%s"}[root[0]]
    if root[0] == "P": s = "arg%d" % root[1]
    elif root[0] == "G": s = root[1]
    elif root[0] == "S": s = "static " + root[2]
    elif root[0] == "L": s = (names or {}).get(root[1], "local%d" % root[1])
    elif root[0] == "D": s = "*" + path_str(root[1], (), names) + "." + root[2]
    for st in path:
        if st[0] == "f": s += "." + st[1]
        elif st[0] == "i": s += "[" + ",".join(map(repr, st[1])) + "]"
        elif st[0] == "b": s += ".block(" + ",".join("%r+%r" % (a, b) for a, b in st[1]) + ")"
        elif st[0] == "h": s += ".size"
    return s

class Summary:
    __slots__ = ("effects", "ret", "pcalls", "parcalls", "retix", "retexpr")
    def __init__(self):
        self.effects = []; self.ret = []; self.pcalls = set(); self.parcalls = set(); self.retexpr = None

class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.summ = {}
        self.active = set()
        self.infos = {}
        self.lambdas = {}       # lambda f -> (Func, Lambda node)
        for f in prog.funcs.values():
            for n in f.walk():
                if n.get("k") == "Lambda" and n.get("f"):
                    self.lambdas[n["f"]] = (f, n)
        self.elem = self._reach_elem()
        self._reach_cache = {}
    # functions from which the element index-range primitive is reachable
    def _reach_elem(self):
        callers = {}
        seeds = set()
        for f in self.prog.funcs.values():
            if f.name in ("get_idx", "basis_indices") and f.file.startswith("libhelfem/"):
                seeds.add(f.id)
            for n in f.walk():
                if n.get("f"):
                    for t in self.prog.targets(n, f):
                        callers.setdefault(t.id, set()).add(f.id)
        out, st = set(seeds), list(seeds)
        while st:
            x = st.pop()
            for c in callers.get(x, ()):
                if c not in out:
                    out.add(c); st.append(c)
        self.callers = callers
        return out
    def reaches(self, src_call_targets, dst):
        """Is function id dst reachable from any of the target functions?"""
        if dst not in self._reach_cache:
            out, st = {dst}, [dst]
            while st:
                x = st.pop()
                for c in self.callers.get(x, ()):
                    if c not in out:
                        out.add(c); st.append(c)
            self._reach_cache[dst] = out
        return any(t.id in self._reach_cache[dst] for t in src_call_targets)
    def info(self, f):
        if f.id not in self.infos:
            self.infos[f.id] = FuncInfo(self, f)
        return self.infos[f.id]
    def summary(self, f):
        s = self.summ.get(f.id)
        if s is not None: return s
        if f.id in self.active: return Summary()
        self.active.add(f.id)
        try:
            w = Walker(self, f)
            for i in f.inits:
                w.init(i)
            w.st(f.body)
            s = Summary()
            seen = set()
            for e in w.effects:
                if e.root[0] in ("L", "TL"): continue
                if e.root[0] == "D" and rootbase(e.root)[0] == "L" and not e.root[3]: continue
                if f.kind == "ctor" and e.root == ("T",): continue
                k = e.key()
                if k in seen: continue
                seen.add(k); s.effects.append(e)
            s.ret = w.rets
            s.pcalls = w.pcalls
            s.parcalls = w.parcalls
            s.retexpr = w.single_return
            self.summ[f.id] = s
        finally:
            self.active.discard(f.id)
        return s

def rootbase(r):
    while r[0] == "D": r = r[1]
    return r

class FuncInfo:
    """Flow-insensitive facts about a function's locals."""
    def __init__(self, eng, f):
        self.eng, self.f = eng, f
        self.pidx = {p["d"]: i for i, p in enumerate(f.params)}
        self.names = {p["d"]: p.get("n") or "arg%d" % i for i, p in enumerate(f.params)}
        self.vars = {}         # decl -> Var node
        self.defs = {}         # decl -> list of rhs nodes (incl. init)
        self.mod = set()       # decls modified other than by their init
        self.loops = {}        # loop var decl -> (lo, hi, step, incl)
        self.lampar = set()
        self.outs = []         # (decl, [other arg nodes], call)
        self.lamargs = []      # (parameter of a local lambda, argument at a call of it)
        for n in f.walk():
            k = n.get("k")
            if k == "Var":
                self.vars[n["d"]] = n; self.names[n["d"]] = n.get("n")
                if n.get("i"): self.defs.setdefault(n["d"], []).append(n["i"])
            elif k == "Bind":
                self.vars[n["d"]] = n; self.names[n["d"]] = n.get("n")
            elif k == "Lambda":
                for p in n.get("p", []):
                    self.lampar.add(p["d"]); self.names[p["d"]] = p.get("n"); self.vars[p["d"]] = p
            elif k == "Bin" and n["op"] in ASSIGN:
                d = self.refd(n["c"][0])
                if d is not None: self.mod.add(d); self.defs.setdefault(d, []).append(n["c"][1])
            elif k == "OCall" and n["op"] in ASSIGN | {"<<", "++", "--"} and n["a"]:
                d = self.refd(n["a"][0])
                if d is not None:
                    self.mod.add(d)
                    for x in n["a"][1:]: self.defs.setdefault(d, []).append(x)
            elif k == "Un" and n["op"] in ("++", "--"):
                d = self.refd(n["c"][0])
                if d is not None: self.mod.add(d)
            elif k == "Un" and n["op"] == "&":
                d = self.refd(n["c"][0])
                if d is not None: self.mod.add(d)
            elif k == "For":
                self.loop(n)
            elif k == "ForRange":
                v = n.get("var")
                if v:
                    vd = v["c"][0] if v.get("k") == "Decl" else v
                    if vd.get("d") is not None and n.get("range"):
                        self.defs.setdefault(vd["d"], []).append(n["range"]); self.mod.add(vd["d"])
            if k == "OCall" and n.get("op") == "()" and n.get("f") in eng.lambdas and eng.lambdas[n["f"]][0] is f:
                for p, a in zip(eng.lambdas[n["f"]][1].get("p", []), n["a"][1:]):
                    self.lamargs.append((p["d"], a))
            if k in ("Call", "MCall", "OCall", "Ctor") and "pm" in n:
                pm = n["pm"]
                args = n["a"]
                if k == "OCall" and len(args) > len(pm): args = args[1:]
                for i, a in enumerate(args):
                    m = pm[i] if i < len(pm) else "v"
                    if m in ("r", "p"):
                        d = self.refd(a)
                        if d is not None:
                            self.mod.add(d)
                            self.outs.append((d, [x for j, x in enumerate(args) if j != i] + ([n["o"]] if n.get("o") else []), n))
                if k == "MCall" and not n.get("cst") and n.get("o") is not None and n.get("n") not in VIEW:
                    d = self.refd(n["o"])
                    if d is not None:
                        self.mod.add(d)
                        self.outs.append((d, list(args), n))
        self._deps = None
        self.ixmemo = {}
    def refd(self, n):
        """decl of the local variable whose storage expression n denotes (a part of)."""
        while n is not None:
            n = strip(n)
            k = n.get("k")
            if k == "Ref": return n.get("d") if n.get("vk") in ("local", "param", "slocal") else None
            if k in ("Mem", "Sub"): n = n["c"][0]
            elif k == "OCall" and n["op"] in ("[]", "()", "*", "->") and n.get("a"): n = n["a"][0]
            elif k == "MCall" and n.get("n") in VIEW: n = n.get("o")
            elif k == "Un" and n["op"] in ("*", "&"): n = n["c"][0]
            else: return None
        return None
    def loop(self, n):
        init, cond, inc = n.get("init"), n.get("cond"), n.get("inc")
        if not cond or not inc: return
        d, lo = None, None
        if init and init.get("k") == "Decl" and len(init["c"]) == 1:
            d, lo = init["c"][0]["d"], init["c"][0].get("i")
        elif init and init.get("k") == "Bin" and init["op"] == "=":
            d, lo = self.refd(init["c"][0]), init["c"][1]
        if d is None: return
        step = None
        inc = strip(inc)
        if inc.get("k") == "Un" and inc["op"] == "++" and self.refd(inc["c"][0]) == d: step = 1
        elif inc.get("k") == "Un" and inc["op"] == "--" and self.refd(inc["c"][0]) == d: step = -1
        elif inc.get("k") == "Bin" and inc["op"] in ("+=", "-=") and self.refd(inc["c"][0]) == d:
            c = strip(inc["c"][1])
            if c.get("k") == "Int": step = int(c["v"]) * (1 if inc["op"] == "+=" else -1)
            else: step = "?"
        elif inc.get("k") == "Bin" and inc["op"] == "=" and self.refd(inc["c"][0]) == d:
            r = strip(inc["c"][1])
            if r.get("k") == "Bin" and r["op"] == "+":
                for a, b in (r["c"], r["c"][::-1]):
                    if strip(a).get("d") == d and strip(b).get("k") == "Int": step = int(strip(b)["v"])
        c = strip(cond)
        hi, incl = None, False
        if c.get("k") == "Bin" and c["op"] in ("<", "<=", "!=") and strip(c["c"][0]).get("d") == d:
            hi, incl = c["c"][1], c["op"] == "<="
        elif c.get("k") == "Bin" and c["op"] in (">", ">=") and strip(c["c"][1]).get("d") == d:
            hi, incl = c["c"][0], c["op"] == ">="
        if step is not None and hi is not None:
            self.loops[d] = (lo, hi, step, incl)
    # dependency sets of locals
    def deps_of(self, d):
        if self._deps is None:
            D = {x: set() for x in self.vars}
            for _ in range(12):
                ch = False
                for x, rhs in self.defs.items():
                    if x not in D: D[x] = set()
                    for r in rhs:
                        nd = self.deps(r, D)
                        if not nd <= D[x]: D[x] |= nd; ch = True
                for x, a in self.lamargs:
                    D.setdefault(x, set())
                    nd = self.deps(a, D)
                    if not nd <= D[x]: D[x] |= nd; ch = True
                for x, others, call in self.outs:
                    D.setdefault(x, set())
                    nd = set()
                    for o in others: nd |= self.deps(o, D)
                    if self.call_elem(call): nd.add("ELEM")
                    if not nd <= D[x]: D[x] |= nd; ch = True
                for x, (lo, hi, st, inc) in self.loops.items():
                    D.setdefault(x, set())
                    nd = self.deps(hi, D) | (self.deps(lo, D) if lo else set())
                    if not nd <= D[x]: D[x] |= nd; ch = True
                if not ch: break
            self._deps = D
        return self._deps.get(d, set())
    def call_elem(self, call):
        return any(t.id in self.eng.elem for t in self.eng.prog.targets(call, self.f))
    def deps(self, n, D=None):
        out = set()
        for x in walk(n):
            k = x.get("k")
            if k == "Ref":
                d = x.get("d")
                vk = x.get("vk")
                if d in self.pidx: out.add(("p", self.pidx[d]))
                if vk in ("local", "param", "slocal") and d is not None:
                    out.add(("v", d))
                    if D is not None: out |= D.get(d, set())
                    else: out |= self.deps_of(d)
            elif k == "This": out.add(("T",))
            elif k in ("Call", "MCall", "OCall") and x.get("f") and self.call_elem(x): out.add("ELEM")
            elif k == "Call" and x.get("n") == "omp_get_thread_num": out.add("TID")
        return out

class Walker:
    """Collects the effects of statements of one function."""
    def __init__(self, eng, f):
        self.eng, self.f, self.I = eng, f, eng.info(f)
        self.effects = []
        self.locks = frozenset()
        self.rets = []
        self.pcalls = set()
        self.parcalls = set()
        self.inpar = 0
        self.guards = []
        self.bind = {}          # lambda parameter decl -> ('ix',IX)/('pl',places)
        self.lamdepth = 0
        self.single_return = None
        self.nret = 0
        self.on_omp = None      # hook used by the region analysis
        self.cur_ws = None
        self.phase = 0
        self.aliasing = set()
        self.parlams = []       # lambdas handed to code that calls them from a parallel region
    # ---- emission
    def emit(self, places, mode, n, ty=None):
        if is_atomic(ty): return
        for root, path in places:
            memo = None
            if mode == "W":
                for g in self.guards:
                    if any(r == root and fieldprefix(p) == fieldprefix(path) for r, p in g):
                        memo = self.f.id
            e = Effect(root, path, mode, self.locks, self.f.loc(n), (), memo, ty)
            e.ws = self.cur_ws; e.phase = self.phase
            self.effects.append(e)
    # ---- index values
    def ix(self, n, depth=0):
        n = strip(n)
        if n is None or depth > 12: return opaque(())
        k = n.get("k")
        if k == "Int": return const(int(n["v"]))
        if k == "Bool": return const(int(n["v"]))
        if k == "SizeOf" and n.get("v") is not None:
            try: return const(int(n["v"]))
            except Exception: return opaque(())
        if k == "Un" and n["op"] == "-": return mul(const(-1), self.ix(n["c"][0], depth + 1))
        if k == "Un" and n["op"] == "+": return self.ix(n["c"][0], depth + 1)
        if k == "Bin" and n["op"] in ("+", "-", "*"):
            a, b = self.ix(n["c"][0], depth + 1), self.ix(n["c"][1], depth + 1)
            return add(a, b) if n["op"] == "+" else add(a, b, -1) if n["op"] == "-" else mul(a, b)
        if k == "Ref":
            d, vk = n.get("d"), n.get("vk")
            if d in self.bind:
                b = self.bind[d]
                return b[1] if b[0] == "ix" else opaque(b[2])
            if d in self.I.pidx:
                i = self.I.pidx[d]
                if d in self.I.mod: return opaque({("p", i), ("v", d)} | self.I.deps_of(d))
                return atom(("p", i), {("p", i)})
            if vk == "local":
                if d in self.I.loops:
                    return atom(("v", d, n.get("n")), {("v", d)} | self.I.deps_of(d))
                defs = self.I.defs.get(d, [])
                if d not in self.I.mod and len(defs) == 1 and d not in self.I.lampar:
                    return self.ix(defs[0], depth + 1)
                v = self.I.vars.get(d)
                if is_int_type((v or {}).get("t")):
                    return atom(("v", d, n.get("n")), {("v", d)} | self.I.deps_of(d))
                return opaque({("v", d)} | self.I.deps_of(d))
            if vk in ("enum",) and n.get("v") is not None:
                try: return const(int(n["v"]))
                except Exception: pass
            return atom(("e", n.get("q") or n.get("n")), ())
        if k == "Mem":
            pl = self.place(n, quiet=True)
            deps = self.I.deps(n)
            if len(pl) == 1:
                return atom(("pl", pl[0][0], path_key(pl[0][1])), deps)
            return opaque(deps)
        if k in ("MCall", "OCall", "Call"):
            deps = self.I.deps(n)
            if n.get("n") == "omp_get_thread_num": return atom(("tid",), {"TID"})
            if n.get("n") in ("omp_get_max_threads", "omp_get_num_threads"): return atom(("e", n["n"]), ())
            # inline a project function/lambda consisting of one returned expression
            r = self.inline_ret(n, depth)
            if r is not None: return r
            if k == "MCall" and n.get("cst"):
                pl = self.place(n["o"], quiet=True)
                if len(pl) == 1:
                    args = tuple(self.ix(a, depth + 1).key() for a in n["a"])
                    if not any(a == ("?",) for a in args):
                        return atom(("call", n["n"], pl[0][0], path_key(pl[0][1]), args), deps)
            if k == "OCall" and n["op"] in ("()", "[]"):
                pl = self.place(n, quiet=True)
                if len(pl) == 1: return atom(("pl", pl[0][0], path_key(pl[0][1])), deps)
            return opaque(deps)
        return opaque(self.I.deps(n))
    def inline_ret(self, n, depth):
        if depth > 6: return None
        f = n.get("f")
        if f in self.eng.lambdas and self.eng.lambdas[f][0] is self.f:
            lam = self.eng.lambdas[f][1]
            r = single_ret(lam["body"])
            if r is None: return None
            old = dict(self.bind)
            for p, a in zip(lam["p"], n["a"][1:]):
                self.bind[p["d"]] = ("ix", self.ix(a, depth + 1))
            try: return self.ix(r, depth + 1)
            finally: self.bind = old
        ts = self.eng.prog.targets(n, self.f)
        if len(ts) != 1: return None
        t = ts[0]
        r = single_ret(t.body)
        if r is None or not is_int_type(t.rt): return None
        if t.cls and not t.static and strip(r).get("k") in ("Mem", "MCall", "OCall"): return None
        w = Walker(self.eng, t)
        inner = w.ix(r, depth + 1)
        args = n["a"][1:] if n.get("k") == "OCall" and t.cls else n["a"]
        return self.subst_ix(inner, n, args)
    # ---- substitution of callee facts
    def subst_deps(self, deps, n, args):
        out = set()
        for d in deps:
            if d == ("T",):
                o = n.get("o") or (n["a"][0] if n.get("k") == "OCall" and n.get("a") else None)
                if o is not None: out |= self.I.deps(o)
            elif isinstance(d, tuple) and d[0] == "p":
                if d[1] < len(args): out |= self.argdeps(args[d[1]])
            elif d in ("ELEM", "TID"): out.add(d)
        return frozenset(out)
    def argdeps(self, a):
        d = set()
        for x in self.I.deps(a):
            d.add(x)
            if isinstance(x, tuple) and x[0] == "v" and x[1] in self.bind:
                b = self.bind[x[1]]
                d |= set(b[1].deps if b[0] == "ix" else b[2])
        return d
    def subst_ix(self, x, n, args):
        deps = self.subst_deps(x.deps, n, args)
        if x.poly is None: return IX(None, deps)
        tot = IX({}, deps)
        for m, c in x.poly.items():
            t = const(c)
            for a in m:
                if a[0] == "p":
                    v = self.ix(args[a[1]]) if a[1] < len(args) else opaque(())
                elif a[0] == "e" or a[0] == "tid":
                    v = atom(a, ())
                elif a[0] == "v":
                    v = IX(None, deps)
                else:
                    v = self.subst_atom(a, n, args, deps)
                t = mul(t, v)
            tot = add(tot, t)
            if tot.poly is None: return IX(None, deps)
        return IX(tot.poly, deps | tot.deps)
    def subst_atom(self, a, n, args, deps):
        # ('pl',root,pathkey) / ('call',name,root,pathkey,args): only the root needs mapping
        ri = 1 if a[0] == "pl" else 2
        ps = self.map_root(a[ri], n, args)
        if ps is None or len(ps) != 1: return IX(None, deps)
        r, p = ps[0]
        key = repr(a)
        if "'p'" in key or ("'v'" in key): return IX(None, deps)
        if a[0] == "pl": return atom(("pl", r, path_key(p) + a[2]), deps)
        return atom(("call", a[1], r, path_key(p) + a[3], a[4]), deps)
    def map_root(self, root, n, args):
        if root == ("T",):
            o = n.get("o")
            if o is None and n.get("k") == "OCall" and n.get("a"): o = n["a"][0]
            if o is None: return []
            return self.place(o, quiet=True)
        if root[0] == "P":
            if root[1] >= len(args): return []
            return self.place(args[root[1]], quiet=True)
        if root[0] == "D":
            b = self.map_root(root[1], n, args)
            if b is None: return None
            return [(("D", r, root[2], root[3]), ()) for r, p in b]
        if root[0] in ("G", "S"): return [(root, ())]
        return []
    # ---- places
    def place(self, n, quiet=False):
        n = strip(n)
        if n is None: return []
        k = n.get("k")
        rd = (lambda x: None) if quiet else self.rd
        if k == "Ref":
            d, vk = n.get("d"), n.get("vk")
            if d in self.bind and self.bind[d][0] == "pl": return self.bind[d][1]
            if vk == "param" or d in self.I.pidx:
                if d in self.I.pidx: return [(("P", self.I.pidx[d]), ())]
                return [(("L", d), ())]
            if vk in ("global", "smember"): 
                if n.get("q") in STREAMS: return []
                return [(("G", n.get("q")), ())]
            if vk == "slocal": return [(("S", d, n.get("n")), ())]
            if vk in ("tlocal", "tglobal", "func", "enum"): return []
            v = self.I.vars.get(d)
            if v is not None and is_view_type(v.get("t")) and d not in self.aliasing and d not in self.I.lampar:
                self.aliasing.add(d)
                try:
                    out = []
                    for r in self.I.defs.get(d, []): out += self.place(r, True)
                finally: self.aliasing.discard(d)
                if out: return uniq(out)
                if (v.get("t") or "").endswith("&"): pass
            return [(("L", d), ())]
        if k == "This": return [(("T",), ())]
        if k == "Mem":
            if n.get("meth"): return []
            b = self.place(n["c"][0], quiet)
            out = []
            for r, p in b:
                out.append((r, p + (("f", n["n"]),)))
            dt = n.get("dt") or ""
            self_ptr = dt.endswith("*") or dt.endswith("* const") or dt.endswith("&")
            if self_ptr:
                out = [(("D", r, n["n"], dt.startswith("const ")), ()) for r, p in b]
            return out
        if k == "Sub":
            b = self.place(n["c"][0], quiet)
            rd(n["c"][1])
            i = self.ix(n["c"][1])
            return [(r, p + (("i", (i,)),)) for r, p in b]
        if k == "OCall":
            op = n["op"]
            if op in ("[]", "()") and not n.get("f") and "std::function" not in (n.get("q") or ""):
                b = self.place(n["a"][0], quiet)
                for x in n["a"][1:]: rd(x)
                if "map<" in (n.get("q") or "") and op == "[]":
                    return [(r, p) for r, p in b]
                i = tuple(self.ix(x) for x in n["a"][1:])
                return [(r, p + (("i", i),)) for r, p in b]
            if op in ("->", "*") and len(n["a"]) == 1 and not n.get("f"):
                return self.place(n["a"][0], quiet)
            if op in ASSIGN or op in ("++", "--", "<<"):
                if not quiet: self.rd(n)
                return self.place(n["a"][0], True)
        if k == "MCall" and not n.get("f") and n.get("n") in VIEW and n.get("o") is not None:
            b = self.place(n["o"], quiet)
            for x in n["a"]: rd(x)
            return [(r, p + s) for r, p in b for s in [self.view_step(n)]]
        if k == "Un" and n["op"] in ("*", "&"):
            return self.place(n["c"][0], quiet)
        if k == "Un" and n["op"] in ("++", "--"):
            if not quiet: self.rd(n)
            return self.place(n["c"][0], True)
        if k == "Cond":
            rd(n["c"][0])
            return uniq(self.place(n["c"][1], quiet) + self.place(n["c"][2], quiet))
        if k == "Bin" and n["op"] in ASSIGN:
            if not quiet: self.rd(n)
            return self.place(n["c"][0], True)
        if k == "Bin" and n["op"] == ",":
            rd(n["c"][0]); return self.place(n["c"][1], quiet)
        if k == "Bin" and n["op"] in ("+", "-") and (n.get("t") or "").endswith("*"):
            rd(n["c"][1])
            b = self.place(n["c"][0], quiet)
            return [(r, p + (("b", ((self.ix(n["c"][1]), None),)),)) for r, p in b]
        if k in ("Call", "MCall", "OCall", "Ctor"):
            if k == "Call" and not n.get("f") and n.get("n") in PASS1 and n["a"]:
                return self.place(n["a"][0], quiet)
            if k == "Call" and not n.get("f") and n.get("n") in ("max", "min") and len(n["a"]) == 2:
                return uniq(self.place(n["a"][0], quiet) + self.place(n["a"][1], quiet))
            if k == "Ctor" and is_view_type(n.get("t")) and n["a"]:
                return self.place(n["a"][0], quiet)
            if not quiet: self.call(n)
            rt = n.get("rt") or ""
            if is_view_type(rt) and n.get("f"):
                return self.retplaces(n)
            return []
        if not quiet: self.rd_kids(n)
        return []
    def retplaces(self, n):
        out = []
        args = n["a"]
        if n.get("f") in self.eng.lambdas and self.eng.lambdas[n["f"]][0] is self.f:
            lam = self.eng.lambdas[n["f"]][1]
            old = dict(self.bind)
            self.bind_params(lam["p"], args[1:])
            try:
                for x in walk(lam["body"]):
                    if x.get("k") == "Return" and x.get("v"): out += self.place(x["v"], True)
            finally: self.bind = old
            return uniq(out)
        for t in self.eng.prog.targets(n, self.f):
            s = self.eng.summary(t)
            a = args[1:] if n.get("k") == "OCall" and t.cls else args
            for r, p in s.ret:
                m = self.map_root(r, n, a)
                for r2, p2 in m or []:
                    out.append((r2, p2 + self.subst_path(p, n, a)))
        return uniq(out)
    def view_step(self, n):
        nm, a = n["n"], n["a"]
        X = [self.ix(x) for x in a]
        one = const(1)
        full = (opaque(()), None)
        if nm in ("col",) and X: return (("b", (full, (X[0], one))),)
        if nm in ("row",) and X: return (("b", ((X[0], one), full)),)
        if nm == "segment" and len(X) == 2: return (("b", ((X[0], X[1]),)),)
        if nm == "middleCols" and len(X) == 2: return (("b", (full, (X[0], X[1]))),)
        if nm == "middleRows" and len(X) == 2: return (("b", ((X[0], X[1]), full)),)
        if nm == "block" and len(X) == 4: return (("b", ((X[0], X[2]), (X[1], X[3]))),)
        if nm in ("at", "coeffRef", "coeff") and X: return (("i", tuple(X)),)
        if nm in ("head", "leftCols", "topRows", "tail", "rightCols", "bottomRows") and X:
            return (("b", ((opaque(X[0].deps), None),)),)
        if nm.endswith("Corner"): return (("b", ((opaque(()), None), (opaque(()), None))),)
        return ()
    def subst_path(self, path, n, args):
        out = []
        for s in path:
            if s[0] in ("f", "h"): out.append(s)
            elif s[0] == "i": out.append(("i", tuple(self.subst_ix(x, n, args) for x in s[1])))
            else: out.append(("b", tuple((self.subst_ix(a, n, args), self.subst_ix(b, n, args) if b is not None else None) for a, b in s[1])))
        return tuple(out)
    # ---- expressions
    def rd_kids(self, n):
        for x in kids(n): self.rd(x)
    def rd(self, n):
        if n is None: return
        s = strip(n)
        if s is None: return
        if s is not n and n.get("k") == "Ctor" and n.get("cp"):
            pass
        n = s
        k = n.get("k")
        if k in ("Int", "Flt", "Bool", "Str", "Char", "Nullptr", "SizeOf", "ZeroInit", "DefArg"): return
        if k == "Bin" and n["op"] in ASSIGN:
            self.rd(n["c"][1])
            pl = self.place(n["c"][0])
            self.emit(pl, "W", n, n["c"][0].get("t"))
            return
        if k == "Un" and n["op"] in ("++", "--"):
            pl = self.place(n["c"][0])
            self.emit(pl, "W", n, n["c"][0].get("t")); return
        if k == "Lambda":
            self.lambda_effects(n, None); return
        if k in ("Call", "MCall", "OCall", "Ctor", "New"):
            lv = self.lvalue_call(n)
            if lv:
                pl = self.place(n)
                self.emit(pl, "R", n, n.get("t")); return
            self.call(n); return
        if k in ("Ref", "Mem", "Sub", "This") or (k == "Un" and n["op"] in ("*", "&")):
            if k == "Ref":
                v = self.I.vars.get(n.get("d"))
                lam = self.lambda_of(n)
                if lam is not None:
                    self.lambda_effects(lam, None); return
            pl = self.place(n)
            if k == "Un" and n["op"] == "&": return
            if k == "This": return
            self.emit(pl, "R", n, n.get("t")); return
        if k == "Decl" or k == "Var": self.st(n); return
        self.rd_kids(n)
    def lvalue_call(self, n):
        k = n.get("k")
        if k == "OCall" and n["op"] in ("[]", "()", "->", "*") and not n.get("f") and "std::function" not in (n.get("q") or ""):
            if n["op"] in ("->", "*") and len(n["a"]) != 1: return False
            return True
        if k == "MCall" and not n.get("f") and n.get("n") in VIEW: return True
        if k == "Call" and not n.get("f") and n.get("n") in PASS1: return True
        return False
    def lambda_of(self, n):
        n = strip(n)
        if n.get("k") == "Lambda": return n
        if n.get("k") == "Ref" and n.get("vk") == "local":
            ds = self.I.defs.get(n.get("d"), [])
            if len(ds) == 1 and n["d"] not in self.I.lampar:
                r = strip(ds[0])
                while r.get("k") == "Ctor" and len(r.get("a", [])) == 1: r = strip(r["a"][0])
                if r.get("k") == "Lambda": return r
        return None
    def bind_params(self, params, args):
        for i, p in enumerate(params):
            a = args[i] if args is not None and i < len(args) else None
            if a is None:
                self.bind[p["d"]] = ("pl", [], frozenset({("v", p["d"])})); continue
            t = p.get("t") or ""
            if is_int_type(t.replace("&", "").strip()) and not (t.endswith("&") and not t.startswith("const")):
                self.bind[p["d"]] = ("ix", self.ix(a))
            elif is_view_type(t):
                self.bind[p["d"]] = ("pl", self.place(a, True), frozenset(self.argdeps(a)))
            else:
                self.bind[p["d"]] = ("pl", [], frozenset(self.argdeps(a)))
    def lambda_effects(self, lam, args):
        if self.lamdepth > 6 or any(x is lam for x in getattr(self, "lamstack", [])): return
        self.lamstack = getattr(self, "lamstack", []) + [lam]
        self.lamdepth += 1
        old, sr = dict(self.bind), (self.rets, self.single_return, self.nret)
        self.bind_params(lam.get("p", []), args)
        if args is None:
            # unknown arguments: values may depend on anything the caller has
            for p in lam.get("p", []): self.bind.pop(p["d"], None)
        self.rets = []
        self.st(lam.get("body"))
        self.bind = old
        self.rets, self.single_return, self.nret = sr
        self.lamdepth -= 1
        self.lamstack = self.lamstack[:-1]
    def call(self, n):
        k = n.get("k")
        if k == "New":
            self.rd_kids(n); return
        args = n.get("a", [])
        pm = n.get("pm", "")
        q = n.get("q") or ""
        f = n.get("f")
        # calls of a local lambda
        if k == "OCall" and n["op"] == "()" :
            if f in self.eng.lambdas and self.eng.lambdas[f][0] is self.f:
                for a in args[1:]:
                    if self.lambda_of(a) is None: self.rd(a)
                    else: self.lambda_effects(self.lambda_of(a), None)
                self.lambda_effects(self.eng.lambdas[f][1], args[1:]); return
            lam = self.lambda_of(args[0]) if args else None
            if lam is not None:
                for a in args[1:]: self.rd(a)
                self.lambda_effects(lam, args[1:]); return
            base = strip(args[0]) if args else {}
            if "std::function" in q or (f and f in self.eng.lambdas):
                if base.get("k") == "Ref" and base.get("d") in self.I.pidx:
                    i = self.I.pidx[base["d"]]
                    self.pcalls.add(i)
                    if self.inpar: self.parcalls.add(i)
                for a in args[1:]: self.rd(a)
                return
        ts = self.eng.prog.targets(n, self.f) if f else []
        if ts:
            self.project_call(n, ts); return
        # external
        if k == "MCall":
            if n.get("n") in HEADER:
                pl = self.place(n["o"])
                self.emit([(r, p + (("h",),)) for r, p in pl], "R", n, n["o"].get("t") if n.get("o") else None)
            elif n.get("o") is not None:
                pl = self.place(n["o"])
                ot = n["o"].get("t") or ""
                mode = "R" if n.get("cst") else "W"
                if n.get("inproj") and not ts and n.get("virt"): mode = "R" if n.get("cst") else "W"
                if is_atomic(ot): pl = []
                self.emit(pl, mode, n, ot)
            rest = args
        elif k == "OCall":
            op = n["op"]
            if op in ASSIGN or op in ("++", "--") or (op == "<<" and "Eigen" in (args[0].get("t") or "") ):
                pl = self.place(args[0])
                self.emit(pl, "W", n, args[0].get("t"))
                rest = args[1:]; pm = pm[-len(rest):] if rest else ""
            else:
                if len(args) > len(pm):
                    # member operator: constness unknown for views, assume read
                    self.rd(args[0]); rest = args[1:]
                else: rest = args
        else:
            rest = args
        for i, a in enumerate(rest):
            m = pm[i] if i < len(pm) else "v"
            lam = self.lambda_of(a)
            if lam is not None:
                self.lambda_effects(lam, None); continue
            if m in ("r",) or (m == "p" and q not in STREAMS):
                s = strip(a)
                if n.get("n") in PURE_READ: self.rd(a); continue
                if "basic_ostream" in (a.get("t") or "") and s.get("k") != "Ref":
                    self.rd(a); continue
                pl = self.place(a)
                self.emit(pl, "W", n, a.get("t"))
            else:
                self.rd(a)
    def project_call(self, n, ts):
        k = n.get("k")
        args = n.get("a", [])
        for t in ts:
            a = args[1:] if k == "OCall" and t.cls and not t.static else args
            s = self.eng.summary(t)
            for e in s.effects:
                root = e.root
                b = rootbase(root)
                if b[0] == "P":
                    i = b[1]
                    if i >= len(a): continue
                    pt = t.params[i].get("t") or ""
                    if not is_view_type(pt) and root[0] != "D": continue   # by value
                ms = self.map_root(root, n, a)
                if not ms: continue
                p = self.subst_path(e.path, n, a)
                for r2, p2 in ms:
                    if is_const_obj(self, n, a, b) and e.mode == "W" and not any(st[0] == "f" for st in e.path) and root[0] != "D":
                        pass
                    ne = Effect(r2, p2 + p, e.mode, e.locks | self.locks, e.loc, ((self.f.q, self.f.loc(n)),) + e.chain[:6], e.memo, e.ty)
                    ne.ws, ne.phase = self.cur_ws, self.phase
                    if e.mode == "W":
                        for g in self.guards:
                            if any(r == r2 and fieldprefix(pp) == fieldprefix(ne.path) for r, pp in g): ne.memo = ne.memo or self.f.id
                    self.effects.append(ne)
            for i in s.pcalls:
                if i < len(a):
                    b = strip(a[i])
                    if b.get("k") == "Ref" and b.get("d") in self.I.pidx:
                        self.pcalls.add(self.I.pidx[b["d"]])
                        if self.inpar or i in s.parcalls: self.parcalls.add(self.I.pidx[b["d"]])
                    lam = self.lambda_of(a[i])
        # evaluate the arguments themselves
        if k == "MCall" and n.get("o") is not None:
            self.place(n["o"])
        for i, x in enumerate(args):
            lam = self.lambda_of(x)
            y = strip(x)
            if lam is None and y.get("k") == "Ctor" and "std::function" in (y.get("t") or "") and y.get("a"):
                lam = self.lambda_of(y["a"][0])
            if lam is not None:
                par = any(i in self.eng.summary(t).parcalls for t in ts)
                self.inpar += par
                self.lambda_effects(lam, None)
                self.inpar -= par
                if par: self.parlams.append((lam, n, ts[0]))
                continue
            pt = ts[0].params[i].get("t") if i < len(ts[0].params) and not (k == "OCall" and ts[0].cls) else ""
            if is_view_type(pt or ""):
                self.place(x)
            else:
                self.rd(x)
    # ---- statements
    def init(self, n):
        v = n.get("i") or n.get("v")
        if isinstance(v, dict): self.rd(v)
        for x in n.get("c", []) or []: self.rd(x)
    def st(self, n):
        if n is None: return
        k = n.get("k")
        if k == "Omp": return self.omp(n)
        if k == "Decl":
            for x in n["c"]: self.st(x)
            return
        if k == "Var":
            i = n.get("i")
            if i is None: return
            if n.get("st") == "static":
                return                       # initialised once, thread safe
            r = strip(i)
            if r.get("k") == "Lambda": return
            if r.get("k") == "Ctor" and r.get("a") and strip(r["a"][0]).get("k") == "Lambda": return
            if is_view_type(n.get("t")): self.place(i)
            else: self.rd(i)
            return
        if k == "If":
            if n.get("init"): self.st(n["init"])
            if n.get("cv"): self.st(n["cv"])
            c = n.get("cond")
            if c is not None: self.rd(c)
            g = self.guard_places(c) if c is not None else []
            self.guards.append(g)
            self.st(n.get("then")); self.st(n.get("else"))
            self.guards.pop(); return
        if k in ("For", "While", "Do", "Switch", "ForRange"):
            for key in ("init",):
                if n.get(key): self.st(n[key])
            if n.get("range"): self.rd(n["range"])
            if n.get("cond"): self.rd(n["cond"])
            self.st(n.get("body"))
            if n.get("inc"): self.rd(n["inc"])
            return
        if k == "Return":
            v = n.get("v")
            self.nret += 1
            if v is not None:
                if is_view_type(self.f.rt) and not self.lamdepth:
                    self.rets = uniq(self.rets + self.place(v))
                else: self.rd(v)
            return
        if k in ("Block", "Case", "Default", "Try", "Catch", "Label"):
            for x in kids(n): self.st(x)
            return
        if k in ("Break", "Continue", "Null", "Goto"): return
        if k == "Throw":
            if n.get("v"): self.rd(n["v"])
            return
        self.rd(n)
    def guard_places(self, c):
        out = []
        for x in walk(c):
            if x.get("k") in ("Ref", "Mem"):
                for p in self.place(x, True): out.append(p)
            if x.get("k") == "OCall" and x["op"] in ("[]", "()") and not x.get("f"):
                for p in self.place(x, True): out.append(p)
        return out
    def omp(self, n):
        dk = n.get("dk", "")
        old = self.locks
        if dk == "critical":
            self.locks = old | {"critical:" + str(n.get("name") or "")}
        elif dk == "atomic": self.locks = old | {"atomic"}
        elif dk in ("single",): self.locks = old | {"single@%d" % n.get("l", 0)}
        elif dk in ("master", "masked"): self.locks = old | {"master"}
        elif dk == "ordered": self.locks = old | {"ordered"}
        par = "parallel" in dk
        if par: self.inpar += 1
        if self.on_omp is not None: self.on_omp(self, n)
        else: self.st(n.get("body"))
        if par: self.inpar -= 1
        self.locks = old

def is_const_obj(w, n, a, b): return False

def fieldprefix(path):
    out = []
    for s in path:
        if s[0] == "f": out.append(s[1])
        else: break
    return tuple(out)

def uniq(pl):
    seen, out = set(), []
    for r, p in pl:
        k = (r, path_key(p))
        if k not in seen: seen.add(k); out.append((r, p))
    return out

def single_ret(body):
    """The expression E when the body is `return E;` possibly after single-definition locals."""
    if body is None: return None
    st = body.get("c", []) if body.get("k") == "Block" else [body]
    st = [s for s in st if s.get("k") != "Null"]
    if len(st) == 1 and st[0].get("k") == "Return": return st[0].get("v")
    return None

# ------------------------------------------------------------ regions
class Region:
    def __init__(self, f, node):
        self.f, self.node = f, node
        self.acc = []
        self.verdicts = []

PRIV = {"private", "firstprivate", "lastprivate", "reduction", "linear", "copyin", "copyprivate", "in_reduction"}

def clause_vars(n, names):
    out = set()
    for c in n.get("cl", []):
        if c["n"] in names:
            for v in c.get("v", []) or []:
                if isinstance(v, dict) and v.get("d") is not None: out.add(v["d"])
    return out
def has_clause(n, nm): return any(c["n"] == nm for c in n.get("cl", []))

def loops_of(n, count):
    """The associated loop nest of a worksharing directive."""
    out, b = [], n.get("body")
    while len(out) < count:
        while b is not None and b.get("k") == "Block" and len([x for x in b["c"]]) >= 1:
            fors = [x for x in b["c"] if x.get("k") == "For"]
            if not fors: break
            b = fors[0]
        if b is None or b.get("k") != "For": break
        out.append(b); b = b.get("body")
    return out

def loop_decl(fo):
    init = fo.get("init")
    if init and init.get("k") == "Decl": return init["c"][0]["d"]
    if init and init.get("k") == "Bin": return strip(init["c"][0]).get("d")
    return None

def analyse_region(eng, f, node):
    """Accesses to shared storage made inside a parallel region."""
    w = Walker(eng, f)
    I = w.I
    private = clause_vars(node, PRIV)
    for x in walk(node):
        if x.get("k") in ("Var", "Bind") and x.get("st") != "static": private.add(x["d"])
        if x.get("k") == "Omp": private |= clause_vars(x, PRIV)
        if x.get("k") == "Lambda":
            for p in x.get("p", []): private.add(p["d"])
        if x.get("k") == "Catch" and isinstance(x.get("var"), dict): private.add(x["var"].get("d"))
    # locals of lambdas that are defined outside but called inside
    for lf, (ff, lam) in eng.lambdas.items():
        if ff is f and not any(y is node for y in walk(lam)):
            for x in walk(lam):
                if x.get("k") in ("Var", "Bind") and x.get("st") != "static": private.add(x["d"])
                if x.get("k") == "Lambda":
                    for p in x.get("p", []): private.add(p["d"])
    for x in walk(node):
        if x.get("k") == "Omp":
            cnt = max([c.get("num") or 1 for c in x.get("cl", []) if c["n"] == "collapse"] or [1])
            if "for" in x["dk"]:
                for fo in loops_of(x, cnt):
                    d = loop_decl(fo)
                    if d is not None: private.add(d)
    def hook(w, n):
        dk = n.get("dk", "")
        if "for" in dk.split() and n is not None:
            cnt = max([c.get("num") or 1 for c in n.get("cl", []) if c["n"] == "collapse"] or [1])
            V = []
            for fo in loops_of(n, cnt):
                d = loop_decl(fo)
                V.append((d, I.loops.get(d)))
            old = w.cur_ws
            w.cur_ws = (id(n), tuple(v for v in V), f.loc(n))
            w.st(n.get("body"))
            w.cur_ws = old
            if "parallel" not in dk and not has_clause(n, "nowait"): w.phase += 1
            return
        if dk == "barrier": w.phase += 1; return
        if dk == "single":
            w.st(n.get("body"))
            if not has_clause(n, "nowait"): w.phase += 1
            return
        w.st(n.get("body"))
    w.on_omp = hook
    w.inpar = 1
    hook(w, node)
    R = Region(f, node)
    R.private = private
    R.info = I
    R.walker = w
    seen = set()
    for e in w.effects:
        b = rootbase(e.root)
        if e.root[0] == "D":
            if not e.root[3] and b[0] == "L" and b[1] in private: continue
        elif b[0] == "L" and b[1] in private: continue
        k = e.key() + (e.phase, e.ws[0] if e.ws else None)
        if k in seen: continue
        seen.add(k); R.acc.append(e)
    R.nall = len(w.effects)
    return R

# -- partition proof
def _nonneg_ge1(p):
    """Is polynomial p (atoms >= 1) provably >= 1?  Substitute a -> 1 + a'."""
    q = {}
    for m, c in p.items():
        terms = {(): c}
        for a in m:
            nt = {}
            for mm, cc in terms.items():
                nt[mm] = nt.get(mm, 0) + cc
                k = tuple(sorted(mm + (a,), key=repr)); nt[k] = nt.get(k, 0) + cc
            terms = nt
        for mm, cc in terms.items(): q[mm] = q.get(mm, 0) + cc
    return all(c >= 0 for c in q.values()) and q.get((), 0) >= 1

def psub(a, b):
    p = dict(a)
    for m, c in b.items(): p[m] = p.get(m, 0) - c
    return _clean(p)
def padd(a, b):
    p = dict(a)
    for m, c in b.items(): p[m] = p.get(m, 0) + c
    return _clean(p)
def pmul(a, b):
    return mul(IX(a), IX(b)).poly or {}

def comps_of(path):
    out = []
    for s in path:
        if s[0] == "i":
            for x in s[1]: out.append((x, const(1)))
        elif s[0] == "b":
            for a, b in s[1]: out.append((a, b))
    return out

class Partition:
    """Does the path of an access separate different iterations of the
    worksharing loop?  Result: 'ok', 'bad' or 'unknown', with a reason."""
    def __init__(self, R, ws):
        self.R, self.ws = R, ws
        self.V = [d for d, _ in ws[1]]
        self.ranges = {}
        w = R.walker
        for d, lp in R.info.loops.items():
            lo, hi, st, inc = lp
            h = w.ix(hi); l = w.ix(lo) if lo is not None else const(0)
            ext = add(h, l, -1)
            if inc: ext = add(ext, const(1))
            self.ranges[d] = (ext, st)
    def classify(self, x):
        """split polynomial into linear terms: {vardecl: coefpoly}, rest; None when opaque"""
        if x.poly is None: return None
        terms, rest = {}, {}
        self.elem_term = False
        for m, c in x.poly.items():
            if len(m) == 1 and c == 1 and m[0][0] == "v" and m[0][1] in self.R.private and m[0][1] not in self.V \
               and m[0][1] not in self.ranges:
                dd = self.R.info.deps_of(m[0][1])
                if "ELEM" in dd and not any(("v", d) in dd for d in self.V):
                    # first index of an element's range, itself inside [0, Nbf)
                    self.elem_term = True
                    continue
            vs = [a for a in m if a[0] == "v" and (a[1] in self.V or (a[1] in self.ranges and a[1] in self.R.private))]
            other = tuple(a for a in m if a not in vs)
            for a in other:
                if self.dependent(a): return None
            if len(vs) == 0:
                rest[m] = rest.get(m, 0) + c
            elif len(vs) == 1:
                t = terms.setdefault(vs[0][1], {})
                t[other] = t.get(other, 0) + c
            else: return None
        return terms, rest
    def dependent(self, a):
        """atom value may vary between iterations"""
        if a[0] == "v":
            d = a[1]
            if d in self.V: return True
            return d in self.R.private
        if a[0] in ("pl", "call"):
            def has(t):
                if isinstance(t, tuple):
                    if len(t) >= 2 and t[0] == "v" and isinstance(t[1], int) and (t[1] in self.R.private): return True
                    if len(t) == 2 and t[0] == "L" and t[1] in self.R.private: return True
                    return any(has(y) for y in t)
                return False
            return has(a)
        return False
    def covers(self, comp):
        """set of worksharing vars this component separates; None = opaque"""
        x, ln = comp
        cl = self.classify(x)
        if cl is None: return None
        terms, rest = cl
        mine = [d for d in terms if d in self.V]
        if not mine: return frozenset()
        if self.elem_term:
            # offset by an element range: separated when the stride is the
            # number of basis functions and nothing else varies
            if len(terms) == 1 and all(c == 1 and len(m) == 1 and m[0][0] == "call" and "Nbf" in m[0][1]
                                       for m, c in terms[mine[0]].items()) and len(terms[mine[0]]) == 1:
                return frozenset(mine)
            return None
        # extents of every term
        items = []
        unknown = False
        for d, c in terms.items():
            rg = self.ranges.get(d)
            ext = rg[0] if rg else None
            if d in self.V:
                step = next((lp[2] for dd, lp in self.ws[1] if dd == d and lp), 1)
            if ext is None or ext.poly is None or any(self.dependent(a) for m in ext.poly for a in m):
                ext = None
            items.append((d, c, ext))
        lnp = None
        if ln is None: lnp = None
        elif ln.poly is not None and not any(self.dependent(a) for m in ln.poly for a in m): lnp = ln.poly
        order_ok = False
        for perm in itertools.permutations(items):
            # perm[0] = fastest
            acc = psub(lnp, {(): 1}) if lnp is not None else None
            if acc is None: break
            ok = True
            for j, (d, c, ext) in enumerate(perm):
                cc = c
                if all(v < 0 for v in cc.values()): cc = {m: -v for m, v in cc.items()}
                if d in self.V or any(p[0] in self.V for p in perm[:j]):
                    if not _nonneg_ge1(psub(cc, acc)): ok = False; break
                if j + 1 < len(perm):
                    if ext is None:
                        ok = False; break
                    acc = padd(acc, pmul(cc, psub(ext.poly, {(): 1})))
            if ok: order_ok = True; break
        if order_ok: return frozenset(mine)
        # could not be proved: definite only when everything is known
        if any(it[2] is None for it in items) or lnp is None:
            return None
        return "clash"
    def elem_term_of(self, x):
        self.elem_term = False
        return self.classify(x) is not None and self.elem_term and False
    def step_of(self, d):
        for dd, lp in self.ws[1]:
            if dd == d and lp: return lp[2]
        return None
    def decide(self, e):
        cs = comps_of(e.path)
        if e.ty and "vector<bool" in e.ty: pass
        covered, opaq, clash = set(), [], []
        for x, ln in cs:
            if x.poly is not None and any(a == ("tid",) for m in x.poly for a in m): return "ok", "indexed by thread number"
            c = self.covers((x, ln))
            if c is None: opaq.append((x, ln))
            elif c == "clash": clash.append((x, ln))
            else: covered |= c
        missing = [d for d in self.V if d not in covered]
        if not missing: return "ok", "index separates all iterations"
        nm = self.R.info.names
        for x, ln in opaq:
            if "TID" in x.deps: return "ok", "indexed by thread number"
        for x, ln in opaq:
            if self.elem_term_of(x): continue
            dep = {d for t, d in [t for t in x.deps if isinstance(t, tuple) and len(t) == 2 and t[0] == "v"]}
            hit = [d for d in missing if d in dep]
            if hit:
                if "ELEM" in x.deps:
                    st = self.step_of(hit[0])
                    if isinstance(st, int) and abs(st) >= 2: return "ok", "element index ranges of non-adjacent elements"
                    if st == 1: return "bad", "adjacent elements share basis functions, and the loop runs over consecutive elements"
                    return "unknown", "element scatter with unknown stride"
                return "unknown", "index depends on the iteration in a way that is not analysed"
        if clash:
            return "bad", "index %s is not injective over the iterations" % ", ".join(repr(x) for x, _ in clash)
        if missing:
            return "bad", "location does not depend on loop variable %s" % ", ".join(str(nm.get(d)) for d in missing)
        return "unknown", "?"

def conflict(part, w, x):
    """Can write w of one iteration hit access x of another?  (both already
    known to be inside the same phase and on the same root)"""
    i = 0
    n = min(len(w.path), len(x.path))
    for i in range(n):
        a, b = w.path[i], x.path[i]
        if a[0] == "f" and b[0] == "f":
            if a[1] != b[1]: return "no"
            continue
        if a[0] == "f" or b[0] == "f": return "maybe"
        if a[0] == "h" or b[0] == "h":
            return "no" if a[0] != b[0] else "maybe"
        ca = [(y, const(1)) for y in a[1]] if a[0] == "i" else list(a[1])
        cb = [(y, const(1)) for y in b[1]] if b[0] == "i" else list(b[1])
        if len(ca) != len(cb): return "maybe"
        same_cov = False
        res = None
        for (p, lp), (q, lq) in zip(ca, cb):
            if p.poly is None or q.poly is None: 
                continue
            diff = psub(p.poly, q.poly)
            c = part.covers((p, lp)) if part else None
            if not diff:
                if c not in (None, "clash") and c: same_cov = True
                continue
            if set(diff) <= {()}:
                # constant offset
                onlyconst = not any(a0[0] == "v" and part and a0[1] in part.V for m in p.poly for a0 in m)
                if onlyconst and lp is not None and lq is not None and lp.poly == {(): 1} and lq.poly == {(): 1}: return "no"
                if c not in (None, "clash") and c: res = "yes"
                continue
            if c not in (None, "clash") and c:
                cq = part.covers((q, lq))
                if cq is None: continue
                res = "yes"
        if same_cov and res is None: return "no"
        if res == "yes": return "yes"
    # one path is a prefix of the other
    if len(w.path) != len(x.path):
        longer, shorter = (w, x) if len(w.path) > len(x.path) else (x, w)
        st = longer.path[len(shorter.path)]
        if st[0] == "h" : return "no" if (shorter.mode == "R") else "yes"
        if st[0] in ("i", "b") and shorter.mode == "R":
            return "yes"
        return "yes" if shorter.mode == "W" else "maybe"
    return "same"

def check_region(eng, R):
    """Returns (violations, unknowns, proved)."""
    viol, unk, ok = [], [], []
    W = [e for e in R.acc if e.mode == "W"]
    parts = {}
    def part(e):
        if not e.ws: return None
        if e.ws[0] not in parts: parts[e.ws[0]] = Partition(R, e.ws)
        return parts[e.ws[0]]
    for e in W:
        name = path_str(e.root, e.path, R.info.names)
        if e.memo is not None:
            r = memo_primed(eng, R, e)
            if r:
                ok.append((e, name, "guarded fill of a cache that is filled serially before the region (%s)" % r)); continue
        if e.locks:
            bad = [x for x in R.acc if x.phase == e.phase and x.root == e.root and not (x.locks & e.locks)
                   and conflict(part(e), e, x) in ("yes", "same")]
            if bad:
                viol.append((e, name, "protected by %s here but accessed without it at %s" % (",".join(sorted(e.locks)), bad[0].loc)))
            else: ok.append((e, name, "protected by " + ",".join(sorted(e.locks))))
            continue
        if not e.ws:
            cs = comps_of(e.path)
            if any("TID" in x.deps for x, _ in cs): ok.append((e, name, "indexed by thread number")); continue
            viol.append((e, name, "every thread of the team executes this write")); continue
        p = part(e)
        v, why = p.decide(e)
        if v == "ok" and e.ty and False: pass
        if v == "ok" and bool_vector(eng, R, e):
            viol.append((e, name, "packed std::vector<bool> elements share storage words")); continue
        if v == "bad":
            viol.append((e, name, why)); continue
        if v == "unknown":
            unk.append((e, name, why)); continue
        bad = None
        for x in R.acc:
            if x is e or x.phase != e.phase or x.root != e.root: continue
            if x.locks & e.locks: continue
            if x.ws and e.ws and x.ws[0] != e.ws[0]:
                # different worksharing loops in one phase (nowait)
                c = conflict(None, e, x)
                if c != "no": bad = (x, "another worksharing loop in the same phase"); break
                continue
            c = conflict(p, e, x)
            if c == "yes": bad = (x, "a different iteration's element"); break
        if bad:
            viol.append((e, name, "also accessed at %s (%s): %s" % (bad[0].loc, path_str(bad[0].root, bad[0].path, R.info.names), bad[1])))
        else:
            ok.append((e, name, why))
    return viol, unk, ok

def bool_vector(eng, R, e):
    r = e.root
    if r[0] == "L":
        v = R.info.vars.get(r[1])
        t = (v or {}).get("t") or ""
        return t.replace("const ", "").startswith("std::vector<bool") and len(e.path) == 1
    return False

def memo_primed(eng, R, e):
    """A call made before the region, in the function containing it, that
    reaches the function performing the guarded fill."""
    rl = R.node.get("l", 0)
    body = R.f.body
    pre = preceding(body, R.node)
    for s in pre:
        for c in walk(s):
            if c.get("f"):
                ts = eng.prog.targets(c, R.f)
                if eng.reaches(ts, e.memo): return "%s at %s" % (c.get("n"), R.f.loc(c))
    return None

def preceding(root, node):
    """Statements executed before `node` on every way to it inside the same
    function or lambda (siblings that come earlier in enclosing blocks)."""
    path = []
    def find(n):
        if n is node: return True
        for x in kids(n):
            if find(x):
                path.append((n, x)); return True
        return False
    find(root)
    out = []
    for parent, child in path:
        if parent.get("k") == "Block":
            for s in parent["c"]:
                if s is child: break
                out.append(s)
        if parent.get("k") == "Lambda": break
    return out

def regions(prog):
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.q)):
        st = [f.body]
        while st:
            n = st.pop()
            if n.get("k") == "Omp" and "parallel" in n.get("dk", ""):
                yield f, n
                continue
            st.extend(reversed(kids(n)))
