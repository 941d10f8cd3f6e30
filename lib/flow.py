"""Disjunctive forward dataflow over the structured AST with symbolic value numbering.

A state maps storage keys to value terms (hashable tuples), plus branch facts and
client-defined ghost entries.  Loops run to a fixpoint over havocked loop variables.
Clients subclass Interp and override on_call / on_throw / inline / etc."""
from program import *
from extract import AnalysisBroken

class Limit(Exception): pass

class State:
    __slots__ = ("env", "facts", "ghost")
    def __init__(self, env=None, facts=None, ghost=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.ghost = ghost if ghost is not None else {}
    def copy(self):
        return State(dict(self.env), dict(self.facts), dict(self.ghost))
    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()), frozenset(self.ghost.items()))
    def get(self, k, default=None):
        return self.env.get(k, default)
    def set(self, k, v):
        s = self.copy()
        # whole-object assignment drops what was known about its parts
        if any(prefix(x, k) for x in s.env if x != k):
            for x in [x for x in s.env if x != k and prefix(x, k)]: del s.env[x]
        s.env[k] = v
        # element assignment invalidates the aggregate value
        p = k[1] if k[0] in ("f", "e") else None
        while p is not None and isinstance(p, tuple):
            if p in s.env and k[0] == "e":
                s.env[p] = ("upd", s.env[p])
            p = p[1] if p[0] in ("f", "e") else None
            if p is not None: k = (k[0], p)
        return s
    def fact(self, c, b):
        s = self.copy(); s.facts[c] = b; return s
    def gset(self, k, v):
        s = self.copy(); s.ghost[k] = v; return s

def rethis(r, tk):
    if r[0] == "elt": return ("elt", rethis(r[1], tk))
    return ("f", tk, r[2]) if r[0] == "f" and r[1] == ("this",) else r

def prefix(k, p):
    while isinstance(k, tuple) and k and k[0] in ("f", "e"):
        k = k[1]
        if k == p: return True
    return False

def C(v): return ("c", v)
def isC(v): return v[0] == "c"

COMM = {"+", "*", "==", "!=", "&", "|", "^"}
NEGREL = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
SWAPREL = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}

def mkop(op, a, b):
    if isC(a) and isC(b):
        x, y = a[1], b[1]
        try:
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                ii = isinstance(x, int) and isinstance(y, int)
                if op == "+": return C(x + y)
                if op == "-": return C(x - y)
                if op == "*": return C(x * y)
                if op == "/" and y != 0: return C((abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if ii else x / y)
                if op == "%" and y != 0 and ii: return C(x - y * int(x / y))
                if op in ("<", ">", "<=", ">=", "==", "!="):
                    return C(int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]))
                if ii and op == "&": return C(x & y)
                if ii and op == "|": return C(x | y)
        except Exception:
            pass
        if op in ("==", "!=") and isinstance(x, str) and isinstance(y, str):
            return C(int((x == y) == (op == "==")))
    if a == b and op in ("==", "<=", ">="): return C(1)
    if a == b and op in ("!=", "<", ">"): return C(0)
    if op in (">", ">="):       # canonical direction
        op, a, b = SWAPREL[op], b, a
    if op in COMM and repr(b) < repr(a): a, b = b, a
    return ("op", op, a, b)

def mknot(v):
    if isC(v) and isinstance(v[1], (int, float)): return C(int(not v[1]))
    if v[0] == "not": return v[1]
    if v[0] == "op" and v[1] in NEGREL: return mkop(NEGREL[v[1]], v[2], v[3])
    return ("not", v)

class Interp:
    max_states = 400
    max_depth = 12
    def __init__(self, P):
        self.P = P
        self.depth = 0
        self.stack = []
        self.uid = 0
    # ---- client hooks
    def inline(self, call, tgt, st): return False
    def on_call(self, call, args, st):
        """return list of (value, state) or list with ('throw', st) markers, or None for default"""
        return None
    def on_throw(self, n, st): pass
    def on_read(self, key, st, n): return None
    def fn(self): return self.stack[-1] if self.stack else None
    # ---- helpers
    def dedupe(self, outs):
        seen = {}; res = []
        for o in outs:
            k = (o[0], o[1].key() if isinstance(o[1], State) else o[1], o[2] if len(o) > 2 else None)
            if k in seen: continue
            seen[k] = 1; res.append(o)
        if len(res) > self.max_states: raise Limit()
        return res
    # ---- statements: outcomes (kind, state, value)
    def exec(self, n, st):
        if n is None: return [("next", st, None)]
        m = getattr(self, "s_" + n["k"], None)
        if m: return m(n, st)
        out = []
        for v, s in self.eval(n, st):
            out.append(("throw", s, v) if v == "throw" else ("next", s, None))
        return self.dedupe(out)
    def seq(self, stmts, st):
        cur = [st]; out = []
        for x in stmts:
            nxt = []
            for s in cur:
                for o in self.exec(x, s):
                    if o[0] == "next": nxt.append(o)
                    else: out.append(o)
            cur = [o[1] for o in self.dedupe(nxt)]
            if not cur: break
        out += [("next", s, None) for s in cur]
        return self.dedupe(out)
    def s_Block(self, n, st): return self.scope_exit(n, self.seq(n["c"], st))
    def scope_exit(self, n, outs):
        """run destructors of project classes declared in this block (reverse order), on every kind of exit"""
        vs = [v for d in n["c"] if d.get("k") == "Decl" for v in d["c"] if v.get("k") == "Var"]
        for v in reversed(vs):
            d = self.dtor_of(v)
            if d is None: continue
            k = ("v", v["d"])
            new = []
            for o in outs:
                if k not in o[1].env and not any(prefix(x, k) for x in o[1].env): new.append(o); continue
                s = o[1].copy(); saved = s.env.get(("this*",)); s.env[("this*",)] = k
                self.stack.append(d); self.depth += 1
                try: r = self.exec(d.body, s)
                finally: self.stack.pop(); self.depth -= 1
                for o2 in r:
                    s2 = o2[1].copy()
                    if saved is None: s2.env.pop(("this*",), None)
                    else: s2.env[("this*",)] = saved
                    new.append((o[0] if o2[0] != "throw" else "throw", s2, o[2]))
            outs = self.dedupe(new)
        return outs
    raii = False
    def dtor_of(self, v):
        if not self.raii: return None
        if not hasattr(self.P, "_dtors"):
            self.P._dtors = {f.clst or f.cls: f for f in self.P.funcs.values() if f.kind == "dtor"}
        t = (v.get("t") or "").replace("const ", "").strip()
        return self.P._dtors.get(t)
    def construct_inplace(self, n, key, st):
        """in-place construction of a project object by its analysed constructor"""
        f = self.P.funcs.get(n.get("f"))
        out = []
        cur = [((), st)]
        for p, a in zip(f.params, n["a"]):
            byref = (p.get("t") or "").rstrip().endswith("&"); nxt = []
            for vs, s in cur:
                for x, s2 in (self.lval(a, s) if byref else self.eval(a, s)):
                    if x == "throw": out.append(("throw", s2, None)); continue
                    nxt.append((vs + ((("lv", x) if byref else x),), s2))
            cur = nxt
        for vs, s in cur:
            s = s.copy(); saved = s.env.get(("this*",)); s.env[("this*",)] = key
            s.env[key] = ("inplace", f.cls)
            for p, a in zip(f.params, vs):
                s.env[("v", p["d"])] = ("ref", a[1]) if a[0] == "lv" else a
            self.stack.append(f); self.depth += 1
            flds = {x["n"]: x.get("t") or "" for x in (self.P.records.get(f.clst or f.cls) or {}).get("fl", [])}
            sts = [("next", s, None)]
            try:
                for ini in f.inits:
                    nm = ini.get("n"); src = ini.get("v")
                    if not nm or src is None: continue
                    nx = []
                    for o in sts:
                        if o[0] != "next": nx.append(o); continue
                        if flds.get(nm, "").rstrip().endswith("&"):
                            for k2, s2 in self.lval(src, o[1]):
                                if k2 == "throw": nx.append(("throw", s2, None)); continue
                                s2 = s2.copy(); s2.env[("f", key, nm)] = ("ref", k2); nx.append(("next", s2, None))
                        else:
                            for v2, s2 in self.eval(src, o[1]):
                                if v2 == "throw": nx.append(("throw", s2, None)); continue
                                s2 = s2.copy(); s2.env[("f", key, nm)] = v2; nx.append(("next", s2, None))
                    sts = nx
                fin = []
                for o in sts: fin += self.exec(f.body, o[1]) if o[0] == "next" else [o]
            finally: self.stack.pop(); self.depth -= 1
            for o in fin:
                s2 = o[1].copy()
                if saved is None: s2.env.pop(("this*",), None)
                else: s2.env[("this*",)] = saved
                out.append(("throw" if o[0] == "throw" else "next", s2, None))
        return self.dedupe(out)
    def s_Decl(self, n, st): return self.seq(n["c"], st)
    def s_Var(self, n, st):
        k = ("v", n["d"])
        if n.get("i") is None:
            return [("next", st.set(k, self.default_init(n, st)), None)]
        t = n.get("t") or ""
        out = []
        if self.raii and self.dtor_of(n) is not None:
            c = n["i"]
            while c.get("k") in ("ICast", "Cast", "Bind") and c.get("c"): c = c["c"][0]
            if c.get("k") == "Ctor" and not c.get("cp") and self.P.funcs.get(c.get("f")) is not None:
                return self.construct_inplace(c, k, st)
        if t.rstrip().endswith("&"):
            for key, s in self.lval(n["i"], st):
                if key == "throw": out.append(("throw", s, None)); continue
                s = s.copy(); s.env[k] = ("ref", key); out.append(("next", s, None))
            return self.dedupe(out)
        for v, s in self.eval(n["i"], st):
            out.append(("throw", s, None) if v == "throw" else ("next", s.set(k, v), None))
        return self.dedupe(out)
    def default_init(self, n, st): return ("uninit", n["d"])
    def s_Bind(self, n, st): return [("next", st, None)]
    def s_If(self, n, st):
        if n.get("cx") is not None and n["cond"].get("k") in ("Bool", "Int"):
            pass
        pre = [("next", st, None)]
        if n.get("init"): pre = self.exec(n["init"], st)
        if n.get("cv"):
            pre = [o2 for o in pre for o2 in (self.exec(n["cv"], o[1]) if o[0] == "next" else [o])]
        out = []
        for o in pre:
            if o[0] != "next": out.append(o); continue
            for b, s in self.cond(n["cond"], o[1]):
                if b == "throw": out.append(("throw", s, None)); continue
                out += self.exec(n.get("then") if b else n.get("else"), s)
        return self.dedupe(out)
    def assigned(self, n):
        """storage roots syntactically assigned in n"""
        out = set()
        for x in walk(n):
            k = x.get("k")
            if (k == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=")): out.add(self.rootd(x["c"][0]))
            elif k == "Un" and x["op"] in ("++", "--"): out.add(self.rootd(x["c"][0]))
            elif k == "OCall" and x.get("a") and (x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") or x["op"] in ("++", "--")):
                out.add(self.rootd(x["a"][0]))
            elif k in ("Var",): out.add(("v", x["d"]))
            elif k in ("Call", "MCall", "Ctor") and x.get("pm"):
                for a, p in zip(x["a"], x["pm"]):
                    if p in ("r", "p"): out.add(self.rootd(a))
                if k == "MCall" and not x.get("cst"): out.add(self.rootd(x.get("o")))
            if k == "MCall" and not x.get("cst"):
                out.add(self.rootd(x.get("o")))
                if strip(x.get("o") or {}).get("k") == "This" and x.get("inproj"):
                    for t in self.P.targets(x, self.fn()):
                        out |= {("f", ("this",), m) for m in modset(self.P, t)}
        out.discard(None)
        return out
    def rootd(self, n):
        n = strip(n)
        elt = lambda r: r
        while n is not None:
            k = n.get("k")
            if k == "Ref": return elt(("v", n["d"]))
            if k == "Mem":
                b = n["c"][0]
                if strip(b).get("k") == "This": return elt(("f", ("this",), n["n"]))
                n = strip(b)
            elif k == "Sub":
                n = strip(n["c"][0]); elt = lambda r: ("elt", r)
            elif k == "OCall":
                if n.get("op") == "->": return None
                if n.get("op") in ("[]", "()"): elt = lambda r: ("elt", r)
                n = strip(n["a"][0])
            elif k == "MCall": n = strip(n.get("o"))
            elif k == "Un" and n["op"] in ("*", "&"): n = strip(n["c"][0])
            else: return None
        return None
    def havoc(self, st, roots, tag):
        s = st.copy()
        rs = set()
        for r in [r for r in roots if r[0] == "elt"]:
            b = r[1]
            if b in roots: continue
            v = s.env.get(b)
            if v and v[0] == "ref": b = v[1]; v = s.env.get(b)
            for k in [k for k in s.env if prefix(k, b)]: del s.env[k]
            s.env[b] = v if v is not None and v[0] == "upd" else ("upd", v if v is not None else ("was", b))
        for r in roots:
            if r[0] == "elt": continue
            v = s.env.get(r)
            rs.add(v[1] if v and v[0] == "ref" else r)
            if v and v[0] == "ref": continue
        for k in list(s.env):
            r = k
            while isinstance(r, tuple) and r[0] in ("f", "e") and r not in rs: r = r[1]
            if r in rs:
                if k in rs: s.env[k] = ("hv", tag, k)
                else: del s.env[k]
        for r in rs: s.env.setdefault(r, ("hv", tag, r))
        # facts about havocked symbols
        for c in list(s.facts):
            if mentions(c, tag): del s.facts[c]
        return s
    skip_loops = False
    def loop(self, n, st, cond, body, inc, post=False, headvar=None):
        roots = set()
        if self.skip_loops:
            for x in (cond, body, inc):
                if x is not None: roots |= self.assigned(x)
            tk = self.thiskey(st)
            roots = {rethis(r, tk) for r in roots}
            return [("next", self.havoc(st, roots, (n["l"], self.depth, "loop")), None)]
        for x in (cond, body, inc):
            if x is not None: roots |= self.assigned(x)
        tag = (n["l"], self.depth, self.fn().id if self.fn() else "")
        tk = self.thiskey(st)
        roots = {rethis(r, tk) for r in roots}
        out = []
        seen = set(); work = [self.havoc(st, roots, tag)]
        if post:
            # do-while: first iteration unconditionally
            pass
        while work:
            h = work.pop()
            if h.key() in seen: continue
            seen.add(h.key())
            if len(seen) > self.max_states: raise Limit()
            starts = []
            if cond is not None and not post:
                for b, s in self.cond(cond, h):
                    if b == "throw": out.append(("throw", s, None))
                    elif b: starts.append(s)
                    else: out.append(("next", s, None))
            else:
                starts.append(h)
                if cond is None and headvar: out.append(("next", h, None))
            for s in starts:
                for o in self.exec(body, s):
                    if o[0] in ("next", "continue"):
                        ends = self.exec(inc, o[1]) if inc is not None else [("next", o[1], None)]
                        for e in ends:
                            if e[0] != "next": out.append(e); continue
                            es = [e[1]]
                            if post:
                                es = []
                                for b, s2 in self.cond(cond, e[1]):
                                    if b == "throw": out.append(("throw", s2, None))
                                    elif b: es.append(s2)
                                    else: out.append(("next", s2, None))
                            for s2 in es: work.append(self.havoc(s2, roots, tag))
                    elif o[0] == "break": out.append(("next", o[1], None))
                    else: out.append(o)
        return self.dedupe(out)
    def s_For(self, n, st):
        out = []
        for o in self.exec(n.get("init"), st):
            if o[0] != "next": out.append(o); continue
            out += self.loop(n, o[1], n.get("cond"), n.get("body"), n.get("inc"))
        return self.dedupe(out)
    def s_While(self, n, st): return self.loop(n, st, n.get("cond"), n.get("body"), None)
    def s_Do(self, n, st): return self.loop(n, st, n.get("cond"), n.get("body"), None, post=True)
    def s_ForRange(self, n, st):
        out = []
        for v, s in self.eval(n["range"], st):
            if v == "throw": out.append(("throw", s, None)); continue
            d = (n["var"] or {}).get("d")
            if d is not None: s = s.set(("v", d), ("elem", v, n["l"]))
            body = {"k": "Block", "l": n["l"], "c": [n["body"]]}
            out += self.loop(n, s, None, body, None, headvar=True)
        return self.dedupe(out)
    def s_Switch(self, n, st):
        out = []
        for v, s in self.eval(n["cond"], st):
            if v == "throw": out.append(("throw", s, None)); continue
            body = n["body"]; items = body["c"] if body["k"] == "Block" else [body]
            # flatten case labels
            flat = []
            def fl(x):
                if x["k"] in ("Case", "Default"):
                    flat.append(("lab", x)); fl(x["body"]) if x.get("body") else None
                else: flat.append(("st", x))
            for x in items: fl(x)
            labs = [(i, x) for i, (t, x) in enumerate(flat) if t == "lab"]
            entries = []
            cur = s; hasdef = None; decided = False
            for i, x in labs:
                if x["k"] == "Default": hasdef = i; continue
                lv = self.eval(x["lhs"], cur)[0][0]
                c = mkop("==", v, lv)
                if isC(c):
                    if c[1]: entries.append((i, cur)); decided = True; break
                    continue
                f = cur.facts.get(c)
                if f is None:
                    entries.append((i, cur.fact(c, True))); cur = cur.fact(c, False)
                elif f: entries.append((i, cur)); decided = True; break
            if not decided:
                if hasdef is not None: entries.append((hasdef, cur))
                else: out.append(("next", cur, None))
            for i, es in entries:
                for o in self.seq([x for t, x in flat[i:] if t == "st"], es):
                    out.append(("next", o[1], None) if o[0] == "break" else o)
        return self.dedupe(out)
    def s_Case(self, n, st): return self.exec(n.get("body"), st)
    s_Default = s_Case
    def s_Return(self, n, st):
        if n.get("v") is None: return [("return", st, None)]
        fn = self.fn()
        out = []
        for v, s in self.eval(n["v"], st):
            out.append(("throw", s, None) if v == "throw" else ("return", s, v))
        return self.dedupe(out)
    def s_Break(self, n, st): return [("break", st, None)]
    def s_Continue(self, n, st): return [("continue", st, None)]
    def s_Throw(self, n, st):
        self.on_throw(n, st)
        return [("throw", st, None)]
    def s_Try(self, n, st):
        out = []
        for o in self.exec(n["body"], st):
            if o[0] == "throw":
                out.append(o)
                for h in n.get("h", []): out += self.exec(h.get("body"), o[1])
            else: out.append(o)
        return self.dedupe(out)
    def s_Null(self, n, st): return [("next", st, None)]
    def s_Omp(self, n, st): return self.exec(n.get("body"), st) if n.get("body") else [("next", st, None)]
    # ---- conditions
    def cond(self, n, st):
        n0 = n
        k = n.get("k")
        if k == "ICast" and n.get("ck") not in (None,) and n["c"]:
            x = n["c"][0]
            if x.get("k") in ("Bin", "Un", "Bool", "ICast"): return self.cond(x, st)
        if k == "Un" and n["op"] == "!":
            return [(b if b == "throw" else not b, s) for b, s in self.cond(n["c"][0], st)]
        if k == "Bin" and n["op"] in ("&&", "||"):
            out = []
            for b, s in self.cond(n["c"][0], st):
                if b == "throw": out.append((b, s))
                elif b == (n["op"] == "||"): out.append((b, s))
                else: out += self.cond(n["c"][1], s)
            return out
        out = []
        for v, s in self.eval(n, st):
            if v == "throw": out.append((v, s)); continue
            out += self.decide(v, s)
        return out
    def decide(self, v, s):
        neg = False
        while v[0] == "not": v = v[1]; neg = not neg
        if v[0] == "c" and isinstance(v[1], (int, float)): return [(bool(v[1]) != neg, s)]
        if v[0] == "op" and v[1] in ("!=",): v = ("op", "==") + v[2:]; neg = not neg
        if v[0] == "op" and v[1] == "<=":       # a<=b  ==  !(b<a)
            v = ("op", "<", v[3], v[2]); neg = not neg
        if v[0] == "op" and v[1] == "==" and isC(v[3]) and v[3][1] == 0 and False: pass
        f = s.facts.get(v)
        if f is not None: return [(f != neg, s)]
        return [(True, s.fact(v, not neg)), (False, s.fact(v, neg))]
    # ---- lvalues
    def lval(self, n, st):
        n1 = n
        while n1.get("k") in ("ICast", "Cast") and n1.get("ck") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "LValueBitCast", None) and n1.get("c"):
            n1 = n1["c"][0]
        n = n1
        k = n.get("k")
        if k == "Ref":
            key = ("v", n["d"]) if n.get("vk") in ("local", "param") else ("g", n.get("q") or n["n"])
            v = st.get(key)
            if v is not None and v[0] == "ref": return [(v[1], st)]
            return [(key, st)]
        if k == "Mem":
            b = n["c"][0]
            if strip(b).get("k") == "This":
                return [(self.fref(("f", self.thiskey(st), n["n"]), st), st)]
            if n.get("ar"):
                out = []
                for v, s in self.eval(b, st):
                    if v == "throw": out.append((v, s)); continue
                    out.append((self.fref(("f", v[1] if v[0] == "addr" else ("p", v), n["n"]), s), s))
                return out
            return [(self.fref(("f", key, n["n"]), s) if key != "throw" else key, s) for key, s in self.lval(b, st)]
        if k == "Sub" or (k == "OCall" and n["op"] in ("[]", "()") and n.get("a")):
            base = n["c"][0] if k == "Sub" else n["a"][0]
            idx = n["c"][1:] if k == "Sub" else n["a"][1:]
            while base.get("k") == "ICast" and base.get("ck") == "ArrayToPointerDecay": base = base["c"][0]
            out = []
            for key, s in self.lval(base, st):
                if key == "throw": out.append((key, s)); continue
                for vs, s2 in self.evals(idx, s):
                    if vs == "throw": out.append((vs, s2)); continue
                    out.append((("e", key, vs), s2))
            return out
        if k == "Un" and n["op"] == "*":
            out = []
            for v, s in self.eval(n["c"][0], st):
                out.append((v if v == "throw" else (v[1] if v[0] == "addr" else ("p", v)), s))
            return out
        if k == "Cond":
            out = []
            for b, s in self.cond(n["c"][0], st):
                if b == "throw": out.append((b, s)); continue
                out += self.lval(n["c"][1 if b else 2], s)
            return out
        if k == "This": return [(self.thiskey(st), st)]
        # rvalue: a temporary holding its value
        out = []
        for v, s in self.eval(n, st):
            if v == "throw": out.append((v, s)); continue
            out.append((v[1] if v[0] == "lref" else ("t", v), s))
        return out
    def fref(self, k, st):
        v = st.get(k)
        return v[1] if v is not None and v[0] == "ref" else k
    def thiskey(self, st): return st.get(("this*",)) or ("this",)
    def read(self, key, st, n=None):
        v = st.get(key)
        if v is not None and v[0] == "ref": return self.read(v[1], st, n)
        if v is not None: return v
        if key[0] == "t": return key[1]
        if key[0] in ("f", "e"):
            b = st.get(key[1])
            if key[0] == "f": return ("mem", self.read(key[1], st), key[2]) if key[1][0] != "this" else ("this", key[2])
            return ("idx", self.read(key[1], st), key[2])
        if key[0] == "v": return ("in", key[1])
        return ("sym", key)
    # ---- expressions: list of (value, state)
    def evals(self, ns, st):
        cur = [((), st)]; out = []
        for x in ns:
            nxt = []
            for vs, s in cur:
                for v, s2 in self.eval(x, s):
                    if v == "throw": out.append(("throw", s2))
                    else: nxt.append((vs + (v,), s2))
            cur = nxt
            if len(cur) > self.max_states: raise Limit()
        return cur + out
    def eval(self, n, st):
        m = getattr(self, "e_" + n["k"], None)
        if m: return m(n, st)
        ks = kids(n)
        out = []
        for vs, s in self.evals([x for x in ks if x.get("k") not in ("Lambda",)], st):
            out.append((vs if vs == "throw" else ("x", n["k"], n.get("l"), ) + (vs,), s))
        return out
    def e_Int(self, n, st):
        try: return [(C(int(n["v"])), st)]
        except ValueError: return [(("lit", n["v"]), st)]
    def e_Bool(self, n, st): return [(C(int(n["v"])), st)]
    def e_Char(self, n, st): return [(("lit", n["v"]), st)]
    def e_Flt(self, n, st):
        try: return [(C(float(n["v"])), st)]
        except ValueError: return [(("lit", n["v"]), st)]
    def e_Str(self, n, st): return [(C(n["v"]), st)]
    def e_Ref(self, n, st):
        if n.get("vk") == "enum" or n.get("ev") is not None: return [(("enum", n.get("q") or n["n"]), st)]
        if n.get("vk") in ("func", "method"): return [(("fun", n.get("q") or n["n"]), st)]
        return [(self.read(k, s, n), s) for k, s in self.lval(n, st)]
    def e_Mem(self, n, st):
        out = []
        for k, s in self.lval(n, st):
            out.append((k if k == "throw" else self.read(k, s, n), s))
        return out
    e_Sub = e_Mem
    def e_This(self, n, st): return [(("addr", self.thiskey(st)), st)]
    def e_ICast(self, n, st):
        if not n.get("c"): return [(("x",), st)]
        return [(self.cast(n, v) if v != "throw" else v, s) for v, s in self.eval(n["c"][0], st)]
    def cast(self, n, v): return v
    def e_Cast(self, n, st): return self.e_ICast(n, st)
    e_DefArg = e_ICast
    e_DefInit = e_ICast
    def e_Un(self, n, st):
        op = n["op"]
        if op == "!":
            return [(b if b == "throw" else C(int(b)), s) for b, s in self.cond(n, st)]
        if op == "&":
            return [(k if k == "throw" else ("addr", k), s) for k, s in self.lval(n["c"][0], st)]
        if op in ("++", "--"):
            out = []
            for k, s in self.lval(n["c"][0], st):
                if k == "throw": out.append((k, s)); continue
                v = self.read(k, s, n)
                nv = mkop(op[0], v, C(1))
                out.append((v if n.get("post") else nv, s.set(k, nv)))
            return out
        if op == "*":
            return [(k if k == "throw" else self.read(k, s, n), s) for k, s in self.lval(n, st)]
        out = []
        for v, s in self.eval(n["c"][0], st):
            if v == "throw": out.append((v, s)); continue
            if op == "-": v = C(-v[1]) if isC(v) and isinstance(v[1], (int, float)) else ("neg", v)
            elif op == "+": pass
            else: v = ("un", op, v)
            out.append((v, s))
        return out
    def e_Bin(self, n, st):
        op = n["op"]
        a, b = n["c"]
        if op in ("&&", "||"):
            return [(x if x == "throw" else C(int(x)), s) for x, s in self.cond(n, st)]
        if op == ",":
            out = []
            for v, s in self.eval(a, st):
                if v == "throw": out.append((v, s))
                else: out += self.eval(b, s)
            return out
        if op == "=" or (op.endswith("=") and op not in ("==", "!=", "<=", ">=")):
            out = []
            for v, s in self.eval(b, st):
                if v == "throw": out.append((v, s)); continue
                for k, s2 in self.lval(a, s):
                    if k == "throw": out.append((k, s2)); continue
                    nv = v if op == "=" else mkop(op[:-1], self.read(k, s2, a), v)
                    s3 = s2.set(k, nv)
                    out += self.on_assign(n, k, nv, s3)
            return out
        out = []
        for vs, s in self.evals([a, b], st):
            out.append((vs if vs == "throw" else mkop(op, vs[0], vs[1]), s))
        return out
    def on_assign(self, n, key, v, st): return [(v, st)]
    def e_Cond(self, n, st):
        out = []
        for b, s in self.cond(n["c"][0], st):
            if b == "throw": out.append((b, s)); continue
            out += self.eval(n["c"][1 if b else 2], s)
        return out
    def e_Lambda(self, n, st):
        k = (self.fn().id if self.fn() else "", n["l"], n.get("co", 0))
        if not hasattr(self, "lambdas"): self.lambdas = {}
        self.lambdas[k] = n
        return [(("lambda", k), st)]
    def call_lambda(self, lam, n, vs, s):
        """run a lambda body in the current environment (captures refer to the enclosing declarations)"""
        s = s.copy()
        for p, a in zip(lam.get("p") or [], vs):
            k = ("v", p["d"]); t = (p.get("t") or "").rstrip()
            if a[0] == "lv" and t.endswith("&"): s.env[k] = ("ref", a[1])
            else: s.env[k] = self.argval(a, s)
        self.depth += 1
        try: outs = self.exec(lam["body"], s)
        finally: self.depth -= 1
        return [("throw", o[1]) if o[0] == "throw" else (o[2] if o[2] is not None else C(0), o[1]) for o in outs]
    def e_Throw(self, n, st):
        self.on_throw(n, st)
        return [("throw", st)]
    def e_IList(self, n, st):
        return [(vs if vs == "throw" else ("list",) + vs, s) for vs, s in self.evals(n["c"], st)]
    def e_New(self, n, st):
        out = []
        for vs, s in self.evals(kids(n), st):
            out.append((vs if vs == "throw" else ("new", n["l"], n.get("t")) + vs, s))
        return out
    # calls
    def e_Call(self, n, st): return self.call(n, st)
    e_MCall = e_Call
    def e_OCall(self, n, st):
        op = n["op"]
        if op == "=" or (op.endswith("=") and op not in ("==", "!=", "<=", ">=")):
            tg = self.P.targets(n, self.fn())
            if not tg or not self.inline(n, tg[0], st):
                out = []
                for v, s in self.eval(n["a"][1], st):
                    if v == "throw": out.append((v, s)); continue
                    for k, s2 in self.lval(n["a"][0], s):
                        if k == "throw": out.append((k, s2)); continue
                        nv = v if op == "=" else mkop(op[:-1], self.read(k, s2, n), v)
                        out += self.on_assign(n, k, nv, s2.set(k, nv))
                return out
        if op == "()" and self.depth < self.max_depth:
            a0 = strip(n["a"][0])
            v0 = self.read(("v", a0["d"]), st) if a0.get("k") == "Ref" and a0.get("vk") in ("local", "param") else None
            if a0.get("k") == "Lambda": v0 = self.e_Lambda(a0, st)[0][0]
            if v0 is not None and v0[0] == "lambda" and v0[1] in getattr(self, "lambdas", {}):
                lam = self.lambdas[v0[1]]
                cur = [((), st)]; res = []
                for p, a in zip(lam.get("p") or [], n["a"][1:]):
                    nxt = []
                    byref = (p.get("t") or "").rstrip().endswith("&")
                    for vs, s in cur:
                        for x, s2 in (self.lval(a, s) if byref else self.eval(a, s)):
                            if x == "throw": res.append((x, s2)); continue
                            nxt.append((vs + ((("lv", x) if byref else x),), s2))
                    cur = nxt
                for vs, s in cur: res += self.call_lambda(lam, n, vs, s)
                return res
        if op in ("[]",) and not n.get("inproj"):
            out = []
            for k, s in self.lval(n, st): out.append((k if k == "throw" else self.read(k, s, n), s))
            return out
        return self.call(n, st)
    def e_Ctor(self, n, st):
        if n.get("cp") and len(n["a"]) == 1: return self.eval(n["a"][0], st)
        return self.call(n, st)
    def call(self, n, st):
        k = n["k"]
        argn = list(n.get("a", []))
        res = []
        objs = [(None, st)]
        if k == "MCall" and n.get("o") is not None:
            o = n["o"]
            if o.get("t", "") and (o["t"].rstrip().endswith("*")):
                objs = [(v if v == "throw" else (v[1] if v[0] == "addr" else ("p", v)), s) for v, s in self.eval(o, st)]
            else: objs = self.lval(o, st)
        for okey, s0 in objs:
            if okey == "throw": res.append(("throw", s0)); continue
            pm = n.get("pm", "") or ""
            off = 1 if (k == "OCall" and len(pm) == len(argn) - 1) else 0
            cur = [((), s0)]
            for i, a in enumerate(argn):
                m = pm[i - off] if 0 <= i - off < len(pm) else "v"
                nxt = []
                for vs, s in cur:
                    if m in ("r", "c") or (off and i == 0):
                        for key, s2 in self.lval(a, s):
                            if key == "throw": res.append((key, s2)); continue
                            nxt.append((vs + (("lv", key),), s2))
                    else:
                        for v, s2 in self.eval(a, s):
                            if v == "throw": res.append((v, s2)); continue
                            nxt.append((vs + (v,), s2))
                cur = nxt
                if len(cur) > self.max_states: raise Limit()
            for vs, s in cur:
                r = self.on_call(n, okey, vs, s)
                if r is not None: res += r; continue
                tg = self.P.targets(n, self.fn())
                if len(tg) == 1 and self.depth < self.max_depth and tg[0] not in self.stack and self.inline(n, tg[0], s):
                    res += self.do_inline(n, tg[0], okey, vs, s)
                    continue
                res += self.default_call(n, okey, vs, s, pm, off)
        return res
    def argval(self, a, s): return self.read(a[1], s) if a[0] == "lv" else a
    def default_call(self, n, okey, vs, s, pm, off):
        # opaque call: value is a term of its inputs; mutable arguments become unknown
        vals = tuple(self.argval(a, s) for a in vs)
        ov = (self.read(okey, s),) if okey is not None else ()
        name = n.get("q") or n.get("n") or n.get("op") or "?"
        if n["k"] == "OCall" and n.get("op") and n["op"] not in ("()", "[]", "<<", ">>") and len(vals) == 2: v = mkop(n["op"], vals[0], vals[1])
        else: v = ("call", name) + ov + vals
        s2 = s
        tag = (n["l"], "call", name)
        for i, a in enumerate(vs):
            m = pm[i - off] if 0 <= i - off < len(pm) else "v"
            if a[0] == "lv" and m == "r" and a[1][0] != "t":
                s2 = self.havoc(s2, {a[1]}, tag + (i,))
            elif a[0] == "addr" and m == "p":
                s2 = self.havoc(s2, {a[1]}, tag + (i,))
        if okey is not None and not n.get("cst") and okey[0] != "t" and n["k"] == "MCall" and not n.get("stat"):
            tg = self.P.targets(n, self.fn())
            if tg and n.get("inproj"):
                roots = {("f", okey, fld) for t in tg for fld in modset(self.P, t)}
            else: roots = {okey}
            s2 = self.havoc(s2, roots, tag + ("o",))
        return [(v, s2)]
    def do_inline(self, n, f, okey, vs, s):
        s = s.copy()
        saved = s.env.get(("this*",))
        if okey is not None: s.env[("this*",)] = okey
        off = 1 if n["k"] == "OCall" and len(vs) == len(f.params) + 1 else 0
        if off: s.env[("this*",)] = vs[0][1]
        for p, a in zip(f.params, vs[off:]):
            k = ("v", p["d"])
            t = (p.get("t") or "").rstrip()
            if a[0] == "lv" and t.endswith("&"): s.env[k] = ("ref", a[1])
            else: s.env[k] = self.argval(a, s)
        self.stack.append(f); self.depth += 1
        try:
            outs = self.exec(f.body, s)
        finally:
            self.stack.pop(); self.depth -= 1
        res = []
        for o in outs:
            s2 = o[1].copy()
            if saved is None: s2.env.pop(("this*",), None)
            else: s2.env[("this*",)] = saved
            if o[0] == "throw": res.append(("throw", s2))
            else: res.append((o[2] if o[2] is not None else C(0), s2))
        return res
    # ---- entry
    def run(self, f, st):
        self.stack = [f]; self.depth = 0
        outs = self.exec(f.body, st)
        return [("return" if o[0] == "next" else o[0], o[1], o[2]) for o in outs]

_mods = {}
def modset(P, f, seen=None):
    """fields of *this a method may modify (syntactic, through calls on this)"""
    if f.id in _mods: return _mods[f.id]
    if seen is None: seen = set()
    if f.id in seen: return set()
    seen.add(f.id)
    out = set()
    dummy = Interp(P)
    for r in dummy.assigned(f.body):
        if r[0] == "elt": r = r[1]
        if r[0] == "f" and r[1] == ("this",): out.add(r[2])
    for x in walk(f.body):
        if x.get("k") == "MCall" and strip(x.get("o") or {}).get("k") == "This":
            for t in P.targets(x, f): out |= modset(P, t, seen)
        elif x.get("k") == "OCall" and x.get("op") == "=" and x.get("a") and strip(x["a"][0]).get("k") == "Un":
            pass
    if len(seen) == 1 or True:
        if not any(1 for _ in ()): pass
    _mods[f.id] = out
    return out

class ObjInterp(Interp):
    """Adds value-level objects: ('obj', ctor-id, args); fields are obtained by
    analysing the constructor on those arguments."""
    max_depth = 20
    skip_loops = True
    def __init__(self, P):
        super().__init__(P)
        self.memo = {}
    def inline(self, call, tgt, st):
        return tgt.const or tgt.file.endswith(".h") and len(tgt.params) <= 4
    def on_call(self, n, okey, vs, s):
        q = n.get("q") or ""; nm = n.get("n")
        if q.startswith(("std::shared_ptr", "std::__shared_ptr", "std::unique_ptr")):
            if n["k"] == "Ctor" and len(vs) == 1: return [(self.argval(vs[0], s), s)]
            if n["k"] == "OCall" and n.get("op") in ("->", "*"): return [(self.argval(vs[0], s), s)]
            if nm == "get": return [(self.read(okey, s), s)]
        if nm == "copy" and n.get("virt") and n["k"] == "MCall" and all(self.is_clone(t) for t in self.P.targets(n, self.fn()) if t.name == "copy"):
            return [(("addr", okey), s)]
        if nm in ("resize", "setZero", "conservativeResize") and n["k"] == "MCall" and len(vs) == 1 and not n.get("inproj"):
            return [(C(0), s.set(okey, ("vec", self.argval(vs[0], s))))]
        if nm in ("Zero", "Ones") and n["k"] == "Call" and len(vs) == 1: return [(("vec", self.argval(vs[0], s)), s)]
        if n["k"] == "Ctor" and len(vs) == 1 and not n.get("inproj") and q.startswith("Eigen::Matrix") and n["a"][0].get("t") in ("int", "long", "unsigned long"):
            return [(("vec", self.argval(vs[0], s)), s)]
        if nm in ("reverse", "eval") and n["k"] == "MCall" and okey is not None:
            return [(("upd", self.read(okey, s)), s)]
        if nm == "size" and n["k"] == "MCall" and okey is not None:
            v = self.read(okey, s)
            while v[0] == "upd": v = v[1]
            if v[0] == "vec": return [(v[1], s)]
        return None
    def is_clone(self, f):
        r = [x for x in walk(f.body) if x.get("k") == "Return"]
        return len(r) == 1 and any(x.get("k") == "New" for x in walk(r[0])) and any(x.get("k") == "This" for x in walk(r[0]))
    def getter(self, m, obj):
        """possible values of a constant nullary method on an object value"""
        st = State(); st.env[("this*",)] = ("t", obj)
        self.stack = [m]; self.depth = 0
        return [o[2] for o in self.exec(m.body, st) if o[0] == "return"]
    def ctor_of(self, n):
        f = self.P.funcs.get(n.get("f")) if n.get("f") else None
        return f
    def e_Ctor(self, n, st):
        if n.get("cp") and len(n["a"]) == 1: return self.eval(n["a"][0], st)
        f = self.ctor_of(n)
        if f is None: return self.call(n, st)
        out = []
        for vs, s in self.evals(n["a"], st):
            out.append((vs if vs == "throw" else ("obj", f.id) + vs, s))
        return out
    def e_New(self, n, st):
        c = [x for x in kids(n) if x.get("k") == "Ctor"]
        if c:
            return [(v if v == "throw" else ("addr", ("t", v)), s) for v, s in self.e_Ctor(c[0], st)]
        return super().e_New(n, st)
    def read(self, key, st, n=None):
        v = st.get(key)
        if v is None and key[0] == "f":
            bv = self.objval(key[1], st)
            if bv is not None and bv[0] == "obj":
                return self.field(bv, key[2])
        return super().read(key, st, n)
    def objval(self, key, st):
        if key[0] == "t": return key[1]
        if key[0] == "p": return key[1]
        if key[0] in ("this", "o"): return None
        return self.read(key, st)
    def field(self, obj, name):
        k = (obj, name)
        if k in self.memo: return self.memo[k]
        self.memo[k] = ("fieldof", obj, name)
        env = self.construct(obj)
        v = env.get(name) if env else None
        self.memo[k] = v if v is not None else ("fieldof", obj, name)
        return self.memo[k]
    def construct(self, obj):
        k = ("env", obj)
        if k in self.memo: return self.memo[k]
        f = self.P.funcs[obj[1]]
        st = State()
        self.nobj = getattr(self, "nobj", 0) + 1
        me = ("o", self.nobj)
        st.env[("this*",)] = me
        for p, a in zip(f.params, obj[2:]): st.env[("v", p["d"])] = a
        save = (self.stack, self.depth)
        self.stack = [f]; self.depth = 0
        res = {}
        try:
            for ini in f.inits:
                nm = ini.get("n") if ini.get("k") in ("Init", "MemInit", None) or ini.get("n") else None
                src = ini.get("v") or (ini.get("c") or [None])[0] or ini.get("i")
                if nm and src is not None:
                    r = [x for x in self.eval(src, st) if x[0] != "throw"]
                    if r: st = r[0][1].set(("f", me, nm), r[0][0])
                elif src is not None:       # base class
                    r = [x for x in self.eval(src, st) if x[0] != "throw"]
                    if r and r[0][0][0] == "obj":
                        for fn, fv in (self.construct(r[0][0]) or {}).items(): st = st.set(("f", me, fn), fv)
            outs = [o for o in self.exec(f.body, st) if o[0] in ("next", "return")]
            vals = {}
            for o in outs:
                for kk, v in o[1].env.items():
                    if kk[0] == "f" and kk[1] == me: vals.setdefault(kk[2], set()).add(v)
            res = {fn: (next(iter(v)) if len(v) == 1 else ("phi",) + tuple(sorted(v, key=repr))) for fn, v in vals.items()}
        except Limit:
            res = {}
        self.stack, self.depth = save
        self.memo[k] = res
        return res
def mentions(v, tag):
    if isinstance(v, tuple):
        if len(v) >= 2 and v[0] == "hv" and v[1] == tag: return True
        return any(mentions(x, tag) for x in v)
    return False

def subterms(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple): yield from subterms(x)
