"""Merged, resolved view of the whole program (all translation units)."""
import extract
from extract import AnalysisBroken

CHILD_KEYS = ("init", "cv", "cond", "then", "else", "inc", "var", "range", "body", "lhs", "v", "i", "fn", "o")
LIST_KEYS = ("c", "a", "h", "p", "ini")

class Node(dict):
    __slots__ = ("fn",)

def kids(n):
    """Direct child nodes in evaluation order (approximately)."""
    k = n.get("k")
    out = []
    for key in CHILD_KEYS:
        v = n.get(key)
        if isinstance(v, dict):
            out.append(v)
    for key in LIST_KEYS:
        v = n.get(key)
        if isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    out.append(x)
    return out

def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        ks = kids(x)
        ks.reverse()
        st.extend(ks)

class Func:
    def __init__(self, d, tu, files, key):
        self.d = d
        self.tu = tu
        self.id = key
        self.q = d["q"]
        self.name = d["n"]
        self.file = files[d["fi"]]
        self.line = d["l"]
        self.line_end = d.get("le", 0)
        self.body = d["body"]
        self.params = d["p"]
        self.cls = d.get("cls")
        self.clst = d.get("clst")
        self.rt = d.get("rt")
        self.kind = d.get("fk", "fn")
        self.const = bool(d.get("cst"))
        self.static = bool(d.get("stat"))
        self.inits = d.get("ini", [])
        self.targs = d.get("ta", [])
        self.overrides = d.get("ov", [])
        self.virtual = bool(d.get("virt"))
        self.acc = d.get("acc")
        self.inst = bool(d.get("inst"))
    def loc(self, n=None):
        return "%s:%d" % (self.file, (n or {}).get("l", self.line) if n is not None else self.line)
    def walk(self):
        for i in self.inits:
            yield from walk(i)
        yield from walk(self.body)
    def __repr__(self):
        return "<Func %s %s:%d>" % (self.q, self.file, self.line)

def _resolve(n, types, off, fileoff=None):
    """Replace type indices by strings and make decl ids unique per TU."""
    st = [n]
    while st:
        x = st.pop()
        for key in ("t", "dt", "rt", "ct", "at", "clst", "base"):
            v = x.get(key)
            if isinstance(v, int):
                x[key] = types[v] if v >= 0 else None
        for key in ("d", "of"):
            v = x.get(key)
            if isinstance(v, int):
                x[key] = v + off
        st.extend(kids(x))
        if x.get("k") == "Clause":
            for y in x.get("v") or []:
                if isinstance(y, dict):
                    st.append(y)
        for key in ("cap", "cl", "fl", "m"):
            for y in x.get(key, []) or []:
                if isinstance(y, dict):
                    st.append(y)

class Program:
    def __init__(self, res):
        self.tus = res["tus"]
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.split = set()
        off = 0
        gdecl = {}      # qualified global -> canonical
        for tu, d in res["data"]:
            off += 10_000_000
            types, files = d["types"], d["files"]
            for f in d["funcs"]:
                key = f["f"]
                if key in self.funcs and self.funcs[key].file != files[f["fi"]]:
                    # internal linkage (or main): same name, different file
                    key = f["f"] + "@" + files[f["fi"]]
                    self.split.add(f["f"])
                if key in self.funcs:
                    continue
                _resolve(f, types, off)
                self.funcs[key] = Func(f, tu, files, key)
            for r in d["records"]:
                _resolve(r, types, off)
                r["file"] = files[r["fi"]]
                r["b"] = [types[b] for b in r["b"]]
                self.records.setdefault(r["t"], r)
            for g in d["globals"]:
                _resolve(g, types, off)
                g["file"] = files[g["fi"]]
                self.globals.setdefault((g["q"], g["file"]), g)
            for e in d["enums"]:
                self.enums.setdefault(e["q"], e["e"])
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f.q, []).append(f)
        # virtual dispatch: base method id -> overriding method ids
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.overrides:
                self.overriders.setdefault(o, set()).add(f.id)
        for r in self.records.values():
            for m in r["m"]:
                for o in m.get("ov", []):
                    self.overriders.setdefault(o, set()).add(m["f"])
        ch = True
        while ch:
            ch = False
            for b, s in self.overriders.items():
                for o in list(s):
                    for o2 in self.overriders.get(o, ()):
                        if o2 not in s:
                            s.add(o2); ch = True
    def targets(self, call, caller=None):
        """Project functions a call node may reach."""
        f = call.get("f")
        if not f:
            return []
        if f in self.split and caller is not None and f + "@" + caller.file in self.funcs:
            return [self.funcs[f + "@" + caller.file]]
        out = []
        if f in self.funcs:
            out.append(self.funcs[f])
        if call.get("virt"):
            for o in sorted(self.overriders.get(f, ())):
                if o in self.funcs:
                    out.append(self.funcs[o])
        return out
    def find(self, q):
        return self.by_q.get(q, [])
    def in_file(self, rel):
        return [f for f in self.funcs.values() if f.file == rel]

_prog = None
def load():
    global _prog
    if _prog is None:
        _prog = Program(extract.facts())
    return _prog

# ---- small helpers -------------------------------------------------
def strip(n):
    """Look through casts, copies and default-argument wrappers."""
    while n is not None:
        k = n.get("k")
        if k in ("ICast", "DefArg", "DefInit") and n.get("c"):
            n = n["c"][0]
        elif k == "Cast" and n.get("c"):
            n = n["c"][0]
        elif k == "Ctor" and n.get("cp") and len(n.get("a", [])) == 1:
            n = n["a"][0]
        else:
            return n
    return n

def show(n, depth=0):
    """Readable rendering of an expression (for reports)."""
    if n is None:
        return ""
    k = n.get("k")
    if k in ("Ref",): return n["n"]
    if k == "Mem":
        b = n["c"][0]
        if b.get("k") == "This": return ("this->" if not b.get("im") else "") + n["n"]
        return show(b) + ("->" if n.get("ar") else ".") + n["n"]
    if k in ("Int", "Bool", "Char"): return str(n["v"])
    if k == "Flt": return n.get("mac") or n.get("sp") or n["v"]
    if k == "Str": return '"%s"' % n["v"]
    if k == "Un": return (show(n["c"][0]) + n["op"]) if n.get("post") else n["op"] + show(n["c"][0])
    if k == "Bin": return "%s %s %s" % (show(n["c"][0]), n["op"], show(n["c"][1]))
    if k == "Cond": return "%s ? %s : %s" % tuple(show(x) for x in n["c"])
    if k == "ICast": return show(n["c"][0])
    if k == "Cast": return "(%s)(%s)" % (n["wt"], show(n["c"][0]))
    if k in ("DefArg", "DefInit"): return show(n["c"][0])
    if k == "Call": return "%s(%s)" % (n.get("n") or show(n.get("fn")), ", ".join(show(x) for x in n["a"] if x.get("k") != "DefArg"))
    if k == "MCall": return "%s.%s(%s)" % (show(n.get("o")), n.get("n", "?"), ", ".join(show(x) for x in n["a"] if x.get("k") != "DefArg"))
    if k == "OCall":
        a = n["a"]
        if n["op"] == "()": return "%s(%s)" % (show(a[0]), ", ".join(show(x) for x in a[1:]))
        if n["op"] == "[]": return "%s[%s]" % (show(a[0]), show(a[1]))
        if len(a) == 2: return "%s %s %s" % (show(a[0]), n["op"], show(a[1]))
        return n["op"] + show(a[0])
    if k == "Ctor":
        if n.get("cp") and len(n["a"]) == 1: return show(n["a"][0])
        return "%s(%s)" % (n.get("n"), ", ".join(show(x) for x in n["a"]))
    if k == "Sub": return "%s[%s]" % (show(n["c"][0]), show(n["c"][1]))
    if k == "This": return "this"
    if k == "Lambda": return "[lambda]"
    if k == "IList": return "{%s}" % ", ".join(show(x) for x in n["c"])
    if k == "Null" or k == "Nullptr": return "nullptr"
    return "<%s>" % (n.get("sc") or k)
