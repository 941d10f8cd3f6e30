"""C04: checkpoint round trip: what is written under a name is what is read back."""
import program, flow
from program import *
from flow import *
from report import Check
import C05
from C05 import H5, OPEND, WM, FILE, sig

RULE = ("(A) For every value type with a write/read pair: the dataset's rank, extents and element type declared by the writer "
        "compose with those the reader checks and allocates to the identity on the value, and the reader rejects other ranks/classes. "
        "(B) Reading a basis back yields the constructor arguments it was written from, for symbolic arguments. "
        "(C) Every literal entry name a program reads is written somewhere, with a type that read accepts.")

NATIVE = {"H5T_NATIVE_INT_g": ("int", "INT"), "H5T_NATIVE_DOUBLE_g": ("double", "FLT"), "H5T_IEEE_F64LE_g": ("double", "FLT"),
          "H5T_NATIVE_LDOUBLE_g": ("long double", "FLT"), "H5T_NATIVE_HSIZE_g": ("unsigned long", "INT"), "H5T_NATIVE_HBOOL_g": ("bool", "INT"),
          "H5T_NATIVE_SCHAR_g": ("char", "INT"), "H5T_NATIVE_CHAR_g": ("char", "INT"), "H5T_NATIVE_UCHAR_g": ("unsigned char", "INT"),
          "H5T_NATIVE_ULLONG_g": ("unsigned long", "INT"), "H5T_NATIVE_ULONG_g": ("unsigned long", "INT"), "H5T_NATIVE_FLOAT_g": ("float", "FLT"),
          "H5T_NATIVE_UINT8_g": ("bool", "INT"), "H5T_NATIVE_INT64_g": ("long", "INT"), "H5T_NATIVE_LONG_g": ("long", "INT"),
          "H5T_NATIVE_UINT_g": ("unsigned int", "INT"), "H5T_NATIVE_SHORT_g": ("short", "INT")}

def tclass(t):
    """(container, element) of a parameter type"""
    t = (t or "").replace("const ", "").replace("&", "").strip()
    if "basic_string" in t or t == "std::string": return ("string", "char")
    m = None
    if "Eigen::Matrix" in t or "helfem::Mat" in t or "helfem::Vec" in t:
        e = "long double" if "long double" in t else "double" if "double" in t else "int" if "<int" in t or "Xi" in t else "?"
        vec = t.replace(" ", "").find("-1,1") >= 0 or "Vec" in t
        return ("vector" if vec else "matrix", e)
    if "std::vector" in t:
        e = "long double" if "long double" in t else "double" if "double" in t else "unsigned long" if "long" in t or "hsize" in t else "?"
        return ("stdvector", e)
    if t in ("unsigned long long", "unsigned long", "hsize_t"): t = "unsigned long"
    return ("scalar", t)

class IO(H5):
    """the typestate interpreter, additionally recording what is transferred"""
    def __init__(self, P):
        super().__init__(P, lambda *a: None)
        self.xfer = []
    def native(self, v):
        if isinstance(v, tuple) and v and v[0] == "tcopy": return v[1]
        for x in subterms(v):
            if isinstance(x, str): continue
        g = [x for x in subterms(v) if isinstance(x, tuple) and len(x) == 2 and x[0] == "g"]
        for x in g:
            if x[1] in NATIVE: return x[1]
        return None
    def on_call(self, n, okey, vs, s):
        q = n.get("q") or ""; nm = n.get("n")
        if n["k"] == "MCall" and not q.startswith("H5"):
            if nm in ("data", "c_str") and okey is not None: return [(("dptr", okey), s)]
            if nm in ("rows", "cols", "size", "length", "n_rows", "n_cols") and okey is not None:
                v = self.read(okey, s)
                nm2 = {"length": "size", "n_rows": "rows", "n_cols": "cols"}.get(nm, nm)
                if v[0] == "shaped": return [(v[1][0 if nm2 in ("rows", "size") else 1], s)]
                if v[0] == "col": return [(C(1) if nm2 == "cols" else ("ext", v[1], nm2), s)]
                return [(("ext", v, nm2), s)]
            if nm in ("resize", "setZero", "conservativeResize") and okey is not None and not n.get("inproj"):
                return [(C(0), s.set(okey, ("shaped", tuple(self.argval(a, s) for a in vs))))]
            if nm == "col" and okey is not None and len(vs) == 1: return [(("colof", self.read(okey, s), self.argval(vs[0], s)), s)]
        if q.startswith("Eigen::") and nm in ("Zero", "Ones", "Constant") and n["k"] == "Call":
            return [(("shaped", tuple(self.argval(a, s) for a in vs)), s)]
        if n["k"] == "Ctor" and q.startswith("Eigen::Matrix") and not n.get("inproj"):
            if len(vs) == 1:
                v = self.argval(vs[0], s)
                t = n["a"][0].get("t") or ""
                if "Eigen" in t or "helfem" in t: return [(v, s)]
                return [(("shaped", (v,)), s)]
            if len(vs) == 2: return [(("shaped", tuple(self.argval(a, s) for a in vs)), s)]
        if q in ("malloc", "calloc"): return [(("buf", self.argval(vs[0], s)), s)]
        if q == "free": return [(C(0), s)]
        if q == "H5Screate_simple":
            vals = [self.argval(a, s) for a in vs]
            r = super().on_call(n, okey, vs, s)
            return [(h, s2.gset(("rank", h), (vals[0], self.dims(n["a"][1], s2)))) for h, s2 in r]
        if q == "H5Screate":
            r = super().on_call(n, okey, vs, s)
            return [(h, s2.gset(("rank", h), (("scalar",), ()))) for h, s2 in r]
        if q == "H5Tcopy":
            vals = [self.argval(a, s) for a in vs]
            r = super().on_call(n, okey, vs, s)
            return [(h, s2.gset(("ty", h), self.native(vals[0]) or vals[0])) for h, s2 in r]
        if q in ("H5Dcreate2", "H5Dcreate1", "H5Dcreate"):
            vals = [self.argval(a, s) for a in vs]
            r = super().on_call(n, okey, vs, s)
            return [(h, s2.gset(("ds", h), (vals[1], s.ghost.get(("ty", vals[2])) or self.native(vals[2]), s.ghost.get(("rank", vals[3]))))) for h, s2 in r]
        if q in ("H5Dopen2", "H5Dopen1", "H5Dopen"):
            vals = [self.argval(a, s) for a in vs]
            r = super().on_call(n, okey, vs, s)
            return [(h, s2.gset(("ds", h), (vals[1],))) for h, s2 in r]
        if q in ("H5Dget_space", "H5Dget_type"):
            v = self.argval(vs[0], s)
            r = super().on_call(n, okey, vs, s)
            return [(h, s2.gset(("from", h), (q, v))) for h, s2 in r]
        if q in ("H5Tget_class", "H5Sget_simple_extent_ndims", "H5Sget_simple_extent_type"):
            v = self.argval(vs[0], s)
            f = s.ghost.get(("from", v))
            return [((q, f[1] if f else v), s)]
        if q == "H5Sget_simple_extent_dims":
            v = self.argval(vs[0], s); f = s.ghost.get(("from", v))
            a = strip(n["a"][1])
            while a.get("k") in ("ICast", "Cast"): a = a["c"][0]
            s2 = s
            if a.get("k") == "Ref": s2 = s.set(("v", a["d"]), ("dimsof", f[1] if f else v))
            else:
                k = self.lval(a, s)[0][0]
                if k != "throw" and k[0] != "t": s2 = s.set(k, ("dimsof", f[1] if f else v))
                else:
                    av = self.argval(vs[1], s)
                    if av[0] == "addr":
                        base = av[1][1] if av[1][0] == "e" else av[1]
                        s2 = s.set(base, ("dimsof", f[1] if f else v))
                    elif av[0] == "dptr": s2 = s.set(av[1], ("dimsof", f[1] if f else v))
            return [(("call", q), s2)]
        if q in ("H5Dwrite", "H5Dread"):
            vals = [self.argval(a, s) for a in vs]
            mt = s.ghost.get(("ty", vals[1])) or self.native(vals[1])
            ptr = vals[5]
            s0 = s
            if q == "H5Dread":
                tk = None
                if ptr[0] == "addr": tk = ptr[1][1] if ptr[1][0] == "e" else ptr[1]
                elif ptr[0] == "dptr": tk = ptr[1]
                if tk is not None:
                    cur = self.read(tk, s)
                    v0, tk0 = self.deref(tk, s)
                    s = s.set(tk0, ("dataread", vals[0], cur if cur[0] == "shaped" else ("scalar",), mt, n["l"]))
                elif ptr[0] == "buf":
                    s = s.gset(("bufdata", ptr), (vals[0], mt))
            else:
                src = None
                if ptr[0] == "addr": src = self.read(ptr[1][1] if ptr[1][0] == "e" else ptr[1], s), ("first" if ptr[1][0] == "e" else "whole"), ptr[1][2] if ptr[1][0] == "e" else None
                elif ptr[0] == "dptr": src = self.read(ptr[1], s), "whole", None
                s = s.gset("written", s.ghost.get("written", ()) + ((s.ghost.get(("ds", vals[0])), mt, src, n["l"]),))
            r = super().on_call(n, okey, vs, s)
            return r
        return super().on_call(n, okey, vs, s)
    def deref(self, k, s):
        v = s.get(k)
        while v is not None and v[0] == "ref": k = v[1]; v = s.get(k)
        return v, k
    def dims(self, a, s):
        a = strip(a)
        while a.get("k") in ("ICast", "Cast"): a = a["c"][0]
        if a.get("k") == "Un" and a["op"] == "&":
            a = strip(a["c"][0])
            if a.get("k") == "Ref": return (s.get(("v", a["d"])),)
            if a.get("k") in ("Sub", "OCall"): a = strip(kids(a)[0])
        if a.get("k") == "MCall" and a.get("n") == "data": a = strip(a["o"])
        while a.get("k") in ("ICast", "Cast"): a = a["c"][0]
        if a.get("k") != "Ref": return None
        base = ("v", a["d"])
        v = s.get(base)
        if v is not None and v[0] == "list": return tuple(v[1:])
        out = []
        for i in range(4):
            x = s.get(("e", base, (C(i),)))
            if x is None: break
            out.append(x)
        if not out and v is not None and v[0] == "init" : return None
        return tuple(out) or None

def accepted(s, dset):
    """what the reader established about the dataset on this path: (rank, class)"""
    rank = cls = None
    for c, b in s.facts.items():
        if not isinstance(c, tuple) or c[0] != "op" or c[1] != "==" or not b: continue
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if x == ("H5Sget_simple_extent_ndims", dset) and isC(y): rank = y[1]
            if x == ("H5Sget_simple_extent_type", dset) and y[0] == "enum" and y[1].endswith("H5S_SCALAR"): rank = 0
            if x == ("H5Tget_class", dset) and y[0] == "enum": cls = {"H5T_INTEGER": "INT", "H5T_FLOAT": "FLT"}.get(y[1].split("::")[-1], y[1])
    return rank, cls

def norm_ext(v):
    """extents: a pass-through vector has one column; conversions of an extent keep it"""
    return v

def io_pairs(C_, P):
    fs = [f for f in P.funcs.values() if f.cls == "Checkpoint"]
    def pick(pref): return {tclass(f.params[1]["t"]): f for f in fs if f.name in pref and len(f.params) == 2 and f.params[0]["t"].find("string") >= 0}
    W, R = {}, {}
    for f in fs:
        if len(f.params) == 2 and "string" in f.params[0]["t"]:
            if f.name == "write": W[tclass(f.params[1]["t"])] = f
            elif f.name == "read": R[tclass(f.params[1]["t"])] = f
    for tc in sorted(set(W) | set(R)):
        key = "%s<%s>" % tc
        C_.count("value_types")
        if tc not in W or tc not in R:
            f = W.get(tc) or R.get(tc)
            C_.violation("pair|" + key, "%s: values of type %s can be %s but not %s" % (f.loc(), key, "written" if tc in W else "read", "read" if tc in W else "written"))
            continue
        w, r = W[tc], R[tc]
        try:
            wd = writer(C_, P, w, tc, key)
            rd = reader(C_, P, r, tc, key)
        except Limit:
            C_.undecide("%s: too many paths" % key); continue
        if wd is None or rd is None: continue
        compose(C_, w, r, tc, key, wd, rd)

def start(open_, wm):
    st = State()
    st.env[OPEND] = C(open_); st.env[WM] = C(wm); st.env[FILE] = ("file0",) if open_ else ("fileinvalid",)
    st.ghost[("res", ("file0",))] = "open"
    return st

def writer(C_, P, f, tc, key):
    it = IO(P); it.home = f.file; it.top = f
    st = start(1, 1)
    par = ("v", f.params[1]["d"]); nm = ("v", f.params[0]["d"])
    st.env[par] = ("val",) if tc[0] != "vector" else ("col", ("val",)); st.env[nm] = ("name",)
    res = set()
    for kind, s, v in it.run(f, st):
        if kind == "throw": continue
        C_.count("paths")
        ws = s.ghost.get("written", ())
        if len(ws) != 1:
            C_.violation("write-count|" + key, "%s: a path through write(%s) returns having written %d datasets" % (f.loc(), key, len(ws))); return None
        res.add(ws[0])
    if not res: C_.undecide("%s: no normal path through the writer" % f.loc()); return None
    shapes = {(x[0], x[1], x[2]) for x in res}
    if len(shapes) > 1: C_.undecide("%s: several layouts written" % f.loc()); return None
    ds, mt, src, l = next(iter(res))
    if ds is None or ds[2] is None or mt is None or src is None: C_.undecide("%s: layout not resolved (%s)" % (f.loc(), (ds, mt, src))); return None
    name, ft, (rank, dims) = ds
    where = "%s:%d" % (f.file, l)
    nmv = name
    if not any(x == ("name",) for x in subterms(nmv)) and not any(x == nm for x in subterms(nmv)):
        C_.violation("write-name|" + key, "%s: write(%s) stores the value under a name that is not the one given" % (where, key)); return None
    if not any(x == ("val",) for x in subterms(src[0])):
        C_.violation("write-value|" + key, "%s: write(%s) stores something other than the value given (%s)" % (where, key, str(src[0])[:80])); return None
    if src[1] == "first" and src[2] and src[2][0] != C(0):
        C_.violation("write-offset|" + key, "%s: write(%s) does not start at the first element" % (where, key)); return None
    e = tc[1]
    if NATIVE.get(mt, (mt,))[0] != e and not (tc[0] == "string" and NATIVE.get(mt, (0,))[0] == "char"):
        C_.violation("write-memtype|" + key, "%s: elements of type %s are written as %s" % (where, e, mt)); return None
    if ft is not None and NATIVE.get(ft, (ft,))[0] != e:
        C_.violation("write-filetype|" + key, "%s: elements of type %s are stored as %s, which does not hold every value" % (where, e, ft)); return None
    val = src[0]
    if rank == ("scalar",): rank = C(0)
    if tc[0] != "scalar" and dims is None: C_.undecide("%s: extents not resolved" % where); return None
    if isC(rank) and rank[1] != len(dims or ()):
        C_.violation("write-rank|" + key, "%s: rank %s but %d extents" % (where, rank[1], len(dims or ()))); return None
    C_.sample({"writer": sig(f), "at": where, "rank": rank[1], "extents": [str(d) for d in dims or ()], "type": mt}, 40)
    return dict(rank=rank[1], dims=dims or (), ft=ft or mt, where=where, val=val)

def reader(C_, P, f, tc, key):
    it = IO(P); it.home = f.file; it.top = f
    st = start(1, 0)
    par = ("v", f.params[1]["d"]); nm = ("v", f.params[0]["d"])
    st.env[par] = ("old",); st.env[nm] = ("name",)
    res = []
    n = 0
    for kind, s, v in it.run(f, st):
        if kind == "throw": continue
        C_.count("paths"); n += 1
        res.append((s.get(par), s))
    if not res: C_.undecide("%s: no normal path through the reader" % f.loc()); return None
    out = None
    for val, s in res:
        buf = None
        if tc[0] == "string":
            g = [(k, x) for k, x in s.ghost.items() if isinstance(k, tuple) and k[0] == "bufdata"]
            if len(g) == 1 and any(x == g[0][0][1] for x in subterms(val)): buf = g[0]
        if buf: dset, mt = buf[1]; shape = buf[0][1][1]; col = None; l = f.line
        else:
            d = [x for x in subterms(val) if isinstance(x, tuple) and x and x[0] == "dataread"]
            if not d:
                if any(x == ("old",) for x in subterms(val)) or val == ("old",):
                    C_.violation("read-nothing|" + key, "%s: a path through read(%s) returns normally without having set the value" % (f.loc(), key)); return None
                C_.undecide("%s: value read not resolved: %s" % (f.loc(), str(val)[:100])); return None
            d = d[0]; dset, shape, mt, l = d[1], d[2], d[3], d[4]
            col = [x for x in subterms(val) if isinstance(x, tuple) and x and x[0] == "colof"]
        ds = s.ghost.get(("ds", dset))
        rank, cls = accepted(s, dset)
        onecol = any(isinstance(c, tuple) and c[0] == "op" and c[1] == "==" and b and C(1) in c[2:] and any(isinstance(z, tuple) and z[:1] == ("dimsof",) for z in subterms(c)) for c, b in s.facts.items())
        cur = dict(mt=mt, rank=rank, cls=cls, shape=shape, dset=dset, where="%s:%d" % (f.file, l), name=ds[0] if ds else None, nmkey=nm, onecol=onecol, col=col)
        if out is None: out = cur
        else:
            for k in ("mt", "rank", "cls", "shape"):
                if out[k] != cur[k]:
                    C_.undecide("%s: several layouts accepted" % f.loc()); return None
    return out

def compose(C_, w, r, tc, key, wd, rd):
    where = "%s <-> %s" % (wd["where"], rd["where"])
    C_.count("pairs_composed")
    nat = NATIVE.get(rd["mt"])
    if nat is None: C_.undecide("%s: element type of the reader not resolved" % rd["where"]); return
    if nat[0] != tc[1]:
        C_.violation("read-memtype|" + key, "%s: elements of type %s are read as %s" % (rd["where"], tc[1], rd["mt"])); return
    if not any(x == ("name",) or x == rd["nmkey"] for x in subterms(rd["name"] or ())):
        C_.violation("read-name|" + key, "%s: read(%s) opens a name that is not the one given" % (rd["where"], key)); return
    if rd["cls"] is not None and rd["cls"] != NATIVE.get(wd["ft"], (0, "?"))[1]:
        C_.violation("class|" + key, "%s: read(%s) rejects what write(%s) stores: class %s against %s" % (where, key, key, rd["cls"], wd["ft"])); return
    if rd["rank"] is None:
        C_.violation("rank-unchecked|" + key, "%s: read(%s) does not reject entries of another rank" % (rd["where"], key)); return
    if rd["rank"] != wd["rank"]:
        C_.violation("rank|" + key, "%s: written with rank %s, read as rank %s" % (where, wd["rank"], rd["rank"])); return
    # substitute the written extents into the allocated shape
    def sub(v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "idx" and v[1] == ("dimsof", rd["dset"]) and len(v[2]) == 1 and isC(v[2][0]):
                i = v[2][0][1]
                return wd["dims"][i] if 0 <= i < len(wd["dims"]) else ("bad",)
            return tuple(sub(x) if isinstance(x, tuple) else x for x in v)
        return v
    if tc[0] == "scalar": return
    val = wd["val"]
    if tc[0] in ("matrix", "vector"):
        if rd["shape"][0] != "shaped" or len(rd["shape"][1]) != 2: C_.undecide("%s: allocated shape not resolved" % rd["where"]); return
        got = tuple(sub(x) for x in rd["shape"][1])
        want = (("ext", ("val",), "rows"), ("ext", ("val",), "cols"))
        alt = {want, (("ext", ("val",), "rows"), C(1)), (("ext", ("val",), "size"), C(1))} if tc[0] == "vector" else {want}
        if got not in alt:
            C_.violation("shape|" + key, "%s: a rows x cols value is read back as %s" % (where, " x ".join(ppx(x) for x in got))); return
    elif tc[0] == "stdvector":
        if rd["shape"][0] != "shaped": C_.undecide("%s: allocated length not resolved" % rd["where"]); return
        got = tuple(sub(x) for x in rd["shape"][1][:1])
        if got != (("ext", ("val",), "size"),):
            C_.violation("length|" + key, "%s: n elements are read back as %s" % (where, ppx(got[0]))); return
    elif tc[0] == "string":
        d = wd["dims"][0]
        if d != ("op", "+", C(1), ("ext", ("val",), "size")) and d != mkop("+", ("ext", ("val",), "size"), C(1)):
            C_.violation("terminator|" + key, "%s: the terminating NUL is not stored with the string (extent %s)" % (where, ppx(d)))

def ppx(v):
    if isinstance(v, tuple):
        if v[0] == "c": return str(v[1])
        if v[0] == "ext": return v[2] + "()"
        if v[0] == "op": return "(%s %s %s)" % (ppx(v[2]), v[1], ppx(v[3]))
    return str(v)[:60]

# ---------------------------------------------------------------- (B) bases
class BasisIO(ObjInterp):
    store = None
    max_states = 400
    def inline(self, call, tgt, st):
        if tgt.cls == "Checkpoint" and tgt.name in ("open", "close", "exist", "remove"): return False
        return super().inline(call, tgt, st) or tgt.file.endswith("checkpoint.cpp")
    def on_call(self, n, okey, vs, s):
        q = n.get("q") or ""; nm = n.get("n")
        if q.startswith("Checkpoint::") and nm in ("open", "close"): return [(C(0), s)]
        if q == "Checkpoint::exist":
            kv = self.argval(vs[0], s)
            return [(C(int(self.store is not None and kv in self.store)), s)]
        if q == "Checkpoint::write" and len(vs) == 2:
            v = self.argval(vs[1], s)
            f = self.P.funcs.get(n.get("f"))
            tc = tclass(f.params[1]["t"]) if f else None
            return [(C(0), s.gset(("w", self.argval(vs[0], s)), (v, tc, n["l"])))]
        if q == "Checkpoint::read" and len(vs) == 2:
            kv = self.argval(vs[0], s)
            f = self.P.funcs.get(n.get("f"))
            tc = tclass(f.params[1]["t"]) if f else None
            self.reads.append((kv, tc, n["l"]))
            if kv not in self.store: return [(C(0), s.set(vs[1][1], ("missing", kv)))]
            return [(C(0), s.set(vs[1][1], self.store[kv][0]))]
        if n["k"] == "Ctor" and len(vs) == 1 and q.startswith(("Eigen::", "std::basic_string", "std::__cxx11")): return [(self.argval(vs[0], s), s)]
        if nm == "col" and n["k"] == "MCall" and len(vs) == 1 and self.argval(vs[0], s) == C(0): return [(self.read(okey, s), s)]
        if q.endswith("polynomial_basis::get_basis"):
            return [(("getbasis",) + tuple(self.argval(a, s) for a in vs), s)]
        return super().on_call(n, okey, vs, s)

def basis_roundtrip(C_, P):
    fs = [f for f in P.funcs.values() if f.cls == "Checkpoint" and len(f.params) == 1 and f.name in ("read", "write") and f.kind not in ("ctor",)]
    ws = {f.params[0]["t"].replace("const ", "").replace("&", "").strip(): f for f in fs if f.name == "write"}
    rs = {f.params[0]["t"].replace("const ", "").replace("&", "").strip(): f for f in fs if f.name == "read"}
    ids = {}
    stores = {}
    for t in sorted(set(ws) | set(rs)):
        if t not in ws or t not in rs:
            C_.violation("basis-pair|" + t, "%s can be %s a checkpoint but not %s" % (t, "written to" if t in ws else "read from", "read" if t in ws else "written")); continue
        w, r = ws[t], rs[t]
        # the constructor the reader uses
        cn = [x for x in walk(r.body) if x.get("k") == "Ctor" and not x.get("cp") and x.get("inproj") and (P.funcs.get(x.get("f")) is not None) and len(x["a"]) > 2 and (x.get("q") or "").endswith("::TwoDBasis") or x.get("k") == "Ctor" and not x.get("cp") and (x.get("q") or "").endswith("TwoDBasisT") and len(x["a"]) > 2]
        if not cn: C_.undecide("%s: no constructor call found in the reader" % r.loc()); continue
        f = P.funcs.get(cn[0].get("f"))
        if f is None: C_.undecide("%s: constructor body not found" % r.loc()); continue
        deflt = {i for i, a in enumerate(cn[0]["a"]) if a.get("k") == "DefArg"}
        pars = tuple(("par", i, p["n"]) for i, p in enumerate(f.params))
        obj = ("obj", f.id) + pars
        it = BasisIO(P); it.reads = []; it.store = {}
        st = start(1, 1)
        st.env[("v", w.params[0]["d"])] = obj
        try: outs = [o for o in it.run(w, st) if o[0] != "throw"]
        except Limit: C_.undecide("%s: too many paths" % w.loc()); continue
        stores_ = [{k[1]: v for k, v in o[1].ghost.items() if isinstance(k, tuple) and k[0] == "w"} for o in outs]
        if not stores_: C_.violation("basis-write|" + t, "%s: no path writes the basis" % w.loc()); continue
        common = {k: v for k, v in stores_[0].items() if all(s.get(k) == v for s in stores_)}
        stores[t] = common
        for s_ in stores_:
            for k in s_:
                if k not in common and isC(k): C_.violation("basis-cond|%s|%s" % (t, k[1]), "%s: entry \"%s\" is written on some paths only" % (w.loc(), k[1]))
        it2 = BasisIO(P); it2.reads = []; it2.store = common
        st = start(1, 0); st.env[("v", r.params[0]["d"])] = ("old",)
        try: outs = it2.run(r, st)
        except Limit: C_.undecide("%s: too many paths" % r.loc()); continue
        normal = [o for o in outs if o[0] != "throw"]
        C_.count("paths", len(outs))
        for kv, tc, l in it2.reads:
            C_.count("basis_entries_read")
            nm = kv[1] if isC(kv) else str(kv)
            if kv not in common:
                C_.violation("basis-missing|%s|%s" % (t, nm), "%s:%d: reads entry \"%s\", which writing the basis does not store" % (r.file, l, nm)); continue
            wt = common[kv][1]
            if wt and tc and wt != tc and not ({wt[0], tc[0]} <= {"matrix", "vector"} and wt[1] == tc[1]):
                C_.violation("basis-type|%s|%s" % (t, nm), "%s:%d: entry \"%s\" is written as %s<%s> but read as %s<%s>" % (r.file, l, nm, *wt, *tc))
        if not normal: C_.violation("basis-reject|" + t, "%s: reading back a basis just written always throws" % r.loc()); continue
        for o in normal:
            v = o[1].get(("v", r.params[0]["d"]))
            if v == ("old",):
                C_.violation("basis-unset|" + t, "%s: a path through the reader returns with the basis unchanged" % r.loc()); continue
            if v is None or v[0] != "obj" or v[1] != f.id: C_.undecide("%s: basis read not resolved (%s)" % (r.loc(), str(v)[:80])); continue
            for i, a in enumerate(v[2:]):
                C_.count("constructor_arguments")
                p = f.params[i]
                if i in deflt: continue
                verdict = same(P, a, pars[i], p)
                if verdict is None: C_.undecide("%s: argument %s of the rebuilt basis is %s" % (r.loc(), p["n"], str(a)[:120])); continue
                if not verdict:
                    C_.violation("basis-arg|%s|%s" % (t, p["n"]), "%s:%d: the basis read back has constructor argument '%s' = %s" % (r.file, cn[0]["l"], p["n"], desc(a)))
                else: C_.sample({"basis": t, "argument": p["n"], "at": "%s:%d" % (r.file, cn[0]["l"])}, 60)
        ids[t] = common.get(C("HelFEM_ID"))
    # a basis of one kind must not be accepted as another
    for t, r in rs.items():
        for t2, st2 in stores.items():
            if t2 == t: continue
            it = BasisIO(P); it.reads = []; it.store = st2
            st = start(1, 0); st.env[("v", r.params[0]["d"])] = ("old",)
            try: outs = it.run(r, st)
            except Limit: continue
            C_.count("cross_reads")
            seen_missing = any(kv not in st2 for kv, tc, l in it.reads)
            if any(o[0] != "throw" for o in outs) and not seen_missing:
                C_.violation("basis-cross|%s|%s" % (t, t2), "%s: a checkpoint of %s is accepted" % (r.loc(), t2))
            elif any(o[0] != "throw" for o in outs):
                # rejected only by a missing entry: the identifier no longer protects
                wid = st2.get(C("HelFEM_ID"))
                if wid is None or (ids.get(t) and wid[0] == ids[t][0]):
                    C_.violation("basis-id|%s|%s" % (t, t2), "%s: the stored identifier does not distinguish %s from %s" % (r.loc(), t, t2))
                else:
                    C_.violation("basis-id|%s|%s" % (t, t2), "%s: a checkpoint of %s is not rejected by its identifier" % (r.loc(), t2))

def desc(a):
    if a[0] == "par": return "the one written as '%s'" % a[2]
    if a[0] == "missing": return "an entry that was not written"
    if a[0] == "c": return "the constant %s" % a[1]
    return str(a)[:100]

def same(P, a, par, p):
    if a == par: return True
    while a[0] in ("addr", "p", "t", "sym"): a = a[1]
    if a == par: return True
    if a[0] == "par": return False
    if a[0] in ("c", "missing"): return False
    if a[0] == "getbasis":
        ok = True
        for x, fld in zip(a[1:], ("id", "nnodes")):
            r = polyfield(x, par)
            if r is None: return None
            if r != fld: ok = False
        return ok
    if a[0] == "call" and len(a) == 3 and a[1].split("::")[-1] in ("VectorXi", "Matrix", "MatrixXi"): return same(P, a[2], par, p)
    ps = {x for x in subterms(a) if isinstance(x, tuple) and x[:1] == ("par",)}
    if ps and par not in ps: return False
    return None

def polyfield(x, par):
    ms = [y for y in subterms(x) if isinstance(y, tuple) and y[:1] == ("mem",)]
    if x == par or any(y == par for y in subterms(x)):
        if x[0] == "mem": return x[2]
        if x[0] == "call": return {"get_id": "id", "get_nnodes": "nnodes"}.get(x[1].split("::")[-1])
        return None
    if x[0] in ("par", "c", "missing"): return "wrong"
    return "wrong" if any(isinstance(y, tuple) and y[:1] == ("par",) for y in subterms(x)) else None

# ---------------------------------------------------------------- get_basis
def lemma(C_, P):
    """get_basis(k, n): the returned object reports identifier k and n nodes"""
    gs = [f for f in P.funcs.values() if f.name == "get_basis" and "polynomial_basis" in f.q and len(f.params) == 2 and f.params[0]["t"] == "int"]
    if not gs: C_.undecide("get_basis not found"); return
    for g in gs:
        class G(ObjInterp):
            def on_call(self, n, okey, vs, s):
                nm = n.get("n"); q = n.get("q") or ""
                if nm == "LinSpaced" and vs: return [(("vec", self.argval(vs[0], s)), s)]
                return super().on_call(n, okey, vs, s)
        it = G(P)
        st = State()
        st.env[("v", g.params[0]["d"])] = ("par", 0, "id"); st.env[("v", g.params[1]["d"])] = ("par", 1, "n")
        try: outs = it.run(g, st)
        except Limit: C_.undecide("%s: too many paths" % g.loc()); continue
        for o in outs:
            if o[0] != "return": continue
            C_.count("get_basis_cases")
            v = o[2]
            while v[0] in ("addr", "t", "p"): v = v[1]
            ks = [c[3] if c[2] == ("par", 0, "id") else c[2] for c, b in o[1].facts.items() if b and isinstance(c, tuple) and c[:2] == ("op", "==") and ("par", 0, "id") in c[2:]]
            if v[0] != "obj" or len(ks) != 1 or not isC(ks[0]): C_.undecide("%s: case not resolved: %s" % (g.loc(), str(v)[:60])); continue
            k = ks[0]
            idv = it.field(v, "id")
            if idv == k: C_.sample({"get_basis": k[1], "class": v[1][:60]}, 30)
            elif idv == ("par", 0, "id"): pass
            elif isC(idv): C_.violation("basis-label|%s" % k[1], "%s: get_basis(%s, n) returns a basis labelled %s: saved and reloaded it becomes a different basis" % (g.loc(), k[1], idv[1]))
            else: C_.undecide("%s: identifier of get_basis(%s) not resolved: %s" % (g.loc(), k[1], str(idv)[:60]))

# ---------------------------------------------------------------- (C) names
def litkey(n, f):
    """literal or literal-prefix name of an entry"""
    n = strip(n)
    while n.get("k") in ("ICast", "Cast", "Ctor", "Bind") and len(kids(n)) >= 1 and n.get("k") != "Str": n = strip(kids(n)[0])
    if n.get("k") == "Str": return n["v"], True
    if n.get("k") == "OCall" and n.get("op") == "+": 
        p = litkey(n["a"][0], f)
        return (p[0], False) if p else None
    if n.get("k") == "Ref":
        for x in walk(f.body):
            if x.get("k") == "Var" and x.get("d") == n.get("d") and x.get("i") is not None:
                r = litkey(x["i"], f)
                if r: return r
    return None

def names(C_, P):
    reads, writes = [], []
    wfun = [f for f in P.funcs.values()]
    for f in wfun:
        if not f.file.startswith("src/") or f.name.endswith("_test"): continue
        for x in walk(f.body):
            if x.get("k") == "MCall" and (x.get("q") or "").startswith("Checkpoint::") and x.get("n") in ("read", "write"):
                g = P.funcs.get(x.get("f"))
                if len(x["a"]) == 1:
                    continue
                k = litkey(x["a"][0], f)
                tc = tclass(g.params[1]["t"]) if g else tclass(x["a"][1].get("t"))
                (reads if x["n"] == "read" else writes).append((k, tc, f, x))
    d = lambda f: f.file.split("/")[1]
    for k, tc, f, x in reads:
        if k is None or f.cls == "Checkpoint" or "test" in f.file: continue
        C_.count("entry_names_read")
        name, full = k
        def match(k2):
            if k2 is None: return True      # a computed name: could be it
            if full and k2[1]: return k2[0] == name
            return k2[0].startswith(name) if k2[1] else (name.startswith(k2[0]) or k2[0].startswith(name))
        ws = [(k2, tc2, f2, x2) for k2, tc2, f2, x2 in writes if k2 is not None and match(k2) and (d(f2) == d(f) or f2.cls == "Checkpoint" or f2.file.startswith("src/general"))]
        if not ws:
            C_.violation("name|%s|%s" % (d(f), name), "%s:%d: reads entry \"%s\", which no program in src/%s writes" % (f.file, x["l"], name, d(f))); continue
        okc = [w for w in ws if w[1] == tc or {w[1][0], tc[0]} <= {"matrix", "vector"} and w[1][1] == tc[1] or (w[1][0] == tc[0] and {w[1][1], tc[1]} <= {"double", "long double"})
               or ({w[1][0], tc[0]} <= {"matrix", "vector"} and {w[1][1], tc[1]} <= {"double", "long double"})]
        if not okc:
            w = ws[0]
            C_.violation("nametype|%s|%s" % (d(f), name), "%s:%d: entry \"%s\" is read as %s<%s> but written as %s<%s> at %s:%d" % (f.file, x["l"], name, tc[0], tc[1], w[1][0], w[1][1], w[2].file, w[3]["l"]))
        else: C_.sample({"entry": name, "read": "%s:%d" % (f.file, x["l"]), "written": "%s:%d" % (okc[0][2].file, okc[0][3]["l"])}, 80)

def sadatom_basis(C_, P):
    """a program that rebuilds a basis by hand from entries it saves itself: the entry used for an
    argument must have been saved from the same argument of the basis being saved"""
    for f in P.funcs.values():
        if not f.file.startswith("src/") or f.cls == "Checkpoint": continue
        rd = [x for x in walk(f.body) if x.get("k") == "MCall" and x.get("q") == "Checkpoint::read" and len(x["a"]) == 2]
        wr = [x for x in walk(f.body) if x.get("k") == "MCall" and x.get("q") == "Checkpoint::write" and len(x["a"]) == 2]
        if not rd or not wr: continue
        key = {}
        for x in rd:
            k = litkey(x["a"][0], f); a = strip(x["a"][1])
            if k and k[1] and a.get("k") == "Ref": key[a["d"]] = k[0]
        val = {}
        for x in wr:
            k = litkey(x["a"][0], f)
            if k and k[1]: val[k[0]] = (show(strip(x["a"][1])), x["l"])
        decl = {x["d"]: x for x in walk(f.body) if x.get("k") == "Var"}
        def origin(n, depth=0):
            n = strip(n)
            while n.get("k") in ("ICast", "Cast", "Ctor") and len(n.get("a", n.get("c", []))) == 1: n = strip((n.get("a") or n.get("c"))[0])
            if n.get("k") == "Ref" and n["d"] in key: return ("entry", key[n["d"]])
            if n.get("k") == "Ref" and n["d"] in decl and decl[n["d"]].get("i") is not None and depth < 4:
                return origin(decl[n["d"]]["i"], depth + 1)
            if n.get("k") == "Call" and (n.get("q") or "").endswith("get_basis"): return ("getbasis",) + tuple(origin(a, depth + 1) for a in n["a"])
            return ("expr", show(n))
        ctors = {}
        for x in walk(f.body):
            if x.get("k") == "Ctor" and not x.get("cp") and (x.get("q") or "").endswith("::TwoDBasis") and len(x["a"]) > 3:
                ctors.setdefault(x.get("q"), []).append([origin(a) for a in x["a"]] + [x["l"]])
        for q, cs in ctors.items():
            olds = [c for c in cs if any(o[0] in ("entry", "getbasis") for o in c[:-1])]
            news = [c for c in cs if c not in olds]
            if len(news) != 1: continue
            new = news[0]
            for old in olds:
                for i, o in enumerate(old[:-1]):
                    if i >= len(new) - 1: continue
                    src = new[i][1] if new[i][0] == "expr" else None
                    if src is None: continue
                    C_.count("rebuilt_arguments")
                    if o[0] == "entry":
                        if o[1] not in val: continue
                        if val[o[1]][0] != src:
                            C_.violation("rebuild|%s|%d" % (f.q, i), "%s:%d: argument %d of the reloaded basis is entry \"%s\", saved from %s (line %d), but the saved basis was built with %s" % (f.file, old[-1], i + 1, o[1], val[o[1]][0], val[o[1]][1], src))
                    elif o[0] == "getbasis" and len(o) >= 3:
                        for j, (sub, getter) in enumerate(zip(o[1:3], ("get_id", "get_nnodes"))):
                            if sub[0] != "entry" or sub[1] not in val: continue
                            e = val[sub[1]][0]
                            if getter not in e or src.split(".")[-1].split("->")[-1] not in e:
                                C_.violation("rebuild|%s|%d.%d" % (f.q, i, j), "%s:%d: get_basis argument %d of the reloaded basis is entry \"%s\", saved from %s" % (f.file, old[-1], j + 1, sub[1], e))

def run():
    C_ = Check("C04", RULE)
    P = program.load()
    io_pairs(C_, P)
    basis_roundtrip(C_, P)
    lemma(C_, P)
    names(C_, P)
    sadatom_basis(C_, P)
    for k, m in (("pairs_composed", 8), ("constructor_arguments", 12), ("get_basis_cases", 6), ("entry_names_read", 10), ("basis_entries_read", 15)): C_.need(k, m)
    C_.assume = ["HDF5 stores and returns the bytes it is given, converting between float widths as documented",
                 "Eigen default storage (column major) on both sides"]
    C_.explain = "symbolic composition of writer and reader layouts; symbolic execution of basis write then read on uninterpreted constructor arguments; name/type cross-reference"
    return C_.finish()
