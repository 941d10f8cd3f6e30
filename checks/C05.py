"""C05: checkpoint files: handle lifetime, open/closed state, write protection, error reporting."""
import program, flow
from program import *
from flow import *
from report import Check

RULE = ("For every member function of Checkpoint and every entry state (file open/closed x read/write mode), on every path: "
        "HDF5 handles are closed exactly once with the matching close call and not used afterwards; the file handle is used "
        "only while open; on every normal return an open file is left open and a closed one closed; nothing is created, "
        "written or deleted in read mode; datasets are created only where no link of that name exists; the status of every "
        "data transfer is tested before the function returns normally.")

ACQ = {"H5Fcreate": "F", "H5Fopen": "F", "H5Screate": "S", "H5Screate_simple": "S", "H5Dget_space": "S", "H5Scopy": "S",
       "H5Aget_space": "S", "H5Tcopy": "T", "H5Tcreate": "T", "H5Dget_type": "T", "H5Aget_type": "T", "H5Dcreate2": "D", "H5Dcreate1": "D",
       "H5Dopen2": "D", "H5Dopen1": "D", "H5Dopen": "D", "H5Dcreate": "D", "H5Gopen2": "G", "H5Gcreate2": "G", "H5Pcreate": "P",
       "H5Pcopy": "P", "H5Acreate2": "A", "H5Aopen": "A", "H5Oopen": "O", "H5Tget_native_type": "T", "H5Tget_super": "T"}
REL = {"H5Fclose": "F", "H5Sclose": "S", "H5Tclose": "T", "H5Dclose": "D", "H5Gclose": "G", "H5Pclose": "P", "H5Aclose": "A", "H5Oclose": "O"}
MUT = {"H5Dcreate2", "H5Dcreate1", "H5Dcreate", "H5Dwrite", "H5Ldelete", "H5Gcreate2", "H5Acreate2", "H5Awrite", "H5Lmove", "H5Ldelete_by_idx",
       "H5Dset_extent", "H5Fflush"}
STATUS = {"H5Dwrite", "H5Dread", "H5Ldelete", "H5Fflush", "H5Awrite", "H5Aread", "H5Fclose"}
NEEDCHECK = {"F", "D", "G"}
KN = {"F": "file", "S": "dataspace", "T": "datatype", "D": "dataset", "G": "group", "P": "property list", "A": "attribute", "O": "object"}

OPEND = ("f", ("this",), "opend"); WM = ("f", ("this",), "writemode"); FILE = ("f", ("this",), "file")

class H5(Interp):
    max_states = 3000
    def __init__(self, P, rep):
        super().__init__(P)
        self.rep = rep; self.nh = 0; self.sites = set(); self.calls = []; self.conds = []
    def inline(self, call, tgt, st):
        return tgt.file == self.home or tgt.file == "src/general/checkpoint.h" or tgt.cls == "Checkpoint"
    def bad(self, key, msg, n): self.rep(key, "%s:%d: %s" % (self.fn().file, n["l"], msg), self)
    raii = True
    def default_init(self, n, st): return ("uninit", n["d"])
    def fileopen(self, st): return st.get(OPEND)
    def alive(self, h, st):
        f = st.facts.get(("op", "<", h, C(0)))
        return f is not True
    def do_inline(self, n, f, okey, vs, s):
        self.calls.append(n)
        try: return super().do_inline(n, f, okey, vs, s)
        finally: self.calls.pop()
    def s_If(self, n, st):
        self.conds.append(n["cond"])
        try: return super().s_If(n, st)
        finally: self.conds.pop()
    def s_Throw(self, n, st):
        if self.calls:
            c = self.calls[0]
            inner = [x for x in walk(c) if x.get("k") == "Call" and (x.get("q") or "").startswith("H5") and x.get("q") != "H5open"]
            lab = "%s(%s)" % (c.get("n"), inner[0]["q"] if inner else "")
        else: lab = show(self.conds[-1]) if self.conds else ""
        return [("throw", st.gset("thrown", lab), None)]
    e_Throw = None
    def eval(self, n, st):
        if n["k"] == "Throw": return [("throw", o[1]) for o in self.s_Throw(n, st)]
        return super().eval(n, st)
    def on_call(self, n, okey, vs, s):
        q = n.get("q") or ""
        if q in ("std::vector::size",): pass
        if not q.startswith("H5"): return None
        vals = [self.argval(a, s) for a in vs]
        site = (self.fn().q, q)
        self.sites.add((self.fn().id, n["l"], q))
        if q in ("H5open", "H5check_version"): return [(C(0), s)]
        # uses
        for v, an in zip(vals, n["a"]):
            if not isinstance(v, tuple) or an.get("t") != "long": continue
            if v[0] == "h":
                g = s.ghost.get(("res", v))
                if q not in REL:
                    if g == "closed": self.bad("%s|use-after-close|%s" % (self.top.q, q), "%s uses a %s handle that has been closed" % (q, KN[v[1]]), n)
                    if v[1] in NEEDCHECK and s.facts.get(("op", "<", v, C(0))) is not False:
                        self.bad("%s|unchecked|%s" % (self.top.q, q), "%s uses a %s handle whose creation was not tested for failure" % (q, KN[v[1]]), n)
            elif v[0] == "uninit" or v[0] == "fileinvalid":
                self.bad("%s|uninit|%s" % (self.top.q, q), "%s is given a handle that was never set" % q, n)
        # file handle validity
        fv = s.get(FILE)
        for a, v in zip(vs, vals):
            if v == fv and fv is not None and s.get(OPEND) is not None:
                o = s.get(OPEND)
                if q != "H5Fclose" and not (isC(o) and o[1]) and not (v[0] == "h" and s.ghost.get(("res", v)) == "open"):
                    self.bad("%s|closed-file|%s" % (self.top.q, q), "%s accesses the checkpoint file while it is not open" % q, n)
        if q in MUT and s.get(WM) is not None and not (isC(s.get(WM)) and s.get(WM)[1]):
            self.bad("%s|readonly|%s" % (self.top.q, q), "%s can be reached on a checkpoint opened for reading only" % q, n)
        if q in ("H5Dcreate2", "H5Dcreate1", "H5Dcreate"):
            nm = vals[1]
            ok = s.ghost.get(("absent", nm)) or s.facts.get(("lexists", nm)) is False
            if not ok:
                self.bad("%s|overwrite" % self.top.q, "%s may find an existing entry of the same name: it is not removed first, so saving it again fails" % q, n)
        if q == "H5Lexists":
            # documented results: positive (present), zero (absent); a failed lookup is reported by the call that follows it
            known = s.facts.get(("lexists", vals[1]))
            if s.ghost.get(("absent", vals[1])): known = False
            return [(C(1 if b else 0), s.fact(("lexists", vals[1]), b)) for b in (True, False) if known is None or known == b]
        if q in REL:
            v = vals[0]
            if v[0] == "h" or v[0] == "file0":
                kind = v[1] if v[0] == "h" else "F"
                g = s.ghost.get(("res", v))
                if kind != REL[q]: self.bad("%s|wrong-close|%s" % (self.top.q, q), "%s is given a %s handle" % (q, KN[kind]), n)
                elif g == "closed": self.bad("%s|double-close|%s" % (self.top.q, q), "%s handle is closed twice" % KN[kind], n)
                s = s.gset(("res", v), "closed")
            elif v[0] in ("native", "uninit"):
                self.bad("%s|close-foreign|%s" % (self.top.q, q), "%s closes a handle it does not own" % q, n)
            return [(("status", q, n["l"]), self.pend(s, q, n))]
        if q in ACQ:
            h = ("h", ACQ[q], n["l"], self.depth)
            s = s.gset(("res", h), "open")
            s = s.copy(); s.facts.pop(("op", "<", h, C(0)), None)
            if q.startswith("H5Dcreate"):
                s.ghost.pop(("absent", vals[1]), None)
                s.facts.pop(("lexists", vals[1]), None)
            return [(h, s)]
        if q == "H5Ldelete":
            s = s.gset(("absent", vals[1]), True).copy()
            s.facts.pop(("lexists", vals[1]), None)
        if q in STATUS:
            return [(("status", q, n["l"]), self.pend(s, q, n))]
        r = ("call", q) + tuple(vals)
        # out-parameters
        s2 = s
        for a, nn in zip(vals, n["a"]):
            if a and a[0] == "addr": s2 = s2.set(a[1], ("filled", q, a[1]))
            elif q == "H5Sget_simple_extent_dims" and nn.get("t") != "long" and strip(nn).get("k") == "Ref": s2 = s2.set(("v", strip(nn)["d"]), ("filled", q))
        return [(r, s2)]
    def pend(self, s, q, n):
        v = ("status", q, n["l"])
        s = s.copy()
        s.facts.pop(("op", "<", v, C(0)), None)
        s.ghost[("st", v)] = (self.top.q, q)
        return s

def sig(f):
    t = [p.get("t", "") for p in f.params]
    return "%s(%s)" % (f.name, ",".join(x.replace("const ", "").replace("std::", "").replace("helfem::", "").replace("basic_string<char,char_traits<char>,A>", "string") for x in t))

def run():
    C_ = Check("C05", RULE)
    P = program.load()
    fs = [f for f in P.funcs.values() if f.cls == "Checkpoint" or f.q.startswith("Checkpoint::")]
    fs = [f for f in fs if f.name not in ("operator=",)]
    names = set()
    wtypes, rtypes = set(), set()
    for f in fs:
        names.add(f.name)
        entries = []
        isctor = f.kind == "ctor" or f.name == "Checkpoint"
        C_.count("functions")
        for op in ((0, 1) if not isctor else (None,)):
            for wm in ((0, 1) if not isctor else (None,)):
                entries.append((op, wm))
        seen = set()
        def rep(key, text, it):
            k = key + "|" + sig(f)
            if k in seen: return
            seen.add(k)
            C_.violation(k.replace(' ', ''), text + " (in %s)" % sig(f))
        for op, wm in entries:
            it = H5(P, rep); it.home = f.file; it.top = f
            st = State()
            if op is not None:
                st.env[OPEND] = C(op); st.env[WM] = C(wm)
                st.env[FILE] = ("file0",) if op else ("fileinvalid",)
                if op: st.ghost[("res", ("file0",))] = "open"
            else:
                st.env[FILE] = ("fileinvalid",)
            try:
                outs = it.run(f, st)
            except Limit:
                C_.undecide("%s: too many paths" % sig(f)); continue
            C_.count("paths", len(outs))
            C_.count("hdf5_call_sites", len(it.sites))
            for kind, s, v in outs:
                o = s.get(OPEND)
                fv = s.get(FILE)
                # class invariant: opend <=> the file handle is open
                fo = s.ghost.get(("res", fv)) == "open" and it.alive(fv, s) if fv else False
                where = "exit by exception from %s" % s.ghost.get("thrown") if kind == "throw" else "return"
                wk = "throw[%s]" % s.ghost.get("thrown") if kind == "throw" else "return"
                tm = "%s:%d" % (f.file, f.line)
                if kind == "throw" and not isctor: continue    # error exits: see DESIGN.md
                if kind == "throw" and isctor:
                    # the destructor will not run: nothing may stay open
                    if fo: rep("%s|ctor-leak|%s" % (f.q, wk), "%s: the constructor throws with the file left open" % tm, it)
                    continue
                if o is None or not isC(o):
                    if not isctor: rep("%s|opend-unknown|%s" % (f.q, wk), "%s: on %s the open flag is unset" % (tm, where), it)
                    else: rep("%s|opend-unset" % f.q, "%s: the constructor can finish without setting the open flag" % tm, it)
                    continue
                if bool(o[1]) != bool(fo):
                    rep("%s|flag|%s" % (f.q, wk), "%s: on %s the open flag says %s but the file handle is %s" % (tm, where, "open" if o[1] else "closed", "open" if fo else "closed"), it)
                want = {"open": 1, "close": 0, "~Checkpoint": 0}.get(f.name, op)
                if isctor: want = None
                if kind == "throw" and f.name in ("open", "close"): want = op
                if want is not None and bool(o[1]) != bool(want):
                    rep("%s|state|%s" % (f.q, wk), "%s: entered with the file %s, on %s it is left %s" % (tm, "open" if op else "closed", where, "open" if o[1] else "closed"), it)
                for g, val in s.ghost.items():
                    if g[0] == "res" and val == "open" and g[1] != fv and g[1][0] == "h" and it.alive(g[1], s):
                        if kind == "throw":
                            rep("%s|state|%s" % (f.q, wk), "%s: on %s the %s handle from line %d is never closed" % (tm, where, KN[g[1][1]], g[1][2]), it)
                        else:
                            rep("%s|leak|%s" % (f.q, g[1][1]), "%s: on return the %s handle from line %d is never closed" % (tm, KN[g[1][1]], g[1][2]), it)
                if kind != "throw":
                    for g, val in s.ghost.items():
                        if g[0] == "st" and val[1] in ("H5Dwrite", "H5Dread", "H5Ldelete"):
                            x = g[1]
                            if s.facts.get(("op", "<", x, C(0))) is not False and s.facts.get(("op", "<", C(-1), x)) is not True and s.facts.get(("op", "==", x, C(-1))) is not False:
                                rep("%s|status|%s" % (f.q, val[1]), "%s:%d: failure of %s goes unnoticed: its status is not tested before returning" % (f.file, x[2], val[1]), it)
        C_.sample({"function": sig(f), "at": f.loc()}, 40)
        if f.name in ("read", "write") and len(f.params) == 2: (rtypes if f.name == "read" else wtypes).add(f.id)
    C_.need("functions", 20); C_.need("hdf5_call_sites", 100)
    C_.assume = ["HDF5 calls report failure by a negative return value and otherwise do what the HDF5 manual says",
                 "the status of H5Fclose/H5Fflush is not required to be tested (buffers flushed at close)"]
    C_.explain = "disjunctive typestate analysis of the checkpoint class with helper functions followed"
    return C_.finish()
