"""Index structure of the basis sets: symmetry blocks, function lists, boundary removal."""
import re
from qdiatomic import *

class Sv:
    """a string or string stream"""
    def __init__(self, s=""): self.s = s
class Mp:
    def __init__(self): self.d = {}
class LMap(LItem):
    def __init__(self, m, k): super().__init__(m.d, k); self.m = m
    def get(self): return self.m.d[self.k]
    def set(self, v): self.m.d[self.k] = v
class MIt:
    def __init__(self, m, k): self.v = m; self.k = k

class StrMix:
    """strings, string streams and ordered maps of integers"""
    def default(self, t, n=None):
        b = (t or "").replace("const ", "")
        if re.match(r"std::(__cxx11::)?(basic_)?[oi]?stringstream\b", b) or re.match(r"(std::)?(__cxx11::)?(basic_)?string\b", b) and "<<" not in b: return Sv()
        if re.match(r"std::(unordered_)?map<", b): return Mp()
        return super().default(t, n)
    def zero_of(self, t):
        if re.match(r"(std::)?(__cxx11::)?(basic_)?string\b", (t or "").replace("const ", "")): return Sv()
        return super().zero_of(t)
    def copyval(self, v):
        if isinstance(v, Sv): return Sv(v.s)
        if isinstance(v, Mp):
            m = Mp(); m.d = dict(v.d); return m
        return super().copyval(v)
    def own(self, v, t):
        w = self.rd(v)
        if isinstance(w, Sv): return Sv(w.s)
        return super().own(v, t)
    def e_Str(self, n): return Sv(str(n.get("v")))
    def text(self, v):
        v = self.rd(v)
        if isinstance(v, Sv): return v.s
        if isinstance(v, int): return str(v)
        if isinstance(v, dict) and qcval(v) is not None: return "%g" % qcval(v)
        return "?"
    def e_Ctor(self, n):
        q = n.get("q") or ""; a = [x for x in n.get("a") or [] if x.get("k") != "DefArg"]
        if re.match(r"std::(__cxx11::)?(basic_)?(string|ostringstream|stringstream)\b", q):
            if not a: return Sv()
            v = self.rd(self.ev(a[0]))
            if isinstance(v, Sv): return Sv(v.s)
        if re.match(r"std::(unordered_)?map\b", q) and not a: return Mp()
        if re.search(r"_iterator\b|_Iterator", q) and len(a) == 1:
            v = self.rd(self.ev(a[0]))
            if isinstance(v, MIt): return v
        return super().e_Ctor(n)
    def e_OCall(self, n):
        op = n["op"]; a = n["a"]
        if op in ("<<", "+", "+=", "=", "==", "!=") and len(a) == 2:
            t = [x.get("t") or "" for x in a]
            if op == "<<" or any("string" in x for x in t):
                l = self.ev(a[0]); v = self.rd(l)
                if isinstance(v, PtrTo): v = self.rd(v.v)
                if isinstance(v, Sv):
                    r = self.rd(self.ev(a[1]))
                    if op == "<<": v.s += self.text(r); return v
                    if op in ("==", "!="): return int((v.s == self.text(r)) == (op == "=="))
                    if op == "+": return Sv(v.s + self.text(r))
                    if op == "+=": v.s += self.text(r); return v
                    v.s = self.text(r); return v
                if op == "<<": return self.comma_init(l, a[1], n)
                r = self.rd(self.ev(a[1]))
                if op == "+" and isinstance(r, Sv): return Sv(self.text(v) + r.s)
        if op == "[]":
            m = self.rd(self.ev(a[0]))
            if isinstance(m, Mp):
                k = self.num(a[1]); m.d.setdefault(k, 0); return LMap(m, k)
        if op in ("==", "!=", "->", "*", "++") and len(a):
            m = self.rd(self.ev(a[0]))
            if isinstance(m, MIt):
                if op == "->": return Pair(m.k, LMap(m.v, m.k))
                if op == "*": return Pair(m.k, LMap(m.v, m.k))
                if op in ("==", "!="):
                    r = self.rd(self.ev(a[1])); return int((m.k == r.k) == (op == "=="))
        return super().e_OCall(n)
    def e_MCall(self, n):
        q = n.get("q") or ""; nm = n.get("n") or ""
        if q.startswith("std::") and n.get("o") is not None:
            v = self.rd(self.ev(n["o"]))
            if isinstance(v, PtrTo): v = self.rd(v.v)
            if isinstance(v, Sv):
                if nm in ("str", "c_str", "data"): return Sv(v.s)
                if nm in ("size", "length"): return len(v.s)
                if nm == "empty": return int(not v.s)
                if nm in ("append",): v.s += self.text(self.ev(n["a"][0])); return v
                und("string method " + nm, n)
            if isinstance(v, Mp):
                if nm in ("find", "count", "contains", "at"):
                    k = self.num(n["a"][0])
                    if nm == "find": return MIt(v, k if k in v.d else None)
                    if nm == "at":
                        if k not in v.d: raise Rejected("no such key")
                        return LMap(v, k)
                    return int(k in v.d)
                if nm in ("end", "cend"): return MIt(v, None)
                if nm == "size": return len(v.d)
                if nm in ("insert", "emplace"):
                    x = [self.rd(self.ev(y)) for y in n["a"]]
                    if len(x) == 1 and isinstance(x[0], Pair): x = [self.rd(y) for y in x[0].items]
                    v.d.setdefault(x[0], x[1]); return None
                und("map method " + nm, n)
        return super().e_MCall(n)

class SymA(StrMix, Atomic): pass
class SymD(StrMix, Diatomic): pass

ACH = [[(0, 0)], [(2, 1), (0, 0), (1, -1), (1, 0), (3, 0), (2, -2), (1, 1), (3, 1)], [(1, -1), (2, -1)], [(3, -2), (1, 1), (2, 0)]]
DCH = [[(0, 0)], [(0, 0), (1, 0), (2, 0), (1, 1), (2, 1), (1, -1), (2, -1), (2, 2), (2, -2)], [(2, 1), (2, -1), (0, 0), (1, 1), (1, -1), (1, 0)],
       [(1, 1), (1, -1)], [(0, 0), (2, 2), (3, 2), (2, -2), (3, -2), (1, 1), (1, -1)]]
LAY = [[(0, 1), (1, 3), (3, 4)], [(0, 2)]]

def ints(I, v):
    v = I.rd(v)
    if isinstance(v, A): return [I.rd(x) for x in v.vals()]
    return [I.rd(x) for x in v.items]

class SymJobs(Judge):
    """everything is stated in terms of the functions: channel k, radial function j"""
    def prep(self): pass
    def get(self, nm, np_, pred=None): return pick(self.ms, nm, np_, pred)
    def expect(self, f, key, what, cond, detail):
        self.C.count("index_facts")
        if not cond: self.C.violation(key, "%s: %s: %s" % (self.site(f), what, detail))
    def call(self, nm, args, np_=None, pred=None):
        return self.I.run(self.get(nm, len(args) if np_ is None else np_, pred), self.o, args)
    def job(self):
        for lay in LAY:
            for ch in self.chans:
                self.ch, self.lay = ch, lay; self.rad = self.mkrad(lay); self.nr = self.rad.nbf
                self.o = self.I = None
                # the functions, in order
                self.fun = [(k, j) for k in range(len(ch)) for j in range(self.nr) if self.keep(k, j)]
                self.pos = {x: i for i, x in enumerate(self.fun)}
                self.each()
    def do(self, nm, np_, what, fn, pred=None):
        try: f = self.get(nm, np_, pred)
        except Undecided as e: self.C.undecide("%s: %s" % (self.tag, e)); return
        key = "%s|%s" % (self.tag, nm)
        def go():
            if self.o is None: self.I = self.mk(); self.o = self.mkbasis(self.I)
            self.I.steps = 0
            fn(f, key, what)
        self.guard(f, key, what, go)
    def desc(self): return "channels %s, elements %s" % (self.ch, self.lay)
    def same(self, f, key, what, got, want): self.expect(f, key, what, got == want, "for %s: is %s instead of %s" % (self.desc(), str(got)[:90], str(want)[:90]))
    def sel(self, p): return [i for i, (k, j) in enumerate(self.fun) if p(*self.ch[k])]
    def each(self):
        ch = self.ch
        self.do("Nbf", 0, "counts the functions", lambda f, k, w: self.same(f, k, w, self.call("Nbf", []), len(self.fun)))
        self.do("Ndummy", 0, "counts the functions before the removal of boundary functions", lambda f, k, w: self.same(f, k, w, self.call("Ndummy", []), len(ch) * self.nr))
        self.do("Nrad", 0, "counts radial functions", lambda f, k, w: self.same(f, k, w, self.call("Nrad", []), self.nr))
        self.do("Nang", 0, "counts channels", lambda f, k, w: self.same(f, k, w, self.call("Nang", []), len(ch)))
        for m in range(-3, 4):
            self.do("m_indices", 1, "lists exactly the functions of the requested m", lambda f, k, w: self.same(f, k, w, ints(self.I, self.call("m_indices", [m])), self.sel(lambda l, mm: mm == m)))
        self.more()
        for symm in self.syms: self.blocks(symm)
        for symm in self.badsyms:
            for nm in ("get_sym_idx", "get_sym_labels"):
                def rej(f, k, w):
                    try: self.call(nm, [symm])
                    except Rejected: self.expect(f, k, w, True, ""); return
                    self.expect(f, k, w, False, "symmetry %d is accepted" % symm)
                self.do(nm, 1, "an unknown symmetry is rejected", rej)
    def label(self, symm, l, m):
        return {0: (), 1: (m,), 2: self.lab2(l, m), 3: (abs(m),)}[symm]
    def blocks(self, symm):
        want = {}
        if symm == 3:
            for m in range(max(abs(m) for l, m in self.ch) + 1): want.setdefault((m,), [])
        for i, (k, j) in enumerate(self.fun):
            l, m = self.ch[k]
            if symm == 3 and m < 0: continue
            want.setdefault(self.label(symm, l, m), []).append(i)
        def chk(f, k, w):
            got = [ints(self.I, b) for b in self.I.rd(self.call("get_sym_idx", [symm])).items]
            full = [b for b in got if b]
            ids = [{self.label(symm, *self.ch[self.fun[i][0]]) for i in b if 0 <= i < len(self.fun)} for b in got]
            for b, s in zip(got, ids):
                self.expect(f, k, w, all(0 <= i < len(self.fun) for i in b), "symmetry %d, %s: block %s names functions that do not exist" % (symm, self.desc(), b[:12]))
                self.expect(f, k, w, len(s) <= 1, "symmetry %d, %s: a block mixes functions of %s" % (symm, self.desc(), sorted(s)))
            flat = [i for b in full for i in b]
            need = sorted(i for b in want.values() for i in b)
            self.expect(f, k, w, sorted(flat) == need, "symmetry %d, %s: the blocks do not cover every function exactly once (%s instead of %s)" % (symm, self.desc(), sorted(flat)[:20], need[:20]))
            seen = [tuple(s)[0] for s in ids if len(s) == 1]
            self.expect(f, k, w, len(seen) == len(set(seen)), "symmetry %d, %s: functions of one symmetry are split over several blocks" % (symm, self.desc()))
            for b in full: self.expect(f, k, w, b == sorted(b), "symmetry %d, %s: a block is not in the order of the functions" % (symm, self.desc()))
            self.C.sample("%s get_sym_idx(%d): %d blocks for %s" % (self.tag, symm, len(got), self.desc()))
            self.got = got; self.ids = ids
        self.got = None
        self.do("get_sym_idx", 1, "symmetry blocks hold every function exactly once, with equal quantum numbers", chk)
        got = self.got
        if got is None: return
        def lab(f, k, w):
            labs = [self.I.text(x) for x in self.I.rd(self.call("get_sym_labels", [symm])).items]
            self.expect(f, k, w, len(labs) == len(got), "symmetry %d, %s: %d labels for %d blocks" % (symm, self.desc(), len(labs), len(got)))
            if any("?" in x for x in labs): und("label")
            self.expect(f, k, w, len(set(labs)) == len(labs), "symmetry %d, %s: two blocks carry the label %s" % (symm, self.desc(), sorted(labs)[:6]))
            for x, b in zip(labs, got):
                if not b or symm == 0: continue
                l, m = self.ch[self.fun[b[0]][0]]
                nums = [int(t) for t in re.findall(r"[-+]?\d+", x)]
                good = self.labnums(symm, l, m)
                if len(nums) == len(good): self.expect(f, k, w, nums == good, "symmetry %d, %s: the block of l=%d m=%d is labelled '%s'" % (symm, self.desc(), l, m, x))
                p = re.search(r"\b([gu])\b", x)
                if p: self.expect(f, k, w, "gu"[l % 2] == p.group(1), "symmetry %d, %s: the block of l=%d m=%d is labelled '%s'" % (symm, self.desc(), l, m, x))
        self.do("get_sym_labels", 1, "every block has its own label", lab)
        self.extra(symm, got)
    def extra(self, symm, got): pass
    def more(self): pass

class AtomicSym(SymJobs):
    chans = ACH; syms = (0, 1, 2); badsyms = (3, -1)
    def __init__(self, C, P, scal):
        super().__init__(C, P); self.scal = scal; self.ms = methods(P, TB % scal); self.models = pot_models(P); self.tag = "atomic|" + scal
    def mkrad(self, lay): return Rad(lay)
    def keep(self, k, j): return True
    def mk(self):
        I = SymA(self.P, self.scal); I.models = self.models; return I
    def mkbasis(self, I): return I.basis(self.ms, self.rad, self.ch)
    def lab2(self, l, m): return (l, m)
    def labnums(self, symm, l, m): return [m] if symm == 1 else [l, m]
    def more(self):
        for l in range(0, 4):
            for m in range(-l, l + 1):
                self.do("lm_indices", 2, "lists exactly the functions of the requested (l,m)", lambda f, k, w: self.same(f, k, w, ints(self.I, self.call("lm_indices", [l, m])), self.sel(lambda a, b: (a, b) == (l, m))))
        for e, (a, b) in enumerate(self.lay):
            self.do("bf_list", 1, "lists the functions of the element, channel by channel",
                    lambda f, k, w: self.same(f, k, w, ints(self.I, self.call("bf_list", [e])), [i for i, (c, j) in enumerate(self.fun) if a <= j <= b]))

class DiatomicSym(SymJobs):
    chans = DCH; syms = (0, 1, 2, 3); badsyms = (4, -1); tag = "diatomic"
    def __init__(self, C, P):
        super().__init__(C, P); self.ms = methods(P, DT); self.models = pot_models(P)
    def mkrad(self, lay): return DRad(lay)
    def keep(self, k, j): return j > 0 or self.ch[k][1] == 0
    def mk(self):
        I = SymD(self.P); I.models = self.models; return I
    def mkbasis(self, I): return I.dbasis(self.ms, self.rad, self.ch)
    def lab2(self, l, m): return (m, l % 2)
    def labnums(self, symm, l, m): return [abs(m)] if symm == 3 else [m]
    def more(self):
        for m in range(-2, 3):
            for odd in (0, 1):
                self.do("m_indices", 2, "lists exactly the functions of the requested m and parity", lambda f, k, w: self.same(f, k, w, ints(self.I, self.call("m_indices", [m, odd])), self.sel(lambda a, b: b == m and a % 2 == odd)))
        dummy = [c * self.nr + j for c, j in self.fun]
        self.do("pure_indices", 0, "drops exactly the first radial function of the channels with m != 0", lambda f, k, w: self.same(f, k, w, ints(self.I, self.call("pure_indices", [])), dummy))
        for e, (a, b) in enumerate(self.lay):
            inel = [(c, j) for c in range(len(self.ch)) for j in range(a, b + 1)]
            self.do("bf_list_dummy", 1, "lists the functions of the element, channel by channel, including the boundary functions",
                    lambda f, k, w: self.same(f, k, w, ints(self.I, self.call("bf_list_dummy", [e])), [c * self.nr + j for c, j in inel]))
            self.do("bf_list", 1, "lists the functions of the element, channel by channel",
                    lambda f, k, w: self.same(f, k, w, ints(self.I, self.call("bf_list", [e])), [self.pos[x] for x in inel if x in self.pos]))
            for m in range(-2, 3):
                self.do("bf_list_dummy", 2, "lists the functions of the element and m",
                        lambda f, k, w: self.same(f, k, w, ints(self.I, self.call("bf_list_dummy", [e, m])), [c * self.nr + j for c, j in inel if self.ch[c][1] == m]))
        N = len(self.ch) * self.nr; n = len(self.fun)
        def rt(f, k, w):
            M = mat(n, n, lambda i, j: Sy("P", i, j))
            g = self.call("expand_boundaries", [M])
            self.equal(f, k, w, g, mat(N, N, lambda i, j: Sy("P", dummy.index(i), dummy.index(j)) if i in dummy and j in dummy else {}))
        self.do("expand_boundaries", 1, "puts every function back in its place, zero for the removed ones", rt)
        def rm(f, k, w): self.equal(f, k, w, self.call("remove_boundaries", [mat(N, N, lambda i, j: Sy("F", i, j))]), mat(n, n, lambda i, j: Sy("F", dummy[i], dummy[j])))
        self.do("remove_boundaries", 1, "keeps every function and only those", rm)
        mx = max(abs(m) for l, m in self.ch)
        self.do("absm_max", 0, "is the largest |m|", lambda f, k, w: self.same(f, k, w, self.call("absm_max", []), mx))
    def extra(self, symm, got):
        def chk(f, k, w):
            mir = [ints(self.I, b) for b in self.I.rd(self.call("get_sym_mirror_idx", [symm])).items]
            self.expect(f, k, w, len(mir) == len(got), "symmetry %d, %s: %d mirrors for %d blocks" % (symm, self.desc(), len(mir), len(got)))
            if symm != 3:
                self.expect(f, k, w, not any(mir), "symmetry %d, %s: blocks of a symmetry that does not pair them have mirrors" % (symm, self.desc())); return
            allf = sorted(i for b in got + mir for i in b)
            self.expect(f, k, w, allf == list(range(len(self.fun))), "%s: blocks and mirrors together do not hold every function exactly once" % self.desc())
            for b, r in zip(got, mir):
                if not r: self.expect(f, k, w, all(self.ch[self.fun[i][0]][1] == 0 for i in b), "%s: a block with m != 0 has no mirror" % self.desc()); continue
                q = lambda i, s: (self.ch[self.fun[i][0]][0], s * self.ch[self.fun[i][0]][1], self.fun[i][1])
                self.expect(f, k, w, [q(i, 1) for i in b] == [q(i, -1) for i in r], "%s: the mirror of a block does not list the partners (l,-m) in the order of the block" % self.desc())
        self.do("get_sym_mirror_idx", 1, "every function with m > 0 has its partner with -m at the same place", chk)
