"""C06: basis-function calculus of the element library."""
import os
import program
from program import *
import tensor, calc
from tensor import *
from calc import *
from report import Check
import radial

RULE = ("Every routine that returns basis functions or their derivatives is evaluated to a polynomial normal form over generic nodes, points, element "
        "sizes and shape-function indices; the result for order n+1 must be the derivative of the result for order n, shape functions must be "
        "interpolating at their own and vanish at all other nodes, B/r must be B divided by r, and the element maps must be mutually consistent.")

IX, FI, M = ("s", "ix"), ("s", "fi"), ("s", "m")
NS = "helfem::polynomial_basis::"

def y(i): return ("a", "y", i)          # x + 1
def xval(idx): return padd(atom(y(idx[0])), const(1), -1.0)
def nodeval(idx):
    i = idx[0]
    return const(-1) if i == 0 else padd(atom(("a", "node", i)), const(1), -1.0)
def zero_nodes(p):
    """node 0 sits at x = -1"""
    return prepl(p, lambda a: {} if a == ("a", "node", 0) else None)
def dx(a):
    if a[0] == "a" and a[1] == "y": return const(1)
    if a[0] == "a" and a[1] in ("L", "R"): return atom(a[:2] + (a[2] + 1,) + a[3:])
    return None
E_ = atom(("a", "e"))

class Lib(Calc):
    """evaluation inside the primitive bases: the Lagrange evaluator is a symbol L^(k)(point, node)"""
    def __init__(self, P, scal, lipid):
        super().__init__(P, scal); self.lipid = lipid; self.orders = set()
    def field_default(self, name, t):
        for c in ("nprim", "noverlap", "id", "nnodes"):
            if name == c: return ("scalar", atom(("a", name)), 0, False)
        r = self.rank_of(t)
        if r: return self.newt(name, r, [0] * r)
        und("field %s" % name)
    def call_hook(self, n, q, args, obj):
        if n.get("f") and n.get("f") == self.lipid and n["k"] == "Call":
            a = n["a"]
            xs, x0, out = self.ev(a[0]), self.ev(a[1]), self.lv(a[2])
            k = cval(self.sc(a[3]))
            if k is None or not isinstance(out, Tn): und("Lagrange call", n)
            k = int(k); self.orders.add(k)
            pr = ("s", "probe")
            xs = whole(xs) if isinstance(xs, Tn) else xs; x0 = whole(x0) if isinstance(x0, Tn) else x0
            nodes = x0.get((pr,))
            if not same(nodes, nodeval((pr,))): nm = "L"
            elif not same(nodes, nodeval((mkaff(1, 1, pr),))): nm = "R"
            else: und("unknown node set", n)
            pts = xs.get((pr,))
            if not same(pts, xval((pr,))): f = lambda idx: atom(("a", nm, k) + tuple(idx))
            elif not same(pts, nodeval((pr,))) and nm == "L":
                def f(idx):
                    if idx[0] == idx[1]: return const(1) if k == 0 else atom(("a", "LN", k, idx[0]))
                    return atom(("a", "LNN", k) + tuple(idx))
            else: und("unknown point set", n)
            out.dims = [None, None]; out.replace(f)
            return const(0)
        if q == "std::numeric_limits<%s>::epsilon" % self.scal or q.endswith("::epsilon"): return const(0)
        return NotImplemented
    def global_ref(self, n): return Opaque(n["n"])

def vec(name, f): 
    T = CTn(name, [None], f, 0); return T
def points(): return vec("x", xval)
def nodes(): return vec("x0", nodeval)

class Ctx:
    def __init__(self, C_, P, scal):
        self.C, self.P, self.scal = C_, P, scal
        f = P.find(NS + "LIPBasisT<%s>::eval_prim_dnf" % scal)
        if len(f) != 1: raise program.AnalysisBroken("LIPBasisT::eval_prim_dnf not found")
        calls = [n for n in f[0].walk() if n["k"] == "Call" and n.get("inproj")]
        if len(calls) != 1: raise program.AnalysisBroken("the Lagrange evaluator behind LIPBasisT::eval_prim_dnf is not a single call")
        self.lipid = calls[0]["f"]; self.lip = P.funcs[self.lipid]
    def fresh(self): return Lib(self.P, self.scal, self.lipid)
    def basis(self, ev, cls):
        q = NS + "%s<%s>" % (cls, self.scal)
        return ev.construct(q, [nodes(), ("scalar", const(0), 0, False)])

def S(v): return ("scalar", v, 0, False)
def enabled_as(p): return CTn("enabled", [None], lambda idx: p, 0)

def run_dnf(ctx, cls, n, col, shapes, meth="eval_dnf"):
    """value of eval_dnf(x, n, e) at (ix, column c) with enabled(c) = col"""
    ev = ctx.fresh()
    o = ctx.basis(ev, cls)
    o.f["enabled"] = enabled_as(col)
    out = CTn("dnf", [0, 0], lambda idx: {}, 0)
    f = ev.method_of(o.cls, meth, 4)
    ev.call_function(f, o, [points(), out, S(const(n)), S(E_)])
    return fix(out.get((IX, ("s", "c")))), f, ev

def shapes_of(ctx, cls):
    ev = ctx.fresh()
    o = ctx.basis(ev, cls)
    nov = o.f.get("noverlap")
    return int(cval(nov[1]))

def hermite(ctx, cls, maxd):
    C_ = ctx.C
    where = "%s<%s>" % (cls, ctx.scal)
    try: S_ = shapes_of(ctx, cls)
    except Undecided as x: C_.undecide("%s: constructor: %s" % (where, x)); return
    C_.count("shape_families")
    vals = {}
    for j in range(S_):
        col = padd(pscale(atom(("ixv", FI)), S_), const(j))
        prev = None
        for n in range(maxd + 1):
            try: p, f, ev = run_dnf(ctx, cls, n, col, S_)
            except Rejected as x:
                C_.count("orders_rejected"); break
            except Undecided as x:
                C_.undecide("%s shape %d order %d: %s" % (where, j, n, x)); prev = None; continue
            p = pmul(p, ppow(E_, n))        # eval_dnf divides by e^n
            vals[(j, n)] = p
            C_.count("derivative_orders")
            if prev is not None:
                want = deriv(prev, dx)
                if same(p, want): C_.violation("%s|d%d|%d" % (cls, n, j), "%s: order-%d derivative of shape %d is not the derivative of order %d (in units of e^-n): %s" % (where, n, j, n - 1, diff_text(p, want)))
                C_.sample("%s: shape %d order %d = d/dx of order %d (%d monomials)" % (where, j, n, n - 1, len(p)))
            # nodal conditions
            if n < S_:
                def at(a):
                    if a == y(IX): return atom(("a", "node", FI))
                    if a[:2] == ("a", "L"): return const(1) if a[2] == 0 else atom(("a", "LN", a[2], FI))
                    return None
                v = prepl(p, at)
                want = pmul(const(1 if n == j else 0), ppow(E_, j))
                if same(v, want, scale_of(p)): C_.violation("%s|node|%d|%d" % (cls, j, n), "%s: at its own node, derivative %d of shape %d is %s, must be %s" % (where, n, j, pp(v), "1 (in physical units)" if n == j else "0"))
                bad = [m for m in canon(p) if not any(a[:3] == ("a", "L", 0) and q > 0 for a, q in m)]
                if bad: C_.violation("%s|other|%d|%d" % (cls, j, n), "%s: derivative %d of shape %d does not vanish at the other nodes: %s" % (where, n, j, pp({m: canon(p)[m] for m in bad})))
                C_.count("nodal_conditions", 2)
            prev = p
    return S_, vals

def over_r(ctx, cls, S_, vals):
    C_ = ctx.C
    where = "%s<%s>::eval_over_r" % (cls, ctx.scal)
    for j in range(S_):
        if (j, 0) not in vals: continue
        for node in (0, 1):
            if node == 0 and j == 0: continue
            h = vals[(j, 0)]
            if node == 0: h = zero_nodes(psub(h, {FI: 0})); col = const(j)
            else:
                idx = mkaff(1, 1, M)
                h = psub(h, {FI: idx})
                inv = pinv(atom(("a", "node", idx)))
                h = prepl(h, lambda a: pmul(pmul(atom(y(IX)), inv), atom(("a", "R", 0, IX, M))) if a[:3] == ("a", "L", 0) else None)
                col = padd(pscale(padd(atom(("ixv", M)), const(1)), S_), const(j))
            want = pmul(pmul(h, pinv(atom(y(IX)))), pinv(E_))
            if any(a == y(IX) and q < 0 for m in canon(want) for a, q in m):
                C_.violation("%s|singular|%d" % (cls, j), "%s: shape %d does not vanish at r = 0, B/r is singular" % (where, j)); continue
            for n in range(0, 4):
                if n: want = pmul(deriv(want, dx), pinv(E_))
                try: p, f, ev = run_dnf(ctx, cls, n, col, S_, "eval_over_r")
                except Rejected: C_.count("orders_rejected"); break
                except Undecided as x: C_.undecide("%s shape %d node %s order %d: %s" % (where, j, "0" if node == 0 else "i", n, x)); continue
                p = zero_nodes(p)
                C_.count("over_r_cases")
                if same(p, want): C_.violation("%s|over_r|%d|%d|%d" % (cls, j, node, n), "%s: derivative %d of B/r for shape %d at %s is not that of B divided by r: %s" % (where, n, j, "the first node" if node == 0 else "a later node", diff_text(p, want)))
                C_.sample("%s: shape %d, %s, order %d" % (where, j, "node 0" if node == 0 else "node i>0", n))

# ---------------------------------------------------------------- the Lagrange evaluator itself
def coord(a): return isinstance(a, dict) and len(a) == 1 and list(a.values())[0] == 1.0 and len(list(a)[0]) == 1 and list(a)[0][0][1] == 1 and list(a)[0][0][0][0] == "c"
def dif(p, q):
    """difference of two coordinates as one antisymmetric symbol"""
    u, v = list(p)[0][0][0], list(q)[0][0][0]
    if u == v: return {}
    return atom(("D", u, v)) if repr(u) < repr(v) else pscale(atom(("D", v, u)), -1.0)
XP = atom(("c", "x", IX))
def ND(i): return atom(("c", "n", i))

class Lag(Calc):
    """sums and products over guarded index loops are kept as such"""
    def __init__(self, P, scal):
        super().__init__(P, scal); self.cons = []       # (frame depth, constraint)
    def arith(self, op, x, y_, n):
        if op == "-" and coord(x) and coord(y_): return dif(x, y_)
        return super().arith(op, x, y_, n)
    def s_For(self, n):
        h = self.loop_head(n)
        if h is None: und("loop of unsupported form", n)
        d, lo, up, op, step = h
        if step != 1 or op not in ("<", "<=", "!="): und("loop form", n)
        plo = fix(self.sc(lo)) if lo is not None else {}
        pup = fix(self.sc(up))
        if cval(plo) is not None and cval(pup) is not None: return super().s_For(n)
        sym = fresh("l")
        # range in terms of 0 <= sym < size
        cs = []
        k = self.index(plo)
        if k != 0:
            if isinstance(k, tuple) and k[0] == "aff" and k[1] == 1 and k[2] == 1: cs.append(("lt", k[3], sym))
            elif isinstance(k, tuple) and k[0] in ("l", "s"): cs.append(("le", k, sym))
            else: und("loop start", n)
        u = self.index(pup)
        if isinstance(u, tuple) and u[0] in ("l", "s"): cs.append(("lt" if op != "<=" else "le", sym, u))
        elif len(pup) == 1 and list(pup)[0] != ONE and list(pup)[0][0][0][:2] == ("fn", "dim") and op != "<=": pass
        else: und("loop bound", n)
        dep = len(self.cons)
        for c in cs: self.cons.append(c)
        self.env[d] = ("scalar", atom(("ixv", sym)), len(self.frames) + 1, False)
        self.frames.append(sym)
        try: self.exec(n["body"])
        except Cont: pass
        finally: self.frames.pop(); del self.cons[dep:]
    def eqsyms(self, n):
        """list of (a,b) with the condition equal to OR of a==b; None if not of this form"""
        n = self.unwrap(n)
        if n["k"] == "Bin" and n["op"] == "||":
            a, b = self.eqsyms(n["c"][0]), self.eqsyms(n["c"][1])
            return a + b if a is not None and b is not None else None
        if n["k"] == "Un" and n["op"] == "!": return self.nesyms(n["c"][0])
        if n["k"] == "Bin" and n["op"] == "==":
            try: a, b = self.index(self.sc(n["c"][0])), self.index(self.sc(n["c"][1]))
            except Undecided: return None
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] in ("l", "s") and b[0] in ("l", "s"): return [(a, b)]
        return None
    def nesyms(self, n):
        n = self.unwrap(n)
        if n["k"] == "Bin" and n["op"] == "&&":
            a, b = self.nesyms(n["c"][0]), self.nesyms(n["c"][1])
            return a + b if a is not None and b is not None else None
        if n["k"] == "Un" and n["op"] == "!": return self.eqsyms(n["c"][0])
        if n["k"] == "Bin" and n["op"] == "!=":
            m = dict(n); m["op"] = "=="
            return self.eqsyms(m)
        return None
    def only_continue(self, n):
        while n is not None and n["k"] == "Block" and len(n["c"]) == 1: n = n["c"][0]
        return n is not None and n["k"] == "Continue"
    def s_If(self, n):
        e = self.eqsyms(n["cond"])
        if e is not None and self.only_continue(n.get("then")):
            for a, b in e: self.cons.append(("ne", a, b))
            if n.get("else"): self.exec(n["else"])
            return
        e = self.nesyms(n["cond"])
        if e is not None and (n.get("else") is None or self.only_continue(n["else"])):
            dep = len(self.cons)
            for a, b in e: self.cons.append(("ne", a, b))
            self.exec(n["then"])
            if n.get("else") is None: del self.cons[dep:]
            return
        return super().s_If(n)
    def assign(self, n, place, op, v):
        if isinstance(place, tuple) and place[0] == "ref": place = place[1]
        if isinstance(place, tuple) and place[0] == "var":
            old = self.env[place[1]]; birth = old[2]; out = self.frames[birth:]
            if isinstance(v, tuple): v = self.rd(v)
            if out and isinstance(v, dict) and op in ("*=", "/=", "+=", "-="):
                cs = frozenset(c for c in self.cons if any(x in out for x in c[1:]))
                if op in ("*=", "/="):
                    if len(out) != 1: und("product over several loops", n)
                    m = {out[0]: ("pp", 0)}
                    if op == "/=": v = pinv(v)
                    t = atom(("prod", tuple(sorted((subst_t(c, m) for c in cs), key=repr)), freeze(psubst(v, m))))
                    nv = pmul(self.rd(old), t)
                else:
                    m = {s: ("sv", i) for i, s in enumerate(out)}
                    t = atom(("csum", len(out), tuple(sorted((subst_t(c, m) for c in cs), key=repr)), freeze_m(psub_deep(v, m))))
                    nv = padd(self.rd(old), t, 1.0 if op == "+=" else -1.0)
                self.env[place[1]] = ("scalar", nv, birth, False); return
        return super().assign(n, place, op, v)
def sub_any(t, m):
    if isinstance(t, tuple):
        if t in m: return m[t]
        return tuple(sub_any(x, m) for x in t)
    return t
def psub_deep(p, m):
    out = {}
    for mono, c in p.items():
        fs = {}; sg = 1.0
        for a, q in mono:
            b = sub_any(a, m)
            if b[0] == "D" and repr(b[2]) < repr(b[1]):
                b = ("D", b[2], b[1]); sg *= (-1.0) ** q
            fs[b] = fs.get(b, 0) + q
        s, mm = mkmono(fs)
        out[mm] = out.get(mm, 0.0) + s * c * sg
    return out
def freeze_m(p): return tuple(sorted(p.items(), key=repr))
def rename_canon(p): return psub_deep(p, {})

def lagrange(ctx, maxn):
    C_ = ctx.C
    f = ctx.lip
    where = f.loc()
    import math
    for n in range(maxn + 1):
        key = "lagrange|%d" % n
        ev = Lag(ctx.P, ctx.scal)
        X = CTn("x", [None], lambda idx: atom(("c", "x", idx[0])), 0); N = CTn("x0", [None], lambda idx: atom(("c", "n", idx[0])), 0)
        out = CTn("dnf", [0, 0], lambda idx: {}, 0)
        try:
            ev.call_function(f, None, [X, N, out, S(const(n))])
            p = psub_deep(out.get((IX, FI)), {})
        except Rejected: C_.count("orders_rejected"); break
        except Undecided as x: C_.undecide("%s order %d: %s" % (where, n, x)); continue
        # expected integrand
        def body(excl):
            b = pmul(dif(XP, ND(("pp", 0))), pinv(dif(ND(FI), ND(("pp", 0)))))
            return frozenset(excl), b
        def prods(mono):
            """split a monomial into guarded products and the rest"""
            pr = {}; rest = {}
            for a, q in mono:
                if a[0] == "prod":
                    ex = set()
                    for c in a[1]:
                        if c[0] != "ne": und("guard %s" % c[0])
                        o = [x for x in c[1:] if x != ("pp", 0)]
                        if len(o) != 1: und("guard")
                        ex.add(o[0])
                    k = frozenset(ex)
                    b = psub_deep(dict(a[2]), {})
                    pr[k] = pmul(pr.get(k, const(1)), ppow(b, q))
                else: rest[a] = q
            return pr, rest
        try:
            if n == 0:
                if len(p) != 1: und("not one product")
                (mono, c), = p.items()
                pr, rest = prods(mono)
                ok = abs(c - 1) < 1e-12 and not rest and list(pr) == [frozenset([FI])] and not same(list(pr.values())[0], body([FI])[1])
                why = "the product must run over all nodes but the function's own, of (x-x_ip)/(x_fi-x_ip)"
            else:
                if len(p) != 1: und("not one sum")
                (mono, K), = p.items()
                if len(mono) != 1 or mono[0][0][0] != "csum" or mono[0][1] != 1: und("not one sum")
                _, nv, cons, fb = mono[0][0]
                sv = [("sv", i) for i in range(nv)]
                if nv != n:
                    ok = False; why = "%d removed factors instead of %d" % (nv, n)
                else:
                    lt = {(c[1], c[2]) for c in cons if c[0] == "lt"}; le = {(c[1], c[2]) for c in cons if c[0] == "le"}
                    ne = {frozenset(c[1:]) for c in cons if c[0] == "ne"}
                    clo = set(lt)
                    ch = True
                    while ch:
                        new = {(a, d) for a, b in clo for c, d in clo if b == c} - clo
                        ch = bool(new); clo |= new
                    missing = [s for s in sv if frozenset((s, FI)) not in ne]
                    pairs = [(a, b) for i, a in enumerate(sv) for b in sv[i + 1:]]
                    rep = [pq for pq in pairs if pq not in clo and (pq[1], pq[0]) not in clo and frozenset(pq) not in ne]
                    order = sum(1 for pq in pairs if pq in clo or (pq[1], pq[0]) in clo)
                    if order == len(pairs): ext = 1
                    elif order == 0: ext = math.factorial(n)
                    else: und("partial order of the removed factors")
                    b = psub_deep(dict(fb), {})
                    if len(b) != 1: und("summand")
                    (m2, c2), = b.items()
                    pr, rest = prods(m2)
                    want_rest = const(1)
                    for s_ in sv: want_rest = pmul(want_rest, pinv(dif(ND(FI), ND(s_))))
                    ok = not missing and not rep and not le
                    why = "the removed factors must be distinct and differ from the function's own node"
                    if ok:
                        ok = list(pr) == [frozenset([FI] + sv)] and not same(list(pr.values())[0], body([])[1])
                        why = "each term must be the product over the remaining nodes of (x-x_ip)/(x_fi-x_ip)"
                    if ok:
                        s_, mm = mkmono(rest)
                        ok = not same({mm: c2 * s_ / c2 if False else s_ * (1 if c2 > 0 else -1)}, want_rest)
                        why = "each removed factor leaves 1/(x_fi-x_d)"
                    if ok:
                        tot = K * abs(c2) * ext
                        ok = abs(tot - math.factorial(n)) < 1e-9 * math.factorial(n)
                        why = "the multiplicity is %.17g instead of %d! = %d" % (tot, n, math.factorial(n))
        except Undecided as x: C_.undecide("%s order %d: %s" % (where, n, x)); continue
        C_.count("lagrange_orders")
        if not ok: C_.violation(key, "%s: order-%d derivative of the Lagrange polynomials: %s" % (where, n, why))

# ---------------------------------------------------------------- Legendre
class RecTn(CTn):
    """a table filled by a recurrence: symbolic entries stay symbols, the defining equations are kept"""
    inrec = [0]
    def get(self, idx):
        idx = tuple(fixaff(i) if isinstance(i, tuple) else i for i in idx)
        full = [all(isinstance(x, tuple) and x[0] == "pv" for x in pat) for pat, _, _ in self.defs]
        if len(self.defs) == 1 and full[0] and self.defs[0][1]: return CTn.get(self, idx)      # copy of another table
        rec = self.inrec[0] > 0 or not all(full)
        if rec and any(isinstance(i, tuple) and i[0] != "s" or i == M for i in idx[-1:]): return atom(("a", self.name) + tuple(idx))
        if rec and self.name == "Tmat": return atom(("a", self.name) + tuple(idx))
        return CTn.get(self, idx)
    def equations(self):
        """(pattern, poly) of all element definitions, later ones first"""
        return [(pat, poly) for pat, poly, op in reversed(self.defs)]
LM = ("s", "lm"); LMAX = padd(atom(("ixv", LM)), const(2))
class Leg(Lib):
    tables = None
    def __init__(self, *a):
        super().__init__(*a); self.rec = {}
    def newt(self, name, rank, dims): return RecTn(name, dims, lambda idx: {}, len(self.frames))
    def own(self, v, t, name):
        r = super().own(v, t, name)
        if isinstance(r, CTn): r.__class__ = RecTn; r.name = name; self.rec[name] = r
        return r
    def call_hook(self, n, q, args, obj):
        if n["k"] == "Call" and n.get("inproj") and q.startswith("helfem::legendre::"):
            lm = self.sc(n["a"][0]); xs = self.ev(n["a"][1]); xs = whole(xs) if isinstance(xs, Tn) else xs
            if same(lm, LMAX): und("Legendre table of another order", n)
            if same(xs.get((("s", "probe"),)), xval((("s", "probe"),))): und("Legendre table at other points", n)
            self.used = n["f"]
            nm = "F:" + n["f"]
            return TV(2, [None, None], lambda idx: atom(("a", nm) + tuple(idx)))
        return super().call_hook(n, q, args, obj)
    def odd_loop(self, n, h):
        d, lo, up, op, step = h
        plo, pup = fix(self.sc(lo)), fix(self.sc(up))
        if step != 1 or op != "<" or cval(plo) != 1.0 or same(pup, LMAX): und("loop range", n)
        sym = fresh("l")
        self.env[d] = ("scalar", padd(atom(("ixv", sym)), const(1)), len(self.frames) + 1, False)
        self.frames.append(sym)
        RecTn.inrec[0] += 1
        try: self.exec(n["body"])
        except Cont: pass
        finally: self.frames.pop(); RecTn.inrec[0] -= 1
    def e_Cond(self, n):
        c = self.unwrap(n["c"][0])
        if self.cond(c) is None and c["k"] == "Bin" and c["op"] in ("==", "!="):
            a, b = self.sc(c["c"][0]), self.sc(c["c"][1])
            if len(a) == 1 and isconst(b) and list(a)[0] and list(a)[0][0][0][:2] == ("fn", "mod"):
                mod = list(a)[0][0][0]
                if dict(mod[3]) == {ONE: 2.0}:
                    e, o = self.sc(n["c"][1]), self.sc(n["c"][2])
                    even = (cval(b) == 0.0) == (c["op"] == "==")
                    if not even: e, o = o, e
                    k = self.index(dict(mod[2]))
                    return padd(pscale(padd(e, o), 0.5), pmul(pscale(padd(e, o, -1.0), 0.5), atom(("a", "sgn", k))))
        return super().e_Cond(n)
    def assume_rel(self, n, d):
        """interior column: j = 1 + m < lmax"""
        syms = {a for m in d for a, q in m}
        if syms == {("ixv", M), ("ixv", LM)}: return {"==": False, "!=": True}.get(n["op"])
        return None
    def field_default(self, name, t):
        if name == "lmax": return S(LMAX)
        return super().field_default(name, t)
def sgn_norm(p):
    def f(a):
        if a[:2] == ("a", "sgn"):
            k = a[2]
            if isinstance(k, int): return const((-1) ** (k % 2))
            if k[0] == "aff" and k[1] == 1: return pscale(atom(("a", "sgn", k[3])), (-1.0) ** (k[2] % 2))
        return None
    p = prepl(fix(p), f)
    out = {}
    for m, c in p.items():
        fs = {}
        for a, q in m: fs[a] = q % 2 if a[:2] == ("a", "sgn") else q
        s, mm = mkmono(fs); out[mm] = out.get(mm, 0.0) + s * c
    return out

def table_eqs(T):
    """{0: poly, 1: poly, 'rec': poly at index 2+K} with row IX"""
    K = ("s", "K")
    out = {}
    for pat, poly in T.equations():
        row, col = pat
        if not (isinstance(row, tuple) and row[0] == "pv"): und("table row")
        if isinstance(col, int):
            out.setdefault(col, psub(poly, {row: IX})); continue
        if col[0] == "aff" and col[1] == 1 and col[2] == 2 and col[3][0] == "pv": out.setdefault("rec", psub(poly, {row: IX, col[3]: K})); continue
        if col[0] == "pv":
            for k in (0, 1): out.setdefault(k, psub(poly, {row: IX, col: k}))
            break
        und("table column %s" % (col,))
    return out

def legendre(ctx):
    C_ = ctx.C; K = ("s", "K")
    where = "LegendreBasisT<%s>" % ctx.scal
    cls = NS + "LegendreBasisT<%s>" % ctx.scal
    def build():
        ev = Leg(ctx.P, ctx.scal, ctx.lipid)
        o = ev.construct(cls, [S(padd(LMAX, const(1))), S(const(0))])
        return ev, o
    col = ("s", "c")
    def call(meth, n, en):
        ev, o = build()
        o.f["enabled"] = enabled_as(en)
        out = ev.newt("dnf", 2, [0, 0])
        ev.used = None
        f = ev.method_of(o.cls, meth, 4)
        ev.locals = {}
        ev.call_function(f, o, [points(), out, S(const(n)), S(E_)])
        return fix(CTn.get(out, (IX, ("s", "c")))), ev, o
    try:
        # the tables behind the derivative orders, and the shape-function combination
        tabs = []
        for n in range(3):
            p, ev, o = call("eval_dnf", n, ixval(M))
            d = ("s", "dd")
            want = msum(pmul(pmul(atom(("a", "F:" + ev.used, IX, d)), atom(("a", "Tmat", d, M))), ppow(E_, -n)), d)
            C_.count("derivative_orders")
            if same(p, want): C_.violation("LegendreBasisT|shape|%d" % n, "%s: order-%d shape functions are not the transformed order-%d Legendre table over e^%d" % (where, n, n, n))
            tabs.append(ev.used)
        Tm = o.f["Tmat"]
        x_ = xval((IX,)); nn = padd(ixval(K), const(1))
        eqs = []
        for t in tabs:
            f = ctx.P.funcs[t]
            ev = Leg(ctx.P, ctx.scal, ctx.lipid)
            r = ev.run(f, None, [S(LMAX), points()])
            if not isinstance(r, RecTn): und("table of " + f.q)
            nm = r.name
            q = table_eqs(r)
            q = {k: prepl(v, lambda a: atom(("a", "F:" + t) + a[2:]) if a[:2] == ("a", nm) else None) for k, v in q.items()}
            if set(q) != {0, 1, "rec"}: und("table of " + f.q)
            eqs.append((t, q, f))
        def tab(n, k): return atom(("a", "F:" + tabs[n], IX, k))
        k2, k1, k0 = mkaff(1, 2, K), mkaff(1, 1, K), K
        want = {0: const(1), 1: x_, "rec": pmul(padd(pmul(pmul(padd(pscale(nn, 2.0), const(1)), x_), tab(0, k1)), pmul(nn, tab(0, k0)), -1.0), pinv(padd(nn, const(1))))}
        def dP(a):
            if a[0] == "a" and a[1] == "y": return const(1)
            for n in range(2):
                if a[:2] == ("a", "F:" + tabs[n]): return atom(("a", "F:" + tabs[n + 1]) + a[2:])
            return None
        for n in range(3):
            for k in (0, 1, "rec"):
                w = want[k] if n == 0 else deriv(eqs[n - 1][1][k], dP)
                C_.count("recurrence_equations")
                if same(eqs[n][1][k], w):
                    C_.violation("legendre|table%d|%s" % (n, k), "%s: %s of the order-%d table is not %s: %s" % (eqs[n][2].loc(), "the recurrence" if k == "rec" else "entry %d" % k, n,
                        "the Legendre recurrence" if n == 0 else "the derivative of the order-%d one" % (n - 1), diff_text(eqs[n][1][k], w)))
        # end-point values of the shape functions
        ent = {}
        for pat, poly in Tm.equations():
            pv = {x: ("s", "K") for x in walk_pv(pat)}
            ent.setdefault(tuple(fixaff(sub_any(x, pv)) for x in pat), psub(poly, pv))
        lm2 = mkaff(1, 2, LM)
        def column(c): return {r: v for (r, cc), v in ent.items() if cc == c}
        first, last, mid = column(0), column(lm2), column(mkaff(1, 1, K))
        z = const(0)
        C_.count("nodal_conditions", 3)
        def chk(colm, rows, name, lo, hi):
            if set(colm) != set(rows): und("%s column of the transformation" % name)
            par = {0: 1, 1: -1}
            at_hi = z; at_lo = z
            for r, v in colm.items():
                at_hi = padd(at_hi, v); at_lo = padd(at_lo, v, par.get(r, 1))
            if same(at_hi, const(hi), 1) or same(at_lo, const(lo), 1): C_.violation("LegendreBasisT|ends|" + name, "%s: the %s shape function takes the values %s and %s at the element ends, must be %d and %d" % (where, name, pp(at_lo), pp(at_hi), lo, hi))
        chk(first, [0, 1], "first", 1, 0); chk(last, [0, 1], "last", 0, 1); chk(mid, [k2, k0], "interior", 0, 0)
        # B/r
        qt = []
        for n in range(3):
            for name, en in (("interior", padd(ixval(M), const(1))), ("last", LMAX)):
                p, ev, o = call("eval_over_r", n, en)
                C_.count("over_r_cases")
                if name == "interior":
                    names = {a[1] for m in p for a, _ in m if a[0] == "a" and len(a) == 4}
                    if len(names) != 1: und("B/r tables")
                    t = names.pop(); qt.append(t)
                    T = ev.rec[t]
                    mid_ = {psubi(r, K, M): psub(v, {K: M}) for r, v in mid.items()}
                    w = {}
                    for r, v in mid_.items(): w = padd(w, pmul(v, atom(("a", t, IX, r))))
                    w = pmul(w, ppow(E_, -1 - n))
                    if same(p, w): C_.violation("LegendreBasisT|over_r|%d" % n, "%s::eval_over_r: order %d does not combine the deflated table as the shape functions combine the Legendre table: %s" % (where, n, diff_text(p, w)))
                    q = table_eqs(T)
                    if n == 0:
                        q0 = q
                        # (x+1) Q_k = P_k - (-1)^k
                        def sub(a):
                            if a[:2] == ("a", t): return pmul(padd(atom(("a", "P", a[3])), atom(("a", "sgn", a[3])), -1.0), pinv(atom(y(IX))))
                            return None
                        lhs = sgn_norm(prepl(q["rec"], sub))
                        prec = pmul(padd(pmul(pmul(padd(pscale(nn, 2.0), const(1)), x_), atom(("a", "P", k1))), pmul(nn, atom(("a", "P", k0))), -1.0), pinv(padd(nn, const(1))))
                        rhs = sgn_norm(pmul(padd(prec, atom(("a", "sgn", k2)), -1.0), pinv(atom(y(IX)))))
                        # bring the sign term over the common denominator
                        den = padd(nn, const(1))
                        lhs2, rhs2 = clear(lhs, den), clear(rhs, den)
                        C_.count("recurrence_equations", 3)
                        if same(lhs2, rhs2): C_.violation("LegendreBasisT|Q", "%s::eval_over_r: the deflated table does not satisfy (x+1) Q_k = P_k - (-1)^k" % where)
                        if same(q[0], {}, 1): C_.violation("LegendreBasisT|Q0", "%s::eval_over_r: Q_0 must be 0" % where)
                        if same(q[1], const(1)): C_.violation("LegendreBasisT|Q1", "%s::eval_over_r: Q_1 must be 1" % where)
                    else:
                        tp = qt[n - 1]
                        def dQ(a):
                            if a[0] == "a" and a[1] == "y": return const(1)
                            for i in range(n):
                                if a[:2] == ("a", qt[i]): return atom(("a", qt[i + 1]) + a[2:])
                            return None
                        for k in (0, 1, "rec"):
                            w = deriv(qp[k], dQ)
                            C_.count("recurrence_equations")
                            if same(q[k], w): C_.violation("LegendreBasisT|Qd%d|%s" % (n, k), "%s::eval_over_r: %s of the order-%d deflated table is not the derivative of order %d: %s" % (where, "the recurrence" if k == "rec" else "entry %d" % k, n, n - 1, diff_text(q[k], w)))
                    qp = q
                else:
                    w = pmul(const(0.5 if n == 0 else 0.0), ppow(E_, -1 - n))
                    if same(p, w, 1e-3): C_.violation("LegendreBasisT|over_r_last|%d" % n, "%s::eval_over_r: order %d of the last shape function is %s, must be %s" % (where, n, pp(p), pp(w)))
    except Undecided as x:
        C_.undecide("%s: %s" % (where, x))
def psubi(r, a, b): return fixaff(sub_any(r, {a: b}))
def clear(p, den):
    """multiply by a denominator, cancelling its inverse"""
    inv = list(pinv(den))[0][0][0]
    out = {}
    for m, c in p.items():
        fs = dict(m)
        if fs.get(inv, 0) >= 1:
            fs[inv] -= 1
            s, mm = mkmono(fs); out = padd(out, {mm: s * c})
        else: out = padd(out, pmul({m: c}, den))
    return out
def walk_pv(t):
    if isinstance(t, tuple):
        if t and t[0] == "pv": yield t
        else:
            for x in t: yield from walk_pv(x)

def run():
    C_ = Check("C06", RULE)
    P = program.load()
    for scal in ("double", "long double"):
        ctx = Ctx(C_, P, scal)
        lagrange(ctx, 40)
        legendre(ctx)
        for cls, maxd in (("LIPBasisT", 40), ("HIPBasisT", 40), ("HIP2BasisT", 20), ("HIP3BasisT", 20)):
            r = hermite(ctx, cls, maxd)
            if r: over_r(ctx, cls, *r)
        radial.layer(C_, P, scal)
        radial.boundary(C_, P, scal)
    # at least part of every kind must have been understood for a verdict to mean anything
    for nm, lo in (("derivative_orders", 30), ("lagrange_orders", 5), ("over_r_cases", 10), ("layer_equations", 20), ("boundary_conditions", 30)): C_.need(nm, lo)
    C_.assume = ["a std::vector or Eigen array holds what was last stored in it; exact real arithmetic (rounding is not considered)",
                 "nodes are distinct and every point lies strictly inside its element (the 0/0 limits taken by the code at coinciding points are checked as separate cases)",
                 "the Legendre tables of the GSL-free evaluator are judged through their recurrences"]
    C_.explain = RULE + " The finite-element and radial layers above must pass exactly these functions on: own element size, boundary conditions of the first and last element, r = midpoint + scaling*x, B/r with its derivatives by the product rule, and the function list of each element."
    return C_.finish()
