"""Floating-point width analysis of the code instantiated for extended precision.

In a function instantiated for `long double`, every maximal expression of a narrower floating type must be an exactly
representable constant, or its value must only reach diagnostics (output, exception text, a comparison that guards
nothing but diagnostics) or a tolerance that is itself scaled by the epsilon of the working type."""
import re
from fractions import Fraction
from program import *

WIDE = "long double"
def scalar(t):
    t = (t or "").replace("const ", "").replace("&", "").strip()
    return t in ("double", "float")
def eigen_narrow(t):
    t = (t or "")
    if "complex" in t or not ("Eigen::" in t or "vector<" in t): return False
    return re.search(r"<(?:[^<>]*[, ])?(?:double|float)\b", t.replace("long double", "LD")) is not None

def short_float(v):
    """is this literal value one that a decimal literal of 17 digits or a small binary fraction names exactly?"""
    m = re.sub(r"[eE].*$", "", v).lstrip("-").replace(".", "").strip("0")
    try: x = Fraction(float(v))
    except (ValueError, OverflowError): return None
    n = x.numerator
    while n and n % 2 == 0: n //= 2
    if abs(n) < (1 << 32): return x
    return x if len(m) <= 17 and Fraction(v) == x else None

class Width:
    def __init__(self, P, f, wide=WIDE):
        self.P, self.f, self.wide = P, f, wide
        self.par, self.vars, self.refs, self.assigned = {}, {}, {}, set()
        roots = list(f.inits) + [f.body]
        st = [(r, None) for r in roots]
        while st:
            n, p = st.pop()
            self.par[id(n)] = p
            k = n["k"]
            if k == "Var": self.vars[n.get("d")] = n
            if k == "Ref": self.refs.setdefault(n.get("d"), []).append(n)
            if k == "Bin" and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                l = kids(n)[0]
                if l["k"] == "Ref": self.assigned.add(l.get("d"))
            if k == "Un" and n.get("op") in ("++", "--", "&", "p++", "p--"):
                for c in kids(n):
                    if c["k"] == "Ref": self.assigned.add(c.get("d"))
            st += [(c, n) for c in kids(n)]
        self.roots = roots
        self.mpars = {p.get("d") for p in f.params if eigen_narrow(p.get("t"))}
        self.pars = {p.get("d") for p in f.params if scalar(p.get("t"))}
    # -- constants --------------------------------------------------------
    def const(self, n, depth=0):
        """exact value of a constant expression of narrow type, or None"""
        if depth > 12: return None
        k = n["k"]
        if k == "Flt": return short_float(n["v"])
        if k == "Int": return Fraction(int(n["v"]))
        ks = kids(n)
        if k in ("ICast", "Cast", "Paren", "DefArg") and ks:
            v = self.const(ks[0], depth + 1)
            if v is not None and scalar(n.get("t")) and Fraction(float(v)) != v: return None
            return v
        if k == "Un" and n.get("op") in ("-", "+") and ks:
            v = self.const(ks[0], depth + 1)
            return None if v is None else (-v if n["op"] == "-" else v)
        if k == "Bin" and len(ks) == 2 and n.get("op") in "+-*/":
            a, b = self.const(ks[0], depth + 1), self.const(ks[1], depth + 1)
            if a is None or b is None: return None
            if n["op"] == "/" and not scalar(n.get("t")): return None
            try: v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[n["op"]]()
            except ZeroDivisionError: return None
            return v if Fraction(float(v)) == v else None
        if k == "Cond" and len(ks) == 3:
            a, b = self.const(ks[1], depth + 1), self.const(ks[2], depth + 1)
            return a if a is not None and b is not None else None
        if k == "Ref":
            d = n.get("d"); v = self.vars.get(d)
            if v is not None and d not in self.assigned and kids(v): return self.const(kids(v)[-1], depth + 1)
        return None
    # -- sinks ------------------------------------------------------------
    PRINT = ("printf", "fprintf", "sprintf", "snprintf", "to_string", "fmt_sci", "fmt_fixed", "puts", "fflush")
    def prints(self, n):
        k = n["k"]
        if k in ("Call", "MCall") and (n.get("n") in self.PRINT or "stream" in (n.get("q") or "")): return True
        if k == "OCall" and n.get("op") in ("<<", "operator<<") and "stream" in (n.get("t") or ""): return True
        return False
    def diagnostic(self, n):
        """a statement that does nothing but report or throw"""
        has = False
        for x in walk(n):
            if x["k"] == "Throw" or self.prints(x): has = True
        if not has: return False
        for x in walk(n):
            if x["k"] == "Throw": return True
        for x in walk(n):
            if x["k"] in ("Return", "Break", "Continue"): return False
            if x["k"] == "Bin" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="): return False
        return True
    def enclosing(self, n):
        while n is not None:
            yield n
            n = self.par.get(id(n))
    def exempt(self, n, depth=0):
        child = n
        p = self.par.get(id(n))
        while p is not None:
            k = p["k"]
            if k == "Throw" or self.prints(p): return True
            if k == "Bin" and p.get("op") in ("<", ">", "<=", ">=", "==", "!="):
                return self.guards_diagnostics(p)
            if k in ("Block", "For", "ForRange", "While", "Do", "If", "Switch", "Return", "Lambda"): return False
            if k == "Bin" and p.get("op", "").endswith("="): return False
            if k == "Var":
                if depth > 3: return False
                rs = self.refs.get(p.get("d"), [])
                return bool(rs) and all(self.exempt(r, depth + 1) for r in rs)
            child, p = p, self.par.get(id(p))
        return False
    def guards_diagnostics(self, cmp_):
        child = cmp_; p = self.par.get(id(cmp_))
        while p is not None:
            if p["k"] == "If":
                ks = kids(p)
                br = [c for c in (p.get("then"), p.get("else")) if isinstance(c, dict)] or [c for c in ks if c is not child]
                if child in br: return False
                return all(self.diagnostic(b) for b in br)
            if p["k"] == "Bin" and p.get("op") in ("&&", "||") or p["k"] in ("Un", "ICast", "Paren"):
                child, p = p, self.par.get(id(p)); continue
            return False
        return False
    def scaled(self, n):
        """part of an expression that is proportional to the epsilon of the working type"""
        top = n; p = self.par.get(id(n))
        while p is not None and (p["k"] in ("Paren", "Cast", "ICast", "Un", "DefInit") or p["k"] == "Bin" and p.get("op") in ("*", "/")):
            top, p = p, self.par.get(id(p))
        return any(x["k"] == "Call" and x.get("n") == "epsilon" and self.wide in (x.get("q") or "") for x in walk(top))
    def regime(self, n):
        """an ordinary (not tiny) constant that is only compared against: the boundary between two ways to compute the same thing"""
        x = n
        while x["k"] in ("ICast", "Cast", "Paren", "Un") and kids(x): x = kids(x)[0]
        if x["k"] != "Flt" or abs(float(x["v"])) < 1e-6: return False
        p = self.par.get(id(n)); 
        while p is not None and p["k"] in ("ICast", "Cast", "Paren", "Un") : p = self.par.get(id(p))
        if p is None: return False
        if p["k"] == "Bin" and p.get("op") in ("<", ">", "<=", ">="): return True
        if p["k"] == "Var":
            rs = self.refs.get(p.get("d"), [])
            return bool(rs) and p.get("d") not in self.assigned and all((self.par.get(id(r)) or {}).get("op") in ("<", ">", "<=", ">=") or
                (self.par.get(id(r)) or {}).get("k") in ("ICast",) and (self.par.get(id(self.par[id(r)])) or {}).get("op") in ("<", ">", "<=", ">=") for r in rs)
        return False
    # ---------------------------------------------------------------------
    def run(self):
        """yields (node, kind, ok)"""
        for r in self.roots:
            for n in walk(r):
                if n["k"] in ("Var", "Decl"): continue
                t = n.get("t")
                p = self.par.get(id(n))
                if scalar(t):
                    if p is not None and scalar(p.get("t")) and p["k"] not in ("Var", "Lambda"): continue
                    v = self.const(n)
                    if v is not None and (v == 0 or abs(v) >= Fraction(1, 10**6)): yield n, "const", True; continue
                    if self.exempt(n): yield n, "diagnostic", True; continue
                    if n["k"] == "Ref" and n.get("d") in self.pars and n.get("d") not in self.assigned: yield n, "interface", True; continue
                    if self.scaled(n) and self.kind(n) != "narrowed": yield n, "scaled", True; continue
                    if self.regime(n): yield n, "regime", True; continue
                    yield n, self.kind(n), False
                elif eigen_narrow(t):
                    if p is not None and eigen_narrow(p.get("t")) and p["k"] not in ("Var", "Lambda"): continue
                    if n["k"] == "Ref" and n.get("d") in self.mpars: yield n, "interface", True; continue
                    yield n, "matrix cast", self.exempt(n)
    def kind(self, n):
        if self.const(n) is not None: return "tolerance"
        for x in walk(n):
            if x["k"] in ("ICast", "Cast") and scalar(x.get("t")) and kids(x) and self.wide in (kids(x)[0].get("t") or ""): return "narrowed"
        for x in walk(n):
            if x["k"] in ("Call", "MCall") and scalar(x.get("t")): return "call"
        for x in walk(n):
            if x["k"] == "Flt": return "constant"
        return "value"
    def known_source(self, n):
        """a plain value of narrow type is known to be inexact when it is a local variable that holds something computed"""
        for x in walk(n):
            if x["k"] == "Ref" and x.get("d") in self.vars: return True
            if x["k"] == "Mem" and scalar(x.get("t")): return True
        return False

def extended(f):
    """an instantiation for the extended type, outside of test programs"""
    if f.file.startswith("/") or f.file.endswith("test.cpp") or f.file.endswith("/precision.cpp"): return False
    return WIDE in f.q or any(WIDE == str(a) or WIDE in str(a) and "lambda" not in str(a) for a in f.d.get("ta") or [])
