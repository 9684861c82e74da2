"""Strings: literal pieces and terms; what matters about a term is its length and what it is the text of."""
from .terms import *
from .engine import OpaqueStr, SymStr, Obj, Seq, Raised, Unsupported, Model, ListView, ExcVal

isstr = Function("isstr", Val, BoolSort())
slen = Function("slen", Val, IntSort())
srepr = Function("srepr", Val, Val)
sstr = Function("sstr", Val, Val)
scat = Function("scat", Val, Val, Val)
sjoin = Function("sjoin", Val, AV, IntSort(), Val)
psum = Function("psum", AV, IntSort(), IntSort())      # the total length of the first n strings

def axioms():
    v, w = fval("v"), fval("w"); a = fresh("a", AV); n, k = fint("n"), fint("k"); s = fval("s")
    out = []
    for f in (srepr, sstr): out.append(ForAll([v], And(isstr(f(v)), slen(f(v)) >= 0), patterns=[f(v)]))
    out.append(ForAll([v, w], And(isstr(scat(v, w)), slen(scat(v, w)) == slen(v) + slen(w)), patterns=[scat(v, w)]))
    out.append(ForAll([s, a, n], isstr(sjoin(s, a, n)), patterns=[sjoin(s, a, n)]))
    out.append(ForAll([a], psum(a, 0) == 0, patterns=[psum(a, 0)]))
    return out

class StringMixin:
    probing = 0             # > 0: invariants are being guessed, nothing is concluded
    strings = False         # are strings modelled (or is their text of no interest)?
    def axioms(self):
        if self.strings: return super().axioms() + STRING_AXIOMS
        return super().axioms()
    def use_strings(self):
        if not self.strings:
            self.strings = True
            for f in STRING_AXIOMS: self.path.solver.add(f)
    def toval(self, v):
        t = super().toval(v)
        if self.strings and isinstance(v, str):
            # a literal: its length is known
            known = getattr(self.path, "lits", ())
            if v not in known:
                self.path.lits = tuple(known) + (v,)
                self.assume(And(isstr(t), slen(t) == len(v)))
        return t
    def litstr(self, x): return self.toval(x)
    def strterm(self, s):
        """The term of a string."""
        if isinstance(s, str): return self.litstr(s)
        if is_val(s): return s
        if not isinstance(s, SymStr): raise Unsupported("a string whose text is not modelled")
        ts = [self.litstr(p) if isinstance(p, str) else p for p in s.pieces]
        if not ts: return self.litstr("")
        r = ts[0]
        for t in ts[1:]: r = scat(r, t)
        return r
    def is_string(self, v): return isinstance(v, (str, OpaqueStr)) or (self.strings and is_val(v) and self.must(isstr(v)))
    def symstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr): ps = p.pieces
            elif isinstance(p, str) or is_val(p): ps = [p]
            else: return OpaqueStr()
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
                elif not (isinstance(q, str) and not q): out.append(q)
        if all(isinstance(p, str) for p in out): return "".join(out)
        return SymStr(out)
    def text(self, v, conv):
        """str(v) or repr(v)."""
        if isinstance(v, (str, OpaqueStr)): return v if conv == "s" else OpaqueStr() if not isinstance(v, str) else repr(v)
        if isinstance(v, (bool, int)) or v is None: return repr(v)
        if isinstance(v, tuple): return self.symstr(["(", SymStr([fval("text")]), ")"]) if v else "()"
        if isinstance(v, ExcVal):
            m, k = self.lookup_type(v.cls, "__str__" if conv == "s" else "__repr__")
            return self.call(m, [v], {}) if self.mine(m) else OpaqueStr()
        if self.strings:
            if is_val(v):
                v = self.concretize(v)
                if is_val(v):
                    if conv == "s" and self.must(isstr(v)): return v
                    return SymStr([(srepr if conv == "r" else sstr)(v)])
            if isinstance(v, (tuple,)) and len(v) == 2: return SymStr([srepr(self.toval(v))])
            if isinstance(v, Obj) and v.cls.__module__.startswith("pcollections"):
                return self.callmethod(v, "__str__" if conv == "s" else "__repr__", [])
        return OpaqueStr()
    def len(self, o):
        if self.strings and (isinstance(o, SymStr) or is_val(o) and (self.probing or self.must(isstr(o)))):
            t = slen(self.strterm(o))
            self.assume(t >= 0)
            return lit(simplify(t))
        return super().len(o)
    def b_str(self, *a): return self.text(a[0], "s") if a else ""
    def b_repr(self, v): return self.text(v, "r")
    def join(self, sep, it):
        s = self.seq(it)
        if isinstance(s.n, int) and s.n <= 6:
            parts = []
            for i in range(s.n):
                x = s.at(i)
                if not self.is_string(x):
                    if is_val(x): raise Unsupported("joining what may not be strings")
                    raise Raised(TypeError)
                parts += ([sep] if i else []) + [x]
            return self.symstr(parts)
        if not self.strings: return OpaqueStr()
        v = self.view(it) if isinstance(it, Obj) and self.isview(it) else None
        a = v.a if isinstance(v, ListView) else self.array_of(Seq(s.n, lambda i: self.strterm(s.at(i)) if not is_val(s.at(i)) else s.at(i)))
        i = fint("i")
        self.must_hold(ForAll([i], Implies(And(0 <= i, i < Z(s.n)), isstr(Select(a, i))), patterns=[Select(a, i)]), "joining what may not be strings")
        if not isinstance(sep, str): raise Unsupported("joining with a computed separator")
        t = sjoin(self.litstr(sep), a, Z(s.n))
        self.assume(slen(t) == If(Z(s.n) <= 0, 0, psum(a, Z(s.n)) + len(sep) * (Z(s.n) - 1)))
        return SymStr([t])
    def grown(self, a, b, n, x):
        """The array b is a with x at index n: the sums of the lengths."""
        self.assume(And(psum(b, n) == psum(a, n), psum(b, simplify(n + 1)) == psum(a, n) + slen(x)))
    def must_hold(self, f, why):
        if not self.must(f): raise Unsupported(why)
STRING_AXIOMS = axioms()
