"""The term language: z3 sorts and helpers for values of Python programs."""
import itertools
import z3
from z3 import (And, Or, Not, Implies, If, Int, Bool, IntVal, BoolVal, Const, Function, Select, Store, IntSort,
                BoolSort, ArraySort, DeclareSort, Datatype, simplify, is_true, is_false, is_int_value, substitute)

U = DeclareSort("U")
Cls = DeclareSort("Cls")
_V = Datatype("Val")
_V.declare("vnone")
_V.declare("vell")
_V.declare("vint", ("vi", IntSort()))
_V.declare("vbool", ("vb", BoolSort()))
_V.declare("vtup", ("fst", _V), ("snd", _V))
_V.declare("vobj", ("u", U))
Val = _V.create()
vnone, vell, vint, vbool, vtup, vobj = Val.vnone, Val.vell, Val.vint, Val.vbool, Val.vtup, Val.vobj
fst, snd, vi, vb, vu = Val.fst, Val.snd, Val.vi, Val.vb, Val.u
is_none, is_ell, is_int, is_bool, is_tup, is_obj = (Val.is_vnone, Val.is_vell, Val.is_vint, Val.is_vbool, Val.is_vtup, Val.is_vobj)
cls = Function("cls", Val, Cls)             # the equality class of an object: a == b iff cls(a) = cls(b)
H = Function("H", Cls, IntSort())           # the hash of an object depends on its equality class only
islz_u = Function("islazy", U, BoolSort())  # the object is a lazy
force_u = Function("force", U, Val)         # the value a lazy computes
ready_u = Function("ready", U, BoolSort())   # the lazy has been computed
pairc = Function("pairc", Cls, Cls, Cls)     # the class of a pair
card = Function("card", ArraySort(Cls, BoolSort()), IntSort())    # the number of members of a (finite) set
less = Function("less", Cls, Cls, BoolSort())       # the order of the elements
def islazy(v): return And(is_obj(v), islz_u(vu(v)))
typeof_u = Function("typeof", Val, IntSort())
def isready(v): return ready_u(vu(v))
def force(v): return force_u(vu(v))
def un(v): return If(islazy(v), force(v), v)
AV = ArraySort(IntSort(), Val)
AB = ArraySort(IntSort(), BoolSort())
CB = ArraySort(Cls, BoolSort())
CV = ArraySort(Cls, Val)
CI = ArraySort(Cls, IntSort())
VB = ArraySort(Val, BoolSort())

class Counter:
    """Numbers of the fresh constants: deterministic along a path, so that the paths that share a prefix share its terms."""
    def __init__(self): self.n = 0; self.aside = 0
    def __next__(self): self.n += 1; return self.n
_n = Counter()
def fresh(name, sort):
    return Const(f"{name}!{next(_n)}", sort)
def fresh_global(name, sort):
    _n.aside += 1
    return Const(f"{name}#{_n.aside}", sort)
def fint(name="k"): return fresh(name, IntSort())
def fbool(name="b"): return fresh(name, BoolSort())
def fval(name="v"): return fresh(name, Val)

def isz(v): return isinstance(v, z3.ExprRef)
def is_symint(v): return isinstance(v, z3.ArithRef)
def is_symbool(v): return isinstance(v, z3.BoolRef)
def is_val(v): return isinstance(v, z3.DatatypeRef) and v.sort() == Val
def is_intlike(v): return is_symint(v) or (isinstance(v, int) and not isinstance(v, bool))
def Z(v):
    """An int or bool as a term."""
    if isinstance(v, bool): return BoolVal(v)
    if isinstance(v, int): return IntVal(v)
    return v
def lit(t):
    """The Python int or bool of a literal term, else the term."""
    if isinstance(t, z3.ExprRef):
        if is_int_value(t): return t.as_long()
        if is_true(t): return True
        if is_false(t): return False
    return t

_NOPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_IFF, z3.Z3_OP_XOR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}
def _patok(t):
    stack = [t]
    while stack:
        e = stack.pop()
        if not z3.is_app(e) or e.decl().kind() in _NOPAT: return False
        stack += e.children()
    return True
def ForAll(vs, body, patterns=()):
    """The quantified formula; patterns that z3 does not accept (connectives inside, variables missing) are left out."""
    out = []
    for p in patterns:
        ts = p.children() if isinstance(p, z3.PatternRef) else [p]
        if all(_patok(t) for t in ts) and all(any(x.eq(v) for t in ts for x in free_consts(t)) for v in vs): out.append(p)
    return z3.ForAll(vs, body, patterns=out) if out else z3.ForAll(vs, body)
def free_consts(t, acc=None, seen=None):
    """Uninterpreted constants in a term."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(e): stack.append(e.body()); continue
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(e)
            stack.extend(e.children())
    return acc

def affine(t, j):
    """(a, b) with t = a*j + b, a in {1, -1} and b free of j; None otherwise."""
    d = simplify(substitute(t, (j, j + 1)) - t)
    if not is_int_value(d) or d.as_long() not in (1, -1): return None
    a = d.as_long()
    b = simplify(substitute(t, (j, IntVal(0))))
    if any(c.eq(j) for c in free_consts(b)): return None
    return a, b

def selects_on(t, j):
    """Index terms of array reads in t that mention j."""
    out, seen, stack = [], set(), [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): continue
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_SELECT:
                a, ix = e.children()[:2]
                if ix.sort() == IntSort() and any(c.eq(j) for c in free_consts(ix)): out.append((a, ix))
            stack.extend(e.children())
    return out

def forall_int(j, body):
    """ForAll j. body, with the bound variable chosen so that an array read has it as its bare index (for matching)."""
    body = simplify(body) if not z3.is_quantifier(body) else body
    if is_true(body): return body
    sel = selects_on(body, j)
    for a, ix in sel:
        if ix.eq(j): break
    else:
        for a, ix in sel:
            ab = affine(ix, j)
            if ab:
                x = fint("x")
                body = substitute(body, (j, ab[0] * (x - ab[1])))
                body = simplify(body); j = x
                break
    pats = []
    for a, ix in selects_on(body, j):
        if ix.eq(j) and not any(c.eq(j) for c in free_consts(a)):
            p = Select(a, j)
            if not any(p.eq(q) for q in pats): pats.append(p)
    return ForAll([j], body, patterns=pats[:4]) if pats else ForAll([j], body)
