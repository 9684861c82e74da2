"""Contracts of the set types."""
import z3
from .terms import *
from .engine import Obj, Phamt, SetView, DictView, ListView, Seq, Slice, Raised, Unsupported, Cut, GenericIterable
from .pymodel import IterCls, THAMT, PHAMT, emptyphamt
from .verifier import method_tasks, constructor_tasks, Out, Ret, rnew, rself, rval, rtup, riter, robj, NONE, ANY, raises
from . import chain

def keyp(p): return p
def payload_ok(p): return BoolVal(True)

class SV:
    """A set: the classes of its members, and their number."""
    def __init__(self, mem): self.mem = mem
    @property
    def n(self): return card(self.mem)
def sv_empty(): return SV(z3.K(Cls, BoolVal(False)))

class SetFamily:
    def __init__(self, m):
        self.pset, self.tset = m.pset, m.tset
        self.setcmp = m.util.setcmp
        self.persistent, self.transient = (self.pset,), (self.tset,)
        self.pers_of = {self.tset: self.pset}
    def handles(self, c): return c in (self.pset, self.tset)
    def mk(self, E, c, view=False):
        if view:
            mem = fresh("mem", CB); E.cards(mem)
            return E.alloc(c, {"#view": SetView(mem)}, "pre")
        ch = chain.fixture(E, "", keyp, payload_ok)
        mem = self.memof(E, ch)
        o = self.rep(E, c, ch, mem)
        if c is self.tset:
            orig = None
            if E.branch(fbool("has_orig")):
                orig = E.alloc(self.pset, {"#view": SetView(mem)}, "pre")
            E.fields(o)["_orig"] = orig
        return o
    def memof(self, E, ch):
        mem = fresh("mem", CB); x = fresh("c", Cls)
        E.assume(ForAll([x], Select(mem, x) == ch.mem(x), patterns=[Select(mem, x), Select(ch.loc, x)]))
        E.assume(card(mem) == ch.els.n)
        return mem
    def rep(self, E, c, ch, mem):
        p = E.path
        if not hasattr(p, "chains"): p.chains = []
        p.chains.append(ch)
        if c is self.pset: f = {"_els": ch.els, "_idx": ch.idx, "_top": ch.top, "_hashcode": fval("hash")}
        else: f = {"_els": E.alloc(THAMT, {"#map": ch.els}, "pre"), "_idx": E.alloc(THAMT, {"#map": ch.idx}, "pre"), "_top": ch.top}
        f["#chain"] = ch; f["#mem"] = mem
        return E.alloc(c, f, "pre")
    def unfold(self, E, o, v):
        ch = chain.fixture(E, "u", keyp, payload_ok); x = fresh("c", Cls)
        E.assume(ForAll([x], Select(v.mem, x) == ch.mem(x), patterns=chain.arrpats([v.mem], x) + [Select(ch.loc, x)]))
        E.assume(card(v.mem) == ch.els.n)
        E.path.chains = getattr(E.path, "chains", []) + [ch]
        return chain.unfolded(E, self, o, v, ch)
    def fold(self, E, o): return chain.foldable(E, self, o, SetView(z3.K(Cls, BoolVal(False))))
    def toview(self, E, v):
        if v is ANY: m = fresh("any", CB); E.cards(m); return SetView(m)
        return SetView(v.mem)
    def view(self, E, o):
        if E.isview(o): return SV(E.view(o).mem)
        f = E.fields(o)
        return SV(f["#mem"])
    def parts(self, E, o):
        f = E.fields(o); els, idx = f.get("_els"), f.get("_idx")
        if isinstance(els, Obj): els = E.fields(els)["#map"]
        if isinstance(idx, Obj): idx = E.fields(idx)["#map"]
        return els, idx, f.get("_top")
    def check(self, E, o, v, where, unchanged=False):
        if E.isview(o):
            w = E.view(o); x = fresh("c", Cls)
            E.goal("content", f"{where} members", Select(w.mem, x) == Select(v.mem, x))
            return
        f = E.fields(o)
        els, idx, top = self.parts(E, o)
        if not isinstance(els, Phamt) or not isinstance(idx, Phamt) or top is None:
            E.goal("content", f"{where} has maps and a top", False); return
        if E.unset(self, o): E.goal("content", f"{where} has {', '.join(E.unset(self, o))}", False)
        same = "#chain" in f and els is f["#chain"].els and idx is f["#chain"].idx and E.must(Z(top) == f["#chain"].top)
        if same: ch = f["#chain"]
        else:
            cands = []
            for c0 in getattr(E.path, "chains", []):
                for t in getattr(E.path, "targets", []): cands.append(Store(c0.loc, cls(t), c0.top))
                cands.append(c0.loc)
            cands.append(z3.K(Cls, IntVal(0)))
            ch = chain.pick_loc(E, els, idx, top, keyp, cands)
            chain.prove_wf(E, ch, payload_ok, where)
        x = fresh("c", Cls)
        E.goal("content", f"{where} members", ch.mem(x) == Select(v.mem, x))
        E.goal("content", f"{where} length", els.n == Z(v.n))
        if f.get("_orig") is not None:
            og = f["_orig"]
            w = self.view(E, og); x = fresh("c", Cls)
            E.goal("orig", f"{where}._orig agrees", And(Select(w.mem, x) == Select(v.mem, x), w.n == Z(v.n)))
            E.goal("orig", f"{where}._orig class", og.cls is self.pset)
        if "_hashcode" in f and E.path.kind.get(o.id) == "new":
            E.goal("hash", f"{where} starts without a cached hash", Z(E.same(f["_hashcode"], None)))

def has(E, v, x): return E.branch(Select(v.mem, cls(x)))
def s_len(E, F, o, v): return Out(rval(v.n))
def s_contains(E, F, o, v, x): return Out(rval(Select(v.mem, cls(E.toval(x)))))
def s_iter(E, F, o, v): return Out(Ret("members", view=v))
def p_add(E, F, o, v, x):
    x = E.toval(x)
    if has(E, v, x): return Out(rself())
    return Out(rnew(o.cls, SV(E.cadd(v.mem, cls(x)))))
def p_discard(E, F, o, v, x):
    x = E.toval(x)
    if not has(E, v, x): return Out(rself())
    return Out(rnew(o.cls, SV(E.cdel(v.mem, cls(x)))))
def p_clear(E, F, o, v): return Out(rnew(F.pset, sv_empty()))
def p_transient(E, F, o, v): return Out(rnew(F.tset, v, fresh=True))
def t_add(E, F, o, v, x):
    x = E.toval(x)
    if has(E, v, x): return Out(NONE)
    return Out(NONE, post=SV(E.cadd(v.mem, cls(x))))
def t_discard(E, F, o, v, x):
    x = E.toval(x)
    if not has(E, v, x): return Out(NONE)
    return Out(NONE, post=SV(E.cdel(v.mem, cls(x))))
def t_clear(E, F, o, v): return Out(NONE, post=sv_empty())
def t_persistent(E, F, o, v):
    og = E.fields(o).get("_orig")
    if isinstance(og, Obj) and E.branch(Z(v.n) > 0): return Out(robj(og, F.pset, v))
    return Out(rnew(F.pset, v))
def OBJ(E):
    x = fval("x")
    if not hasattr(E.path, "targets"): E.path.targets = []
    E.path.targets.append(x)
    return x
PERSISTENT = {"__len__": (s_len, [[]]), "__contains__": (s_contains, [[OBJ]]), "__iter__": (s_iter, [[]]), "add": (p_add, [[OBJ]]), "discard": (p_discard, [[OBJ]]), "clear": (p_clear, [[]]),
              "transient": (p_transient, [[]])}
TRANSIENT = {"__len__": (s_len, [[]]), "__contains__": (s_contains, [[OBJ]]), "__iter__": (s_iter, [[]]), "add": (t_add, [[OBJ]]), "discard": (t_discard, [[OBJ]]), "clear": (t_clear, [[]]),
             "persistent": (t_persistent, [[]])}
def tasks(E, F, c): return method_tasks(E, F, c, PERSISTENT if c in F.persistent else TRANSIENT)

# ---- mixin methods: contracts over abstract receivers ---------------------------------------------------------------------------------
import collections.abc as _abc
def am(E, o, v, x): return v.mem if x is o else E.argmem(x)
def isset(x): return isinstance(x, Obj) and issubclass(x.cls, _abc.Set)
OPS = {"and": lambda a, b: And(a, b), "or": lambda a, b: Or(a, b), "sub": lambda a, b: And(a, Not(b)), "xor": lambda a, b: a != b, "rsub": lambda a, b: And(b, Not(a))}
def s_op(f):
    def spec(E, F, o, v, x):
        if not isset(x): return raises(TypeError)
        return Out(rnew(o.cls, SV(E.combine(f, v.mem, am(E, o, v, x))), fresh=o.cls is F.tset))
    return spec
def s_iop(f):
    def spec(E, F, o, v, x):
        if not isset(x): return raises(TypeError)
        return Out(rself(), post=SV(E.combine(f, v.mem, am(E, o, v, x))))
    return spec
def fold(E, o, v, xs, f):
    m = v.mem
    for x in xs: m = E.combine(f, m, am(E, o, v, x))
    return SV(m)
def s_bulk(f, sets_only=False):
    """A new set: the fold of f over the arguments."""
    def spec(E, F, o, v, *xs):
        if sets_only and not all(isset(x) for x in xs): return raises(TypeError)
        r = fold(E, o, v, xs, f)
        return Out(Ret("either", cls=o.cls, view=r) if o.cls is F.pset else rnew(o.cls, r, fresh=True))
    return spec
def t_bulk(f, sets_only=False):
    """In place."""
    def spec(E, F, o, v, *xs):
        if sets_only and not all(isset(x) for x in xs): return raises(TypeError, post=ANY if len(xs) > 1 else None)
        return Out(NONE, post=fold(E, o, v, xs, f))
    return spec
def removable(E, v, s):
    """Whether the elements of a sequence can be removed one after the other: each a member, none twice."""
    b = fbool("removable"); L = fresh("at", CI); i, w, u = fint("i"), fint("w"), fint("u")
    e = lambda i: E.toval(s.at(i)); n = Z(s.n)
    ci = E.at_every(i, s.n, lambda: cls(e(i)))
    if ci is None: return BoolVal(True)
    sub = lambda j: substitute(ci, (i, j))
    E.assume(ForAll([i], Implies(And(b, 0 <= i, i < n), And(Select(v.mem, ci), Select(L, ci) == i)), patterns=[ci]))
    E.assume(Implies(Not(b), And(0 <= w, w < n, Or(Not(Select(v.mem, sub(w))), And(0 <= u, u < w, sub(u) == sub(w))))))
    return b
def s_removeall(E, F, o, v, x):
    s = E.argseq(x) if x is not o else E.view_seq(E.alloc(F.pset, {"#view": SetView(v.mem)}))
    if not E.branch(removable(E, v, s)): return raises(KeyError, post=ANY if o.cls is F.tset else None)
    r = SV(E.combine(OPS["sub"], v.mem, v.mem if x is o else E.seen_set(s)))
    return Out(Ret("either", cls=o.cls, view=r)) if o.cls is F.pset else Out(NONE, post=r)
def s_remove(E, F, o, v, x):
    x = E.toval(x)
    if not has(E, v, x): return raises(KeyError)
    r = SV(E.cdel(v.mem, cls(x)))
    return Out(rnew(o.cls, r)) if o.cls is F.pset else Out(NONE, post=r)
def s_pop(E, F, o, v):
    E.cards(v.mem)
    if E.branch(card(v.mem) == 0): return raises(KeyError)
    a = E.actual
    if o.cls is F.pset: a = a[0] if isinstance(a, tuple) and len(a) == 2 else None
    el = E.pick(None if a is None else E.toval(a), lambda x: Select(v.mem, cls(x)))
    r = SV(E.cdel(v.mem, cls(el)))
    return Out(rtup(rval(el), rnew(o.cls, r))) if o.cls is F.pset else Out(rval(el), post=r)
def s_copy(E, F, o, v): return Out(rself()) if o.cls is F.pset else Out(rnew(o.cls, v, fresh=True))
def s_eq(E, F, o, v, x): return Out(rval(E.samemembers(v.mem, am(E, o, v, x)) if isset(x) else False))
def s_ne(E, F, o, v, x): return Out(rval(Not(E.samemembers(v.mem, am(E, o, v, x))) if isset(x) else True))
def s_cmp(f):
    def spec(E, F, o, v, x):
        if not isset(x): return raises(TypeError)
        m = am(E, o, v, x)
        return Out(rval(f(E.subset(v.mem, m), E.subset(m, v.mem))))
    return spec
def s_isdisjoint(E, F, o, v, x): return Out(rval(E.disjoint(v.mem, am(E, o, v, x))))
def s_issubset(E, F, o, v, x): return Out(rval(E.subset(v.mem, am(E, o, v, x))))
def s_issuperset(E, F, o, v, x): return Out(rval(E.subset(am(E, o, v, x), v.mem)))

def arg_view(c):
    def mk(E):
        F = E.fam_set; mem = fresh("other", CB); E.cards(mem)
        return E.alloc(getattr(F, c) if isinstance(c, str) else c, {"#view": SetView(mem)}, "pre")
    return mk
A_PSET, A_TSET, A_SET, A_FSET = arg_view("pset"), arg_view("tset"), arg_view(set), arg_view(frozenset)
def A_SELF(E): return E.receiver
def A_ITER(E):
    n, a = fint("len"), fresh("els", AV); E.assume(n >= 0)
    return E.alloc(IterCls, {"seq": Seq(n, lambda i: Select(a, Z(i))), "pos": 0}, "pre")
def A_LIST(E):
    n, a = fint("len"), fresh("els", AV); E.assume(n >= 0)
    return E.alloc(list, {"#view": ListView(n, a)}, "pre")
SETS = [[A_PSET], [A_TSET], [A_SET], [A_FSET], [A_SELF]]
NOTSET = [[A_LIST]]
ITERABLES = [[A_PSET], [A_TSET], [A_SET], [A_SELF], [A_ITER], [A_LIST]]
CMP = {"__eq__": (s_eq, SETS + NOTSET + [[OBJ]]), "__ne__": (s_ne, SETS + NOTSET + [[OBJ]]),
       "__le__": (s_cmp(lambda a, b: a), SETS + NOTSET), "__lt__": (s_cmp(lambda a, b: And(a, Not(b))), SETS + NOTSET),
       "__ge__": (s_cmp(lambda a, b: b), SETS + NOTSET), "__gt__": (s_cmp(lambda a, b: And(b, Not(a))), SETS + NOTSET)}
PRED = {"isdisjoint": (s_isdisjoint, ITERABLES), "issubset": (s_issubset, ITERABLES), "issuperset": (s_issuperset, ITERABLES)}
def dunder(c):
    d = {}
    for n, f in (("and", "and"), ("or", "or"), ("sub", "sub"), ("xor", "xor")): d[f"__{n}__"] = (s_op(OPS[f]), SETS + NOTSET)
    for n, f in (("rand", "and"), ("ror", "or"), ("rsub", "rsub"), ("rxor", "xor")): d[f"__{n}__"] = (s_op(OPS[f]), [[A_SET], [A_FSET]] + NOTSET)
    return d
NARY = [[], [A_ITER], [A_SET], [A_SELF], [A_PSET, A_TSET], [A_PSET, A_ITER, A_TSET]]
NARYS = [[], [A_SET], [A_PSET], [A_SELF], [A_PSET, A_TSET], [A_LIST], [A_PSET, A_TSET, A_SET]]
def l2_table(F, c):
    d = {**CMP, **PRED, **dunder(c), "remove": (s_remove, [[OBJ]]), "pop": (s_pop, [[]]), "copy": (s_copy, [[]]),
         "union": (s_bulk(OPS["or"]), NARY), "difference": (s_bulk(OPS["sub"]), NARY), "intersection": (s_bulk(OPS["and"], True), NARYS),
         "removeall": (s_removeall, ITERABLES)}
    if c is F.pset:
        d.update({"symmetric_difference": (s_bulk(OPS["xor"], True), NARYS), "addall": (s_bulk(OPS["or"]), ITERABLES), "discardall": (s_bulk(OPS["sub"]), ITERABLES)})
        d["isdisjoint"] = (s_isdisjoint, ITERABLES)
    else:
        d.update({"symmetric_difference": (s_bulk(OPS["xor"], True), NARYS[1:4] + NARYS[5:6]), "addall": (t_bulk(OPS["or"]), ITERABLES), "discardall": (t_bulk(OPS["sub"]), ITERABLES),
                  "update": (t_bulk(OPS["or"]), NARY), "difference_update": (t_bulk(OPS["sub"]), NARY), "intersection_update": (t_bulk(OPS["and"], True), NARYS),
                  "symmetric_difference_update": (t_bulk(OPS["xor"], True), NARYS[1:4] + NARYS[5:6])})
        d["isdisjoint"] = (s_isdisjoint, SETS)
        for n in ("and", "or", "sub", "xor"): d[f"__i{n}__"] = (s_iop(OPS[n]), SETS + NOTSET)
    return d
def full_table(F, c): return {**(PERSISTENT if c in F.persistent else TRANSIENT), **l2_table(F, c)}
def contracts(F):
    """Registers the contracts of the set types, of their constructors and of setcmp."""
    def reg(E):
        E.fam_set = F
        for c in F.persistent + F.transient: E.families[c] = F
        E.register(F, lambda c: full_table(F, c))
        E.fmodels = dict(getattr(E, "fmodels", {})); E.fmodels[F.setcmp] = lambda a, b: m_setcmp(E, a, b)
        for c in (F.pset, F.tset): E.contracts[(c, "__new__")] = lambda E, c, *a, **k: E.apply_new(F, c, s_new, a, k)
    return reg
def s_new(E, F, c, *args):
    if not args: return Out(rnew(c, sv_empty(), fresh=c is F.tset))
    if len(args) > 1: return raises(TypeError)
    x = args[0]
    if x is None or not isinstance(x, Obj): raise Unsupported("set of a value")
    if x.cls is F.pset and c is F.pset: return Out(robj(x, c, SV(E.argmem(x))))
    return Out(rnew(c, SV(E.argmem(x)), fresh=c is F.tset))
def isS(x): return isinstance(x, Obj) and issubclass(x.cls, _abc.Set)
def s_setcmp(E, a, b):
    if not isS(a) or not isS(b): return raises(TypeError)
    m1, m2 = E.argmem(a), E.argmem(b)
    sub, sup = E.subset(m1, m2), E.subset(m2, m1)
    if E.branch(sub): return Out(rval(0 if E.branch(sup) else -1))
    if E.branch(sup): return Out(rval(1))
    return Out(rval(None if E.branch(E.disjoint(m1, m2)) else Ellipsis))
def m_setcmp(E, a, b):
    E.applying += 1
    try: exp = s_setcmp(E, a, b)
    finally: E.applying -= 1
    if exp.exc: raise Raised(exp.exc)
    E.used.add(("util", "setcmp"))
    return exp.ret.v
def l2_tasks(F, c): return method_tasks(None, F, c, l2_table(F, c), view=True, contracts=contracts(F))
NEW = [[], [A_PSET], [A_TSET], [A_SET], [A_FSET], [A_ITER], [A_LIST], [A_PSET, A_PSET]]
def new_tasks(F, c): return constructor_tasks(F, c, s_new, NEW, contracts(F))
def function_tasks(F):
    out = []
    for j, (x, y) in enumerate([(A_PSET, A_PSET), (A_TSET, A_PSET), (A_SET, A_TSET), (A_PSET, A_FSET), (A_LIST, A_PSET), (A_PSET, A_LIST)]):
        def task(E, x=x, y=y):
            contracts(F)(E)
            a, b = x(E), y(E)
            E.current = None
            outcome = E.attempt(lambda: E.run_function(F.setcmp, [a, b], {}))
            exp = s_setcmp(E, a, b)
            E.check_call(F, None, outcome, exp, None)
        out.append((f"util.setcmp/{j}", task))
    return out
