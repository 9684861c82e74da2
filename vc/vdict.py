"""Contracts of the dict types."""
import z3
from .terms import *
from .engine import Obj, Phamt, DictView, ListView, Seq, Slice, Raised, Unsupported, Cut, GenericIterable
from .pymodel import IterCls, THAMT, PHAMT, emptyphamt
from .verifier import method_tasks, Out, Ret, rnew, rself, rval, rtup, riter, robj, NONE, raises
from . import chain

def keyp(p): return fst(p)
def payload_ok(p): return is_tup(p)

class DV:
    """A dict: the classes of its keys, the value and the age of each, a clock later than every age, and the number of keys."""
    def __init__(self, mem, get, ord, clk): self.mem, self.get, self.ord, self.clk = mem, get, ord, clk
    @property
    def n(self): return card(self.mem)
def dv_empty(): return DV(z3.K(Cls, BoolVal(False)), z3.K(Cls, vnone), z3.K(Cls, IntVal(0)), IntVal(0))

class DictFamily:
    def __init__(self, m):
        self.pdict, self.tdict, self.ldict, self.tldict = m.pdict, m.tdict, m.ldict, m.tldict
        self.persistent, self.transient = (self.pdict, self.ldict), (self.tdict, self.tldict)
        self.trans_of = {self.pdict: self.tdict, self.ldict: self.tldict}
        self.pers_of = {self.tdict: self.pdict, self.tldict: self.ldict}
        self.lazy = (self.ldict, self.tldict)
    def handles(self, c): return c in self.persistent + self.transient
    def mk(self, E, c, view=False):
        if view:
            v = self.freshview(E)
            return E.alloc(c, {"#view": E.todictview(v)}, "pre")
        ch = chain.fixture(E, "", keyp, payload_ok)
        mem, get = fresh("mem", CB), fresh("get", CV); x = fresh("c", Cls)
        E.assume(ForAll([x], Select(mem, x) == ch.mem(x), patterns=[Select(mem, x), Select(ch.loc, x)]))
        E.assume(ForAll([x], Select(get, x) == snd(ch.pay(Select(ch.loc, x))), patterns=[Select(get, x)]))
        E.assume(card(mem) == ch.els.n)
        p = E.path
        if not hasattr(p, "chains"): p.chains = []
        p.chains.append(ch)
        if c in self.persistent: f = {"_els": ch.els, "_idx": ch.idx, "_top": ch.top, "_hashcode": fval("hash")}
        else: f = {"_els": E.alloc(THAMT, {"#map": ch.els}, "pre"), "_idx": E.alloc(THAMT, {"#map": ch.idx}, "pre"), "_top": ch.top, "_version": fint("version")}
        f["#chain"] = ch; f["#dv"] = DV(mem, get, ch.loc, ch.top)
        if c in self.transient:
            orig = None
            if E.branch(fbool("has_orig")):
                orig = E.alloc(self.pers_of[c], {"#view": E.todictview(f["#dv"])}, "pre")
            f["_orig"] = orig
        return E.alloc(c, f, "pre")
    def freshview(self, E):
        mem, get, ord_, clk = fresh("mem", CB), fresh("get", CV), fresh("ord", CI), fint("clk")
        E.cards(mem)
        x = fresh("c", Cls); E.assume(ForAll([x], Implies(Select(mem, x), Select(ord_, x) < clk), patterns=[Select(ord_, x)]))
        return DV(mem, get, ord_, clk)
    def unfold(self, E, o, v):
        ch = chain.fixture(E, "u", keyp, payload_ok); x, y = fresh("c", Cls), fresh("c2", Cls)
        l = lambda x: Select(ch.loc, x)
        E.assume(ForAll([x], And(Select(v.mem, x) == ch.mem(x), Implies(Select(v.mem, x), Select(v.get, x) == snd(ch.pay(l(x))))),
                        patterns=chain.arrpats([v.mem, v.get], x) + [l(x)]))
        E.order_fact(ForAll([x, y], Implies(And(Select(v.mem, x), Select(v.mem, y)), (l(x) < l(y)) == (Select(v.ord, x) < Select(v.ord, y))), patterns=[z3.MultiPattern(l(x), l(y))]))
        E.assume(card(v.mem) == ch.els.n)
        E.path.chains = getattr(E.path, "chains", []) + [ch]
        return chain.unfolded(E, self, o, v, ch)
    def fold(self, E, o):
        v = dv_empty()
        return chain.foldable(E, self, o, DictView(v.mem, v.get, v.ord, v.clk))
    def toview(self, E, v): return E.todictview(v)
    def view(self, E, o):
        if E.isview(o): v = E.view(o); return DV(v.mem, v.get, v.ord, v.clk)
        f = E.fields(o)
        if "#dv" not in f: raise Unsupported("no view")
        return f["#dv"]
    def parts(self, E, o):
        f = E.fields(o); els, idx = f.get("_els"), f.get("_idx")
        if isinstance(els, Obj): els = E.fields(els)["#map"]
        if isinstance(idx, Obj): idx = E.fields(idx)["#map"]
        return els, idx, f.get("_top")
    def check(self, E, o, v, where, unchanged=False):
        x, y = fresh("c", Cls), fresh("c2", Cls)
        if E.isview(o):
            w = E.view(o)
            E.goal("content", f"{where} keys", Select(w.mem, x) == Select(v.mem, x))
            E.goal("content", f"{where} values", Implies(Select(v.mem, x), Select(w.get, x) == Select(v.get, x)))
            E.goal("order", f"{where} order", Implies(And(Select(v.mem, x), Select(v.mem, y)), (Select(w.ord, x) < Select(w.ord, y)) == (Select(v.ord, x) < Select(v.ord, y))))
            return
        f = E.fields(o)
        els, idx, top = self.parts(E, o)
        if not isinstance(els, Phamt) or not isinstance(idx, Phamt) or top is None:
            E.goal("content", f"{where} has maps and a top", False); return
        if E.unset(self, o): E.goal("content", f"{where} has {', '.join(E.unset(self, o))}", False)
        same = "#chain" in f and els is f["#chain"].els and idx is f["#chain"].idx and E.must(Z(top) == f["#chain"].top)
        if same: ch = f["#chain"]
        else:
            cands = []
            for c0 in getattr(E.path, "chains", []):
                for t in getattr(E.path, "targets", []): cands.append(Store(c0.loc, cls(t), c0.top))
                cands.append(c0.loc)
            cands.append(z3.K(Cls, IntVal(0)))
            ch = chain.pick_loc(E, els, idx, top, keyp, cands)
            chain.prove_wf(E, ch, payload_ok, where)
        l = Select(ch.loc, x)
        E.goal("content", f"{where} keys", ch.mem(x) == Select(v.mem, x))
        E.goal("content", f"{where} values", Implies(Select(v.mem, x), snd(ch.pay(l)) == Select(v.get, x)))
        E.goal("content", f"{where} length", els.n == Z(v.n))
        E.goal("order", f"{where} order", Implies(And(Select(v.mem, x), Select(v.mem, y)), (l < Select(ch.loc, y)) == (Select(v.ord, x) < Select(v.ord, y))))
        if f.get("_orig") is not None:
            w = self.view(E, f["_orig"])
            E.goal("orig", f"{where}._orig agrees", And(Select(w.mem, x) == Select(v.mem, x), Implies(Select(v.mem, x), Select(w.get, x) == Select(v.get, x)), w.n == Z(v.n)))
            E.goal("orig", f"{where}._orig class", f["_orig"].cls is self.pers_of[o.cls])
        if "_hashcode" in f and E.path.kind.get(o.id) == "new":
            E.goal("hash", f"{where} starts without a cached hash", Z(E.same(f["_hashcode"], None)))
        if o.cls in self.transient and E.path.kind.get(o.id) == "pre":
            old = E.path.pre_version
            new = f["_version"]
            E.goal("version", f"{where} version", Z(new) == Z(old) if unchanged or not getattr(v, "keys_changed", True) else Z(new) > Z(old) if getattr(v, "keys_changed", True) is True
                   else And(Z(new) >= Z(old), Implies(Z(v.n) != Z(E.path.pre_n), Z(new) > Z(old))))

def has(E, v, x): return E.branch(Select(v.mem, cls(x)))
def d_put(E, v, k, x):
    c = cls(k)
    if E.applying: return DV(E.cadd(v.mem, c), Store(v.get, c, x), Store(v.ord, c, If(Select(v.mem, c), Select(v.ord, c), v.clk)), simplify(v.clk + 1))
    if has(E, v, k):
        r = DV(v.mem, Store(v.get, c, x), v.ord, v.clk); r.keys_changed = False
        return r
    r = DV(E.cadd(v.mem, c), Store(v.get, c, x), Store(v.ord, c, v.clk), simplify(v.clk + 1))
    return r
def d_rm(E, v, k):
    c = cls(k)
    return DV(E.cdel(v.mem, c), v.get, v.ord, v.clk)
def elem(E, F, o, t):
    """What reading an element gives: the computed value of a lazy one, in a lazy collection."""
    if o.cls not in F.lazy: return t
    if E.applying: E.event("force", t)
    elif getattr(E.path, "may_force", None) != "any": E.path.may_force = getattr(E.path, "may_force", []) + [t]
    return un(t)

def s_len(E, F, o, v): return Out(rval(v.n))
def s_contains(E, F, o, v, x): return Out(rval(Select(v.mem, cls(E.toval(x)))))
def s_getitem(E, F, o, v, k):
    if not has(E, v, E.toval(k)): return raises(KeyError)
    return Out(rval(elem(E, F, o, Select(v.get, cls(E.toval(k))))))
def s_get(E, F, o, v, k, d=None):
    if not has(E, v, E.toval(k)): return Out(rval(elem(E, F, o, E.toval(d))))
    return Out(rval(elem(E, F, o, Select(v.get, cls(E.toval(k))))))
def s_iter(E, F, o, v): return Out(Ret("keys", view=v))
def p_set(E, F, o, v, k, x):
    k, x = E.toval(k), E.toval(x)
    if not E.applying and has(E, v, k) and E.branch(Select(v.get, cls(k)) == x): return Out(rself())
    return Out(rnew(o.cls, d_put(E, v, k, x)))
def p_drop(E, F, o, v, k):
    k = E.toval(k)
    if not has(E, v, k): return Out(rself())
    return Out(rnew(o.cls, d_rm(E, v, k)))
def p_pop(E, F, o, v, k, *d):
    k = E.toval(k)
    if not has(E, v, k): return raises(KeyError) if not d else Out(rtup(rval(elem(E, F, o, E.toval(d[0]))), rself()))
    return Out(rtup(rval(elem(E, F, o, Select(v.get, cls(k)))), rnew(o.cls, d_rm(E, v, k))))
def p_clear(E, F, o, v): return Out(rnew(o.cls, dv_empty()))
def p_transient(E, F, o, v): return Out(rnew(F.trans_of[o.cls], v, fresh=True))
def t_setitem(E, F, o, v, k, x):
    k, x = E.toval(k), E.toval(x)
    if not E.applying and has(E, v, k) and E.branch(Select(v.get, cls(k)) == x): return Out(NONE)
    return Out(NONE, post=d_put(E, v, k, x))
def t_delitem(E, F, o, v, k):
    k = E.toval(k)
    if not has(E, v, k): return raises(KeyError)
    return Out(NONE, post=d_rm(E, v, k))
def t_pop(E, F, o, v, k, *d):
    k = E.toval(k)
    if not has(E, v, k): return raises(KeyError) if not d else Out(rval(elem(E, F, o, E.toval(d[0]))))
    return Out(rval(elem(E, F, o, Select(v.get, cls(k)))), post=d_rm(E, v, k))
def t_clear(E, F, o, v):
    r = dv_empty(); r.keys_changed = "maybe"
    return Out(NONE, post=r)
def t_persistent(E, F, o, v):
    og = E.fields(o).get("_orig")
    if isinstance(og, Obj) and E.branch(Z(v.n) > 0): return Out(robj(og, F.pers_of[o.cls], v))
    return Out(rnew(F.pers_of[o.cls], v))
def KEY(E):
    x = fval("key")
    if not hasattr(E.path, "targets"): E.path.targets = []
    E.path.targets.append(x)
    return x
OBJ = lambda E: fval("x")
PERSISTENT = {"__len__": (s_len, [[]]), "__contains__": (s_contains, [[KEY]]), "__getitem__": (s_getitem, [[KEY]]), "get": (s_get, [[KEY], [KEY, OBJ]]),
              "__iter__": (s_iter, [[]]), "set": (p_set, [[KEY, OBJ]]), "drop": (p_drop, [[KEY]]), "pop": (p_pop, [[KEY], [KEY, OBJ]]), "clear": (p_clear, [[]]),
              "transient": (p_transient, [[]])}
TRANSIENT = {"__len__": (s_len, [[]]), "__contains__": (s_contains, [[KEY]]), "__getitem__": (s_getitem, [[KEY]]), "get": (s_get, [[KEY], [KEY, OBJ]]),
             "__iter__": (s_iter, [[]]), "__setitem__": (t_setitem, [[KEY, OBJ]]), "__delitem__": (t_delitem, [[KEY]]), "pop": (t_pop, [[KEY], [KEY, OBJ]]),
             "clear": (t_clear, [[]]), "persistent": (t_persistent, [[]])}
def s_getlazy(E, F, o, v, k, d=None):
    if not has(E, v, E.toval(k)): return Out(rval(E.toval(d)))
    return Out(rval(Select(v.get, cls(E.toval(k)))))
def s_is_lazy(E, F, o, v, k):
    if not has(E, v, E.toval(k)): return raises(KeyError)
    return Out(rval(islazy(Select(v.get, cls(E.toval(k))))))
def s_is_ready(E, F, o, v, k):
    if not has(E, v, E.toval(k)): return raises(KeyError)
    x = Select(v.get, cls(E.toval(k)))
    return Out(rval(Or(Not(islazy(x)), isready(x))))
def s_as_plain(E, F, o, v): return Out(rnew(F.pdict, v)) if o.cls in F.persistent else Out(rnew(F.tdict, v, fresh=True))
def s_ready_all(E, F, o, v):
    c = fresh("c", Cls); x = Select(v.get, c)
    E.path.may_force = "any"
    E.goal("content", "every lazy element is computed", Implies(And(Select(v.mem, c), islazy(x)), Or(isready(x), Select(E.fields(E.forced)["#set"].a, x))))
    return Out(rself())
LAZYP = {"getlazy": (s_getlazy, [[KEY], [KEY, OBJ]]), "is_lazy": (s_is_lazy, [[KEY]]), "is_ready": (s_is_ready, [[KEY]]), "__holdlazy__": (s_as_plain, [[]]), "ready_all": (s_ready_all, [[]])}

def tasks(E, F, c):
    lazy = {} if c not in F.lazy else {**LAZYP, "as_pdict" if c in F.persistent else "as_tdict": (s_as_plain, [[]])}
    return method_tasks(E, F, c, {**(PERSISTENT if c in F.persistent else TRANSIENT), **lazy})

# ---- constructors, mixin methods and views: contracts over abstract receivers -----------------------------------------------------------
from collections.abc import Mapping as _Mapping
from .verifier import constructor_tasks
def lazycls(F, x): return isinstance(x, Obj) and x.cls in F.lazy
def ismap(x): return isinstance(x, Obj) and issubclass(x.cls, _Mapping)
def getter(F, c, v):
    """The value of a key class, as it is read."""
    return (lambda t: un(Select(v.get, t))) if c in F.lazy else (lambda t: Select(v.get, t))
def may_any(E): E.path.may_force = "any"
def pairs(E, F, o, v, x):
    """The key-value pairs of an argument: (number, key, value)."""
    if x is o or (isinstance(x, Obj) and E.isview(x) and isinstance(E.view(x), DictView)):
        w = DictView(v.mem, v.get, v.ord, v.clk) if x is o else E.view(x)
        el = E.enumview(w); g = getter(F, x.cls, w)
        return w.n, (lambda i: Select(el, Z(i))), (lambda i: g(cls(Select(el, Z(i)))))
    s = E.argseq(x)
    def part(i, j):
        t = s.at(i)
        return t[j] if isinstance(t, tuple) else (fst, snd)[j](E.toval(t))
    return s.n, (lambda i: part(i, 0)), (lambda i: part(i, 1))
def put_one(E, v, k, x):
    c = cls(k)
    return DV(E.cadd(v.mem, c), Store(v.get, c, x), Store(v.ord, c, If(Select(v.mem, c), Select(v.ord, c), v.clk)), simplify(Z(v.clk) + 1))
def put_all(E, F, o, v, xs, kw):
    for x in xs:
        if isinstance(x, dict): v = put_all(E, F, o, v, (), x)
        else: v = E.fold_put(v, *pairs(E, F, o, v, x))
    for k, x in kw.items(): v = put_one(E, v, E.toval(k), E.toval(x))
    return v
def changed(o, F, r): return Out(Ret("either", cls=o.cls, view=r)) if o.cls in F.persistent else Out(NONE, post=r)
def s_update(E, F, o, v, *xs, **kw):
    may_any(E)
    r = put_all(E, F, o, v, xs, kw); r = DV(r.mem, r.get, r.ord, r.clk); r.keys_changed = "maybe"
    return changed(o, F, r)
def s_setall(E, F, o, v, ks, xs):
    a = E.argseq(ks); b = E.argseq(xs)
    r = E.fold_put(v, E.minlen([a, b]), a.at, b.at)
    return changed(o, F, DV(r.mem, r.get, r.ord, r.clk))
def s_dropall(E, F, o, v, ks):
    m = E.combine(lambda a, b: And(a, Not(b)), v.mem, v.mem if ks is o else E.argmem(ks))
    return changed(o, F, DV(m, v.get, v.ord, v.clk))
def s_deleteall(E, F, o, v, ks):
    from .vset import removable
    s = E.view_seq(E.alloc(o.cls, {"#view": E.todictview(v)})) if ks is o else E.view_seq(ks) if E.isview(ks) else E.argseq(ks)
    if not E.branch(removable(E, v, s)): return raises(KeyError)
    m = E.combine(lambda a, b: And(a, Not(b)), v.mem, v.mem if ks is o else E.argmem(ks))
    return changed(o, F, DV(m, v.get, v.ord, v.clk))
def s_delete(E, F, o, v, k):
    k = E.toval(k)
    if not has(E, v, k): return raises(KeyError)
    return Out(rnew(o.cls, d_rm(E, v, k)))
def p_setdefault(E, F, o, v, k, d=None):
    if has(E, v, E.toval(k)): return Out(rself())
    return Out(rnew(o.cls, d_put(E, v, E.toval(k), E.toval(d))))
def t_setdefault(E, F, o, v, k, d=None):
    k = E.toval(k)
    if has(E, v, k): return Out(rval(elem(E, F, o, Select(v.get, cls(k)))))
    return Out(rval(E.toval(d)), post=d_put(E, v, k, E.toval(d)))
def s_popitem(E, F, o, v):
    E.cards(v.mem)
    if E.branch(card(v.mem) == 0): return raises(KeyError)
    a = E.actual
    if o.cls in F.persistent: a = a[0] if isinstance(a, tuple) and len(a) == 2 else None
    if isinstance(a, tuple): k0 = a[0] if len(a) == 2 else None
    else: k0 = fst(a) if is_val(a) else None
    k = E.pick(None if k0 is None else E.toval(k0), lambda x: Select(v.mem, cls(x)))
    kv = rtup(rval(k), rval(elem(E, F, o, Select(v.get, cls(k)))))
    if o.cls in F.persistent: return Out(rtup(kv, rnew(o.cls, d_rm(E, v, k))))
    return Out(kv, post=d_rm(E, v, k))
def s_copy(E, F, o, v): return Out(rself()) if o.cls in F.persistent else Out(rnew(o.cls, v, fresh=True))
def same_dict(E, a, b):
    """A boolean that says whether two dicts (mem, value of a class) have the same keys with equal values."""
    (m, g), (n, h) = a, b
    r = fbool("samedict"); c, w = fresh("c", Cls), fresh("w", Cls)
    f = lambda c: And(Select(m, c) == Select(n, c), Implies(Select(m, c), cls(g(c)) == cls(h(c))))
    pats = chain.arrpats([m, n], c)
    E.assume(ForAll([c], Implies(r, f(c)), patterns=pats) if pats else ForAll([c], Implies(r, f(c))))
    E.assume(Implies(Not(r), Not(f(w))))
    return r
def other(E, F, o, v, x):
    w = v if x is o else E.view(x)
    return w.mem, getter(F, x.cls, w)
def s_eq(E, F, o, v, x):
    may_any(E)
    if not ismap(x): return Out(rval(NotImplemented))
    return Out(rval(same_dict(E, (v.mem, getter(F, o.cls, v)), other(E, F, o, v, x))))
def s_ne(E, F, o, v, x):
    may_any(E)
    if not ismap(x): return Out(rval(NotImplemented))
    return Out(rval(Not(same_dict(E, (v.mem, getter(F, o.cls, v)), other(E, F, o, v, x)))))
def s_reversed(E, F, o, v):
    el = E.enumview(E.todictview(v) if not E.isview(o) else E.view(o))
    return Out(riter(Seq(v.n, lambda i: Select(el, simplify(Z(v.n) - 1 - Z(i))))))
def s_new(E, F, c, *xs, **kw):
    if len(xs) > 1: return raises(TypeError)
    x = xs[0] if xs else None
    new = lambda v: Out(rnew(c, DV(v.mem, v.get, v.ord, v.clk), fresh=c in F.transient))
    if not xs: return new(put_all(E, F, None, dv_empty(), (), kw))
    if isinstance(x, dict): return new(put_all(E, F, None, put_all(E, F, None, dv_empty(), (), x), (), kw))
    if not isinstance(x, Obj): raise Unsupported("dict of a value")
    if x.cls is c and c in F.persistent and not kw:
        E.cards(E.view(x).mem)
        if not E.branch(E.view(x).n == 0): return Out(robj(x, c, E.view(x)))
    if E.isview(x) and isinstance(E.view(x), DictView) and not (lazycls(F, x) and c not in F.lazy): v = E.view(x)   # as it is
    else:
        E.path.may_force = "any"
        v = E.fold_put(dv_empty(), *pairs(E, F, None, None, x))
    return new(put_all(E, F, None, v, (), kw))

def A_D(c):
    def mk(E):
        v = E.fam_dict.freshview(E)
        return E.alloc(getattr(E.fam_dict, c) if isinstance(c, str) else c, {"#view": E.todictview(v)}, "pre")
    return mk
A_PDICT, A_TDICT, A_LDICT, A_TLDICT, A_DICT = A_D("pdict"), A_D("tdict"), A_D("ldict"), A_D("tldict"), A_D(dict)
def A_SELF(E): return E.receiver
def A_ITER(E):
    n, a = fint("len"), fresh("els", AV); E.assume(n >= 0)
    return E.alloc(IterCls, {"seq": Seq(n, lambda i: Select(a, Z(i))), "pos": 0}, "pre")
def A_LIST(E):
    n, a = fint("len"), fresh("els", AV); E.assume(n >= 0)
    return E.alloc(list, {"#view": ListView(n, a)}, "pre")
def A_PAIRS(E):
    n, a, b = fint("len"), fresh("keys", AV), fresh("vals", AV); E.assume(n >= 0)
    return E.alloc(IterCls, {"seq": Seq(n, lambda i: (Select(a, Z(i)), Select(b, Z(i)))), "pos": 0}, "pre")
def A_PLIST(E):
    n, a = fint("len"), fresh("pairs", AV); E.assume(n >= 0); i = fint("i")
    E.assume(ForAll([i], is_tup(Select(a, i)), patterns=[Select(a, i)]))
    return E.alloc(list, {"#view": ListView(n, a)}, "pre")
def KW(E): return {"a": fval("kwval")}
def KW2(E): return {"b": fval("kwval"), "a": fval("kwval")}
MAPS = [[A_PDICT], [A_TDICT], [A_LDICT], [A_TLDICT], [A_DICT], [A_SELF]]
SOURCES = MAPS + [[A_PAIRS], [A_PLIST]]
NOTMAP = [[OBJ], [A_LIST]]
KEYS = [[A_ITER], [A_LIST], [A_PDICT], [A_DICT], [A_SELF]]
def l2_table(F, c):
    d = {"update": (s_update, [[]] + [x for x in SOURCES if c in F.persistent or x != [A_SELF]] + [[A_PDICT, A_PAIRS], [KW], [KW2], [A_DICT, KW], [A_PDICT, A_PAIRS, KW]]), "popitem": (s_popitem, [[]]), "copy": (s_copy, [[]]), "__reversed__": (s_reversed, [[]]),
         "__eq__": (s_eq, MAPS + NOTMAP), "__ne__": (s_ne, MAPS + NOTMAP)}
    if c in F.persistent:
        d.update({"delete": (s_delete, [[KEY]]), "setall": (s_setall, [[A_LIST, A_LIST], [A_ITER, A_ITER]]), "dropall": (s_dropall, KEYS), "deleteall": (s_deleteall, KEYS),
                  "setdefault": (p_setdefault, [[KEY], [KEY, OBJ]])})
    else: d.update({"setdefault": (t_setdefault, [[KEY], [KEY, OBJ]])})
    return d
def full_table(F, c): return {**(PERSISTENT if c in F.persistent else TRANSIENT), **l2_table(F, c)}
def contracts(F):
    def reg(E):
        E.fam_dict = F
        for c in F.persistent + F.transient: E.families[c] = F
        E.register(F, lambda c: full_table(F, c))
        for c in F.persistent + F.transient: E.contracts[(c, "__new__")] = lambda E, c, *a, **k: E.apply_new(F, c, s_new, a, k)
    return reg
NEW = [[]] + SOURCES[:5] + [[A_PAIRS], [A_PLIST], [KW], [KW2], [A_PDICT, KW2], [A_PAIRS, KW], [A_PDICT, A_PDICT]]
def new_tasks(F, c): return constructor_tasks(F, c, s_new, NEW, contracts(F))
def l2_tasks(F, c): return method_tasks(None, F, c, l2_table(F, c), view=True, contracts=contracts(F))

# ---- views: keys(), items(), values() of an abstract dict -------------------------------------------------------------------------------
def viewtask(F, c, kind, meth, vs, check):
    def task(E):
        contracts(F)(E)
        o = F.mk(E, c, view=True); v = F.view(E, o)
        E.receiver = o; E.current = (c, kind)
        args = [x(E) for x in vs]
        def run():
            w = E.callmethod(o, kind, [])
            return E.iter(w) if meth == "__iter__" else E.contains(w, args[0]) if meth == "__contains__" else E.callmethod(w, meth, args)
        outcome = E.attempt(run)
        exp = check(E, F, o, v, kind, *args)
        s = {"__iter__": 1, "__reversed__": 1}.get(meth) and outcome[0] == "ret" and E.fields(outcome[1])["seq"]
        E.check_call(F, o, outcome, exp, v)
        if c in F.lazy:
            forced = [e[1] for e in E.path.events if e[0] == "force"]
            if meth == "__len__" or kind == "keys":
                for t in forced or [None]: E.goal("force", "computes nothing", t is None)
    return task
def element(E, F, o, v, kind):
    """The i-th entry of a view."""
    el = E.enumview(E.view(o)); g = getter(F, o.cls, v)
    k = lambda i: Select(el, Z(i)); x = lambda i: g(cls(k(i)))
    return {"keys": k, "values": x, "items": lambda i: vtup(k(i), x(i))}[kind]
def v_len(E, F, o, v, kind): return Out(rval(v.n))
def v_iter(E, F, o, v, kind):
    if kind == "keys": return Out(Ret("keys", view=v))
    return Out(riter(Seq(v.n, element(E, F, o, v, kind))))
def v_reversed(E, F, o, v, kind):
    e = element(E, F, o, v, kind)
    return Out(riter(Seq(v.n, lambda i: e(simplify(Z(v.n) - 1 - Z(i))))))
def v_contains(E, F, o, v, kind, x):
    g = getter(F, o.cls, v)
    if kind == "keys": return Out(rval(Select(v.mem, cls(E.toval(x)))))
    if kind == "items":
        if isinstance(x, tuple) and len(x) != 2: return Out(rval(False))
        if isinstance(x, tuple): a, b, pair = E.toval(x[0]), E.toval(x[1]), BoolVal(True)
        else: a, b, pair = fst(x), snd(x), is_tup(x)
        return Out(rval(And(pair, Select(v.mem, cls(a)), cls(g(cls(a))) == cls(b))))
    r = fbool("invalues"); c, w = fresh("c", Cls), fresh("w", Cls); t = cls(E.toval(x))
    f = lambda c: And(Select(v.mem, c), cls(g(c)) == t)
    E.assume(Implies(r, f(w))); E.assume(ForAll([c], Implies(f(c), r), patterns=chain.arrpats([v.mem, v.get], c)))
    return Out(rval(r))
def PLAIN(E):
    x = fval("x"); E.assume(Not(islazy(x)))       # the argument is no lazy: whether one is computed for the comparison is left open
    return x
def nonested(E, k):
    """The entry of key k is no lazy that computes a lazy."""
    o = E.receiver
    if o.cls in E.fam_dict.lazy: E.assume(Not(islazy(un(Select(E.view(o).get, cls(k))))))
def PAIR(E):
    k = KEY(E); nonested(E, k)
    return (k, PLAIN(E))
def TRIPLE(E): return (fval("x"), fval("x"), fval("x"))
def ENTRY(E):
    x = fval("x"); E.assume(Not(islazy(snd(x)))); nonested(E, fst(x))
    return x
def view_tasks(F, c):
    out = []
    for kind in ("keys", "items", "values"):
        for meth, check, variants in (("__len__", v_len, [[]]), ("__iter__", v_iter, [[]]), ("__reversed__", v_reversed, [[]]),
                                      ("__contains__", v_contains, {"keys": [[KEY]], "items": [[PAIR], [ENTRY], [TRIPLE]], "values": [[PLAIN]]}[kind])):
            for j, vs in enumerate(variants):
                out.append((f"{c.__name__}.{kind}().{meth}" + (f"/{j}" if len(variants) > 1 else ""), viewtask(F, c, kind, meth, vs, check)))
    return out

# ---- a live iterator of a transient dict --------------------------------------------------------------------------------------------------
def guard_tasks(F, c):
    """Once the number of the version has grown, the next step of an iterator raises RuntimeError, whatever the maps are then; and a
    step of an iterator of an unchanged dict raises nothing."""
    out = []
    for how in ("", "keys", "items", "values"):
        def task(E, how=how):
            o = F.mk(E, c); E.receiver = o; E.current = (c, "__iter__")
            it = E.iter(E.callmethod(o, how, []) if how else o)
            s = E.fields(it)["seq"]; i = fint("i"); E.assume(And(0 <= i, i < Z(s.n)))
            grown = how in ("items", "values") or E.branch(fbool("changed"))      # unchanged items and values: the tasks of the views
            if grown:
                v = fint("version"); E.assume(v > E.fields(o)["_version"]); E.setfield(o, "_version", v)
            E.path.writes.clear()
            E.may_raise = True
            try: kind, r = E.attempt(lambda: s.at(i))
            finally: E.may_raise = False
            E.covered += 1; E.outcomes.add(kind)
            if grown: E.goal("content", "a step after a change raises RuntimeError", kind == "raise" and issubclass(r, RuntimeError))
            else: E.goal("content", "a step of an unchanged dict raises nothing", kind == "ret")
            E.goal("frame", "a step changes nothing", not E.path.writes)
        out.append((f"{c.__name__}.{how + '().' if how else ''}iteration guard", task))
    return out
