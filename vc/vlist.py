"""Contracts of the list types."""
import z3
from .terms import *
from .engine import Obj, Phamt, ListView, SetView, Seq, Slice, Raised, Unsupported, Cut, GenericIterable
from .pymodel import IterCls, THAMT, PHAMT, emptyphamt, rlen, mul
from .chain import arrpats
from .verifier import method_tasks, constructor_tasks, Out, Ret, rnew, rself, rval, rtup, riter, robj, NONE, raises, LV, lv_empty
from . import vmul

class ListFamily:
    def __init__(self, m):
        self.plist, self.tlist, self.llist, self.tllist = m.plist, m.tlist, m.llist, m.tllist
        self.persistent, self.transient = (self.plist, self.llist), (self.tlist, self.tllist)
        self.trans_of = {self.plist: self.tlist, self.llist: self.tllist}
        self.pers_of = {self.tlist: self.plist, self.tllist: self.llist}
        self.lazy = (self.llist, self.tllist)
        self.seqcmp = m.util.seqcmp
    def handles(self, c): return c in self.persistent + self.transient
    # ---- fixtures ---------------------------------------------------------------------------------------------------------
    def phamt(self, E, name=""):
        d, v, n, s = fresh("D" + name, AB), fresh("V" + name, AV), fint("n" + name), fint("s" + name)
        k = fint("k")
        E.assume(n >= 0)
        E.assume(ForAll([k], Select(d, k) == And(s <= k, k < s + n), patterns=[Select(d, k)]))
        E.hint(s, s + n)
        return Phamt(d, v, n), s
    def mk(self, E, c, view=False):
        if view:
            n, a = fint("n"), fresh("A", AV)
            E.assume(n >= 0)
            return E.alloc(c, {"#view": ListView(n, a)}, "pre")
        m, s = self.phamt(E)
        if c in self.persistent:
            return E.alloc(c, {"_phamt": m, "_start": s, "_hashcode": fval("hash")}, "pre")
        t = E.alloc(THAMT, {"#map": m}, "pre")
        orig = None
        if E.branch(fbool("has_orig")):
            orig = self.mk(E, self.pers_of[c])
            f = E.fields(orig); k = fint("k")
            E.assume(f["_phamt"].n == m.n)
            E.assume(ForAll([k], Implies(And(f["_start"] <= k, k < f["_start"] + m.n), Select(f["_phamt"].val, k) == Select(m.val, k - f["_start"] + s)), patterns=[Select(f["_phamt"].val, k)]))
        return E.alloc(c, {"_thamt": t, "_start": s, "_orig": orig}, "pre")
    def unfold(self, E, o, v):
        m, s = self.phamt(E, "u"); k, j = fint("k"), fint("j")
        E.assume(m.n == Z(v.n))
        E.assume(ForAll([k], Implies(And(0 <= k, k < m.n), Select(v.a, k) == Select(m.val, s + k)), patterns=arrpats([v.a], k) or [Select(m.val, s + k)]))
        E.assume(ForAll([j], Implies(And(s <= j, j < s + m.n), Select(m.val, j) == Select(v.a, j - s)), patterns=[Select(m.val, j)]))
        if o.cls in self.persistent: return {"_phamt": m, "_start": s, "_hashcode": fval("hash")}, (m, s)
        u = {"_thamt": E.alloc(THAMT, {"#map": m, "#ro": (o, v)}, "pre"), "_start": s}
        u["_orig"] = lambda: E.alloc(self.pers_of[o.cls], {"#view": v}, "pre") if E.branch(fbool("has_orig")) else None
        return u, (m, s)
    def fold(self, E, o):
        f = E.fields(o); m = f.get("_phamt", f.get("_thamt")); start = f.get("_start"); v = None
        if isinstance(m, Obj) and m.cls is THAMT: m = E.fields(m)["#map"]
        if not isinstance(m, Phamt) or start is None or isinstance(start, Obj): return None
        if m.dom.eq(z3.K(IntSort(), BoolVal(False))) and is_int_value(Z(m.n)) and Z(m.n).as_long() == 0: v = ListView(IntVal(0), fresh("A", AV))
        for o2, v2, u, key in getattr(E.path, "unfolds", []):
            if len(key) == 2 and m is key[0] and E.must(Z(start) == key[1]): v = v2
        og = f.get("_orig")
        if v is not None and (E.unset(self, o) or not E.unhashed(f)): return None
        if v is not None and og is not None and not (isinstance(og, Obj) and og.cls is self.pers_of.get(o.cls) and E.isview(og) and E.view(og) is v): return None
        return v
    def view(self, E, o): return E.lv(o)
    def toview(self, E, v): return E.tolistview(v)
    # ---- the state of an object against an abstract list ---------------------------------------------------------------------
    def check(self, E, o, v, where, unchanged=False):
        n = Z(v.n)
        if E.isview(o):
            w = E.view(o)
            E.goal("content", f"{where} length", w.n == n)
            k = fint("k")
            E.goal("content", f"{where} elements", Implies(And(0 <= k, k < n), v.allows(k, Select(w.a, k))))
            return
        f = E.fields(o)
        m = E.listmap(o); s = f.get("_start")
        if not isinstance(m, Phamt) or s is None:
            E.goal("content", f"{where} has a map and a start", False); return
        if E.unset(self, o): E.goal("content", f"{where} has {', '.join(E.unset(self, o))}", False)
        s = Z(E.asint(s))
        k = fint("k")
        if not E.goal("content", f"{where} domain is start..start+length", Select(m.dom, k) == And(s <= k, k < s + n)):
            pass
        else: E.card(m, s, s + n)
        E.goal("content", f"{where} length", m.n == n)
        k = fint("k")
        E.goal("content", f"{where} elements", Implies(And(0 <= k, k < n), v.allows(k, Select(m.val, s + k))))
        if "_orig" in f and f["_orig"] is not None:
            og = f["_orig"]
            if not isinstance(og, Obj): raise Unsupported("_orig")
            self.same_list(E, "orig", f"{where}._orig agrees", og, v)
            E.goal("orig", f"{where}._orig class", og.cls is self.pers_of.get(o.cls))
        if "_hashcode" in f and E.path.kind.get(o.id) == "new":
            E.goal("hash", f"{where} starts without a cached hash", Z(E.same(f["_hashcode"], None)))
    def same_list(self, E, tag, what, og, v):
        w = E.lv(og); k = fint("k")
        E.goal(tag, what, And(Z(w.n) == Z(v.n), Implies(And(0 <= k, k < Z(v.n)), w.at(k) == v.at(k))))

# ---- specification functions: (E, fam, o, v, *args) -> Out ------------------------------------------------------------------
def norm(E, v, index):
    """The position of an index; None when out of range."""
    i = Z(E.asint(index)); n = Z(v.n)
    if not E.branch(And(-n <= i, i < n)): return None
    if E.applying and E.must(i >= 0): return i
    return simplify(If(i < 0, i + n, i))
def clampi(v, index):
    i, n = Z(index), Z(v.n)
    j = If(i < 0, If(i + n < 0, IntVal(0), i + n), If(i > n, n, i))
    return simplify(j)
def l_set(v, i, x): return LV(v.n, lambda k: If(Z(k) == i, x, v.at(k)), None if v.arr is None else Store(v.arr, i, x))
def l_del(v, i): return LV(simplify(Z(v.n) - 1), lambda k: If(Z(k) < i, v.at(k), v.at(simplify(Z(k) + 1))))
def l_ins(v, i, x): return LV(simplify(Z(v.n) + 1), lambda k: If(Z(k) < i, v.at(k), If(Z(k) == i, x, v.at(simplify(Z(k) - 1)))))
def l_app(v, x): return LV(simplify(Z(v.n) + 1), lambda k: If(Z(k) == Z(v.n), x, v.at(k)), None if v.arr is None else Store(v.arr, Z(v.n), x))

def p_set(E, F, o, v, index, x):
    i = norm(E, v, index)
    if i is None: return raises(IndexError)
    x = E.toval(x)
    if E.branch(v.at(i) == x): return Out(rself())
    return Out(rnew(o.cls, l_set(v, i, x)))
def p_delete(E, F, o, v, index=-1):
    i = norm(E, v, index)
    if i is None: return raises(IndexError)
    return Out(rnew(o.cls, l_del(v, i)))
def p_append(E, F, o, v, x): return Out(rnew(o.cls, l_app(v, E.toval(x))))
def p_prepend(E, F, o, v, x): return Out(rnew(o.cls, l_ins(v, IntVal(0), E.toval(x))))
def p_insert(E, F, o, v, index, x): return Out(rnew(o.cls, l_ins(v, clampi(v, E.asint(index)), E.toval(x))))
def p_clear(E, F, o, v): return Out(rnew(o.cls, lv_empty()))
def s_len(E, F, o, v): return Out(rval(v.n))
def elem(E, F, o, t):
    """What reading an element gives: the computed value of a lazy one, in a lazy collection."""
    if o.cls not in F.lazy: return t
    if E.applying: E.event("force", t)
    elif getattr(E.path, "may_force", None) != "any": E.path.may_force = getattr(E.path, "may_force", []) + [t]
    return un(t)
def s_iter(E, F, o, v): return Out(riter(Seq(v.n, lambda k: elem(E, F, o, v.at(Z(k))))))
def s_getitem(E, F, o, v, k):
    if isinstance(k, Slice):
        try: a, b, c = E.slice_indices(k, v.n)
        except Raised as r: return raises(r.cls)
        r = E.seq(E.b_range(a, b, c))
        return Out(rnew(o.cls, LV(r.n, lambda i: v.at(Z(r.at(i)))), fresh=o.cls in F.transient))
    i = norm(E, v, k)
    if i is None: return raises(IndexError)
    return Out(rval(elem(E, F, o, v.at(i))))
def p_transient(E, F, o, v): return Out(rnew(F.trans_of[o.cls], v, fresh=True))
def t_persistent(E, F, o, v):
    og = E.fields(o).get("_orig")
    if isinstance(og, Obj) and E.branch(Z(v.n) > 0): return Out(robj(og, F.pers_of[o.cls], v))
    return Out(rnew(F.pers_of[o.cls], v))
def t_setitem(E, F, o, v, k, x):
    i = norm(E, v, k)
    if i is None: return raises(IndexError)
    return Out(NONE, post=l_set(v, i, E.toval(x)))
def t_delitem(E, F, o, v, k):
    i = norm(E, v, k)
    if i is None: return raises(IndexError)
    return Out(NONE, post=l_del(v, i))
def t_append(E, F, o, v, x): return Out(NONE, post=l_app(v, E.toval(x)))
def t_prepend(E, F, o, v, x):
    if E.applying: E.event("prepend", E.toval(x), E.view(o).a)
    return Out(NONE, post=l_ins(v, IntVal(0), E.toval(x)))
def t_insert(E, F, o, v, index, x): return Out(NONE, post=l_ins(v, clampi(v, E.asint(index)), E.toval(x)))
def t_clear(E, F, o, v): return Out(NONE, post=lv_empty())

OBJ = lambda E: fval("x")
INT = lambda E: fint("index")
def SLICE(E):
    def part(nm): return None if E.branch(fbool(nm + "_none")) else fint(nm)
    a, b = part("start"), part("stop")
    c = [None, 1, -1, "sym"][E.choose(4)]
    return Slice(a, b, fint("step") if c == "sym" else c)
DEFAULT = object()

PERSISTENT = {"set": (p_set, [[INT, OBJ]]), "delete": (p_delete, [[INT], []]), "append": (p_append, [[OBJ]]), "prepend": (p_prepend, [[OBJ]]),
              "insert": (p_insert, [[INT, OBJ]]), "clear": (p_clear, [[]]), "__len__": (s_len, [[]]), "__iter__": (s_iter, [[]]),
              "__getitem__": (s_getitem, [[INT], [SLICE]]), "transient": (p_transient, [[]])}
TRANSIENT = {"__setitem__": (t_setitem, [[INT, OBJ]]), "__delitem__": (t_delitem, [[INT]]), "append": (t_append, [[OBJ]]), "prepend": (t_prepend, [[OBJ]]),
             "insert": (t_insert, [[INT, OBJ]]), "clear": (t_clear, [[]]), "__len__": (s_len, [[]]), "__iter__": (s_iter, [[]]),
             "__getitem__": (s_getitem, [[INT], [SLICE]]), "persistent": (t_persistent, [[]])}

def s_getlazy(E, F, o, v, k):
    i = norm(E, v, k)
    return raises(IndexError) if i is None else Out(rval(v.at(i)))
def s_is_lazy(E, F, o, v, k):
    i = norm(E, v, k)
    return raises(IndexError) if i is None else Out(rval(islazy(v.at(i))))
def s_is_ready(E, F, o, v, k):
    i = norm(E, v, k)
    return raises(IndexError) if i is None else Out(rval(Or(Not(islazy(v.at(i))), isready(v.at(i)))))
def s_as_plist(E, F, o, v): return Out(rnew(F.plist, v))
def s_ready_all(E, F, o, v):
    m = E.listmap(o); q = fint("q"); x = Select(m.val, q)
    E.path.may_force = "any"
    E.goal("content", "every lazy element is computed", Implies(And(Select(m.dom, q), islazy(x)), Or(isready(x), Select(E.fields(E.forced)["#set"].a, x))))
    return Out(rself())
LAZY = {"getlazy": (s_getlazy, [[INT]])}
LAZYP = {**LAZY, "is_lazy": (s_is_lazy, [[INT]]), "is_ready": (s_is_ready, [[INT]]), "as_plist": (s_as_plist, [[]]), "__holdlazy__": (s_as_plist, [[]]), "ready_all": (s_ready_all, [[]])}

def tasks(E, F, c): return method_tasks(E, F, c, {**(PERSISTENT if c in F.persistent else TRANSIENT), **({} if c not in F.lazy else LAZYP if c in F.persistent else LAZY)})

# ---- whole-list operations: contracts over abstract receivers ---------------------------------------------------------------------------
import numbers
from collections.abc import Sequence as _Seq
def lazycls(F, x): return isinstance(x, Obj) and x.cls in F.lazy
def rd(E, F, o, v):
    """The elements of o as they are read."""
    if o.cls not in F.lazy: return v.at
    return lambda k: un(v.at(k))
def may_any(E, o): E.path.may_force = "any"
def isseq(x): return isinstance(x, Obj) and (x.cls is list or issubclass(x.cls, _Seq))
def argl(E, F, o, v, x):
    """The elements of an argument, as the receiver takes them: (length, element, allowed).  The elements of a lazy list are taken
    computed by a plain receiver, and as they are or computed by a lazy one."""
    if x is o: w = v
    elif isinstance(x, Obj) and E.isview(x) and isinstance(E.view(x), ListView): w = E.lv(x)
    else:
        s = E.argseq(x)
        return Z(s.n), (lambda k: E.toval(s.at(k))), None
    if not lazycls(F, x): return Z(w.n), w.at, None
    if o.cls not in F.lazy: return Z(w.n), (lambda k: un(w.at(k))), None
    return Z(w.n), w.at, lambda k, t: Or(t == w.at(k), t == un(w.at(k)))
def own(E, F, o, v, loose):
    """The receiver's elements in a result."""
    if o.cls in F.lazy and loose: return lambda k, t: Or(t == v.at(k), t == un(v.at(k)))
    return lambda k, t: t == v.at(k)
def l_cat(n, a, ok1, m, b, ok2):
    """The elements a then b."""
    ok2 = ok2 or (lambda k, t: t == b(k))
    r = LV(simplify(n + m), lambda k: If(Z(k) < n, a(k), b(simplify(Z(k) - n))))
    r.ok = lambda k, t: If(Z(k) < n, ok1(k, t), ok2(simplify(Z(k) - n), t))
    return r
def changed(o, F, r, ret=None):
    """A new list for a persistent receiver, a new state for a transient one."""
    return Out(rnew(o.cls, r)) if o.cls in F.persistent else Out(ret or NONE, post=r)

def s_drop(E, F, o, v, index=-1):
    i = norm(E, v, index)
    if i is None: return Out(rself())
    return Out(rnew(o.cls, l_del(v, i)))
def s_pop(E, F, o, v, index=-1):
    i = norm(E, v, index)
    if i is None: return raises(IndexError)
    x = elem(E, F, o, v.at(i)); r = l_del(v, i)
    return Out(rtup(rval(x), rnew(o.cls, r))) if o.cls in F.persistent else Out(rval(x), post=r)
def first(E, F, o, v, lo, hi, x):
    """The first index in lo..hi-1 of an element equal to x, or None."""
    at = rd(E, F, o, v); w, j, k = fint("first"), fint("j"), fint("j")
    is_ = lambda k: cls(at(k)) == cls(E.toval(x))
    if E.branch(fbool("found")):
        E.assume(And(lo <= w, w < hi, is_(w)))
        E.assume(forall_int(j, Implies(And(lo <= j, j < w), Not(is_(j)))))
        return w
    E.assume(forall_int(k, Implies(And(lo <= k, k < hi), Not(is_(k)))))
    return None
def s_remove(E, F, o, v, x):
    may_any(E, o)
    i = first(E, F, o, v, IntVal(0), Z(v.n), x)
    if i is None: return raises(ValueError)
    return changed(o, F, l_del(v, i))
def s_index(E, F, o, v, x, start=0, stop=None):
    may_any(E, o)
    n = Z(v.n); lo = Z(E.asint(start)); hi = n if stop is None else Z(E.asint(stop))
    lo = If(lo < 0, If(lo + n < 0, IntVal(0), lo + n), lo); hi = If(hi < 0, hi + n, If(hi > n, n, hi))
    i = first(E, F, o, v, lo, hi, x)
    return raises(ValueError) if i is None else Out(rval(i))
def s_contains(E, F, o, v, x):
    may_any(E, o)
    at = rd(E, F, o, v); b, w, j = fbool("in"), fint("w"), fint("j")
    is_ = lambda k: And(0 <= k, k < Z(v.n), cls(at(k)) == cls(E.toval(x)))
    E.assume(Implies(b, is_(w))); E.assume(Implies(Not(b), forall_int(j, Not(is_(j)))))
    return Out(rval(b))
def s_count(E, F, o, v, x):
    may_any(E, o)
    at = rd(E, F, o, v); t = fint("count")
    E.assume(And(0 <= t, t <= Z(v.n)))
    E.is_count(t, Z(v.n), lambda k: cls(at(k)) == cls(E.toval(x)))
    return Out(rval(t))
def s_reversed(E, F, o, v): return Out(riter(Seq(v.n, lambda k: elem(E, F, o, v.at(simplify(Z(v.n) - 1 - Z(k)))))))
def s_sort(E, F, o, v, key=None, reverse=False):
    may_any(E, o)
    at = rd(E, F, o, v)
    s = E.view(E.sorted_model(Seq(v.n, at), key, reverse))
    return changed(o, F, LV(v.n, lambda k: Select(s.a, Z(k))))
def s_reverse(E, F, o, v):
    may_any(E, o)
    r = LV(v.n, lambda k: v.at(simplify(Z(v.n) - 1 - Z(k)))); f = own(E, F, o, v, True)
    r.ok = lambda k, t: f(simplify(Z(v.n) - 1 - Z(k)), t)
    return changed(o, F, r)
def s_extend(E, F, o, v, x):
    may_any(E, o)
    m, b, ok = argl(E, F, o, v, x)
    r = l_cat(Z(v.n), v.at, own(E, F, o, v, False), m, b, ok)
    return Out(Ret("either", cls=o.cls, view=r)) if o.cls in F.persistent else Out(NONE, post=r)
def s_add(E, F, o, v, x):
    may_any(E, o)
    t = o.cls in F.transient
    if not isseq(x): return Out(rval(NotImplemented)) if t else raises(TypeError)
    if not t and x.cls in F.transient: return raises(TypeError)
    m, b, ok = argl(E, F, o, v, x)
    r = l_cat(Z(v.n), v.at, own(E, F, o, v, False), m, b, ok)
    return Out(rnew(o.cls, r, fresh=True)) if t else Out(Ret("either", cls=o.cls, view=r))
def s_radd(E, F, o, v, x):
    may_any(E, o)
    t = o.cls in F.transient
    if not isseq(x): return raises(TypeError)
    if not t and x.cls in F.persistent: return Out(rval(NotImplemented))
    if not t and x.cls is not list: return raises(TypeError)
    m, b, ok = argl(E, F, o, v, x)
    r = l_cat(m, b, ok or (lambda k, t: t == b(k)), Z(v.n), v.at, own(E, F, o, v, False))
    return Out(rnew(o.cls, r, fresh=True)) if t else Out(Ret("either", cls=o.cls, view=r))
def s_iadd(E, F, o, v, x):
    may_any(E, o)
    if not isseq(x): return raises(TypeError)
    m, b, ok = argl(E, F, o, v, x)
    return Out(rself(), post=l_cat(Z(v.n), v.at, own(E, F, o, v, False), m, b, ok))
def s_copy(E, F, o, v): return Out(rself()) if o.cls in F.persistent else Out(rnew(o.cls, v, fresh=True))
def seqs(E, F, o, v, x):
    """The elements of the receiver and of another sequence, as they are read."""
    w = v if x is o else E.lv(x)
    f = lambda c, w: (lambda k: un(w.at(k))) if c in F.lazy else w.at
    return Z(v.n), f(o.cls, v), Z(w.n), f(x.cls, w)
def s_equal(E, F, o, v, x):
    """A boolean that says whether the two have the same length and pairwise equal elements."""
    n, a, m, b = seqs(E, F, o, v, x); r, k, w = fbool("equal"), fint("k"), fint("w")
    E.assume(Implies(r, And(n == m, forall_int(k, Implies(And(0 <= k, k < n), cls(a(k)) == cls(b(k)))))))
    E.assume(Implies(Not(r), Or(n != m, And(0 <= w, w < n, cls(a(w)) != cls(b(w))))))
    return r
def comparable(F, x): return isinstance(x, Obj) and (x.cls is list or x.cls in F.persistent + F.transient)
def s_eq(E, F, o, v, x):
    may_any(E, o)
    if x is o: return Out(rval(True))
    return Out(rval(s_equal(E, F, o, v, x) if comparable(F, x) else False))
def s_ne(E, F, o, v, x):
    may_any(E, o)
    if x is o: return Out(rval(False))
    return Out(rval(Not(s_equal(E, F, o, v, x)) if comparable(F, x) else True))
def lex(E, n, a, m, b):
    """The sign of the lexicographic comparison of two sequences: -1, 0 or 1."""
    w, k = fint("w"), fint("k"); s = simplify(If(n < m, n, m))
    pre = lambda hi: forall_int(k, Implies(And(0 <= k, k < hi), cls(a(k)) == cls(b(k))))
    if E.branch(fbool("differ")):
        E.assume(And(0 <= w, w < s, cls(a(w)) != cls(b(w)))); E.assume(pre(w))
        return -1 if E.branch(E.val_less("Lt", a(w), b(w))) else 1
    E.assume(pre(s))
    return -1 if E.branch(n < m) else 1 if E.branch(n > m) else 0
def s_cmp(f):
    def spec(E, F, o, v, x):
        may_any(E, o)
        if not comparable(F, x): return raises(TypeError)
        return Out(rval(f(lex(E, *seqs(E, F, o, v, x)))))
    return spec
def read_of(E, F, x):
    """A sequence as it is read, for a function that is given one."""
    w = E.lv(x)
    return Z(w.n), (lambda k: un(w.at(k))) if x.cls in F.lazy else w.at
def s_seqcmp(E, F, a, b):
    if not isseq(a) or not isseq(b): return raises(TypeError)
    return Out(rval(lex(E, *read_of(E, F, a), *read_of(E, F, b))))
def m_seqcmp(E, F, a, b):
    E.applying += 1
    try: exp = s_seqcmp(E, F, a, b)
    finally: E.applying -= 1
    if exp.exc: raise Raised(exp.exc)
    E.used.add(("util", "seqcmp"))
    return exp.ret.v
def s_new(E, F, c, *args):
    """A list of the elements: as they are from a list of the same kind or a plain one, computed from a lazy one to a plain one."""
    if not args: return Out(rnew(c, lv_empty(), fresh=c in F.transient))
    if len(args) > 1: return raises(TypeError)
    x = args[0]
    if not isinstance(x, Obj): raise Unsupported("list of a value")
    new = lambda v: Out(rnew(c, v, fresh=c in F.transient))
    if x.cls is c and c in F.persistent: return Out(robj(x, c, E.lv(x)))
    if E.isview(x) and isinstance(E.view(x), ListView):
        w = E.lv(x)
        if x.cls in F.lazy and c not in F.lazy:
            E.path.may_force = "any"
            return new(LV(w.n, lambda k: un(w.at(k))))
        return new(LV(w.n, w.at, w.arr))
    s = E.argseq(x)
    return new(LV(Z(s.n), lambda k: E.toval(s.at(k))))

def A_L(c):
    def mk(E):
        n, a = fint("len"), fresh("other", AV); E.assume(n >= 0)
        return E.alloc(getattr(E.fam_list, c) if isinstance(c, str) else c, {"#view": ListView(n, a)}, "pre")
    return mk
A_PLIST, A_TLIST, A_LLIST, A_TLLIST, A_LST = A_L("plist"), A_L("tlist"), A_L("llist"), A_L("tllist"), A_L(list)
def A_SELF(E): return E.receiver
def A_ITER(E):
    n, a = fint("len"), fresh("els", AV); E.assume(n >= 0)
    return E.alloc(IterCls, {"seq": Seq(n, lambda i: Select(a, Z(i))), "pos": 0}, "pre")
def A_SET(E):
    mem = fresh("mem", CB); E.cards(mem)
    return E.alloc(set, {"#view": SetView(mem)}, "pre")
NOTSEQ = [[OBJ], [A_SET]]
LISTS = [[A_PLIST], [A_TLIST], [A_LLIST], [A_TLLIST], [A_LST], [A_SELF]]
def KEYF(E): return E.sortkey
def FLAG(E): return fbool("reverse")
def l2_table(F, c):
    cmp_ = LISTS + NOTSEQ
    d = {"pop": (s_pop, [[], [INT]]), "remove": (s_remove, [[OBJ]]), "index": (s_index, [[OBJ], [OBJ, INT], [OBJ, INT, INT]]), "count": (s_count, [[OBJ]]),
         "__contains__": (s_contains, [[OBJ]]), "__reversed__": (s_reversed, [[]]), "sort": (s_sort, [[], [KEYF, FLAG]]), "reverse": (s_reverse, [[]]),
         "extend": (s_extend, LISTS + [[A_ITER]]), "__add__": (s_add, cmp_), "__radd__": (s_radd, cmp_), "copy": (s_copy, [[]]),
         "__eq__": (s_eq, cmp_), "__ne__": (s_ne, cmp_), "__lt__": (s_cmp(lambda r: r < 0), cmp_), "__le__": (s_cmp(lambda r: r <= 0), cmp_),
         "__gt__": (s_cmp(lambda r: r > 0), cmp_), "__ge__": (s_cmp(lambda r: r >= 0), cmp_)}
    if c in F.persistent: d["drop"] = (s_drop, [[], [INT]])
    else: d["__iadd__"] = (s_iadd, cmp_); d["__imul__"] = (vmul.s_imul, [[vmul.reps]])
    return {**d, **vmul.TABLE}
def full_table(F, c): return {**(PERSISTENT if c in F.persistent else TRANSIENT), **l2_table(F, c)}
def contracts(F):
    def reg(E):
        E.fam_list = F
        for c in F.persistent + F.transient: E.families[c] = F
        E.sortkey = Obj(0, OpaqueKey)
        E.register(F, lambda c: full_table(F, c))
        E.fmodels = dict(getattr(E, "fmodels", {})); E.fmodels[F.seqcmp] = lambda a, b: m_seqcmp(E, F, a, b)
        for c in F.persistent + F.transient: E.contracts[(c, "__new__")] = lambda E, c, *a, **k: E.apply_new(F, c, s_new, a, k)
    return reg
class OpaqueKey: pass
def l2_tasks(F, c): return method_tasks(None, F, c, l2_table(F, c), view=True, contracts=contracts(F))
NEW = [[], [A_PLIST], [A_TLIST], [A_LLIST], [A_TLLIST], [A_LST], [A_ITER], [A_SET], [A_PLIST, A_LST]]
def new_tasks(F, c): return constructor_tasks(F, c, s_new, NEW, contracts(F))
def NOTUPLE(E):
    x = OBJ(E); E.assume(Not(is_tup(x))); return x
def function_tasks(F):
    out = []
    for j, (x, y) in enumerate([(A_PLIST, A_PLIST), (A_PLIST, A_LST), (A_LLIST, A_TLIST), (A_LST, A_TLLIST), (NOTUPLE, A_PLIST), (A_PLIST, A_SET)]):
        def task(E, x=x, y=y):
            contracts(F)(E)
            a, b = x(E), y(E)
            E.current = None
            outcome = E.attempt(lambda: E.run_function(F.seqcmp, [a, b], {}))
            exp = s_seqcmp(E, F, a, b)
            E.check_call(F, None, outcome, exp, None)
        out.append((f"util.seqcmp/{j}", task))
    return out
