"""Contracts that every family has: no assignment to persistent collections, pickling, hashing."""
import z3
from .terms import *
from .engine import Obj, Seq, Raised, Unsupported, Cut
from . import vlist, vset, vdict
from .pymodel import IterCls
from .verifier import Out, Ret, rnew, raises

def reg(F):
    return vlist.contracts(F) if isinstance(F, vlist.ListFamily) else vset.contracts(F) if isinstance(F, vset.SetFamily) else vdict.contracts(F)

# ---- assignment and deletion (C12) ----------------------------------------------------------------------------------------------------------
def immutable_tasks(F, c):
    """Assigning or deleting an attribute or an item of a persistent collection raises TypeError and changes nothing."""
    out = []
    names = ["contents", "_hashcode", "_start", "_top", "_els", "_phamt"]
    ops = [(f"setattr {n}", lambda E, o, n=n: E.setattr(o, n, fval("x"))) for n in names] + [(f"delattr {n}", lambda E, o, n=n: E.delattr(o, n)) for n in names]
    ops += [("setitem", lambda E, o: E.setitem(o, fval("key"), fval("x"))), ("setitem index", lambda E, o: E.setitem(o, fint("index"), fval("x"))),
            ("delitem", lambda E, o: E.delitem(o, fval("key"))), ("delitem index", lambda E, o: E.delitem(o, fint("index")))]
    for name, op in ops:
        def task(E, op=op):
            o = F.mk(E, c); v = F.view(E, o)
            E.receiver = o
            E.check_call(F, o, E.attempt(lambda: op(E, o)), raises(TypeError), v)
        out.append((f"{c.__name__}.{name}", task))
    return out

# ---- pickling (C24) ---------------------------------------------------------------------------------------------------------------------------
def computed(E, F, c, v):
    """The contents as they are read."""
    if c not in getattr(F, "lazy", ()): return v
    if isinstance(F, vlist.ListFamily): return vlist.LV(v.n, lambda k: un(v.at(k)))
    g = fresh("get", CV); x = fresh("c", Cls)
    E.assume(ForAll([x], Select(g, x) == un(Select(v.get, x)), patterns=[Select(g, x), Select(v.get, x)]))
    return vdict.DV(v.mem, g, v.ord, v.clk)
def reduce_tasks(F, c):
    """What __reduce__ says to call makes a collection of the same class with the same contents in the same order."""
    def task(E):
        reg(F)(E)
        o = F.mk(E, c, view=True); v = F.view(E, o)
        E.receiver = o; E.current = (c, "__reduce__")
        def run():
            r = E.callmethod(o, "__reduce__", [])
            if not (isinstance(r, tuple) and len(r) >= 2): raise Unsupported("result of __reduce__")
            if len(r) > 2 and any(x is not None for x in r[2:]): raise Unsupported("state in the result of __reduce__")
            args = r[1]
            if not isinstance(args, tuple): raise Unsupported("arguments in the result of __reduce__")
            def parts(x):
                for y in x if isinstance(x, tuple) else (x,):
                    if isinstance(y, tuple): yield from parts(y)
                    else: yield y
            for x in parts(args):
                if not isinstance(x, Obj): continue
                E.goal("content", "__reduce__ does not refer to the collection itself", x.cls is not c)
                if x.cls is IterCls: raise Unsupported("an iterator in the result of __reduce__")
            return E.call(r[0], list(args), {})
        outcome = E.attempt(run)
        E.check_call(F, o, outcome, Out(rnew(c, computed(E, F, c, v), fresh=c in F.transient)), v)
    return [(f"{c.__name__}.__reduce__", task)]

# ---- hashing (C16) ----------------------------------------------------------------------------------------------------------------------------
def equal_views(E, F, c, v, d, w):
    """The collections are equal."""
    lz = getattr(F, "lazy", ()); k, x = fint("k"), fresh("c", Cls)
    rd = lambda c: un if c in lz else (lambda t: t)
    if isinstance(F, vlist.ListFamily):
        E.assume(Z(v.n) == Z(w.n))
        E.assume(ForAll([k], Implies(And(0 <= k, k < Z(v.n)), cls(rd(c)(v.at(k))) == cls(rd(d)(w.at(k)))), patterns=[v.at(k), w.at(k)]))
    else:
        E.assume(ForAll([x], Select(v.mem, x) == Select(w.mem, x), patterns=[Select(v.mem, x), Select(w.mem, x)]))
        if isinstance(F, vdict.DictFamily):
            E.assume(ForAll([x], Implies(Select(v.mem, x), cls(rd(c)(Select(v.get, x))) == cls(rd(d)(Select(w.get, x)))), patterns=[Select(v.get, x), Select(w.get, x)]))
def hash_tasks(F):
    """Two equal persistent collections have the same hash, also when either was hashed before."""
    out = []
    for n, c in enumerate(F.persistent):
        for d in F.persistent[n:]:
            def task(E, c=c, d=d):
                reg(F)(E)
                a, b = F.mk(E, c, view=True), F.mk(E, d, view=True)
                for o in (a, b): E.fields(o)["_hashcode"] = None
                v, w = F.view(E, a), F.view(E, b)
                E.path.may_cache = True
                equal_views(E, F, c, v, d, w)
                run = lambda o: E.callmethod(o, "__hash__", [])
                rs = [E.attempt(lambda o=o: run(o)) for o in (a, a, b, b, a)]
                E.covered += 1
                for o in (a, b): E.goal("content", "hashing returns", all(r[0] == "ret" for r in rs))
                if not all(r[0] == "ret" for r in rs): return
                h = [r[1] for r in rs]
                for x in h: E.goal("content", "a hash is an integer", is_intlike(x))
                if not all(is_intlike(x) for x in h): return
                E.goal("content", "a second call gives the same hash", And(Z(h[0]) == Z(h[1]), Z(h[2]) == Z(h[3]), Z(h[0]) == Z(h[4])))
                E.goal("content", "equal collections have equal hashes", Z(h[0]) == Z(h[2]))
                E.check_frame(F, a)
            out.append((f"{c.__name__}.__hash__" + ("" if c is d else f" and {d.__name__}"), task))
    return out

# ---- holdlazy (C19, C20) ------------------------------------------------------------------------------------------------------------------------
def holdlazy_tasks(F, c, holdlazy):
    """holdlazy(o): what o.__holdlazy__() gives, for a lazy collection; o itself, or TypeError when a lazy one is required, for any other."""
    table = {} if c not in getattr(F, "lazy", ()) else vdict.LAZYP if isinstance(F, vdict.DictFamily) else vlist.LAZYP if c in F.persistent else vlist.LAZY
    def task(req):
        def run(E):
            reg(F)(E)
            o = F.mk(E, c, view=True); v = F.view(E, o)
            E.receiver = o; E.current = None
            outcome = E.attempt(lambda: E.run_function(holdlazy, [o], {} if req is None else {"require_lazy": req}))
            if "__holdlazy__" in table:
                exp = table["__holdlazy__"][0](E, F, o, v)
                E.goal("force", "computes nothing", not [e for e in E.path.events if e[0] == "force"])
            else: exp = raises(TypeError) if req else Out(Ret("self"))
            E.check_call(F, o, outcome, exp, v)
        return run
    return [(f"holdlazy.{c.__name__}" + ("" if r is None else f" require_lazy={r}"), task(r)) for r in (None, False, True)]
