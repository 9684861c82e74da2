"""Contracts on lazy: rely-guarantee reasoning over the fields that threads share.

The object is made by the real constructor and then shared. Its abstract state is pending or published; the fields `partial` and
`value` represent it: pending exactly when partial is the triple the constructor stored, published exactly when partial is None,
and then value is the result.
Rely: whenever this thread does not hold the lock of the object, other threads may have published it; they do nothing else.
Guarantee (an obligation at every step of this thread): the fields are written only while the lock is held and the object is pending,
value before partial, partial only to None and only when value is the result of a completed call of the function; the function is
called only while the lock is held and the object is pending, with its own arguments; a completed call is published before the lock
is released. Since every thread that touches the fields runs the methods verified here, these steps preserve what the others rely on,
for any number of threads and any interleaving of their steps (reads and writes of one slot are atomic in CPython).
"""
import functools
import z3
from .terms import *
from .engine import Obj, Raised, Unsupported, Cut, ExcVal, SymStr, Model
from .pymodel import LockCls

class FnCls:
    """The function of a lazy."""
    def __call__(self): pass
class NamedFnCls(FnCls): pass
class FnError(Exception): """Some exception that the function raises."""
class FnStop(BaseException): """Some exception outside of Exception that the function raises."""

def install(E, pc, fn, args, kw):
    """Shares the lazy that the constructor makes of these."""
    L = pc._lazy
    o = E.call(L.lazy, [fn] + args, kw)
    f = E.fields(o)
    if o.cls is not L.lazy or set(f) != {"partial", "value"} or f["partial"] is None: raise Unsupported("the representation of lazy")
    locks = [x for x, fs in E.path.heap.items() if E.path.objs.get(x) is not None and E.path.objs[x].cls is LockCls]
    st = dict(pending=f["partial"], done=False, result=None, mine=None, value=fval("unpublished"), errors=[], calls=0, fn=fn, args=args, kw=kw, others=True)
    f["#shared"] = st
    E.shared = o; E.sharedlocks = locks
    if E.branch(fbool("published_before")): publish_others(E, st)
    return o

def publish_others(E, st):
    st["done"] = True; st["result"] = st["value"] = fval("result")
def held(E): return any(E.path.heap[l]["depth"] for l in E.sharedlocks)
def state(E): return E.fields(E.shared)["#shared"]
def interfere(E):
    """Any number of steps of other threads."""
    st = state(E)
    if not held(E) and not st["done"] and st["others"] and E.branch(fbool("published_by_another_thread")): publish_others(E, st)

class LazyMixin:
    shared = None
    def shared_get(self, o, name):
        st = state(self); interfere(self)
        if name == "partial": return None if st["done"] else st["pending"]
        return st["value"] if st["done"] or held(self) else fval("unpublished")
    def shared_set(self, o, name, v):
        st = state(self)
        if name not in ("partial", "value"): raise Unsupported(f"field {name} of a lazy")
        self.goal("once", f"{name} is written only while the lock is held", held(self))
        if name == "value":
            if st["done"]: self.goal("once", "the published value is not replaced", Z(self.same(v, st["value"])))
            else: st["value"] = v
        elif v is None:
            if not st["done"]:
                self.goal("once", "published only after a completed call", st["mine"] is not None)
                self.goal("once", "the published value is the result", Z(self.same(st["value"], st["mine"])) if st["mine"] is not None else False)
                st["done"] = True; st["result"] = st["mine"]
        else: self.goal("once", "partial is only ever set to None", Z(self.same(v, st["pending"])) if not st["done"] else False)
    def interfere(self, lock):
        if self.shared is not None and self.fields(lock)["depth"] == 1:
            # between the last step and this acquisition the others could go on
            self.fields(lock)["depth"] = 0; interfere(self); self.fields(lock)["depth"] = 1
    def releasing(self, lock):
        if self.shared is None or self.fields(lock)["depth"] > 1 or lock.id not in self.sharedlocks: return
        st = state(self)
        if st["mine"] is not None: self.goal("once", "a completed call is published before the lock is released", st["done"])
        st["mine"] = None
    def call_fn(self, o, args, kw):
        st = state(self); st["calls"] += 1
        self.goal("once", "the function is called only while the lock is held", held(self))
        self.goal("once", "the function is called only when nothing is published", not st["done"])
        self.goal("once", "the function completes once", st["mine"] is None)
        ok = len(args) == len(st["args"]) and set(kw) == set(st["kw"])
        self.goal("once", "the function gets its own arguments", And(*[Z(self.same(a, b)) for a, b in zip(args, st["args"])], *[Z(self.same(kw[k], st["kw"][k])) for k in kw]) if ok else False)
        n = self.choose(3)
        if n == 0:
            st["mine"] = fval("result"); return st["mine"]
        e = ExcVal(FnError if n == 1 else FnStop); st["errors"].append(e)
        raise Raised(e.cls, e)
    def model_attr(self, o, name):
        if isinstance(o.cls, type) and issubclass(o.cls, FnCls):
            if name == "__call__": return Model(lambda *a, **k: self.call_fn(o, list(a), k), name)
            if name in ("__name__", "__qualname__"):
                if o.cls is NamedFnCls: return "f_name"
                raise Raised(AttributeError)
        return super().model_attr(o, name)

ARGS = [([], {}), (["a"], {}), (["a", "b"], {"k": "c"})]
def shapes(): return [(f"{len(a)} arguments" + (" and a keyword" if k else ""), a, k) for a, k in ARGS]
def mk(E, pc, a, k, named=True):
    fn = E.alloc(NamedFnCls if named else FnCls, {}, "pre")
    args = [fval(x) for x in a]; kw = {x: fval(y) for x, y in k.items()}
    return fn, args, kw

def judge(E, pc, o, run, first=True):
    """One call from outside the function, from any state; the outcome against the contract."""
    L = pc._lazy; st = state(E)
    st["calls"] = 0; st["errors"] = []
    try: kind, r = "ret", run()
    except Raised as x: kind, r = "raise", x
    E.covered += 1; E.outcomes.add(kind if kind == "ret" else r.cls.__name__)
    E.goal("lock", "the lock is released", not held(E))
    if kind == "ret":
        E.goal("once", "a call that returns has published", st["done"])
        E.goal("once", "a call returns the result", Z(E.same(r, st["result"])) if st["done"] else False)
    else:
        E.goal("fail", "a call raises only when the function did", bool(st["errors"]))
        e = st["errors"][-1] if st["errors"] else None
        if e is not None and e.cls is FnError:
            ok = r.cls is L.LazyError
            E.goal("fail", "a failing function makes the call raise LazyError", ok)
            if ok: E.goal("fail", "the LazyError is chained to the exception of the function", r.val is not None and (r.val.cause in st["errors"] or (r.val.cause is None and r.val.context in st["errors"])))
        E.goal("fail", "a failure publishes nothing", st["result"] is None or not st["mine"])
        E.goal("fail", "the function is not called again by the same call", st["calls"] == len(st["errors"]))
    return kind, r

def ready(E, o): return E.callmethod(o, "is_ready", [])
def tasks(pc):
    L = pc._lazy; out = []
    def call(pc, a, k, then):
        def task(E):
            fn, args, kw = mk(E, pc, a, k)
            o = install(E, pc, fn, args, kw); st = state(E)
            kind, r = judge(E, pc, o, lambda: E.call(o, [], {}))
            if then == "ready":
                if kind == "ret": E.goal("once", "is_ready() after a call has returned", Z(E.truth_term(ready(E, o))))
                else:
                    st["others"] = False
                    b = ready(E, o)
                    E.goal("fail", "not ready after a failure", Z(E.truth_term(b)) == BoolVal(st["done"]))
            elif then == "again":
                k2, r2 = judge(E, pc, o, lambda: E.call(o, [], {}), False)
                if kind == "ret":
                    E.goal("once", "after a call has returned the function is not called again", st["calls"] == 0)
                    E.goal("once", "a second call returns the same value", Z(E.same(r, r2)) if k2 == "ret" else False)
            elif then == "unlazy" and kind == "ret":
                u = E.call(L.unlazy, [o], {})
                E.goal("once", "unlazy gives the value", And(Z(E.same(u, r)), BoolVal(st["calls"] <= 1)))
        return task
    for name, a, k in shapes():
        for then in ("ready", "again", "unlazy") if not a else ("ready",):
            out.append((f"lazy.__call__ with {name}, then {then}", call(pc, a, k, then)))
    def new(a, k):
        def task(E):
            fn, args, kw = mk(E, pc, a, k)
            o = E.call(L.lazy, [fn] + args, kw)
            E.covered += 1; E.outcomes.add("ret")
            E.goal("once", "makes a lazy", isinstance(o, Obj) and o.cls is L.lazy)
            E.goal("once", "a new lazy is not ready", Not(Z(E.truth_term(ready(E, o)))))
        return task
    for name, a, k in shapes(): out.append((f"lazy.__new__ with {name}", new(a, k)))
    def newbad(E):
        x = fval("x"); E.assume(Not(islazy(x)))
        try: E.call(L.lazy, [x], {}); got = None
        except Raised as r: got = r.cls
        E.covered += 1; E.outcomes.add(got.__name__ if got else "ret")
        E.goal("once", "raises TypeError when the function is not callable", got is TypeError)
    out.append(("lazy.__new__ of something that is not callable", newbad))
    def isready(E):
        fn, args, kw = mk(E, pc, [], {}); o = install(E, pc, fn, args, kw); st = state(E)
        st["others"] = False
        b = ready(E, o); E.covered += 1; E.outcomes.add("ret")
        E.goal("once", "is_ready() tells whether the value is published", Z(E.truth_term(b)) == BoolVal(st["done"]))
        E.goal("once", "is_ready() calls nothing", st["calls"] == 0)
    out.append(("lazy.is_ready", isready))
    def texts(m):
        def task(E):
            fn, args, kw = mk(E, pc, [], {}); o = install(E, pc, fn, args, kw); st = state(E)
            E.callmethod(o, m, []); E.covered += 1; E.outcomes.add("ret")
            E.goal("once", f"{m} calls nothing", st["calls"] == 0)
        return task
    for m in ("__repr__", "__str__"): out.append((f"lazy.{m}", texts(m)))
    def unlazy(E):
        x = fval("x"); E.assume(Not(islazy(x)))
        r = E.call(L.unlazy, [x], {}); E.covered += 1; E.outcomes.add("ret")
        E.goal("once", "unlazy of something else is that", Z(E.same(r, x)))
    out.append(("unlazy of another object", unlazy))
    def errtext(m, a, k, form, named):
        def task(E):
            E.use_strings()
            fn, args, kw = mk(E, pc, a, k, named)
            p = E.b_partial(fn, *args, **kw) if form == "partial" else (fn, tuple(args), dict(kw))
            e = E.call(L.LazyError, [p], {})
            try: r = E.call(E.getattr(e, m), [], {})
            except Raised as x: r = x
            E.covered += 1; E.outcomes.add("ret")
            E.goal("fail", "a LazyError can be converted to a string", not isinstance(r, Raised))
            ok = isinstance(r, (str, SymStr))
            E.goal("fail", "the text of a LazyError is a string", ok)
            if ok and named: E.goal("fail", "the text of a LazyError names the function", "f_name" in (r if isinstance(r, str) else r.literal()))
        return task
    for m in ("__str__", "__repr__"):
        for form in ("tuple", "partial"):
            for name, a, k in shapes():
                for named in (True, False): out.append((f"LazyError.{m} of a {form} with {name}{'' if named else ', function without a name'}", errtext(m, a, k, form, named)))
    return out
