"""Models of the builtins and of phamt: the trusted base of the verifier (differentially tested in vc/selftest.py)."""
import ast, builtins, itertools, functools, threading, types, operator, numbers, collections.abc
import z3
from .terms import *
from .engine import (Engine, TypeOf, Obj, Phamt, ValSet, ListView, SetView, DictView, Seq, Closure, Bound, Model, SuperProxy, Slice, ExcVal, OpaqueStr,
                     Unsupported, Cut, Raised, Maybe, GenericIterable, Frame, _Break)
import phamt as _ph
PHAMT, THAMT = _ph.PHAMT, _ph.THAMT
IterCls = type("#iter", (object,), {})
rlen = Function("rlen", IntSort(), IntSort(), IntSort())   # number of elements of range(0, d, s)
mul = Function("mul", IntSort(), IntSort(), IntSort())     # i*s
SENT = object()

def install(eng): pass

def reads_of(t, i):
    """Array reads at the bare index i in t, as patterns."""
    out = []
    for a, ix in selects_on(t, i):
        if ix.eq(i) and not any(c.eq(i) for c in free_consts(a)) and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(a.eq(b.arg(0)) for b in out): out.append(Select(a, i))
    return out[:2]
def emptyphamt(): return Phamt(z3.K(IntSort(), BoolVal(False)), z3.K(IntSort(), vnone), IntVal(0))

class Mixin:
    # ---- lifting of real objects -------------------------------------------------------------------------------------
    def lift_special(self, real):
        if isinstance(real, PHAMT):
            p = emptyphamt()
            d, v = p.dom, p.val
            for k, x in real:
                d = Store(d, IntVal(k), BoolVal(True)); v = Store(v, IntVal(k), fresh_global("lifted", Val))
            return Phamt(d, v, IntVal(len(real)))
        slots = [s for c in type(real).__mro__ for s in ([c.__dict__.get("__slots__", ())] if isinstance(c.__dict__.get("__slots__", ()), str) else c.__dict__.get("__slots__", ()))]
        if type(real).__module__.startswith("pcollections") and slots:
            key = id(real)
            if key not in self.lifted:
                o = Obj(-1 - len(self.lifted), type(real))
                self.lifted[key] = o
                self.lifted_real = getattr(self, "lifted_real", {}); self.lifted_real[o.id] = real
                self.lifted_state[o.id] = {}
                st = {}
                for s in slots:
                    try: st[s] = self.lift(getattr(real, s))
                    except AttributeError: pass
                self.lifted_state[o.id] = st
            return self.lifted[key]
        return None
    def lifted_as_view(self, o): return None

    # ---- attributes of modelled objects -------------------------------------------------------------------------------
    def model_attr(self, o, name):
        c = o.cls
        if c is THAMT:
            m = getattr(self, "thamt_" + name.strip("_"), None)
            if m is not None: return Model(lambda *a, **k: m(o, *a, **k), name)
            if name in ("keys", "items", "values"): raise Unsupported(name)
            return None
        if c is IterCls:
            if name == "__iter__": return Model(lambda: o, name)
            if name == "__next__": return Model(lambda: self.next(o), name)
            return None
        if c in (list, set, frozenset, dict):
            m = getattr(self, c.__name__ + "_" + name.strip("_"), None) or (getattr(self, "set_" + name.strip("_"), None) if c is frozenset else None)
            if m is not None: return Model(lambda *a, **k: m(o, *a, **k), name)
            if name in ("__add__", "__radd__", "__or__", "__ror__", "__and__", "__rand__", "__sub__", "__rsub__", "__xor__", "__rxor__", "__iadd__", "__ior__"):
                if c is not list or name not in ("__iadd__",): return Model(lambda x: self.builtin_op(o, name, x), name)
            return None
        if c is functools.partial and name == "__call__":
            f = self.fields(o)
            return Model(lambda *a, **k: self.call(f["func"], list(f["args"]) + list(a), {**f["keywords"], **k}), "partial")
        if c is LockCls:
            m = getattr(self, "lock_" + name.strip("_"), None)
            if m is not None: return Model(lambda *a, **k: m(o, *a, **k), name)
        if c is GenericIterable:
            if name == "__iter__": return Model(lambda: self.iter(o), name)
            return None
        return None
    def builtin_op(self, o, name, x):
        """An operator of a list, set or dict: not implemented for an operand of another type."""
        xc = x.cls if isinstance(x, Obj) else type(x)
        kin = (set, frozenset) if o.cls in (set, frozenset) else (o.cls,)
        if isinstance(x, Obj) and xc in kin or xc in kin or isz(x):
            if o.cls is list and name == "__add__" and xc is list: return self.mklist_seq(self.cat(self.view_seq(o), self.view_seq(x)))
            if o.cls in (set, frozenset) and not isz(x) and not name.startswith("__i"):
                a, b = (x, o) if name.startswith("__r") else (o, x)
                f = {"or": lambda p, q: Or(p, q), "and": lambda p, q: And(p, q), "sub": lambda p, q: And(p, Not(q)), "xor": lambda p, q: p != q}[name.strip("_").removeprefix("r")]
                return self.set_combined(a, b, f)
            if o.cls is dict and name == "__or__" and xc is dict:
                r = self.dict_copy(o); self.dict_update(r, x); return r
            raise Unsupported(f"{name} of builtin collections")
        return NotImplemented
    def model_classattr(self, c, name): return None
    def tmap(self, o, write=False):
        f = self.fields(o)
        if "#ro" in f:      # part of the unfolded state of an abstract object
            if write: raise Unsupported("changing the representation of an abstract object")
            owner, v = f["#ro"]
            if self.view(owner) is not v: raise Unsupported("the representation of an abstract object that has changed")
        return f["#map"]
    def thamt_getitem(self, o, k): return self.phamt_getitem(self.tmap(o), k)
    def thamt_setitem(self, o, k, v):
        self.tmap(o, True)
        self.setfield(o, "#map", self.p_assoc(self.fields(o)["#map"], self.asint(k), v))
    def thamt_delitem(self, o, k):
        m = self.tmap(o, True); k = Z(self.asint(k))
        if not self.branch(Select(m.dom, k)): raise Raised(KeyError)
        self.setfield(o, "#map", self.p_dissoc(m, k))
    def thamt_persistent(self, o): return self.tmap(o)
    def thamt_get(self, o, k, d=None): return self.p_get(self.tmap(o), k, d)
    def thamt_len(self, o): return lit(self.tmap(o).n)
    def thamt_contains(self, o, k): return self.contains(self.tmap(o), k)
    def thamt_iter(self, o): return self.mkiter(self.phamt_seq(self.tmap(o)))
    def p_assoc(self, m, k, v):
        k = Z(k); had = Select(m.dom, k)
        return Phamt(Store(m.dom, k, BoolVal(True)), Store(m.val, k, self.toval(v)), simplify(m.n + If(had, 0, 1)))
    def p_dissoc(self, m, k):
        k = Z(k); had = Select(m.dom, k)
        return Phamt(Store(m.dom, k, BoolVal(False)), m.val, simplify(m.n - If(had, 1, 0)))
    def p_get(self, m, k, d=None):
        k = Z(self.asint(k))
        if self.branch(Select(m.dom, k)): return self.concretize(Select(m.val, k))
        return d
    def phamt_getitem(self, m, k):
        k = Z(self.asint(k))
        if self.branch(Select(m.dom, k)): return self.concretize(Select(m.val, k))
        raise Raised(KeyError)
    def phamt_attr(self, m, name):
        if name == "assoc": return Model(lambda k, v: self.p_assoc(m, self.asint(k), v), name)
        if name == "dissoc": return Model(lambda k: self.p_dissoc(m, self.asint(k)), name)
        if name == "get": return Model(lambda k, d=None: self.p_get(m, k, d), name)
        if name == "transient": return Model(lambda: self.alloc(THAMT, {"#map": m}), name)
        if name == "__getitem__": return Model(lambda k: self.phamt_getitem(m, k), name)
        if name == "__contains__": return Model(lambda k: self.contains(m, k), name)
        if name == "__len__": return Model(lambda: lit(m.n), name)
        if name == "__iter__": return Model(lambda: self.mkiter(self.phamt_seq(m)), name)
        raise Unsupported(f"PHAMT.{name}")

    # ---- enumeration of a PHAMT -----------------------------------------------------------------------------------------
    def phamt_seq(self, m):
        key = self.enum(m)
        def at(i):
            k = Select(key, Z(i))
            return (k, self.concretize(Select(m.val, k)))
        return Seq(lit(m.n), at, src=())
    def enum(self, m):
        """The enumeration of the keys of m: in unsigned order, without repetition, exactly the domain."""
        p = self.path
        if not hasattr(p, "enums"): p.enums = []
        for m2, key in p.enums:
            if m2.dom.eq(m.dom): return key
        key = fresh("enum", ArraySort(IntSort(), IntSort())); rank = fresh("rank", ArraySort(IntSort(), IntSort()))
        i, k = fint("i"), fint("k")
        n = m.n
        self.assume(ForAll([i], Implies(And(0 <= i, i < n), And(Select(m.dom, Select(key, i)), Select(rank, Select(key, i)) == i)), patterns=[Select(key, i)]))
        pats = [z3.MultiPattern(Select(m.dom, k))] if z3.is_const(m.dom) and m.dom.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
        pats.append(z3.MultiPattern(Select(rank, k)))
        self.assume(ForAll([k], Implies(Select(m.dom, k), And(0 <= Select(rank, k), Select(rank, k) < n, Select(key, Select(rank, k)) == k)), patterns=pats))
        self.assume(n >= 0)
        p.enums.append((m, key))
        for lo, hi in self.hints():
            # lemma enum_interval (vc/lemmas.py): an interval is enumerated from its least non-negative member, the negative ones last
            j = fint("j")
            at = If(Or(lo >= 0, hi <= 0), lo + i, If(i < hi, i, lo + i - hi))
            iv = ForAll([j], Select(m.dom, j) == And(lo <= j, j < hi), patterns=[Select(m.dom, j)] if pats[:-1] else [])
            self.lemma_used("enum_interval")
            if self.must(iv):
                self.assume(ForAll([i], Implies(And(0 <= i, i < hi - lo), Select(key, i) == at), patterns=[Select(key, i)]))
                self.assume(n == If(hi > lo, hi - lo, 0))
                break
        else:
            # keys in unsigned order
            i2 = fint("i2")
            a, b = Select(key, i), Select(key, i2)
            self.assume(ForAll([i, i2], Implies(And(0 <= i, i < i2, i2 < n), If((a >= 0) == (b >= 0), a < b, a >= 0)), patterns=[z3.MultiPattern(a, b)]))
        return key
    def hints(self): return getattr(self.path, "intervals", [])
    def hint(self, lo, hi):
        p = self.path
        if not hasattr(p, "intervals"): p.intervals = []
        p.intervals = p.intervals + [(Z(lo), Z(hi))]
    def lemma_used(self, name):
        self.lemmas = getattr(self, "lemmas", set()); self.lemmas.add(name)
    def card(self, m, lo, hi):
        """Lemma card_interval: a finite map whose domain is lo..hi-1 has max(0, hi-lo) entries."""
        lo, hi = Z(lo), Z(hi)
        self.lemma_used("card_interval")
        j = fint("j")
        if self.must(ForAll([j], Select(m.dom, j) == And(lo <= j, j < hi))):
            self.assume(m.n == If(hi > lo, hi - lo, 0))
            return True
        return False

    # ---- slots and constructors ---------------------------------------------------------------------------------------------
    def call_slot(self, f, self_, args, kw):
        name = getattr(f, "__name__", "?")
        if f is object.__setattr__: return self.obj_setattr(self_, *args)
        if name == "__setattr__" and getattr(f, "__objclass__", None) is object: return self.obj_setattr(self_, *args)
        if name == "__init__" and getattr(f, "__objclass__", None) is object: return None
        if name == "__hash__" and getattr(f, "__objclass__", None) is object: raise Unsupported("identity hash")
        if name in ("__eq__", "__ne__") and getattr(f, "__objclass__", None) is object: return NotImplemented
        raise Unsupported(f"slot {name} of {self_!r}")
    def obj_setattr(self, o, name, v):
        if not isinstance(o, Obj) or not isinstance(name, str): raise Unsupported("object.__setattr__")
        a, k = self.lookup_type(o.cls, name)
        if (a is None and not o.cls.__dictoffset__) or (a is not None and not isinstance(a, types.MemberDescriptorType)):
            raise Unsupported(f"object.__setattr__ of {name}")
        self.rawset(o, name, v)
    def val_attr(self, o, name):
        """Of the elements, only the lazies have a method the library calls."""
        if name == "is_ready":
            if not self.branch(islazy(o)): raise Raised(AttributeError)
            return Model(lambda: simplify(isready(o)), name)
        if name.startswith("__") and name.endswith("lazy__"): raise Raised(AttributeError)
        raise Unsupported(f"attribute {name} of an element")
    def call_val(self, f, args, kw):
        """Calling an element: only a lazy is callable; this is the moment at which it is forced."""
        if args or kw: raise Unsupported("call of an element")
        self.event("force", f)
        if not self.branch(islazy(f)): raise Raised(TypeError)
        g = self.forced
        if g is not None: self.setfield(g, "#set", ValSet(Store(self.fields(g)["#set"].a, f, BoolVal(True))))
        return force(f)
    def function_model(self, f): 
        if f is threading.RLock: return self.b_RLock
        return self.fmodels.get(f) if hasattr(self, "fmodels") else None
    def builtin_model(self, f):
        try: name = BUILTINS.get(f)
        except TypeError: return None
        return getattr(self, name) if name else None
    def b_object_new(self, c, *a): return self.alloc(c)
    def b_super(self, *a):
        if len(a) != 2: raise Unsupported("super")
        return SuperProxy(a[0], a[1])
    def b_len(self, o): return self.len(o)
    def b_isinstance(self, o, t):
        c = self.typeof(o)
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for x in ts: flat.extend(x if isinstance(x, tuple) else (x,))
        if not all(isinstance(x, type) for x in flat):
            if any(isinstance(x, (Obj, Phamt, Seq)) or is_val(x) or x is None for x in flat): raise Raised(TypeError)
            raise Unsupported("isinstance")
        if c is Val:
            if self.is_lazy_type(flat): return simplify(islazy(o))
            r = [k(o) for k, t in ((is_int, int), (is_bool, bool), (is_none, type(None)), (is_tup, tuple)) if any(issubclass(t, x) for x in flat)]
            for x in flat:      # what other objects are instances of is open
                if x is object: return True
                if x is not tuple and not self.notelement(x): r.append(And(is_obj(o), Not(islazy(o)), self.instance(x)(vu(o))))
            return lit(simplify(Or(*r))) if r else False
        return any(issubclass(c, x) for x in flat)
    def instance(self, t): return Function("instance of " + getattr(t, "__qualname__", str(t)), U, BoolSort())
    def notelement(self, t):
        """Elements are plain values, not collections of the library, types or sequences with a structure of their own."""
        return isinstance(t, type) and (t in (list, dict, set, frozenset, slice) or t.__module__.startswith("pcollections") or t.__module__ in ("collections.abc", "_collections_abc"))
    def is_lazy_type(self, ts): return any(getattr(x, "__name__", "") == "lazy" and x.__module__.startswith("pcollections") for x in ts)
    def b_issubclass(self, a, b): return issubclass(a, b)
    def typeof(self, o):
        if isinstance(o, Obj): return o.cls
        if is_val(o):
            o = self.concretize(o)
            if is_val(o): return Val
        if is_symint(o): return int
        if is_symbool(o): return bool
        if isinstance(o, Slice): return slice
        if isinstance(o, ExcVal): return o.cls
        if isinstance(o, OpaqueStr): return str
        if isinstance(o, (Closure, Bound, Model)): return types.FunctionType
        if isinstance(o, Phamt): return PHAMT
        return type(o)
    def b_type(self, o, *a):
        if a: raise Unsupported("type()")
        c = self.typeof(o)
        return TypeOf(o) if c is Val else c
    def b_range(self, a, b=None, c=1):
        if b is None: a, b = 0, a
        a, b, c = self.asint(a), self.asint(b), self.asint(c)
        if all(isinstance(x, int) for x in (a, b, c)):
            r = range(a, b, c)
            return self.mkiter(Seq(len(r), lambda i: r[i] if isinstance(i, int) else lit(simplify(a + i * c))))
        if isinstance(c, int):
            if c == 0: raise Raised(ValueError)
            if c == 1: n = Z(b) - Z(a)
            elif c == -1: n = Z(a) - Z(b)
            elif c > 1: n = (Z(b) - Z(a) + (c - 1)) / c
            else: n = (Z(a) - Z(b) + (-c - 1)) / (-c)
            n = simplify(If(n > 0, n, 0))
            return self.mkiter(Seq(n, lambda i: lit(simplify(Z(a) + c * Z(i)))))
        if self.branch(c == 0): raise Raised(ValueError)
        d = simplify(Z(b) - Z(a))
        n = rlen(d, c)
        self.assume(n >= 0)
        return self.mkiter(Seq(n, lambda i: lit(simplify(Z(a) + mul(Z(i), c)))))
    def slice_attr(self, s, name):
        if name == "indices": return Model(lambda n: self.slice_indices(s, n), name)
        if name in ("start", "stop", "step"): return {"start": s.a, "stop": s.b, "step": s.c}[name]
        raise Unsupported(f"slice.{name}")
    def slice_indices(self, s, n):
        n = Z(self.asint(n)); step = s.c
        if step is None: step = 1
        step = self.asint(step)
        if self.branch(Z(step) == 0) if isz(step) else step == 0: raise Raised(ValueError)
        neg = self.branch(Z(step) < 0) if isz(step) else step < 0
        def clamp(x, dflt):
            if x is None: return dflt
            x = Z(self.asint(x))
            x2 = If(x < 0, x + n, x)
            return simplify(If(x2 < 0, IntVal(-1 if neg else 0), If(x2 >= n, (n - 1) if neg else n, x2)))
        a = clamp(s.a, simplify(n - 1) if neg else IntVal(0))
        b = clamp(s.b, IntVal(-1) if neg else n)
        if isz(step):
            i = fint("i"); d = simplify(b - a)
            # the elements of range(*slice.indices(n)) are indices of the sequence
            self.assume(ForAll([i], Implies(And(0 <= i, i < rlen(d, step)), And(0 <= a + mul(i, step), a + mul(i, step) < n)), patterns=[mul(i, step)]))
            self.assume(rlen(d, step) >= 0)
        return (lit(a), lit(b), step)
    def b_enumerate(self, it, start=0):
        s = self.seq(it)
        return self.mkiter(Seq(s.n, lambda i: (lit(simplify(Z(i) + start)), s.at(i)), s.src))
    def b_map(self, f, *its):
        ss = [self.seq(x) for x in its]
        n = self.minlen(ss)
        return self.mkiter(Seq(n, lambda i: self.at_pure(i, n, lambda: self.call(f, [s.at(i) for s in ss], {})), sum((tuple(s.src) for s in ss), ())))
    def b_filter(self, f, it):
        s = self.seq(it)
        return self.mkiter(self.filter_seq(s, lambda i: self.truth_term(self.call(f, [s.at(i)], {}) if f is not None else s.at(i))))
    def minlen(self, ss):
        n = ss[0].n
        for s in ss[1:]: n = lit(simplify(If(Z(s.n) < Z(n), Z(s.n), Z(n))))
        return n
    def b_zip(self, *its):
        if not its: return self.mkiter(Seq(0, None))
        ss = [self.seq(x) for x in its]
        return self.mkiter(Seq(self.minlen(ss), lambda i: tuple(s.at(i) for s in ss), sum((tuple(s.src) for s in ss), ())))
    def at_pure(self, i, n, fn):
        """The element at index i."""
        base = () if isinstance(i, int) else (And(0 <= i, i < Z(n)),)
        return self.pure(fn, base)
    def at_every(self, i, n, fn, none=None):
        """The element at index i, for every i in [0, n); none if there is no such i."""
        try: return self.pure(fn, (And(0 <= i, i < Z(n)),), over=i)
        except Cut: return none
    def b_iter(self, o, *a):
        if a: raise Unsupported("iter with sentinel")
        return self.iter(o)
    def b_next(self, o, *d):
        return self.next(o, *d)
    def next(self, o, *d):
        if self.isgen(o):
            ok, got = self.first_such(o, None)
            if ok: return got[-1]
            if d: return d[0]
            raise Raised(StopIteration)
        if not (isinstance(o, Obj) and o.cls is IterCls):
            return self.callmethod(o, "__next__", [])
        f = self.fields(o); s, pos = f["seq"], f["pos"]
        self.fresh_seq(s)
        if self.branch(Z(pos) < Z(s.n)):
            v = s.at(pos)
            self.setfield(o, "pos", lit(simplify(Z(pos) + 1)))
            return v
        if d: return d[0]
        raise Raised(StopIteration)
    def b_list(self, *a):
        if not a: return self.mklist([])
        if self.isgen(a[0]): return self.drain(a[0])
        return self.mklist_seq(self.seq(a[0]))
    def b_tuple(self, *a):
        if not a: return ()
        if isinstance(a[0], tuple): return a[0]
        return self.mktuple(self.seq(self.drain(a[0]) if self.isgen(a[0]) else a[0]))
    def mktuple(self, s):
        if isinstance(s.n, int): return tuple(s.at(i) for i in range(s.n))
        o = self.mklist_seq(s); l = self.fields(o)
        return self.alloc(TupleCls, {"#view": l["#view"]})
    def b_reversed(self, o):
        if isinstance(o, Obj) and o.cls not in (list,):
            return self.callmethod(o, "__reversed__", [])
        s = self.seq(o)
        return self.mkiter(Seq(s.n, lambda i: s.at(lit(simplify(Z(s.n) - 1 - Z(i)))), s.src))
    def first_such(self, it, test):
        """Runs a generator up to the first value that satisfies test: whether there is one, and that value."""
        got = []
        def each(v):
            if test is None or self.truth(test(v)): got.append(v); raise _Break()
        return not self.consume(it, each), got
    def b_all(self, it):
        if self.isgen(it): return not self.first_such(it, lambda v: self.neg(self.truth_term(v)))[0]
        s = self.seq(it)
        return self.neg(self.any_seq(Seq(s.n, lambda i: self.neg(self.truth_term(s.at(i))))))
    def b_any(self, it):
        if self.isgen(it): return self.first_such(it, self.truth_term)[0]
        return self.any_seq(self.seq(it))
    def b_sum(self, it, start=0):
        fr = Frame({"n": start}, None, {}, None)
        def one(v):
            if isinstance(v, z3.BoolRef): v = 1 if self.branch(v) else 0
            fr.vars["n"] = self.binop(ast.Add(), fr.vars["n"], v)
        self.frames.append(fr)
        try: self.each(it, one, fr, self.sumnode)
        finally: self.frames.remove(fr)
        return fr.vars["n"]
    sumnode = ast.Pass(lineno=0, col_offset=0)
    def any_seq(self, s):
        if isinstance(s.n, int) and s.n <= 4:
            return lit(simplify(Or(*[Z(self.truth_term(s.at(i))) for i in range(s.n)]))) if s.n else False
        i = fint("i")
        t = self.at_every(i, s.n, lambda: self.truth_term(s.at(i)))
        if t is None: return False
        b = fbool("any"); w = fint("w")
        body = And(0 <= i, i < Z(s.n), Z(t))
        # b is the disjunction: a witness when true, none when false
        self.assume(Implies(b, substitute(body, (i, w))))
        self.assume(Implies(Not(b), forall_int(i, Not(body))))
        return b
    def model_hash(self, o):
        if o.cls is TupleCls: return self.tuple_hash(self.view_seq(o))
        if o.cls is frozenset: return self.set_hash(self.view(o).mem)
        return None
    def tuple_hash(self, s):
        """hash of a tuple: a function of the equality classes of its elements."""
        p = self.path; a = self.array_of(s); n = Z(s.n); t = fint("tuplehash")
        if not hasattr(p, "thashes"): p.thashes = []
        for a2, n2, t2 in p.thashes:
            w = fint("w")
            self.assume(Or(n != n2, And(0 <= w, w < n, cls(Select(a, w)) != cls(Select(a2, w))), t == t2))
        p.thashes = p.thashes + [(a, n, t)]
        return t
    def set_hash(self, mem):
        """hash of a frozenset: a function of the equality classes of its members."""
        p = self.path; t = fint("sethash")
        if not hasattr(p, "shashes"): p.shashes = []
        for m2, t2 in p.shashes:
            w = fresh("w", Cls)
            self.assume(Or(Select(mem, w) != Select(m2, w), t == t2))
        p.shashes = p.shashes + [(mem, t)]
        return t
    def b_hash(self, o): return self.hash(o)
    def b_min(self, *a, **k): return self.minmax(a, lambda x, y: x <= y, k)
    def b_max(self, *a, **k): return self.minmax(a, lambda x, y: x >= y, k)
    def minmax(self, a, f, k):
        if k or len(a) < 2: raise Unsupported("min/max")
        xs = [self.asint(x) for x in a]
        r = xs[0]
        for x in xs[1:]: r = lit(simplify(If(f(Z(r), Z(x)), Z(r), Z(x))))
        return r
    def b_callable(self, o):
        if isinstance(o, (Closure, Bound, Model, type, types.FunctionType)): return True
        if isinstance(o, Obj): return self.hasattr_type(o.cls, "__call__")
        if is_val(o): return simplify(islazy(o))
        return callable(o)
    def b_getattr(self, o, name, *d):
        try: return self.getattr(o, name)
        except Raised as r:
            if d and issubclass(r.cls, AttributeError): return d[0]
            raise
    def b_hasattr(self, o, name):
        try: self.getattr(o, name); return True
        except Raised as r:
            if issubclass(r.cls, AttributeError): return False
            raise
    def b_chain(self, *its):
        ss = [self.seq(x) for x in its]
        r = ss[0]
        for s in ss[1:]: r = self.cat(r, s)
        return self.mkiter(r)
    def cat(self, a, b):
        n = lit(simplify(Z(a.n) + Z(b.n)))
        def at(i):
            def f():
                if self.branch(Z(i) < Z(a.n)): return a.at(i)
                return b.at(lit(simplify(Z(i) - Z(a.n))))
            return self.at_pure(i, n, f)
        return Seq(n, at, tuple(a.src) + tuple(b.src))
    def b_islice(self, it, *a):
        if len(a) == 1: a = (0, a[0])
        if len(a) != 2: raise Unsupported("islice")
        s = self.seq(it)
        lo, hi = (0 if a[0] is None else self.asint(a[0])), a[1]
        n = s.n if hi is None else lit(simplify(If(Z(self.asint(hi)) < Z(s.n), Z(self.asint(hi)), Z(s.n))))
        n = lit(simplify(If(Z(n) - Z(lo) > 0, Z(n) - Z(lo), 0)))
        return self.mkiter(Seq(n, lambda i: s.at(lit(simplify(Z(i) + Z(lo)))), s.src))
    def b_PHAMT(self, *a):
        if a: raise Unsupported("PHAMT(...)")
        return emptyphamt()
    def b_THAMT(self, *a):
        m = a[0] if a else emptyphamt()
        if isinstance(m, Obj) and m.cls is THAMT: m = self.tmap(m)
        if not isinstance(m, Phamt): raise Raised(TypeError)
        return self.alloc(THAMT, {"#map": m})
    def b_sorted(self, it, key=None, reverse=False):
        if self.isgen(it): it = self.drain(it)
        s = self.seq(it)
        return self.sorted_model(s, key, reverse)
    def sorted_model(self, s, key, reverse):
        """sorted is a function of the sequence, the key function and the flag."""
        p = self.path
        if not hasattr(p, "sorts"): p.sorts = []
        a = self.array_of(s); r = fresh("sorted", AV); n = Z(s.n); rev = Z(self.truth_term(reverse))
        for a2, r2, n2, key2, rev2 in p.sorts:
            if key2 is not key: continue
            w, k = fint("w"), fint("k")
            same = Or(n != n2, rev != rev2, And(0 <= w, w < n, Select(a, w) != Select(a2, w)))
            self.assume(Or(same, ForAll([k], Implies(And(0 <= k, k < n), Select(r, k) == Select(r2, k)), patterns=[Select(r, k), Select(r2, k)])))
        p.sorts = p.sorts + [(a, r, n, key, rev)]
        return self.alloc(list, {"#view": ListView(n, r)})
    def b_int(self, *a):
        if len(a) == 1 and is_intlike(a[0]): return a[0]
        if len(a) == 1: return self.asint(a[0])
        raise Unsupported("int()")
    def b_bool(self, o=False): return self.truth_term(o)
    def b_id(self, o): raise Unsupported("id")
    def b_partial(self, f, *a, **k):
        if isinstance(f, Obj) and f.cls is functools.partial:
            g = self.fields(f)
            return self.b_partial(g["func"], *(tuple(g["args"]) + a), **{**g["keywords"], **k})
        return self.alloc(functools.partial, {"func": f, "args": tuple(a), "keywords": dict(k)})
    # ---- locks ---------------------------------------------------------------------------------------------------------
    def b_RLock(self): return self.alloc(LockCls, {"depth": 0, "reentrant": True})
    def b_Lock(self): return self.alloc(LockCls, {"depth": 0, "reentrant": False})
    def lock_acquire(self, o, blocking=True, timeout=-1):
        if blocking is not True or timeout != -1: raise Unsupported("trying a lock")
        d = self.fields(o)["depth"]
        if d and not self.fields(o)["reentrant"]: raise Unsupported("a thread waits for a lock that it holds")
        self.fields(o)["depth"] = d + 1
        self.interfere(o)
        return True
    def lock_release(self, o):
        d = self.fields(o)["depth"]
        if d == 0: raise Raised(RuntimeError)
        self.releasing(o)
        self.fields(o)["depth"] = d - 1
    def lock_enter(self, o): return self.lock_acquire(o)
    def lock_exit(self, o, *a): self.lock_release(o)
    def interfere(self, o): pass
    def releasing(self, o): pass
    def b_slice(self, *a):
        a = {1: (None, a[0], None) if a else None, 2: tuple(a) + (None,), 3: tuple(a)}[len(a)]
        return Slice(*a)
    def b_set(self, *a):
        o = self.alloc(set, {"#view": self.empty_set()})
        if a and self.isgen(a[0]): a = [self.drain(a[0])]
        if a: self.set_update(o, a[0])
        return o
    def b_frozenset(self, *a):
        o = self.b_set(*a); return self.alloc(frozenset, {"#view": self.view(o)})
    def empty_set(self): return SetView(z3.K(Cls, BoolVal(False)))
    def empty_dict(self): return DictView(z3.K(Cls, BoolVal(False)), z3.K(Cls, vnone), z3.K(Cls, IntVal(0)), IntVal(0))
    def newdict(self, v=None):
        e = v or self.empty_dict(); self.cards(e.mem)
        return self.alloc(dict, {"#view": e})
    def newset(self, v=None):
        e = v or self.empty_set(); self.cards(e.mem)
        return self.alloc(set, {"#view": e})
    def b_dict(self, *a, **k):
        if not a and not k: return self.newdict()
        if k or len(a) != 1: raise Unsupported("dict()")
        x = a[0]; e = self.empty_dict()
        if isinstance(x, Obj) and x.cls is dict: return self.alloc(dict, {"#view": self.view(x)})
        if isinstance(x, Obj) and self.hasattr_type(x.cls, "keys"):
            s = self.seq(self.callmethod(x, "keys", []))
            return self.alloc(dict, {"#view": self.fold_put(e, s.n, s.at, lambda i: self.getitem(x, s.at(i)))})
        return self.newdict(self.pairs_into(e, self.seq(x)))
    def pairs_into(self, v, s):
        def part(i, j): return self.untuple(s.at(i), 2)[j]
        return self.fold_put(v, s.n, lambda i: part(i, 0), lambda i: part(i, 1))
    # ---- dict ------------------------------------------------------------------------------------------------------------
    def dict_len(self, o): return lit(self.view(o).n)
    def dict_iter(self, o): return self.mkiter(self.view_seq(o))
    def dict_keys(self, o): return self.mkiter(self.view_seq(o))
    def dict_values(self, o):
        s, v = self.view_seq(o), self.view(o)
        return self.mkiter(Seq(s.n, lambda i: Select(v.get, cls(s.at(i))), s.src))
    def dict_items(self, o):
        s, v = self.view_seq(o), self.view(o)
        return self.mkiter(Seq(s.n, lambda i: (s.at(i), Select(v.get, cls(s.at(i)))), s.src))
    def dict_contains(self, o, x): return lit(simplify(Select(self.view(o).mem, cls(self.toval(x)))))
    def dict_getitem(self, o, k):
        v, c = self.view(o), cls(self.toval(k))
        if not self.branch(Select(v.mem, c)): raise Raised(KeyError)
        return self.concretize(Select(v.get, c))
    def dict_get(self, o, k, d=None):
        v, c = self.view(o), cls(self.toval(k))
        return self.concretize(Select(v.get, c)) if self.branch(Select(v.mem, c)) else d
    def dict_setitem(self, o, k, x):
        v, c = self.view(o), cls(self.toval(k))
        self.setview(o, DictView(self.cadd(v.mem, c), Store(v.get, c, self.toval(x)), Store(v.ord, c, If(Select(v.mem, c), Select(v.ord, c), v.clk)), simplify(v.clk + 1)))
    def dict_delitem(self, o, k):
        v, c = self.view(o), cls(self.toval(k))
        if not self.branch(Select(v.mem, c)): raise Raised(KeyError)
        self.setview(o, DictView(self.cdel(v.mem, c), v.get, v.ord, v.clk))
    def dict_pop(self, o, k, *d):
        v, c = self.view(o), cls(self.toval(k))
        if not self.branch(Select(v.mem, c)):
            if d: return d[0]
            raise Raised(KeyError)
        self.setview(o, DictView(self.cdel(v.mem, c), v.get, v.ord, v.clk))
        return self.concretize(Select(v.get, c))
    def dict_setdefault(self, o, k, d=None):
        v, c = self.view(o), cls(self.toval(k))
        if self.branch(Select(v.mem, c)): return self.concretize(Select(v.get, c))
        self.dict_setitem(o, k, d); return d
    def dict_copy(self, o): return self.newdict(self.view(o))
    def dict_clear(self, o): self.setview(o, self.empty_dict())
    def dict_update(self, o, *a, **k):
        if len(a) > 1: raise Raised(TypeError)
        for x in a:
            x = self.b_dict(x); w = self.view(x); s = self.view_seq(x)
            self.setview(o, self.fold_put(self.view(o), s.n, s.at, lambda i: Select(w.get, cls(self.toval(s.at(i))))))
        for n, x in k.items(): self.dict_setitem(o, n, x)
    def dict_eq(self, a, b):
        if not (isinstance(b, Obj) and b.cls is dict): return NotImplemented
        from .vdict import same_dict
        f = lambda v: (v.mem, lambda c: Select(v.get, c))
        return same_dict(self, f(self.view(a)), f(self.view(b)))
    def dict_ne(self, a, b):
        r = self.dict_eq(a, b)
        return r if r is NotImplemented else self.neg(r)

    # ---- sequences -----------------------------------------------------------------------------------------------------
    def len(self, o):
        if isinstance(o, (tuple, str, dict)): return len(o)
        if isinstance(o, Phamt): return lit(o.n)
        if isinstance(o, Obj):
            if o.cls is IterCls: raise Raised(TypeError)
            c = self.contract_for(o, "__len__")
            if c is None and self.isview(o): return lit(self.view(o).n)
            r = self.callmethod(o, "__len__", [])
            return r
        if o is None or is_intlike(o) or isinstance(o, bool): raise Raised(TypeError)
        if is_val(o) and self.must(is_tup(o)): return 2         # tuples among the elements are pairs
        raise Unsupported(f"len of {o!r}")
    def mkiter(self, s): return self.alloc(IterCls, {"seq": s, "pos": 0})
    def iter(self, o):
        if isinstance(o, Maybe): o = self.unmaybe(o, "")
        if isinstance(o, Obj):
            if o.cls is IterCls: return o
            if o.cls is THAMT: return self.thamt_iter(o)
            if self.isgen(o): return self.ungen(o)
            if self.isview(o) and self.contract_for(o, "__iter__") is None:
                return self.mkiter(self.view_seq(o))
            r = self.callmethod(o, "__iter__", [])
            if isinstance(r, Obj) and r.cls is IterCls: return r
            if self.isgen(r): return self.ungen(r)
            raise Unsupported("iterator object")
        if isinstance(o, Phamt): return self.mkiter(self.phamt_seq(o))
        if isinstance(o, tuple):
            def at(i):
                if isinstance(i, int): return o[i]
                return self.merge([(Z(i) == k, x) for k, x in enumerate(o)])
            return self.mkiter(Seq(len(o), at))
        if isinstance(o, (dict, type({}.items()), type({}.keys()), type({}.values()))): return self.iter(tuple(o))
        if o is None or isinstance(o, (int, bool)) or is_symint(o) or is_symbool(o): raise Raised(TypeError)
        raise Unsupported(f"iter of {o!r}")
    def fresh_seq(self, s):
        """The collections behind a sequence have not changed since it was made."""
        from .loops import sameval
        for o, v in s.src:
            if not sameval(self.fields(o).get("#view"), v): raise Unsupported("iterating over a collection that has changed")
    def is_count(self, t, n, cond):
        """t is the number of j in [0, n) with cond(j): two such numbers are equal when the conditions agree."""
        p = self.path
        if not hasattr(p, "counts"): p.counts = []
        for t2, n2, c2 in p.counts:
            w = fint("w")
            self.assume(Or(Z(n) != Z(n2), And(0 <= w, w < Z(n), Z(cond(w)) != Z(c2(w))), t == t2))
        p.counts = p.counts + [(t, n, cond)]
    def view_seq(self, o):
        v = self.view(o)
        if isinstance(v, ListView): return Seq(lit(v.n), lambda i: Select(v.a, Z(i)), ((o, v),))
        if isinstance(v, (SetView, DictView)):
            el = self.enumview(v)
            return Seq(lit(v.n), lambda i: Select(el, Z(i)), ((o, v),))
        raise Unsupported("iteration")
    def enumview(self, v):
        """The members of a set view (in some order), or the keys of a dict view (oldest first): each class once."""
        p = self.path
        if not hasattr(p, "venums"): p.venums = []
        for v2, el in p.venums:
            if v2 is v or (type(v2) is type(v) and v2.mem.eq(v.mem) and (not isinstance(v, DictView) or v2.ord.eq(v.ord))): return el
        el = fresh("members", AV); rank = fresh("mrank", CI)
        i, c = fint("i"), fresh("c", Cls)
        e = Select(el, i)
        inr = And(0 <= i, i < v.n)
        self.assume(v.n >= 0)
        self.assume(ForAll([i], Implies(inr, And(Select(v.mem, cls(e)), Select(rank, cls(e)) == i)), patterns=[e]))
        r = Select(rank, c)
        self.assume(ForAll([c], Implies(Select(v.mem, c), And(0 <= r, r < v.n, cls(Select(el, r)) == c)),
                           patterns=[Select(v.mem, c), Select(rank, c)] if z3.is_const(v.mem) and v.mem.decl().kind() == z3.Z3_OP_UNINTERPRETED else [Select(rank, c)]))
        if isinstance(v, DictView):
            i2 = fint("i2")
            self.order_fact(ForAll([i, i2], Implies(And(0 <= i, i < i2, i2 < v.n), Select(v.ord, cls(e)) < Select(v.ord, cls(Select(el, i2)))), patterns=[z3.MultiPattern(e, Select(el, i2))]))
        p.venums.append((v, el))
        return el
    def seq(self, o):
        """The remaining elements of an iterable (a one-shot iterator is used up)."""
        it = self.iter(o)
        f = self.fields(it); s, pos = f["seq"], f["pos"]
        self.fresh_seq(s)
        self.setfield(it, "pos", s.n)
        if isinstance(pos, int) and pos == 0: return s
        n = lit(simplify(If(Z(s.n) - Z(pos) > 0, Z(s.n) - Z(pos), 0)))
        return Seq(n, lambda i: s.at(lit(simplify(Z(pos) + Z(i)))), s.src)
    def mklist(self, els): 
        a = fresh("lst", AV)
        for i, e in enumerate(els): a = Store(a, IntVal(i), self.toval(e))
        return self.alloc(list, {"#view": ListView(IntVal(len(els)), a)})
    def array_of(self, s):
        """A fresh array equal to the sequence on its index range."""
        a = fresh("arr", AV)
        if isinstance(s.n, int) and s.n <= 4:
            for i in range(s.n): a = Store(a, IntVal(i), self.toval(s.at(i)))
            return a
        i = fint("i")
        t = self.at_every(i, s.n, lambda: self.toval(s.at(i)))
        if t is None: return a
        self.assume(ForAll([i], Implies(And(0 <= i, i < Z(s.n)), Select(a, i) == t), patterns=[Select(a, i)] + reads_of(t, i)))
        return a
    def mklist_seq(self, s):
        return self.alloc(list, {"#view": ListView(Z(s.n), self.array_of(s))})
    def filter_seq(self, s, cond):
        """The elements satisfying cond, in order: the index array `src` is increasing and covers exactly them."""
        i, k, k2 = fint("i"), fint("k"), fint("k2")
        c = self.at_every(i, s.n, lambda: Z(cond(i)))
        if c is None: return Seq(0, None)
        n = fint("nfilter"); src = fresh("src", ArraySort(IntSort(), IntSort())); inv = fresh("inv", ArraySort(IntSort(), IntSort()))
        e = Select(src, k)
        self.assume(And(n >= 0, n <= Z(s.n)))
        self.assume(ForAll([k], Implies(And(0 <= k, k < n), And(0 <= e, e < Z(s.n), substitute(Z(c), (i, e)), Select(inv, e) == k)), patterns=[e]))
        self.assume(ForAll([k, k2], Implies(And(0 <= k, k < k2, k2 < n), e < Select(src, k2)), patterns=[z3.MultiPattern(e, Select(src, k2))]))
        self.assume(ForAll([i], Implies(And(0 <= i, i < Z(s.n), Z(c)), And(0 <= Select(inv, i), Select(inv, i) < n, Select(src, Select(inv, i)) == i)), patterns=[Select(inv, i)] + reads_of(Z(c), i)))
        return Seq(n, lambda j: s.at(Select(src, Z(j))), s.src)

    # ---- list ------------------------------------------------------------------------------------------------------------
    def list_len(self, o): return lit(self.view(o).n)
    def list_iter(self, o): return self.mkiter(self.view_seq(o))
    def list_append(self, o, v):
        l = self.view(o)
        x = self.toval(v); a = Store(l.a, l.n, x)
        self.setview(o, ListView(simplify(l.n + 1), a))
        if self.strings: self.grown(l.a, a, l.n, x)
    def list_pop(self, o, k=-1):
        l = self.view(o)
        if not isinstance(k, int) or k not in (-1, 0): raise Unsupported("list.pop of an inner index")
        if not self.branch(l.n > 0): raise Raised(IndexError)
        x = Select(l.a, l.n - 1 if k else 0)
        if k: self.setview(o, ListView(simplify(l.n - 1), l.a))
        else:
            a = fresh("popped", AV); i = fint("i")
            self.assume(ForAll([i], Select(a, i) == Select(l.a, i + 1), patterns=[Select(a, i)]))
            self.setview(o, ListView(simplify(l.n - 1), a))
        if self.strings and k: self.grown(l.a, l.a, simplify(l.n - 1), x)
        return self.concretize(simplify(x)) if not self.strings else simplify(x)
    def list_reversed(self, o):
        s = self.view_seq(o)
        return self.mkiter(Seq(s.n, lambda i: s.at(lit(simplify(Z(s.n) - 1 - Z(i)))), s.src))
    def list_sort(self, o, *a, key=None, reverse=False):
        if a: raise Raised(TypeError)
        self.setview(o, self.view(self.sorted_model(self.view_seq(o), key, reverse)))
    def list_reverse(self, o):
        s = self.view_seq(o)
        self.setview(o, ListView(Z(s.n), self.array_of(Seq(s.n, lambda i: s.at(lit(simplify(Z(s.n) - 1 - Z(i))))))))
    def list_clear(self, o): self.setview(o, ListView(IntVal(0), self.view(o).a))
    def list_copy(self, o): return self.mklist_seq(self.view_seq(o))
    def list_getitem(self, o, k):
        l = self.view(o)
        if isinstance(k, Slice):
            (a, b, c) = self.slice_indices(k, l.n)
            r = self.seq(self.b_range(a, b, c))
            return self.mklist_seq(Seq(r.n, lambda i: Select(l.a, Z(r.at(i)))))
        k = Z(self.asint(k))
        if not self.branch(And(-l.n <= k, k < l.n)): raise Raised(IndexError)
        return self.concretize(simplify(Select(l.a, If(k < 0, k + l.n, k))))
    def list_setitem(self, o, k, v):
        l = self.view(o); k = Z(self.asint(k))
        if not self.branch(And(-l.n <= k, k < l.n)): raise Raised(IndexError)
        self.setview(o, ListView(l.n, Store(l.a, If(k < 0, k + l.n, k), self.toval(v))))
    def list_extend(self, o, it):
        if self.isgen(it): return self.consume(it, lambda v: self.list_append(o, v)) and None
        l = self.view(o); s = self.seq(it)
        c = self.cat(Seq(l.n, lambda i: Select(l.a, Z(i))), s)
        self.setview(o, ListView(Z(c.n), self.array_of(c)))
    def list_contains(self, o, x):
        s = self.view_seq(o)
        return self.any_seq(Seq(s.n, lambda i: self.eq(s.at(i), x)))
    def list_eq(self, o, other):
        if not (isinstance(other, Obj) and other.cls is list): return NotImplemented
        a, b = self.view_seq(o), self.view_seq(other)
        if not self.branch(Z(a.n) == Z(b.n)): return False
        return self.neg(self.any_seq(Seq(a.n, lambda i: self.neg(self.eq(a.at(i), b.at(i))))))
    def list_ne(self, o, other):
        r = self.list_eq(o, other)
        return r if r is NotImplemented else self.neg(r)
    # ---- set -------------------------------------------------------------------------------------------------------------
    def set_len(self, o): return lit(self.view(o).n)
    def set_iter(self, o): return self.mkiter(self.view_seq(o))
    def set_contains(self, o, x): return lit(simplify(Select(self.view(o).mem, cls(self.toval(x)))))
    def set_add(self, o, x):
        s = self.view(o); c = cls(self.toval(x))
        self.setview(o, SetView(self.cadd(s.mem, c)))
    def set_discard(self, o, x):
        s = self.view(o); c = cls(self.toval(x))
        self.setview(o, SetView(self.cdel(s.mem, c)))
    def set_remove(self, o, x):
        s = self.view(o); c = cls(self.toval(x))
        if not self.branch(Select(s.mem, c)): raise Raised(KeyError)
        self.setview(o, SetView(self.cdel(s.mem, c)))
    def set_copy(self, o): return self.newset(self.view(o)) if o.cls is set else o
    def set_clear(self, o): self.setview(o, self.empty_set())
    def set_union(self, o, *its):
        v = self.view(o)
        for it in its: v = self.set_union_seq(v, self.seq(it))
        return self.alloc(o.cls, {"#view": v})
    def set_combined(self, o, it, f): return self.alloc(o.cls, {"#view": SetView(self.combine(f, self.view(o).mem, self.argmem(it)))})
    def set_intersection(self, o, it): return self.set_combined(o, it, lambda a, b: And(a, b))
    def set_difference(self, o, it): return self.set_combined(o, it, lambda a, b: And(a, Not(b)))
    def set_symmetric_difference(self, o, it): return self.set_combined(o, it, lambda a, b: a != b)
    def set_difference_update(self, o, it): self.setview(o, self.view(self.set_difference(o, it)))
    def set_intersection_update(self, o, it): self.setview(o, self.view(self.set_intersection(o, it)))
    def set_issuperset(self, o, it): return self.subset(self.argmem(it), self.view(o).mem)
    def set_issubset(self, o, it): return self.subset(self.view(o).mem, self.argmem(it))
    def set_isdisjoint(self, o, it): return self.disjoint(self.view(o).mem, self.argmem(it))
    def set_update(self, o, it):
        s = self.seq(it); v = self.view(o)
        self.setview(o, self.set_union_seq(v, s))
    def pair_classes(self):
        """Pairs are equal when their parts are: the class of a pair is a function of the classes of its parts."""
        if getattr(self.path, "pairs", False): return
        self.path.pairs = True
        a, b = fval("a"), fval("b")
        self.assume(ForAll([a, b], cls(vtup(a, b)) == pairc(cls(a), cls(b)), patterns=[vtup(a, b)]))
    def set_union_seq(self, v, s):
        """The set view of v with the elements of the sequence added."""
        mem = fresh("mem", CB); w = fresh("wit", CI)
        i, c = fint("i"), fresh("c", Cls)
        e = self.at_every(i, s.n, lambda: self.toval(s.at(i)))
        if e is None: return v
        if is_tup_term(e): e = Select(self.array_of(s), i); pats = [e]; self.pair_classes()
        else: pats = [cls(e)] if any(x.eq(i) for x in free_consts(e)) else []
        self.assume(ForAll([i], Implies(And(0 <= i, i < Z(s.n)), Select(mem, cls(e))), patterns=pats))
        self.assume(ForAll([c], Implies(Select(v.mem, c), Select(mem, c)), patterns=[Select(mem, c)]))
        wi = Select(w, c)
        self.assume(ForAll([c], Implies(And(Select(mem, c), Not(Select(v.mem, c))), And(0 <= wi, wi < Z(s.n), substitute(cls(e), (i, wi)) == c)), patterns=[Select(mem, c)]))
        self.cards(v.mem); self.cards(mem)
        return SetView(mem)

def is_tup_term(t): return z3.is_app(t) and t.num_args() == 2 and t.decl().eq(vtup)
LockCls = type("#lock", (object,), {})
TupleCls = type("#tuple", (object,), {})
BUILTINS = {object.__new__: "b_object_new", super: "b_super", len: "b_len", isinstance: "b_isinstance", issubclass: "b_issubclass", type: "b_type",
            range: "b_range", enumerate: "b_enumerate", map: "b_map", filter: "b_filter", zip: "b_zip", iter: "b_iter", next: "b_next", list: "b_list",
            tuple: "b_tuple", reversed: "b_reversed", all: "b_all", any: "b_any", hash: "b_hash", min: "b_min", max: "b_max", callable: "b_callable",
            getattr: "b_getattr", hasattr: "b_hasattr", itertools.chain: "b_chain", itertools.islice: "b_islice", PHAMT: "b_PHAMT", THAMT: "b_THAMT",
            sorted: "b_sorted", sum: "b_sum", int: "b_int", bool: "b_bool", str: "b_str", repr: "b_repr", id: "b_id", functools.partial: "b_partial", slice: "b_slice",
            set: "b_set", frozenset: "b_frozenset", dict: "b_dict", threading.Lock: "b_Lock"}
