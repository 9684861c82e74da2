"""A verification-condition generator for the Python of /repo.

It executes the AST of the real functions symbolically: every branch on a symbolic condition forks (paths are enumerated
by re-execution under a list of decisions), loops are cut by inductive invariants, and calls on abstract objects are
replaced by the contract of the callee.
"""
from .normal import normalize
import ast, builtins, inspect, itertools, os, sys, textwrap, time, types, functools
import z3
from .terms import *
from .terms import _n

class Unsupported(Exception):
    """The construct is out of the verifier's reach (never a verdict about the code)."""
class Cut(Exception):
    """The path ends here: it is infeasible or covered by an induction step."""
class Raised(Exception):
    """A Python exception of the program under verification."""
    def __init__(self, cls_, val=None): self.cls, self.val = cls_, val
    def __repr__(self): return f"raises {self.cls.__name__}"
class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass
class _Leave(Exception):
    """Leaves a generator from its consumer's code: by an exception, return or break of the consumer."""
    def __init__(self, token, why): self.token, self.why = token, why

class Obj:
    """A handle of a heap object: its state is in the current heap."""
    __slots__ = ("id", "cls")
    def __init__(self, id, cls): self.id, self.cls = id, cls
    def __repr__(self): return f"<{self.cls.__name__}#{self.id}>"
class Phamt:
    """An immutable PHAMT: domain, values and number of entries."""
    __slots__ = ("dom", "val", "n")
    def __init__(self, dom, val, n): self.dom, self.val, self.n = dom, val, n
class ListView:
    __slots__ = ("n", "a")
    def __init__(self, n, a): self.n, self.a = n, a
class SetView:
    """mem: the classes of the members; n: their number."""
    __slots__ = ("mem",)
    def __init__(self, mem): self.mem = mem
    @property
    def n(self): return card(self.mem)
class DictView:
    """mem: the classes of the keys; get: value by key class; ord: the age of a key (insertion order); clk: greater than every
    age; n: number of keys."""
    __slots__ = ("mem", "get", "ord", "clk")
    def __init__(self, mem, get, ord, clk): self.mem, self.get, self.ord, self.clk = mem, get, ord, clk
    @property
    def n(self): return card(self.mem)
class ValSet:
    """A set of values (ghost)."""
    __slots__ = ("a",)
    def __init__(self, a): self.a = a
PARTS = {ValSet: ("a",), Phamt: ("dom", "val", "n"), ListView: ("n", "a"), SetView: ("mem",), DictView: ("mem", "get", "ord", "clk")}
class Seq:
    """A finite sequence: a length and an element for each index; src: the collections it reads, with their states."""
    __slots__ = ("n", "at", "src")
    def __init__(self, n, at, src=()): self.n, self.at, self.src = n, at, src
class Closure:
    def __init__(self, node, frame, fn=None, defaults=(), kwdefaults=None): self.node, self.frame, self.fn, self.defaults, self.kwdefaults = node, frame, fn, defaults, kwdefaults or {}
class Bound:
    def __init__(self, self_, fn, name): self.self, self.fn, self.name = self_, fn, name
class Model:
    """A modelled builtin method bound to a receiver."""
    def __init__(self, f, name=""): self.f, self.name = f, name
class SuperProxy:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
class Slice:
    def __init__(self, a, b, c): self.a, self.b, self.c = a, b, c
class ExcVal:
    """An exception object; cause and context: what it was raised from, and what was being handled when it was raised."""
    def __init__(self, cls, args=()): self.cls, self.args, self.attrs, self.cause, self.context = cls, args, {}, None, None
class OpaqueStr:
    """A string whose text does not matter."""
class SymStr(OpaqueStr):
    """A string made of literal pieces and terms."""
    def __init__(self, pieces): self.pieces = list(pieces)
    def literal(self): return "\0".join(p for p in self.pieces if isinstance(p, str))
class Unbound: pass
UNBOUND = Unbound()
class TypeOf:
    """The type of an element."""
    def __init__(self, v): self.v = v
class Maybe:
    """A local that is bound only when cond holds."""
    def __init__(self, cond, val): self.cond, self.val = cond, val
class Frame:
    __slots__ = ("vars", "parent", "globals", "fn", "self", "defcls", "gen")
    def __init__(self, vars, parent, globals_, fn=None, defcls=None): self.vars, self.parent, self.globals, self.fn, self.defcls = vars, parent, globals_, fn, defcls
class GenericIterable:
    """Some iterable that is none of the collections known to the library."""

class Path:
    top = False
    """One path: its conditions (in a solver), decisions, heap and recorded events."""
    def __init__(self, eng, base=(), decisions=()):
        self.eng = eng
        self.pc = []; self.dec = list(decisions); self.pos = 0; self.alts = []
        self.heap = {}; self.kind = {}; self.objs = {}; self.events = []; self.writes = []; self.branched = []
        self.solver = eng.mksolver()
        for f in base: self.assume(f)
        self.base_len = len(self.pc)
    def assume(self, f):
        if f is True or (isz(f) and is_true(f)): return
        f = Z(f)
        self.pc.append(f); self.solver.add(f)

class Engine:
    def __init__(self, repo="/repo", timeout_ms=8000):
        self.repo = repo; self.timeout = timeout_ms
        self.path = None; self.frames = []; self.ids = itertools.count(1)
        self.goals = []           # (name, tag, formula, pc) collected by the current verification
        self.nchecks = 0; self.solver_s = 0.0
        self.contracts = {}       # (class, method name) -> spec function
        self.families = {}        # class -> family
        self.current = None       # (class, name) being verified: not replaced by its contract
        self.depth = 0
        self.lifted = {}
        self.lifted_state = {}
        self.used = set(); self.inlined = set()
        self.loop_notes = []
        self.gens = {}
        self.deadline = None
        self._asts = {}
        self.touched_files = set()

    # ---- solver --------------------------------------------------------------------------------------------
    def mksolver(self):
        s = z3.SimpleSolver()
        s.set("mbqi", False); s.set("auto_config", False)
        for k, v in getattr(self, "z3params", {}).items(): s.set(k, v)
        s.set("timeout", self.timeout)
        for f in self.axioms(): s.add(f)
        return s
    def axioms(self):
        if not hasattr(self, "_ax"):
            v = Const("v", Val)
            self._ax = [ForAll([v], Implies(cls(v) == cls(vnone), v == vnone), patterns=[cls(v)]),
                        ForAll([v], Implies(cls(v) == cls(vell), v == vell), patterns=[cls(v)]), card(z3.K(Cls, BoolVal(False))) == 0]
        return self._ax
    def check(self, *extra, timeout=None):
        if self.deadline and time.time() > self.deadline: raise Unsupported("time limit of the verification task")
        s = self.path.solver
        t = time.time(); self.nchecks += 1
        s.set("timeout", timeout or 1500)
        s.push()
        try:
            for f in extra: s.add(Z(f))
            return s.check()
        finally:
            s.pop(); self.solver_s += time.time() - t
    branch_ms = 120
    def feasible(self, f): return self.check(f, timeout=self.branch_ms) != z3.unsat
    def must(self, f, timeout=3000):
        """Does f hold on this path?"""
        if isinstance(f, bool): return f
        f = simplify(f)
        if is_true(f): return True
        return self.check(Not(f), timeout=timeout) == z3.unsat
    def branch(self, c):
        """The truth of c on this path; forks when both are possible."""
        c = lit(simplify(c) if isz(c) else c)
        if isinstance(c, bool): return c
        p = self.path
        if p.pos < len(p.dec):
            d = p.dec[p.pos]; p.pos += 1
            p.assume(c if d else Not(c)); p.branched.append(c if d else Not(c))
            return d
        t = self.feasible(c); f = self.feasible(Not(c)) if t else True
        if not t and self.check(timeout=self.branch_ms) == z3.unsat: raise Cut()
        d = t
        if t and f: p.alts.append(p.dec[:p.pos] + [False])
        p.dec.append(d); p.pos += 1
        p.assume(c if d else Not(c)); p.branched.append(c if d else Not(c))
        return d
    def assume(self, f): self.path.assume(f)
    def choose(self, k):
        """A nondeterministic choice among k alternatives."""
        for i in range(k - 1):
            if self.branch(fbool("choice")): return i
        return k - 1

    # ---- state -------------------------------------------------------------------------------------------------
    def snapshot(self):
        p = self.path
        return ({k: dict(v) for k, v in p.heap.items()}, dict(p.kind), [dict(f.vars) for f in self.frames], list(self.frames), list(p.events), list(p.writes))
    def restore(self, snap):
        p = self.path
        p.heap = {k: dict(v) for k, v in snap[0].items()}; p.kind = dict(snap[1])
        self.frames[:] = list(snap[3])
        for f, v in zip(self.frames, snap[2]): f.vars.clear(); f.vars.update(v)
        p.events = list(snap[4]); p.writes = list(snap[5])
    def explore(self, fn, base=(), limit=400):
        """Every path of fn from the current state: a list of (path, kind, value); the current state is kept."""
        outer = self.path; snap = self.snapshot(); depth = self.depth; cur = self.current
        work = [[]]; outs = []
        try:
            while work:
                dec = work.pop()
                p = Path(self, outer.pc if outer else (), dec)
                for f in base: p.assume(f)
                p.base_len = len(p.pc)
                self.path = p
                self.restore(snap); self.depth = depth; self.current = cur
                try:
                    try: v = fn(); outs.append((p, "ret", v))
                    except Raised as r: outs.append((p, "raise", r))
                    except _Return as r: outs.append((p, "return", r.v))
                    except _Break: outs.append((p, "break", None))
                    except _Continue: outs.append((p, "ret", None))
                    except _Leave as r: outs.append((p, "leave", r))
                    if outs: p.final = self.snapshot()
                except Cut:
                    pass
                except Unsupported:
                    if self.check(timeout=6000) != z3.unsat: raise
                work.extend(p.alts); p.alts = []
                if len(outs) > limit: raise Unsupported("too many paths")
        finally:
            self.path = outer; self.restore(snap); self.depth = depth; self.current = cur
        return outs
    def top(self, fn, limit=3000):
        """Every path of fn from an empty state; fn collects goals."""
        work = [[]]; n = 0; self.loop_cache = {}
        while work:
            dec = work.pop()
            self.path = Path(self, (), dec); self.frames = []; self.depth = 0
            self.path.top = True; _n.n = 0; self.ids = itertools.count(1)
            try: fn()
            except Cut: pass
            except Unsupported:
                if self.check(timeout=6000) != z3.unsat: raise
            n += 1
            if n > limit: raise Unsupported("too many paths")
            work.extend(self.path.alts)
        return n
    def alloc(self, cls_, fields=None, kind="new"):
        o = Obj(next(self.ids), cls_)
        self.path.heap[o.id] = dict(fields or {}); self.path.kind[o.id] = kind; self.path.objs[o.id] = o
        return o
    def fields(self, o): 
        h = self.path.heap
        if o.id not in h:
            if o.id in self.lifted_state:
                h[o.id] = dict(self.lifted_state[o.id]); self.path.kind[o.id] = "pre"
            else: raise Unsupported(f"unknown object {o}")
        return h[o.id]
    def setfield(self, o, k, v):
        self.fields(o)[k] = v
        if self.path.kind[o.id] == "pre": self.path.writes.append((o, k))
    def event(self, *e): self.path.events.append(e)

    # ---- pure evaluation -------------------------------------------------------------------------------------------
    def pure(self, fn, base=(), over=None):
        """The value of fn as one term: its paths are merged; events are kept, a change of state is not supported.  Constants made up
        on the way satisfy the condition of a path that is possible; if over is given (the index that the caller quantifies over),
        they are functions of it."""
        n0 = next(_n)
        outs = self.explore(fn, base)
        vals = []
        for p, kind, v in outs:
            if kind == "raise":
                if self.impossible(p): v.impossible = True; continue
                if self.may_raise: continue
                raise Unsupported(f"an element expression may raise {v.cls.__name__}")
            if kind not in ("ret", "return"): raise Unsupported("control flow in an element expression")
            self.unchanged(p)
            conds = p.pc[p.base_len:]
            vals.append((And(*conds) if conds else BoolVal(True), v))
            for ev in p.events[len(self.path.events):]: self.path.events.append(ev)
        if vals and self.may_raise and any(kind == "raise" and not hasattr(v, "impossible") for p, kind, v in outs): raise Unsupported("an element expression may raise")
        if not vals:
            r = [v for p, kind, v in outs if kind == "raise" and not hasattr(v, "impossible")]
            if self.may_raise and r and all(x.cls is r[0].cls for x in r): raise Raised(r[0].cls)
            raise Cut()
        r = self.merge(vals)
        if not self.madeup(r, n0): return r
        facts = Or(*[c for c, _ in vals])
        if over is None:
            self.assume(Implies(And(*base), facts)); return r
        sub = [(c, Select(fresh(str(c).split("!")[0] + "_at", ArraySort(IntSort(), c.sort())), over)) for c in self.madeup((r, facts), n0)]
        f = substitute(facts, *sub)
        self.assume(ForAll([over], Implies(And(*base), f), patterns=[t for _, t in sub]))
        return self.subst(r, sub)
    def madeup(self, v, n0):
        """The constants in v that are younger than n0."""
        from .loops import fresh_since
        out = {}
        def go(x):
            if isinstance(x, tuple):
                for y in x: go(y)
            elif isz(x):
                for c in free_consts(x):
                    if fresh_since(c, n0): out[c.get_id()] = c
            elif isinstance(x, (Obj, Seq)): raise Unsupported("an element expression makes an object")
        go(v)
        return sorted(out.values(), key=str)
    def subst(self, v, sub):
        if isinstance(v, tuple): return tuple(self.subst(x, sub) for x in v)
        return lit(simplify(substitute(v, *sub))) if isz(v) else v
    def unchanged(self, p):
        """The path p of an element expression changes no state of its surroundings."""
        from .loops import sameval
        heap, _, vars_, frames = p.final[:4]
        for o, h in self.path.heap.items():
            g = heap.get(o)
            if g is None or any(k not in g or not (g[k] is x or sameval(g[k], x)) for k, x in h.items()) or len(g) != len(h): raise Unsupported("an element expression changes state")
        for f, w in zip(self.frames, vars_):
            if any(k not in w or not (w[k] is x or sameval(w[k], x)) for k, x in f.vars.items()) or len(w) != len(f.vars): raise Unsupported("an element expression changes state")
    may_raise = False       # is an element expression that always raises let raise?
    def impossible(self, p):
        outer = self.path; self.path = p
        try: return self.check(timeout=6000) == z3.unsat
        finally: self.path = outer
    def merge(self, vals):
        first = vals[0][1]
        if len(vals) == 1: return first
        if all(isinstance(v, tuple) and isinstance(first, tuple) and len(v) == len(first) for _, v in vals):
            return tuple(self.merge([(c, v[i]) for c, v in vals]) for i in range(len(first)))
        if all(v is first for _, v in vals): return first
        if all(isinstance(v, (bool, z3.BoolRef)) for _, v in vals): ts = [(c, Z(v)) for c, v in vals]
        elif all(is_intlike(v) for _, v in vals): ts = [(c, Z(v)) for c, v in vals]
        else: ts = [(c, self.toval(v)) for c, v in vals]
        r = ts[-1][1]
        for c, t in reversed(ts[:-1]): r = If(c, t, r)
        return lit(simplify(r))

    # ---- values ---------------------------------------------------------------------------------------------------------
    def toval(self, v):
        if isinstance(v, str):
            self.strs = getattr(self, "strs", {})
            if v not in self.strs: self.strs[v] = vobj(Const(f"str#{v}", U))
            return self.strs[v]
        if v is None: return vnone
        if v is Ellipsis: return vell
        if isinstance(v, bool): return vbool(BoolVal(v))
        if isinstance(v, int): return vint(IntVal(v))
        if is_symint(v): return vint(v)
        if is_symbool(v): return vbool(v)
        if is_val(v): return v
        if isinstance(v, SymStr) and self.strings: return self.strterm(v)
        if isinstance(v, tuple) and len(v) == 2: return vtup(self.toval(v[0]), self.toval(v[1]))
        if isinstance(v, Obj) and v.id in getattr(self, "objval", {}): return self.objval[v.id]
        raise Unsupported(f"storing {type(v).__name__} {v!r} as an element")
    def asint(self, v, what=TypeError):
        """An integer from a value used as one."""
        if isinstance(v, bool): return int(v)
        if is_intlike(v): return v
        if is_symbool(v): return If(v, IntVal(1), IntVal(0))
        if is_val(v):
            if self.branch(is_int(v)): return lit(simplify(vi(v)))
            raise Raised(what)
        raise Raised(what)
    def same(self, a, b):
        """a is b"""
        if isinstance(a, Maybe) or isinstance(b, Maybe): raise Unsupported("maybe")
        if isinstance(a, TypeOf) or isinstance(b, TypeOf): return self.sametype(a, b)
        if is_val(a) or is_val(b):
            try: return lit(simplify(self.toval(a) == self.toval(b)))
            except Unsupported: return False
        if isz(a) or isz(b):
            if is_intlike(a) and is_intlike(b): return lit(simplify(Z(a) == Z(b)))
            if is_symbool(a) and isinstance(b, bool) or is_symbool(b) and isinstance(a, bool) or (is_symbool(a) and is_symbool(b)): return lit(simplify(Z(a) == Z(b)))
            return False
        if isinstance(a, Obj) and isinstance(b, Obj): return a.id == b.id
        if isinstance(a, int) and isinstance(b, int): return type(a) is type(b) and a == b
        return a is b
    def sametype(self, a, b):
        """Of the type of an element only its kind is known, and that an object of a type is an instance of it."""
        if not isinstance(a, TypeOf): a, b = b, a
        if isinstance(b, TypeOf): return lit(simplify(typeof_u(a.v) == typeof_u(b.v)))
        if not isinstance(b, type): return False
        r = fbool("type"); i = self.b_isinstance(a.v, b)
        if b in (int, bool, tuple, type(None)):
            k = {int: is_int, bool: is_bool, tuple: is_tup, type(None): is_none}[b]
            return lit(simplify(k(a.v)))
        self.assume(Implies(r, Z(i))); return r
    def identical(self, a, b):
        """a is b, in the code"""
        if is_intlike(a) and is_intlike(b): return self.sameint(True, Z(a), Z(b))
        for x, y in ((a, b), (b, a)):
            if is_val(x) and is_intlike(y): return self.sameint(is_int(x), vi(x), Z(y))
        return self.same(a, b)
    def sameint(self, isint, a, b):
        """Identity of integers: equal ones are the same object when they are small, and otherwise perhaps."""
        e = simplify(And(isint, a == b) if isz(isint) else a == b)
        if is_false(e) or self.must(Not(e)): return False
        small = simplify(And(-5 <= a, a <= 256))
        if is_true(small) or self.must(Implies(e, small)): return lit(e)
        r = fbool("is"); self.assume(And(Implies(r, e), Implies(And(e, small), r)))
        return r
    def eq(self, a, b):
        """a == b"""
        if isinstance(a, TypeOf) or isinstance(b, TypeOf): return self.sametype(a, b)
        if is_intlike(a) and is_intlike(b): return lit(simplify(Z(a) == Z(b)))
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)): return lit(simplify(Z(a) == Z(b)))
        for x, y in ((a, b), (b, a)):
            if is_val(x) and (y is None or y is Ellipsis): return lit(simplify(x == self.toval(y)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return lit(simplify(And(*[Z(self.eq(x, y)) for x, y in zip(a, b)]))) if a else True
        if isinstance(a, Obj) or isinstance(b, Obj): return self.rich("__eq__", "__eq__", a, b)
        if is_val(a) or is_val(b):
            if is_val(a) and is_intlike(b) or is_val(b) and is_intlike(a):
                a_, b_ = self.toval(a), self.toval(b)
                if self.branch(And(is_int(a_), is_int(b_))): return lit(simplify(vi(a_) == vi(b_)))
                raise Unsupported("comparing an element with an integer")
            return lit(simplify(cls(self.toval(a)) == cls(self.toval(b))))
        if a is None or b is None or a is Ellipsis or b is Ellipsis or a is NotImplemented or b is NotImplemented: return a is b
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr): raise Unsupported("comparing strings")
        if isinstance(a, type) or isinstance(b, type): return a is b
        if isz(a) or isz(b): raise Unsupported(f"== on {a!r}, {b!r}")
        return a == b
    def rich(self, op, rop, a, b):
        if isinstance(a, Obj):
            r = self.callmethod(a, op, [b], missing=NotImplemented)
            if r is not NotImplemented: return r
        if isinstance(b, Obj):
            r = self.callmethod(b, rop, [a], missing=NotImplemented)
            if r is not NotImplemented: return r
        if op in ("__eq__", "__ne__"):
            r = self.same(a, b)
            return r if op == "__eq__" else self.neg(r)
        raise Raised(TypeError)
    def neg(self, b):
        b = self.truth_term(b)
        return (not b) if isinstance(b, bool) else lit(simplify(Not(b)))
    def truth_term(self, v):
        """The truth of v as a bool or a term."""
        if isinstance(v, bool): return v
        if is_symbool(v): return v
        if v is None: return False
        if isinstance(v, int): return v != 0
        if is_symint(v): return lit(simplify(v != 0))
        if isinstance(v, (tuple, str, dict)): return len(v) > 0
        if v is Ellipsis or v is NotImplemented: return True
        if isinstance(v, Obj):
            if self.hasattr_type(v.cls, "__bool__"): return self.truth_term(self.callmethod(v, "__bool__", []))
            if self.hasattr_type(v.cls, "__len__") or self.isview(v): return self.truth_term(self.len(v))
            return True
        if is_val(v):
            v = self.concretize(v)
            if not is_val(v): return self.truth_term(v)
            truthy = z3.Function("truthy", U, z3.BoolSort())      # the truth of an object that is an element: fixed, otherwise anything
            return simplify(z3.If(is_none(v), False, z3.If(is_int(v), vi(v) != 0, z3.If(is_bool(v), vb(v), z3.If(is_obj(v), truthy(vu(v)), True)))))
        return bool(v)
    def truth(self, v): return self.branch(self.truth_term(v))
    def concretize(self, v):
        """None, Ellipsis, int or bool from a value known to be one."""
        s = simplify(v)
        if s.eq(vnone): return None
        if s.eq(vell): return Ellipsis
        if z3.is_app(s) and s.num_args() == 1:
            if s.decl().eq(vint): return lit(s.arg(0))
            if s.decl().eq(vbool): return lit(s.arg(0))
        if z3.is_app(s) and s.num_args() == 2 and s.decl().eq(vtup): return (self.concretize(s.arg(0)), self.concretize(s.arg(1)))
        return s
    def hash(self, v):
        if is_val(v) : return H(cls(v))
        if isinstance(v, str): return H(cls(self.toval(v)))
        if isinstance(v, Obj):
            m = self.model_hash(v)
            return m if m is not None else self.callmethod(v, "__hash__", [])
        if isinstance(v, tuple): return self.tuple_hash(Seq(len(v), lambda i: v[i]))
        raise Unsupported(f"hash of {v!r}")
    def untuple(self, v, n):
        """The n components of a value being unpacked."""
        if isinstance(v, tuple):
            if len(v) != n: raise Raised(ValueError)
            return list(v)
        if is_val(v):
            c = self.concretize(v)
            if isinstance(c, tuple): return self.untuple(c, n)
            if n != 2: raise Unsupported("unpacking an element in other than two parts")
            if self.branch(is_tup(v)): return [self.concretize(simplify(fst(v))), self.concretize(simplify(snd(v)))]
            raise Raised(TypeError)
        if isinstance(v, Obj):
            s = self.seq(v)
            if self.branch(Z(s.n) == n): return [s.at(i) for i in range(n)]
            raise Raised(ValueError)
        raise Raised(TypeError)

    # ---- views of abstract objects -----------------------------------------------------------------------------------------
    def isview(self, o): return isinstance(o, Obj) and "#view" in self.fields(o)
    def view(self, o): return self.fields(o)["#view"]
    def new(self, cls_, view, **extra): return self.alloc(cls_, dict({"#view": view}, **extra))
    def setview(self, o, v): self.setfield(o, "#view", v)

    # ---- source --------------------------------------------------------------------------------------------------------------
    def node_of(self, fn):
        code = fn.__code__
        key = (code.co_filename, code.co_firstlineno, code.co_name)
        if key in self._asts: return self._asts[key]
        fname = code.co_filename
        if fname.startswith("<frozen "):
            import importlib
            fname = inspect.getsourcefile(fn) or fname
            if fname.startswith("<"): fname = os.path.join(os.path.dirname(os.__file__), fname[len("<frozen "):-1].lstrip(".") + ".py")
        tree = self._asts.get(fname)
        if tree is None:
            tree = normalize(ast.parse(open(fname).read())); self._asts[fname] = tree
        self.touched_files.add(fname)
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                first = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])])
                if first == code.co_firstlineno and (n.name if isinstance(n, ast.FunctionDef) else "<lambda>") == code.co_name:
                    self._asts[key] = n
                    return n
        raise Unsupported(f"no source for {fn.__qualname__}")
    def mine(self, fn):
        """Is fn a Python function whose source is to be executed (the repository's, or collections.abc)?"""
        if not isinstance(fn, types.FunctionType): return False
        f = fn.__code__.co_filename
        return f.startswith(self.repo + os.sep) or f.endswith("_collections_abc.py") or f == "<frozen _collections_abc>"

    # ---- attribute access --------------------------------------------------------------------------------------------------------
    def lookup_type(self, cls_, name, after=None):
        mro = cls_.__mro__
        if after is not None: mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.__dict__: return k.__dict__[name], k
        return None, None
    def hasattr_type(self, cls_, name): return self.lookup_type(cls_, name)[0] is not None
    def lift(self, real):
        """A real object found in a class or module namespace, as an engine value."""
        if real is None or isinstance(real, (bool, int, str, type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType, tuple)) or real in (NotImplemented, Ellipsis): return real
        r = self.lift_special(real)
        return r if r is not None else real
    def getattr(self, o, name):
        if isinstance(o, Maybe): o = self.unmaybe(o, name)
        if isinstance(o, Obj):
            f = self.fields(o)
            if name == "__class__": return o.cls
            if "#shared" in f and name in f: return self.shared_get(o, name)
            m = self.model_attr(o, name)
            if m is not None: return m
            a, k = self.lookup_type(o.cls, name)
            if a is not None and isinstance(a, property): return self.call(a.fget, [o], {})
            if a is not None and not isinstance(a, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                if name in f and not name.startswith("#"): return f[name]
                return self.bind(a, o, o.cls, name)
            if name in f:
                v = f[name]
                return self.lift(v) if not isinstance(v, (Obj, Phamt)) and not isz(v) else v
            if self.isview(o) and (name.startswith("_") and not name.startswith("__")):
                fam = self.families.get(o.cls)
                if fam is not None and (a is None or isinstance(a, types.MemberDescriptorType)):
                    u = self.unfold(fam, o)
                    if name in u:
                        if isinstance(u[name], types.FunctionType): u[name] = u[name]()       # decided when it is read
                        return u[name]
                raise Unsupported(f"representation field {name} of an abstract {o.cls.__name__}")
            raise Raised(AttributeError)
        if isinstance(o, Phamt): return self.phamt_attr(o, name)
        if isinstance(o, SuperProxy):
            start = o.obj if isinstance(o.obj, type) else o.obj.cls
            a, k = self.lookup_type(start, name, after=o.cls)
            if a is None: raise Raised(AttributeError)
            if isinstance(o.obj, type) and name != "__new__": 
                if isinstance(a, (types.FunctionType, types.WrapperDescriptorType)): return a
            return self.bind(a, o.obj, start, name)
        if isinstance(o, type):
            m = self.model_classattr(o, name)
            if m is not None: return m
            try: a, k = self.lookup_type(o, name)
            except TypeError: a = None
            if a is None:
                if name in ("__name__", "__qualname__"): return OpaqueStr()
                try: return self.lift(getattr(o, name))
                except AttributeError: raise Raised(AttributeError)
            if isinstance(a, classmethod): return Bound(o, a.__func__, name)
            if isinstance(a, staticmethod): return a.__func__
            return self.lift(a)
        if isinstance(o, types.ModuleType):
            try: return self.lift(getattr(o, name))
            except AttributeError: raise Raised(AttributeError)
        if isinstance(o, Slice): return self.slice_attr(o, name)
        if isinstance(o, (dict,)) and name in ("items", "keys", "values", "get"): return getattr(o, name)
        if name == "__class__" and isinstance(o, (dict, tuple, str, int)): return type(o)
        if isinstance(o, OpaqueStr): return Model(lambda *a, **k: OpaqueStr(), name)
        if isinstance(o, ExcVal):
            if name in o.attrs: return o.attrs[name]
            if name == "__class__": return o.cls
            if name == "__cause__": return o.cause
            if name == "__context__": return o.context
            a, k = self.lookup_type(o.cls, name)
            if self.mine(a): return Bound(o, a, name)
            raise Unsupported(f"attribute {name} of an exception")
        if is_val(o): return self.val_attr(o, name)
        if isinstance(o, (types.FunctionType, Closure, Bound, Model)) and name in ("__name__", "__qualname__"): return OpaqueStr()
        if isinstance(o, str) and name == "join": return Model(lambda it: self.join(o, it), name)
        if isinstance(o, (str, int, bool, tuple)) and hasattr(o, name): return getattr(o, name)
        if o is None or isinstance(o, (int, bool, tuple)) or is_symint(o): raise Raised(AttributeError)
        raise Unsupported(f"attribute {name} of {o!r}")
    def val_attr(self, o, name):
        raise Unsupported(f"attribute {name} of an element")
    def bind(self, a, obj, cls_, name):
        if isinstance(a, classmethod): return Bound(cls_, a.__func__, name)
        if isinstance(a, staticmethod): return a.__func__
        if name == "__new__": return a
        if isinstance(a, types.FunctionType): return Bound(obj, a, name)
        if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType)): return Bound(obj, a, name)
        return self.lift(a)
    # An abstract object stands for a concrete one that satisfies the invariant of its class and has this view. Reading a field of
    # its representation brings such a concrete state into being (unfolding); it is for reading only. A new concrete object becomes
    # abstract (folding) when its view is known: its maps are empty, or those of an unfolded object.
    def unfold(self, fam, o):
        v = self.view(o); p = self.path
        if not hasattr(p, "unfolds"): p.unfolds = []
        for o2, v2, u, key in p.unfolds:
            if o2 == o.id and v2 is v: return u
        u, key = fam.unfold(self, o, v)
        p.unfolds = p.unfolds + [(o.id, v, u, key)]
        return u
    def fold(self, o):
        fam = self.families.get(o.cls)
        if fam is None or self.isview(o) or self.path.kind.get(o.id) != "new": return False
        for n, x in self.fields(o).items():
            if isinstance(x, Obj) and x.cls.__name__ == "THAMT" and (self.path.kind.get(x.id) != "new" or "#ro" in self.fields(x)): return False
        v = fam.fold(self, o)
        if v is None: return False
        self.path.heap[o.id] = {"#view": v}
        return True
    def fold_all(self):
        for oid in list(self.path.heap):
            if self.path.kind.get(oid) == "new" and self.path.objs.get(oid) is not None: self.fold(self.path.objs[oid])
    def setattr(self, o, name, v):
        if isinstance(o, ExcVal) and name not in ("args", "__cause__", "__context__", "__traceback__"):
            o.attrs[name] = v; return
        if not isinstance(o, Obj): raise Unsupported("setattr")
        a, k = self.lookup_type(o.cls, "__setattr__")
        if k is object or a is None: return self.rawset(o, name, v)
        self.callmethod(o, "__setattr__", [name, v])
    def delattr(self, o, name):
        if not isinstance(o, Obj): raise Unsupported("del of an attribute")
        a, k = self.lookup_type(o.cls, "__delattr__")
        if k is object or a is None: raise Unsupported("del of an attribute")
        self.callmethod(o, "__delattr__", [name])
    def rawset(self, o, name, v):
        if "#shared" in self.fields(o): return self.shared_set(o, name, v)
        if self.isview(o) and name not in self.fields(o): raise Unsupported(f"writing field {name} of an abstract {o.cls.__name__}")
        self.setfield(o, name, v)

    # ---- calls -------------------------------------------------------------------------------------------------------------------------
    def contract_for(self, obj, name):
        if isinstance(obj, Obj) and obj.cls in self.families and (obj.cls, name) in self.contracts and not self.isview(obj): self.fold(obj)
        if isinstance(obj, Obj) and self.isview(obj):
            key = (obj.cls, name)
            if key in self.contracts and (self.current != key or self.depth > 1): return self.contracts[key]
        return None
    def callmethod(self, o, name, args, kw=None, missing=None):
        """type(o).name(o, *args)"""
        c = self.contract_for(o, name)
        if c is not None: return self.apply(c, (o.cls, name), o, args, kw or {})
        m = self.model_attr(o, name)
        if m is not None: return self.call(m, args, kw or {})
        a, k = self.lookup_type(o.cls, name)
        if a is None or (a in (object.__eq__, object.__ne__, object.__lt__, object.__le__, object.__gt__, object.__ge__)):
            if name == "__ne__" and a is object.__ne__:
                r = self.callmethod(o, "__eq__", args, missing=NotImplemented)
                return r if r is NotImplemented else self.neg(r)
            if missing is not None: return missing
            raise Raised(TypeError)
        return self.call(self.bind(a, o, o.cls, name), args, kw or {})
    def apply(self, spec, key, o, args, kw):
        self.used.add((key[0].__name__, key[1]))
        n = getattr(spec, "bind", None)
        if kw and not getattr(spec, "varkw", False):
            args = self.bindkw(key, o, args, kw); kw = {}
        return spec(self, o, *args, **kw)
    def bindkw(self, key, o, args, kw):
        a, k = self.lookup_type(o.cls, key[1])
        node = self.node_of(a)
        names = [x.arg for x in node.args.args][1:]
        out = list(args)
        for nme in names[len(args):]:
            if nme in kw: out.append(kw.pop(nme))
            else: out.append(self.lift(a.__defaults__[names.index(nme) - len(names)]))
        if kw: raise Unsupported("keyword arguments of a contract")
        return out
    def call(self, f, args, kw):
        if isinstance(f, Maybe): f = self.unmaybe(f, "")
        args = list(args)
        if isinstance(f, Model): return f.f(*args, **kw)
        if isinstance(f, Closure): return self.run_closure(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.self, Obj):
                c = self.contract_for(f.self, f.name)
                if c is not None: return self.apply(c, (f.self.cls, f.name), f.self, args, dict(kw))
            if isinstance(f.fn, types.FunctionType): return self.call(f.fn, [f.self] + args, kw)
            return self.call_slot(f.fn, f.self, args, kw)
        if isinstance(f, types.FunctionType):
            m = self.function_model(f)
            if m is not None: return m(*args, **kw)
            # an unbound method called with an abstract receiver: C.m(self, ...)
            if args and isinstance(args[0], Obj) and self.isview(args[0]):
                c = self.unbound_contract(f, args[0])
                if c is not None: return c(self, args[0], *args[1:])
            if self.mine(f): return self.run_function(f, args, kw)
            raise Unsupported(f"call of {f.__module__}.{f.__qualname__}")
        m = self.builtin_model(f)
        if m is not None: return m(*args, **kw)
        if isinstance(f, type): return self.instantiate(f, args, kw)
        if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)) and args: return self.call_slot(f, args[0], args[1:], kw)
        if is_val(f): return self.call_val(f, args, kw)
        if isinstance(f, Obj): return self.callmethod(f, "__call__", args, kw)
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, dict): return f(*args)
        if f is None or isinstance(f, (int, tuple, bool)): raise Raised(TypeError)
        raise Unsupported(f"call of {f!r}")
    def unbound_contract(self, f, o): return None
    def instantiate(self, c, args, kw):
        if issubclass(c, BaseException):
            e = ExcVal(c, tuple(args)); init, k = self.lookup_type(c, "__init__")
            if self.mine(init): self.call(init, [e] + list(args), kw)
            return e
        key = (c, "__new__")
        if key in self.contracts and (self.current != key or self.depth > 0):
            sp = self.contracts[key]
            for a in args:
                if isinstance(a, Obj) and a.cls in self.families: self.fold(a)
            if all(not isinstance(a, Obj) or self.isview(a) or a.cls.__name__ == "#iter" or a.cls is GenericIterable for a in args):
                self.used.add((c.__name__, "__new__" + ("(**)" if kw else "")))
                return sp(self, c, *args, **kw)
        new, k = self.lookup_type(c, "__new__")
        if isinstance(new, staticmethod): new = new.__func__
        o = self.call(new, [c] + list(args), kw) if k is not object else self.alloc(c)
        if isinstance(o, Obj) and issubclass(o.cls, c):
            init, k = self.lookup_type(o.cls, "__init__")
            if k is not object and k is not None and isinstance(init, types.FunctionType) and self.init_runs(o, init): self.call(init, [o] + list(args), kw)
        return o
    def init_runs(self, o, init): return True

    # ---- running functions ---------------------------------------------------------------------------------------------------------------
    def run_function(self, f, args, kw):
        node = self.node_of(f)
        self.inlined.add(f.__qualname__)
        closure = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try: closure[n] = self.lift(c.cell_contents)
                except ValueError: pass
        parent = Frame(closure, None, f.__globals__) if closure else None
        kwd = {k: self.lift(v) for k, v in (f.__kwdefaults__ or {}).items()}
        return self.run_node(node, parent, f.__globals__, [self.lift(d) for d in (f.__defaults__ or ())], kwd, args, kw, f)
    def run_closure(self, c, args, kw): return self.run_node(c.node, c.frame, c.frame.globals, c.defaults, c.kwdefaults, args, kw, c.fn)
    def run_node(self, node, parent, globals_, defaults, kwdefaults, args, kw, fn):
        self.depth += 1
        if self.depth > 40: raise Unsupported("recursion")
        fr = Frame({}, parent, globals_, fn)
        try:
            self.bind_args(node.args, fr, args, dict(kw), defaults, kwdefaults)
            self.frames.append(fr)
            if isinstance(node, ast.Lambda): return self.ev(node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)): return self.generator(node, fr)
            try:
                self.body(node.body, fr)
            except _Return as r:
                return r.v
            return None
        finally:
            if self.frames and self.frames[-1] is fr: self.frames.pop()
            elif fr in self.frames: self.frames.remove(fr)
            self.depth -= 1
    def generator(self, node, fr):
        """A generator function of one of the forms  yield from X  and  for T in X: yield E."""
        b = [x for x in node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(b) == 1 and self.yields(b[0]) and not isinstance(b[0], ast.If): return self.mkiter(self.yielded(b[0], fr))
        return self.mkgen(node, fr)
    def yields(self, b):
        """A statement  yield E,  yield from X,  for T in X: yield E,  or a choice between such."""
        if isinstance(b, ast.Expr): return isinstance(b.value, (ast.Yield, ast.YieldFrom)) and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(b.value) if n is not b.value)
        if isinstance(b, ast.For): return not b.orelse and len(b.body) == 1 and isinstance(b.body[0], ast.Expr) and isinstance(b.body[0].value, ast.Yield)
        return isinstance(b, ast.If) and self.straight(b.body) and self.straight(b.orelse)
    def straight(self, body):
        """Assignments, then such statements."""
        k = 0
        while k < len(body) and isinstance(body[k], (ast.Assign, ast.Pass)) and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(body[k])): k += 1
        return all(self.yields(b) for b in body[k:])
    def yielded(self, b, fr):
        """The elements such a statement yields."""
        if isinstance(b, ast.If): return self.yielded_all(b.body if self.truth(self.ev(b.test, fr)) else b.orelse, fr)
        if isinstance(b, ast.Expr):
            if isinstance(b.value, ast.YieldFrom): return self.seq(self.ev(b.value.value, fr))
            v = self.ev(b.value.value, fr) if b.value.value is not None else None
            return self.seq((v,))
        src = self.seq(self.ev(b.iter, fr)); target, elt = b.target, b.body[0].value.value
        def at(i):
            f2 = Frame({}, fr, fr.globals, None)
            self.frames.append(f2)
            try:
                self.assign(target, src.at(i), f2)
                return self.ev(elt, f2)
            finally: self.frames.remove(f2)
        return Seq(src.n, at, src.src)
    def yielded_all(self, body, fr):
        r = None
        for b in body:
            if not self.yields(b): self.st(b, fr); continue
            s = self.yielded(b, fr)
            r = s if r is None else self.cat(r, s)
        return r if r is not None else self.seq(())
    def ungen(self, o):
        """An iterator over what the generator o yields, when its body is straight: run where the iterator is made."""
        node, fr = self.gens[o.id]
        b = [x for x in node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if self.fields(o)["started"] is not False or not self.straight(b): raise Unsupported("generator function")
        self.setfield(o, "started", True)
        self.frames.append(fr)
        try: return self.mkiter(self.yielded_all(b, fr))
        finally: self.frames.remove(fr)
    def mkgen(self, node, fr):
        """A generator that is consumed where it is made: its body runs with the consumer's code in place of its yields."""
        own = [n for n in ast.walk(node)]
        if any(isinstance(n, (ast.Try, ast.With, ast.FunctionDef, ast.Lambda, ast.Nonlocal, ast.Global)) for n in own if n is not node): raise Unsupported("generator function")
        o = self.alloc(types.GeneratorType, {"started": False})
        self.gens[o.id] = (node, fr)
        return o
    def isgen(self, o): return isinstance(o, Obj) and o.cls is types.GeneratorType
    def consume(self, o, each):
        """Runs the generator o, each(v) for every v it yields."""
        if self.fields(o)["started"] is not False: raise Unsupported("generator resumed")
        self.setfield(o, "started", True)
        node, fr = self.gens[o.id]
        token = object(); self.depth += 1
        if self.depth > 40: raise Unsupported("recursion")
        def step(v):
            outer = self.frames.pop() if self.frames[-1] is fr else None
            try: each(v)
            except _Continue: pass
            except (_Break, _Return, Raised) as x: raise _Leave(token, x)
            finally:
                if outer is not None: self.frames.append(outer)
        fr.gen = step
        self.frames.append(fr)
        try: self.body(node.body, fr)
        except _Return: pass
        except _Leave as x:
            if x.token is not token: raise
            if isinstance(x.why, _Break): return False
            raise x.why
        finally:
            if fr in self.frames: self.frames.remove(fr)
            self.depth -= 1
        return True
    def ev_Yield(self, e, fr):
        if getattr(fr, "gen", None) is None: raise Unsupported("yield")
        fr.gen(self.ev(e.value, fr) if e.value is not None else None)
    def ev_YieldFrom(self, e, fr):
        if getattr(fr, "gen", None) is None: raise Unsupported("yield")
        self.each(self.ev(e.value, fr), fr.gen, fr, e)
    def drain(self, o):
        """The list of what a generator yields."""
        l = self.mklist([])
        self.consume(o, lambda v: self.callmethod(l, "append", [v]))
        return l
    def bind_args(self, a, fr, args, kw, defaults, kwdefaults):
        names = [x.arg for x in a.posonlyargs + a.args]
        v = fr.vars
        if len(args) > len(names) and not a.vararg: raise Raised(TypeError)
        for n, x in zip(names, args): v[n] = x
        if a.vararg: v[a.vararg.arg] = tuple(args[len(names):])
        for n in names[len(args):]:
            if n in kw: v[n] = kw.pop(n)
            else:
                k = names.index(n) - (len(names) - len(defaults))
                if k < 0: raise Raised(TypeError)
                v[n] = defaults[k]
        for x in a.kwonlyargs:
            if x.arg in kw: v[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults: v[x.arg] = kwdefaults[x.arg]
            else: raise Raised(TypeError)
        if a.kwarg: v[a.kwarg.arg] = dict(kw)
        elif kw: raise Raised(TypeError)

    # ---- statements --------------------------------------------------------------------------------------------------------------------------
    def body(self, stmts, fr):
        for s in stmts: self.st(s, fr)
    def st(self, s, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None: raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)
    def st_Pass(self, s, fr): pass
    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, fr)
    def st_Return(self, s, fr): raise _Return(self.ev(s.value, fr) if s.value is not None else None)
    def st_Break(self, s, fr): raise _Break()
    def st_Continue(self, s, fr): raise _Continue()
    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)
    def st_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)
    def st_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), fr)
            self.assign(s.target, self.binop(s.op, old, self.ev(s.value, fr), inplace=True), fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr); old = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.binop(s.op, old, self.ev(s.value, fr), inplace=True))
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, fr); k = self.ev(s.target.slice, fr)
            old = self.getitem(o, k)
            self.setitem(o, k, self.binop(s.op, old, self.ev(s.value, fr), inplace=True))
        else: raise Unsupported("augmented assignment")
    def st_If(self, s, fr): self.body(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)
    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript): self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Name): fr.vars[t.id] = UNBOUND
            elif isinstance(t, ast.Attribute): raise Unsupported("del attribute")
            else: raise Unsupported("del")
    def st_Raise(self, s, fr):
        if s.exc is None:
            if getattr(self, "handling", None): raise self.handling[-1]
            raise Unsupported("bare raise")
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException): v = self.instantiate(v, [], {})
        if isinstance(v, ExcVal):
            if s.cause is not None:
                c = self.ev(s.cause, fr)
                if c is not None and not isinstance(c, ExcVal): raise Unsupported("raise from a value")
                v.cause = c
            h = getattr(self, "handling", None)
            if h and h[-1].val is not v: v.context = h[-1].val
            raise Raised(v.cls, v)
        raise Unsupported("raise of a value")
    def st_Try(self, s, fr):
        if not s.finalbody: return self.try_except(s, fr)
        try: self.try_except(s, fr)
        except (Raised, _Return, _Break, _Continue) as leave:
            if isinstance(leave, Raised): self.handling = getattr(self, "handling", []) + [leave]
            try: self.body(s.finalbody, fr)
            finally:
                if isinstance(leave, Raised): self.handling = self.handling[:-1]
            raise leave
        self.body(s.finalbody, fr)
    def st_With(self, s, fr):
        def enter(k):
            if k == len(s.items): return self.body(s.body, fr)
            m = self.ev(s.items[k].context_expr, fr)
            if not isinstance(m, Obj): raise Unsupported("with of a value")
            v = self.callmethod(m, "__enter__", [])
            if s.items[k].optional_vars is not None: self.assign(s.items[k].optional_vars, v, fr)
            leave = lambda *a: self.callmethod(m, "__exit__", list(a))
            try: enter(k + 1)
            except (_Return, _Break, _Continue):
                leave(None, None, None); raise
            except Raised as r:
                self.handling = getattr(self, "handling", []) + [r]
                try: swallow = self.truth(leave(r.cls, r.val or ExcVal(r.cls), None))
                finally: self.handling = self.handling[:-1]
                if not swallow: raise
            else: leave(None, None, None)
        enter(0)
    def try_except(self, s, fr):
        try:
            self.body(s.body, fr)
        except Raised as r:
            for h in s.handlers:
                types_ = None if h.type is None else self.ev(h.type, fr)
                ts = (BaseException,) if types_ is None else types_ if isinstance(types_, tuple) else (types_,)
                if any(issubclass(r.cls, t) for t in ts):
                    if r.val is None: r.val = ExcVal(r.cls)
                    if h.name: fr.vars[h.name] = r.val
                    self.handling = getattr(self, "handling", []) + [r]
                    try: self.body(h.body, fr)
                    finally:
                        self.handling = self.handling[:-1]
                        if h.name: fr.vars.pop(h.name, None)
                    return
            raise
        else:
            self.body(s.orelse, fr)
    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)): raise Raised(AssertionError)
    def st_FunctionDef(self, s, fr):
        if s.decorator_list: raise Unsupported("decorated nested function")
        fr.vars[s.name] = Closure(s, fr, None, [self.ev(d, fr) for d in s.args.defaults], {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
    def st_Import(self, s, fr):
        for a in s.names: fr.vars[a.asname or a.name.split(".")[0]] = __import__(a.name) if not a.asname else sys.modules.setdefault(a.name, __import__(a.name, fromlist=["x"]))
    def st_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.globals.get("__package__") or ""
        m = importlib.import_module(("." * s.level) + (s.module or ""), pkg if s.level else None)
        for a in s.names: fr.vars[a.asname or a.name] = self.lift(getattr(m, a.name))
    def st_Global(self, s, fr): raise Unsupported("global")
    def st_Nonlocal(self, s, fr): raise Unsupported("nonlocal")
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts): raise Unsupported("starred target")
            for e, x in zip(t.elts, self.untuple(v, len(t.elts))): self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else: raise Unsupported("assignment target")

    # ---- loops -----------------------------------------------------------------------------------------------------------------------------------
    def st_For(self, s, fr):
        def one(v):
            self.assign(s.target, v, fr)
            self.body(s.body, fr)
        if self.each(self.ev(s.iter, fr), one, fr, s): self.body(s.orelse, fr)
    def each(self, src, one, fr, node):
        """one(v) for the elements of an iterable: false when it was left by a break."""
        if self.isgen(src): return self.consume(src, one)
        it = self.iter(src)
        f = self.fields(it); seq, pos = f["seq"], f["pos"]
        self.fresh_seq(seq)
        if isinstance(seq.n, int) and isinstance(pos, int) and seq.n - pos <= 4:
            try:
                for j in range(pos, seq.n):
                    self.setfield(it, "pos", j + 1)
                    v = seq.at(j)
                    try: one(v)
                    except _Continue: pass
            except _Break: return False
            return True
        from .loops import Loop
        def step(i):
            self.setfield(it, "pos", lit(simplify(Z(pos) + i + 1)))
            one(seq.at(lit(simplify(Z(pos) + i))))
        return Loop(self, fr, simplify(Z(seq.n) - Z(pos)), None, step, node, it).run()
    def st_While(self, s, fr):
        from .loops import Loop
        def one(i): self.body(s.body, fr)
        done = Loop(self, fr, None, lambda: self.ev(s.test, fr), one, s).run()
        if done: self.body(s.orelse, fr)

    # ---- expressions -------------------------------------------------------------------------------------------------------------------------------
    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None: raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)
    def ev_Constant(self, e, fr): return e.value
    def ev_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value); continue
            parts.append(self.ev_fmt(v, fr))
        return self.symstr([SymStr([fval("text")]) if type(p) is OpaqueStr else p for p in parts])
    def ev_fmt(self, v, fr):
        """A part of an f-string: evaluated for its effects where that is possible."""
        try: x = self.ev(v.value, fr)
        except Unsupported:
            if self.strings: raise
            return OpaqueStr()
        if v.format_spec is not None: return OpaqueStr()
        return self.text(x, "r" if v.conversion in (114, 97) else "s")
    def unmaybe(self, v, name):
        if self.branch(v.cond): return v.val
        raise Raised(UnboundLocalError)
    def ev_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.vars:
                v = f.vars[e.id]
                if isinstance(v, Unbound): raise Raised(UnboundLocalError)
                if isinstance(v, Maybe):
                    v = self.unmaybe(v, e.id); f.vars[e.id] = v
                return v
            f = f.parent
        # a local that was never assigned hides globals
        if fr.fn is not None and isinstance(fr.fn, types.FunctionType) and e.id in fr.fn.__code__.co_varnames: raise Raised(UnboundLocalError)
        if e.id in fr.globals: return self.lift(fr.globals[e.id])
        if hasattr(builtins, e.id): return getattr(builtins, e.id)
        raise Raised(NameError)
    def ev_Attribute(self, e, fr): return self.getattr(self.ev(e.value, fr), e.attr)
    def ev_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))
    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out.extend(self.star(self.ev(x.value, fr)))
            else: out.append(self.ev(x, fr))
        return out
    def star(self, v):
        if isinstance(v, tuple): return list(v)
        s = self.seq(v)
        if isinstance(s.n, int): return [s.at(i) for i in range(s.n)]
        raise Unsupported("star of a sequence of unknown length")
    def ev_List(self, e, fr): return self.mklist(self.elts(e.elts, fr))
    def ev_Dict(self, e, fr):
        o = self.newdict()
        for k, x in zip(e.keys, e.values):
            if k is None: self.dict_update(o, self.ev(x, fr))
            else:
                kv = self.ev(k, fr); self.dict_setitem(o, kv, self.ev(x, fr))
        return o
    def ev_Set(self, e, fr):
        o = self.newset()
        for x in self.elts(e.elts, fr): self.set_add(o, x)
        return o
    def ev_SetComp(self, e, fr):
        s = self.comp(e, fr)
        return self.b_set(s if self.isgen(s) else self.mkiter(s))
    def ev_DictComp(self, e, fr):
        pair = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        g = ast.copy_location(ast.GeneratorExp(pair, e.generators), e)
        s = self.comp(g, fr)
        return self.b_dict(self.mkiter(self.seq(self.drain(s)) if self.isgen(s) else s))
    def ev_Lambda(self, e, fr): return Closure(e, fr, None, [self.ev(d, fr) for d in e.args.defaults])
    def ev_IfExp(self, e, fr): return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)
    def ev_BoolOp(self, e, fr):
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, fr)
            if k == len(e.values) - 1: return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t: return False if is_symbool(v) else v
            if isinstance(e.op, ast.Or) and t: return True if is_symbool(v) else v
        return v
    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not): return self.neg(v)
        if isinstance(e.op, ast.USub): return lit(simplify(-Z(self.asint(v))))
        if isinstance(e.op, ast.UAdd): return self.asint(v)
        if isinstance(e.op, ast.Invert): return lit(simplify(-Z(self.asint(v)) - 1))
        raise Unsupported("unary operator")
    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr); fr.vars[e.target.id] = v
        return v
    def ev_BinOp(self, e, fr): return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))
    OPS = {"Add": ("__add__", "__radd__", "__iadd__"), "Sub": ("__sub__", "__rsub__", "__isub__"), "Mult": ("__mul__", "__rmul__", "__imul__"),
           "BitAnd": ("__and__", "__rand__", "__iand__"), "BitOr": ("__or__", "__ror__", "__ior__"), "BitXor": ("__xor__", "__rxor__", "__ixor__")}
    def binop(self, op, a, b, inplace=False):
        n = type(op).__name__
        if is_intlike(a) and is_intlike(b) or isinstance(a, (bool, z3.BoolRef)) and is_intlike(b) or isinstance(b, (bool, z3.BoolRef)) and is_intlike(a) and n in ("Add", "Sub", "Mult") or isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)) and n in ("Add", "Sub", "Mult"):
            x, y = Z(self.asint(a)), Z(self.asint(b))
            if n == "Add": r = x + y
            elif n == "Sub": r = x - y
            elif n == "Mult": r = x * y
            elif n in ("FloorDiv", "Mod"):
                if is_int_value(y) and y.as_long() == -1: x, y = -x, IntVal(1)
                if not is_int_value(y) and self.must(y > 0) and self.must(And(-y <= x, x < 2 * y)):       # x lies within one round of 0..y-1
                    r = If(x < 0, x + y if n == "Mod" else IntVal(-1), If(x < y, x if n == "Mod" else IntVal(0), x - y if n == "Mod" else IntVal(1)))
                    return lit(simplify(r))
                if not is_int_value(y) or y.as_long() <= 0: raise Unsupported("division by a variable")
                r = x / y if n == "FloorDiv" else x % y
            else: raise Unsupported(f"operator {n}")
            return lit(simplify(r))
        if n in self.OPS and (isinstance(a, Obj) or isinstance(b, Obj)):
            f, rf, inf = self.OPS[n]
            if isinstance(a, Obj):
                if inplace and (self.hasattr_type(a.cls, inf) or self.contract_for(a, inf) or self.model_attr(a, inf) is not None):
                    r = self.callmethod(a, inf, [b], missing=NotImplemented)
                    if r is not NotImplemented: return r
                r = self.callmethod(a, f, [b], missing=NotImplemented)
                if r is not NotImplemented: return r
            if isinstance(b, Obj):
                r = self.callmethod(b, rf, [a], missing=NotImplemented)
                if r is not NotImplemented: return r
            raise Raised(TypeError)
        if is_val(a) or is_val(b):
            if n in ("Add", "Sub"):
                for x in (a, b):
                    if is_val(x) and not self.branch(is_int(x)):
                        if self.branch(is_none(x)): raise Raised(TypeError)
                        raise Unsupported("arithmetic on an element")
                return self.binop(op, self.asint(a), self.asint(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and n == "Add": return a + b
        if isinstance(a, (str, OpaqueStr)) or isinstance(b, (str, OpaqueStr)) or self.strings and is_val(a) and is_val(b):
            if n == "Add" and self.is_string(a) and self.is_string(b) and OpaqueStr not in (type(a), type(b)): return self.symstr([a, b])
            return OpaqueStr()
        if a is None or b is None: raise Raised(TypeError)
        if isinstance(a, tuple) or isinstance(b, tuple): raise Raised(TypeError)
        raise Unsupported(f"operator {n} on {a!r}, {b!r}")
    def ev_Compare(self, e, fr):
        a = self.ev(e.left, fr); r = True
        for k, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(x, fr)
            r = self.compare(op, a, b)
            if k < len(e.ops) - 1:
                if not self.truth(r): return False
            a = b
        return r
    def compare(self, op, a, b):
        n = type(op).__name__
        if n == "Is": return self.identical(a, b)
        if n == "IsNot": return self.neg(self.identical(a, b))
        if n == "Eq": return self.eq(a, b)
        if n == "NotEq":
            if isinstance(a, Obj) or isinstance(b, Obj): return self.rich("__ne__", "__ne__", a, b)
            return self.neg(self.eq(a, b))
        if n == "In": return self.contains(b, a)
        if n == "NotIn": return self.neg(self.contains(b, a))
        f, rf = {"Lt": ("__lt__", "__gt__"), "LtE": ("__le__", "__ge__"), "Gt": ("__gt__", "__lt__"), "GtE": ("__ge__", "__le__")}[n]
        if isinstance(a, Obj) or isinstance(b, Obj): return self.rich(f, rf, a, b)
        if is_val(a) and is_val(b):
            # equal elements need not be orderable at all
            if self.branch(And(cls(a) == cls(b), fbool("unorderable"))): raise Raised(TypeError)
            return self.val_less(n, a, b)
        x, y = self.asint(a), self.asint(b)
        x, y = Z(x), Z(y)
        return lit(simplify({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[n]))
    def val_less(self, n, a, b):
        """Elements are ordered totally, in agreement with ==."""
        p = self.path
        if not hasattr(p, "less_ax"):
            p.less_ax = True
            x, y = fresh("c", Cls), fresh("c2", Cls)
            self.assume(ForAll([x, y], And(Not(And(less(x, y), less(y, x))), Or(x == y, less(x, y), less(y, x)), Implies(x == y, Not(less(x, y)))), patterns=[less(x, y)]))
        a, b = cls(a), cls(b)
        return lit(simplify({"Lt": less(a, b), "LtE": Not(less(b, a)), "Gt": less(b, a), "GtE": Not(less(a, b))}[n]))
    def ev_Call(self, e, fr):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f, code = fr.parent, getattr(fr.fn, "__code__", None)
            while f is not None and "__class__" not in f.vars: f = f.parent
            if f is None or code is None or not code.co_argcount or "super" in fr.globals: raise Unsupported("super()")
            return self.call(super, [f.vars["__class__"], self.ev_Name(ast.Name(code.co_varnames[0], ast.Load()), fr)], {})
        fn = self.ev(e.func, fr)
        if fn is sum and e.args and isinstance(e.args[0], ast.GeneratorExp):
            args = [self.gencomp(e.args[0], self.ev(e.args[0].generators[0].iter, fr), fr)] + self.elts(e.args[1:], fr)
        else: args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, dict): kw.update(v)
                elif isinstance(v, Obj) and v.cls is dict and self.must(card(self.view(v).mem) == 0): pass
                else: raise Unsupported("** of an unknown mapping")
            else: kw[k.arg] = v
        return self.call(fn, args, kw)
    def ev_Slice(self, e, fr): return Slice(*[self.ev(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])
    def ev_Subscript(self, e, fr): return self.getitem(self.ev(e.value, fr), self.ev(e.slice, fr))
    def getitem(self, o, k):
        if isinstance(o, Maybe): o = self.unmaybe(o, "")
        if isinstance(o, tuple):
            if isinstance(k, Slice) and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)): return o[slice(k.a, k.b, k.c)]
            if isinstance(k, int):
                try: return o[k]
                except IndexError: raise Raised(IndexError)
            raise Unsupported("symbolic index of a tuple")
        if is_val(o):
            c = self.concretize(o)
            if isinstance(c, tuple): return self.getitem(c, k)
            if isinstance(k, int) and k in (0, 1, -1, -2):
                return self.untuple(o, 2)[k % 2]
            raise Unsupported("indexing an element")
        if isinstance(o, Phamt): return self.phamt_getitem(o, k)
        if isinstance(o, Obj): return self.callmethod(o, "__getitem__", [k])
        if isinstance(o, dict) and not isz(k) and not isinstance(k, Obj):
            try: return o[k]
            except KeyError: raise Raised(KeyError)
        if isinstance(o, (str, SymStr)) and isinstance(k, Slice) and k.a in (None, 0) and k.c in (None, 1) and isinstance(k.b, int) and k.b < 0:
            # all but the last characters
            ps = list(o.pieces) if isinstance(o, SymStr) else [o]
            if isinstance(ps[-1], str) and len(ps[-1]) >= -k.b: return self.symstr(ps[:-1] + [ps[-1][:k.b]])
        if isinstance(o, (str, OpaqueStr)): return OpaqueStr()
        raise Unsupported(f"indexing {o!r}")
    def setitem(self, o, k, v):
        if isinstance(o, Obj): return self.callmethod(o, "__setitem__", [k, v])
        raise Unsupported(f"item assignment to {o!r}")
    def delitem(self, o, k):
        if isinstance(o, Obj): return self.callmethod(o, "__delitem__", [k])
        raise Unsupported(f"item deletion from {o!r}")
    def contains(self, c, x):
        if isinstance(c, tuple):
            r = [self.eq(x, y) for y in c]
            return lit(simplify(Or(*[Z(t) for t in r]))) if r else False
        if isinstance(c, Phamt): return lit(simplify(Select(c.dom, Z(self.asint(x)))))
        if isinstance(c, Obj):
            if self.contract_for(c, "__contains__") or self.model_attr(c, "__contains__") is not None or self.hasattr_type(c.cls, "__contains__"):
                return self.truth_term(self.callmethod(c, "__contains__", [x]))
            s = self.seq(c)
            return self.any_seq(Seq(s.n, lambda i: self.eq(s.at(i), x)))
        raise Unsupported(f"in {c!r}")
    def comp(self, e, fr):
        g = e.generators[0]
        src = self.ev(g.iter, fr)
        if len(e.generators) > 1 or self.isgen(src): return self.gencomp(e, src, fr)
        src = self.seq(src)
        def bind(i):
            f2 = Frame({}, fr, fr.globals, None)
            self.frames.append(f2)
            self.assign(g.target, src.at(i), f2)
            return f2
        def unbindf(f2):
            if f2 in self.frames: self.frames.remove(f2)
        def at(i):
            f2 = bind(i)
            try: return self.ev(e.elt, f2)
            finally: unbindf(f2)
        if not g.ifs: return Seq(src.n, at, src.src)
        def cond(i):
            f2 = bind(i)
            try: return self.conj([self.truth_term(self.ev(c, f2)) for c in g.ifs])
            finally: unbindf(f2)
        return self.filter_seq(Seq(src.n, at, src.src), cond)
    def gencomp(self, e, src, fr):
        """A comprehension as the generator function that it abbreviates."""
        node = getattr(e, "_gen", None)
        if node is None:
            b = ast.Expr(ast.Yield(e.elt))
            for k, g in reversed(list(enumerate(e.generators))):
                if g.is_async: raise Unsupported("async")
                for c in reversed(g.ifs): b = ast.If(c, [b], [])
                b = ast.For(g.target, g.iter if k else ast.Name(".0", ast.Load()), [b], [], None)
            node = e._gen = ast.Module([b], [])
            for n in ast.walk(node):
                if not hasattr(n, "lineno"): ast.copy_location(n, e)
            ast.fix_missing_locations(node)
        return self.mkgen(node, Frame({".0": src}, fr, fr.globals, None))
    def conj(self, ts):
        return lit(simplify(And(*[Z(t) for t in ts])))
    def ev_ListComp(self, e, fr):
        s = self.comp(e, fr)
        return self.drain(s) if self.isgen(s) else self.mklist_seq(s)
    def ev_GeneratorExp(self, e, fr):
        s = self.comp(e, fr)
        return s if self.isgen(s) else self.mkiter(s)
    def ev_Starred(self, e, fr): raise Unsupported("starred")
