"""Obligations: contracts as specification functions over abstract views, checked against the real code."""
import inspect, time, types
import z3
from .terms import *
from .terms import _n
from .engine import (Engine, Obj, Phamt, ValSet, ListView, SetView, DictView, Seq, Slice, Raised, Unsupported, Cut, GenericIterable, OpaqueStr, Closure, Bound, Model, Maybe)
from .strings import StringMixin
from .vlazy import LazyMixin
from .pymodel import Mixin, IterCls, TupleCls, THAMT, PHAMT, emptyphamt, rlen, mul

def slots_of(c):
    """The names that the classes of an object declare for its state."""
    out = set()
    for k in c.__mro__:
        d = k.__dict__.get("__slots__", ())
        out |= {d} if isinstance(d, str) else set(d)
    return out
class Out:
    """What a contract promises: an exception or a result, and the state of the receiver afterwards (None: unchanged)."""
    def __init__(self, ret=None, exc=None, post=None, anyexc=False, changed=True): self.ret, self.exc, self.post, self.changed = ret, exc, post, changed
class Ret:
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)
def rnew(cls_, view, fresh=False): return Ret("new", cls=cls_, view=view, fresh=fresh)
def rself(): return Ret("self")
def rval(v): return Ret("val", v=v)
def rtup(*rs): return Ret("tuple", rs=rs)
def riter(seq): return Ret("iter", seq=seq)
def robj(o, cls_, view): return Ret("obj", o=o, cls=cls_, view=view)     # this very object
NONE = Ret("val", v=None)
def reither(cls_, view): return Ret("either", cls=cls_, view=view)      # the receiver or another object
ANY = object()          # a state the contract leaves open
def raises(c, post=None): return Out(exc=c, post=post)

class LV:
    """A list: a length and an element for each index; arr: an array with these elements, when there is one; ok: the elements
    allowed at an index, when there is a choice."""
    def __init__(self, n, at, arr=None, ok=None): self.n, self.at, self.arr, self.ok = n, at, arr, ok
    def allows(self, k, x): return x == self.at(k) if self.ok is None else self.ok(k, x)
def lv_empty(): return LV(IntVal(0), lambda k: vnone)

class Verifier(LazyMixin, StringMixin, Mixin, Engine):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.results = []       # (task, tag, what, verdict, seconds)
        self.details = []
        self.outcomes = set()
        self.task = ""
        self.known_false = None
        self.seen_goals = set()
        self.covered = 0
        self.goal_timeout = 12000
        from . import chain
        self.loop_templates = [chain.templates]
    # ---- goals --------------------------------------------------------------------------------------------------------
    def ends(self, node, why):
        """A loop whose number of iterations is not given by what it iterates over."""
        if self.probing: return
        r = (self.task, "ends", f"the loop at line {getattr(node, 'lineno', 0)} ends", "proved" if why else "unsupported", 0)
        if r not in self.results: self.results.append(r)
    def goal(self, tag, what, f, timeout=None):
        t = time.time()
        f = Z(f); tag = self.retag.get(tag, tag)
        if not isinstance(f, z3.ExprRef): raise Unsupported("goal")
        g = simplify(f)
        if is_true(g): v = "proved"
        else:
            extra = getattr(self.path, "order_facts", []) if tag == "order" else []
            r = self.check(Not(g), *extra, timeout=timeout or self.goal_timeout)
            if r == z3.unsat: v = "proved"
            else: v = self.second_opinion(g, r)
        self.results.append((self.task, tag, what, v, round(time.time() - t, 3)))
        if v != "proved": self.details.append(dict(name=f"{self.task}: {what} [{tag}]", verdict=v, detail=self.describe(g)))
        if v != "proved" and self.debug: print("   FAIL", self.task, tag, what, v, str(g)[:300])
        return v == "proved"
    def order_fact(self, f):
        """A fact about ages that only the goals about order may use."""
        self.path.order_facts = getattr(self.path, "order_facts", []) + [f]
    debug = False
    second = True      # a second configuration of the solver may be asked
    retag = {}
    def second_opinion(self, g, r):
        """A goal the first solver configuration left open: once more, with model-based quantifier instantiation."""
        why = "sat" if r == z3.sat else self.path.solver.reason_unknown() or "unknown"
        if is_false(g): return "unproved: the path is not excluded"
        if len(self.details) > 6 or not self.second: return "unproved: " + why
        s = z3.Solver(); s.set("timeout", 3000)
        for f in self.axioms() + self.path.pc + getattr(self.path, "order_facts", []): s.add(f)
        s.add(Not(g))
        t = time.time(); r2 = s.check(); self.solver_s += time.time() - t; self.nchecks += 1
        if r2 == z3.unsat: return "proved"
        if r2 == z3.sat:
            self.path.model = str(s.model())[:1500]
            return "refuted: the solver has a model of its negation"
        return "unproved: " + why
    def describe(self, g):
        m = getattr(self.path, "model", None)
        pcs = [str(f).replace("\n", " ")[:200] for f in self.path.pc if not z3.is_quantifier(f)][-14:]
        return "goal: " + str(g).replace("\n", " ")[:900] + "\npath:\n  " + "\n  ".join(pcs) + (("\nmodel: " + m) if m else "")
    # ---- views of lists ------------------------------------------------------------------------------------------------
    def lv(self, o):
        """The abstract list of an object."""
        if self.isview(o):
            v = self.view(o)
            return LV(v.n, lambda k: Select(v.a, Z(k)), v.a)
        f = self.fields(o)
        m = f["_phamt"] if "_phamt" in f else self.fields(f["_thamt"])["#map"]
        s = Z(f["_start"])
        return LV(m.n, lambda k: Select(m.val, simplify(s + Z(k))))
    def listmap(self, o):
        f = self.fields(o)
        if "_phamt" in f: return f["_phamt"]
        return self.fields(f["_thamt"])["#map"]
    def tolistview(self, v):
        if v.ok is not None:
            a = fresh("arr", AV); k = fint("k")
            t = v.ok(k, Select(a, k))
            self.assume(ForAll([k], Implies(And(0 <= k, k < Z(v.n)), t), patterns=[Select(a, k)]))
            return ListView(Z(v.n), a)
        a = v.arr if v.arr is not None else self.array_of(Seq(lit(v.n), v.at))
        return ListView(Z(v.n), a)

    # ---- checking one call against its contract ---------------------------------------------------------------------------
    def attempt(self, fn):
        """('ret', value) or ('raise', class)."""
        try: return ("ret", fn())
        except Raised as r: return ("raise", r.cls)
    def check_call(self, fam, o, outcome, exp, pre):
        """outcome of the real code against the contract's promise; pre: the abstract state of o before the call."""
        kind, r = outcome
        if self.check(timeout=self.branch_ms) == z3.unsat: raise Cut()      # this path is impossible: nothing to prove, nothing covered
        self.covered += 1
        self.outcomes.add(kind if kind == "ret" else r.__name__)
        if exp.exc is not None:
            self.goal("content", f"raises {exp.exc.__name__}", kind == "raise" and issubclass(r, exp.exc))
        elif kind == "raise":
            self.goal("content", f"raises no {r.__name__}", False)
            return
        else:
            self.check_ret(fam, o, r, exp.ret, pre)
        if o is not None and isinstance(o, Obj):
            post = exp.post if exp.post is not None else pre
            if post is not None and post is not ANY:
                if o.cls in fam.persistent: self.retag = {"content": "frame", "wf": "frame"}
                try: self.check_state(fam, o, post, "receiver", unchanged=exp.post is None)
                finally: self.retag = {}
        self.check_frame(fam, o)
    def check_ret(self, fam, o, r, ret, pre, where="result"):
        k = ret.kind
        if k == "val":
            if ret.v is None: self.goal("content", f"{where} is None", Z(self.same(r, None)) if r is not None else True)
            elif isinstance(ret.v, (bool, z3.BoolRef)):
                ok = isinstance(r, (bool, z3.BoolRef)) or is_val(r)
                self.goal("content", f"{where} value", Z(self.same(r, ret.v)) if ok else False)
            else: self.goal("content", f"{where} value", Z(self.same(r, ret.v)))
        elif k == "tuple":
            ok = isinstance(r, tuple) and len(r) == len(ret.rs)
            self.goal("content", f"{where} is a tuple", ok)
            if ok:
                for j, (x, s) in enumerate(zip(r, ret.rs)): self.check_ret(fam, o, x, s, pre, f"{where}[{j}]")
        elif k == "self" or k == "obj":
            tgt = o if k == "self" else ret.o
            v = pre if k == "self" else ret.view
            same = isinstance(r, Obj) and r.id == tgt.id
            self.goal("identity", f"{where} is the same object", same)
            if not same: self.check_obj(fam, o, r, tgt.cls, v, where, fresh=False)
        elif k == "either":
            if not (isinstance(r, Obj) and r.id == o.id) and ret.cls in fam.transient: pass
            self.check_obj(fam, o, r, ret.cls, ret.view, where, fresh=False)
        elif k == "new":
            self.check_obj(fam, o, r, ret.cls, ret.view, where, fresh=ret.fresh)
        elif k == "iter":
            if self.isgen(r): r = self.ungen(r)
            ok = isinstance(r, Obj) and r.cls is IterCls
            self.goal("content", f"{where} is an iterator", ok)
            if ok:
                s = self.seq(r)
                self.goal("content", f"{where} length", Z(s.n) == Z(ret.seq.n))
                i = fint("i")
                self.assume(And(0 <= i, i < Z(ret.seq.n)))
                a, b = s.at(i), ret.seq.at(i)
                self.goal("content", f"{where} elements", Z(self.same(a, b)) if not isinstance(a, tuple) or isinstance(b, tuple) else self.toval(a) == self.toval(b))
        elif k in ("keys", "members"): self.check_enum(r, ret.view, where, ordered=k == "keys")
        elif k == "any": pass
        else: raise Unsupported(f"contract result {k}")
    def check_enum(self, r, v, where, ordered, proj=lambda t: t):
        """An iteration over a set or the keys of a dict: as many elements as members, each a member, none twice (so all of them)."""
        if self.isgen(r): r = self.ungen(r)
        ok = isinstance(r, Obj) and r.cls is IterCls
        self.goal("content", f"{where} is an iterator", ok)
        if not ok: return
        s = self.seq(r)
        self.goal("content", f"{where} length", Z(s.n) == Z(v.n))
        i, j = fint("i"), fint("j")
        self.assume(And(0 <= i, i < j, j < Z(v.n)))
        a, b = cls(self.toval(s.at(i))), cls(self.toval(s.at(j)))
        self.goal("content", f"{where} elements", And(Select(v.mem, a), Select(v.mem, b)))
        self.goal("content", f"{where} elements once", a != b)
        if ordered: self.goal("order", f"{where} elements oldest first", Select(v.ord, a) < Select(v.ord, b))
    def todictview(self, v): return DictView(v.mem, v.get, v.ord, Z(v.clk))
    def check_obj(self, fam, o, r, cls_, view, where, fresh):
        if not isinstance(r, Obj):
            self.goal("content", f"{where} is a {cls_.__name__}", False); return
        self.goal("class", f"{where} is a {cls_.__name__}", r.cls is cls_)
        if not fam.handles(r.cls):
            self.goal("content", f"{where} is a {cls_.__name__}", False); return
        self.check_state(fam, r, view, where)
        if fresh:
            self.goal("fresh", f"{where} is a new object", self.path.kind.get(r.id) != "pre")
            for n, v in self.fields(r).items():
                if isinstance(v, Obj) and v.cls is THAMT: self.goal("fresh", f"{where} owns {n}", self.path.kind.get(v.id) == "new")
    def check_state(self, fam, o, view, where, unchanged=False):
        fam.check(self, o, view, where, unchanged)
    def check_frame(self, fam, o):
        mutable = isinstance(o, Obj) and o.cls in fam.transient
        bad = []
        for w, k in self.path.writes:
            own = mutable and (w.id == o.id or any(isinstance(v, Obj) and v.id == w.id for v in self.fields(o).values()))
            if w.cls is IterCls or (k == "_hashcode" and getattr(self.path, "may_cache", False)) or own: continue
            bad.append(f"{w.cls.__name__}.{k}")
        self.goal("frame", "changes nothing but its receiver" if mutable else "changes nothing" if not bad else "writes " + ", ".join(sorted(set(bad))), not bad)
    def run_task(self, name, fn):
        self.task = name
        n = len(self.results); t = time.time()
        try:
            self.top(lambda: fn(self))
        except Unsupported as e:
            self.results.append((name, "reach", str(e)[:200], "unsupported", round(time.time() - t, 3)))
        if len(self.results) == n:
            self.results.append((name, "reach", "no obligation was generated", "unsupported", 0))

    # ---- calls replaced by contracts ------------------------------------------------------------------------------------------
    forced = None           # ghost: the lazies computed so far
    applying = 0            # > 0: a contract is used (its promise is assumed); 0: it is checked
    def register(self, fam, table_of, only=None):
        for c in fam.persistent + fam.transient:
            for name, (spec, variants) in table_of(c).items(): self.contracts[(c, name)] = self.make_contract(fam, spec)
    def make_contract(self, fam, spec):
        def contract(E, o, *args, **kw):
            E.applying += 1
            try:
                exp = spec(E, fam, o, fam.view(E, o), *args, **kw)
                return E.apply_out(fam, o, exp)
            finally: E.applying -= 1
        contract.varkw = inspect.getfullargspec(spec).varkw is not None
        return contract
    def apply_new(self, fam, c, spec, args, kw):
        self.applying += 1
        try:
            exp = spec(self, fam, c, *args, **kw)
            if exp.exc is not None: raise Raised(exp.exc)
            if exp.ret.kind == "obj" and exp.ret.o.cls is c: return exp.ret.o
            return self.make_ret(fam, Obj(0, c), exp.ret)
        finally: self.applying -= 1
    def apply_out(self, fam, o, exp):
        if exp.exc is not None:
            if exp.post is not None: self.setview(o, fam.toview(self, exp.post))
            raise Raised(exp.exc)
        r = self.make_ret(fam, o, exp.ret)
        if exp.post is not None: self.setview(o, fam.toview(self, exp.post))
        return r
    def make_ret(self, fam, o, ret):
        k = ret.kind
        if k == "val": return self.concretize(ret.v) if is_val(ret.v) else ret.v
        if k == "self": return o
        if k == "new":
            f = {"#view": fam.toview(self, ret.view)}
            if not ret.fresh: f["#alias"] = True
            return self.alloc(ret.cls, f, "new")
        if k == "obj": return self.alloc(ret.cls, {"#view": fam.toview(self, ret.view), "#alias": True}, "new")
        if k == "either": return self.alloc(ret.cls, {"#view": fam.toview(self, ret.view), "#alias": True}, "new")
        if k == "tuple": return tuple(self.make_ret(fam, o, r) for r in ret.rs)
        if k == "iter": return self.mkiter(Seq(ret.seq.n, ret.seq.at, ret.seq.src or ((o, self.view(o)),)))
        if k in ("keys", "members"):
            t = self.alloc(o.cls, {"#view": fam.toview(self, ret.view)}, "new")
            s = self.view_seq(t)
            return self.mkiter(Seq(s.n, s.at, ((o, self.view(o)),)))
        raise Unsupported(f"contract result {k}")
    def same(self, a, b):
        if isinstance(a, Obj) and isinstance(b, Obj) and a.id != b.id and (self.fields(a).get("#alias") or self.fields(b).get("#alias")) and a.cls is b.cls:
            raise Unsupported("identity of a result that may be shared")
        return super().same(a, b)
    def pick(self, actual, cond, name="pick"):
        """A value that the contract leaves open, except for cond: the actual one when checking, an arbitrary one when applying."""
        if self.applying:
            v = fval(name); self.assume(cond(v)); return v
        if actual is None: return fval(name)
        self.goal("content", "the chosen element is allowed", cond(actual))
        return actual
    def unset(self, F, o):
        """The parts of the state of an object that its constructor left out."""
        need = {"_hashcode"} if o.cls in F.persistent else {"_orig", "_version"}
        return sorted(need & slots_of(o.cls) - set(self.fields(o)))
    actual = None       # the result under check, if there is one
    def unhashed(self, f): return "_hashcode" not in f or self.must(Z(self.same(f["_hashcode"], None)))
    def argseq(self, x):
        """The elements of an argument, as they were at the call."""
        if isinstance(x, Obj) and x.cls is IterCls and not self.applying:
            return self.fields(x)["seq"]
        s = self.seq(x)
        return self.plain(s) if self.applying else s
    def plain(self, s):
        """The sequence, with elements that are terms in the index: the elements that code computes are put in an array."""
        if isinstance(s.n, int): return s
        i = fint("i"); n0 = next(_n)
        outs = self.explore(lambda: s.at(i), (And(0 <= i, i < Z(s.n)),))
        if not outs: return Seq(0, None)
        try:
            if len(outs) == 1 and outs[0][1] == "ret" and not self.madeup(outs[0][2], n0): return s
        except Unsupported: pass
        a = self.array_of(s)
        return Seq(s.n, lambda j: Select(a, Z(j)), s.src)
    def seen_set(self, s):
        """The set of classes in a sequence."""
        return self.set_union_seq(SetView(z3.K(Cls, BoolVal(False))), s).mem
    def fold_put(self, v, n, key, val):
        """The dict v after key(i) -> val(i) has been put for i = 0..n-1, as (mem, get, ord, clk): a new key is as old as its first
        put, a key has the value of its last one."""
        n = Z(n); L, F = fresh("lastput", CI), fresh("firstput", CI); c, j = fresh("c", Cls), fint("j")
        kv = self.at_every(j, n, lambda: (cls(self.toval(key(j))), self.toval(val(j))))
        if kv is None: return v
        ck, cv = kv
        k = lambda i: substitute(ck, (j, i)); x = lambda i: substitute(cv, (j, i))
        l, f = Select(L, c), Select(F, c)
        self.assume(ForAll([c], And(-1 <= l, l < n, Implies(l >= 0, And(k(l) == c, 0 <= f, f <= l, k(f) == c))), patterns=[l]))
        body = Implies(And(0 <= j, j < n), And(Select(L, ck) >= j, Select(F, ck) <= j))
        from .loops import at_most
        self.assume(at_most(j, body, ck))
        mem, get, ord_ = fresh("mem", CB), fresh("get", CV), fresh("ord", CI)
        old = [Select(a, c) for a in (v.mem, v.get, v.ord) if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        self.assume(ForAll([c], And(Select(mem, c) == Or(Select(v.mem, c), l >= 0), Select(get, c) == If(l >= 0, x(l), Select(v.get, c)),
                                    Select(ord_, c) == If(Select(v.mem, c), Select(v.ord, c), Z(v.clk) + f)), patterns=[Select(mem, c), Select(get, c), Select(ord_, c), l] + old))
        if n.get_id() != IntVal(0).get_id(): self.assume(n >= 0)
        self.cards(v.mem); self.cards(mem)
        return DictView(mem, get, ord_, simplify(Z(v.clk) + n))
    def argmem(self, x):
        """The classes of the elements of a set or iterable."""
        if self.isview(x) and isinstance(self.view(x), (SetView, DictView)): return self.view(x).mem
        return self.seen_set(self.argseq(x))
    def combine(self, f, *ms):
        """The set of the classes c with f(m[c], ...)."""
        r = fresh("mem", CB); c = fresh("c", Cls)
        self.assume(ForAll([c], Select(r, c) == f(*[Select(m, c) for m in ms]), patterns=[Select(r, c)] + [Select(m, c) for m in ms if z3.is_const(m) and m.decl().kind() == z3.Z3_OP_UNINTERPRETED]))
        self.cards(r)
        return r
    def relation(self, name, a, b, f):
        """A boolean that says whether f(a[c], b[c]) for every c."""
        p = self.path
        if not hasattr(p, "relations"): p.relations = []
        for n2, a2, b2, r in p.relations:
            if n2 == name and a2.eq(a) and b2.eq(b): return r
        r = fbool(name); c, w = fresh("c", Cls), fresh("w", Cls)
        pats = [Select(m, c) for m in (a, b) if z3.is_const(m) and m.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        body = Implies(r, f(Select(a, c), Select(b, c)))
        self.assume(ForAll([c], body, patterns=pats) if pats else ForAll([c], body))
        self.assume(Implies(Not(r), Not(f(Select(a, w), Select(b, w)))))
        p.relations = p.relations + [(name, a, b, r)]
        return r
    def subset(self, a, b): return self.relation("subset", a, b, lambda x, y: Implies(x, y))
    def disjoint(self, a, b): return self.relation("disjoint", a, b, lambda x, y: Not(And(x, y)))
    def samemembers(self, a, b): return self.relation("samemembers", a, b, lambda x, y: x == y)

    # ---- cardinality of finite sets -----------------------------------------------------------------------------------------
    def cadd(self, mem, c):
        r = Store(mem, c, BoolVal(True))
        self.assume(card(r) == card(mem) + If(Select(mem, c), 0, 1))
        return r
    def cdel(self, mem, c):
        r = Store(mem, c, BoolVal(False))
        self.assume(card(r) == card(mem) - If(Select(mem, c), 1, 0))
        return r
    def cards(self, mem):
        """What is known of the number of members of a set: not negative, zero exactly when empty; and for two sets of which the
        numbers are taken: a subset has no more members, and a proper subset fewer."""
        p = self.path
        if not hasattr(p, "cardsets"): p.cardsets = []
        if any(m.eq(mem) for m in p.cardsets): return
        c, w = fresh("c", Cls), fresh("w", Cls)
        self.assume(card(mem) >= 0)
        self.assume(Implies(card(mem) > 0, Select(mem, w)))
        pat = [Select(mem, c)]
        self.assume(ForAll([c], Implies(Select(mem, c), card(mem) > 0), patterns=pat))
        for m in p.cardsets:
            for a, b in ((m, mem), (mem, m)):
                u, x = fresh("w", Cls), fresh("c", Cls)
                out = And(Select(a, u), Not(Select(b, u)))
                self.assume(Or(out, card(a) <= card(b)))
                self.assume(ForAll([x], Implies(And(Select(b, x), Not(Select(a, x))), Or(out, card(a) < card(b))), patterns=[Select(a, x), Select(b, x)]))
        p.cardsets = p.cardsets + [mem]

def method_tasks(_, F, c, table, view=False, contracts=None, pre_=""):
    out = []
    for name, (spec, variants) in table.items():
        for j, vs in enumerate(variants):
            def task(E, name=name, spec=spec, vs=vs):
                if contracts: contracts(E)
                o = F.mk(E, c, view=view)
                pre = F.view(E, o)
                E.path.pre_version = E.fields(o).get("_version"); E.path.pre_n = getattr(pre, "n", None)
                E.receiver = o
                if name == "ready_all": E.forced = E.alloc(ValSet, {"#set": ValSet(z3.K(Val, BoolVal(False)))})
                args = [v(E) for v in vs]; kw = {}
                if args and isinstance(args[-1], dict): kw = args.pop()
                E.current = (c, name)
                outcome = E.attempt(lambda: E.callmethod(o, name, args, dict(kw)))
                E.actual = outcome[1] if outcome[0] == "ret" else None
                forced = [e[1] for e in E.path.events if e[0] == "force"]
                exp = spec(E, F, o, pre, *args, **kw)
                if o.cls in getattr(F, "lazy", ()):
                    may = getattr(E.path, "may_force", [])
                    for t in () if may == "any" else forced or [None]:
                        E.goal("force", "computes nothing" if not may else "computes only the element read", True if t is None else Or(*[t == m for m in may]) if may else False)
                E.check_call(F, o, outcome, exp, pre)
            out.append((f"{c.__name__}.{name}" + (f"/{j}" if len(variants) > 1 else ""), task))
    return out

def constructor_tasks(F, c, spec, variants, contracts):
    """The constructor of c."""
    out = []
    for j, vs in enumerate(variants):
        def task(E, vs=vs):
            contracts(E)
            args = [v(E) for v in vs]; kw = {}
            if args and isinstance(args[-1], dict): kw = args.pop()
            E.current = (c, "__new__"); E.node = f"{c.__name__}.__new__" + ("(**)" if kw else "")
            outcome = E.attempt(lambda: E.instantiate(c, args, dict(kw)))
            forced = [e[1] for e in E.path.events if e[0] == "force"]
            exp = spec(E, F, c, *args, **kw)
            may = getattr(E.path, "may_force", [])
            if c in getattr(F, "lazy", ()) and may != "any":
                for t in forced or [None]: E.goal("force", "computes nothing", t is None)
            E.check_call(F, None, outcome, exp, None)
        out.append((f"{c.__name__}.__new__/{j}", task))
    return out
