"""Loops: cut by inductive invariants, which are found by guessing closed forms of the body's recurrences and by filtering
templates (Houdini). A guess is used only after the solver has shown that it holds at entry and is kept by every iteration."""
import z3
from .terms import *
from .engine import (Obj, Phamt, ListView, SetView, DictView, PARTS, Unsupported, Cut, Raised, Maybe, Unbound, UNBOUND, SymStr, Frame, _Return, _Break, _Continue)

class Exit(Exception): pass
JOINED = "joined"

def sameval(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b): return False
    if type(a) is not type(b): return False
    if isinstance(a, tuple): return len(a) == len(b) and all(sameval(x, y) for x, y in zip(a, b))
    if type(a) in PARTS: return all(sameval(getattr(a, p), getattr(b, p)) for p in PARTS[type(a)])
    if isinstance(a, Obj): return a.id == b.id
    if isinstance(a, Maybe): return sameval(a.cond, b.cond) and sameval(a.val, b.val)
    if isinstance(a, (int, str, bool)): return a == b
    return False

def shape_of(E, v):
    if isinstance(v, Unbound): return ("unbound", None)
    if isinstance(v, Maybe): return ("unbound", shape_of(E, v.val))
    if isinstance(v, bool) or v is None or v is Ellipsis: return ("const", v)
    if isinstance(v, int): return ("const", v)
    if is_symint(v): return ("int",)
    if is_symbool(v): return ("bool",)
    if is_val(v) or isinstance(v, SymStr): return ("val",)
    if isinstance(v, tuple): return ("tuple", [shape_of(E, x) for x in v])
    if type(v) in PARTS: return ("parts", type(v), [getattr(v, p).sort() for p in PARTS[type(v)]])
    if isinstance(v, Obj): return ("sameobj", v)
    return ("const", v)

def join(E, s, v, fields=None):
    """The least shape that covers shape s and value v."""
    t = shape_of(E, v)
    return joins(E, s, t)
def joins(E, s, t):
    if s[0] == "const" and t[0] == "const" and (s[1] is t[1] or (type(s[1]) is type(t[1]) and isinstance(s[1], (int, str)) and s[1] == t[1])): return s
    if s[0] == "sameobj" and t[0] == "sameobj" and s[1].id == t[1].id: return s
    if s[0] == "unbound" or t[0] == "unbound":
        a = s[1] if s[0] == "unbound" else s; b = t[1] if t[0] == "unbound" else t
        return ("unbound", b if a is None else a if b is None else joins(E, a, b))
    def scalar(x): 
        if x[0] in ("int", "bool", "val"): return x[0]
        if x[0] == "const": return "bool" if isinstance(x[1], bool) else "int" if isinstance(x[1], int) else "val" if x[1] is None or x[1] is Ellipsis or isinstance(x[1], str) and E.strings else None
        return "val" if x[0] == "tuple" and len(x[1]) == 2 else None
    if s[0] == t[0] == "tuple" and len(s[1]) == len(t[1]): return ("tuple", [joins(E, a, b) for a, b in zip(s[1], t[1])])
    a, b = scalar(s), scalar(t)
    if a and b: return (a,) if a == b else ("val",)
    if s[0] == t[0] == "parts" and s[1] is t[1]: return s
    so, to = s[0] in ("sameobj", "obj"), t[0] in ("sameobj", "obj")
    if so and to:
        ca = s[1].cls if s[0] == "sameobj" else s[1]; cb = t[1].cls if t[0] == "sameobj" else t[1]
        if ca is cb:
            fa = s[2] if s[0] == "obj" else objfields(E, s[1]); fb = t[2] if t[0] == "obj" else objfields(E, t[1])
            if set(fa) == set(fb): return ("obj", ca, {k: joins(E, fa[k], fb[k]) for k in fa})
    raise Unsupported(f"a variable takes values of different kinds in a loop: {s[0]} {t[0]}")
def objfields(E, o):
    f = E.fields(o)
    if "#view" not in f: raise Unsupported(f"a loop variable ranges over {o.cls.__name__} objects")
    return {k: shape_of(E, v) for k, v in f.items()}

class Loop:
    HT = 300
    def __init__(self, E, frame, N, cond, one, node, it=None):
        self.E, self.frame, self.N, self.cond, self.one, self.node, self.it = E, frame, N, cond, one, node, it
        if N is not None: self.N = simplify(If(N > 0, N, 0))
    # ---- state ------------------------------------------------------------------------------------------------------
    def locs(self):
        E = self.E; out = {}
        for d, f in enumerate(E.frames):
            for n, v in f.vars.items(): out[("v", d, n)] = v
        for oid, fs in E.path.heap.items():
            if oid in self.known:
                for k, v in fs.items():
                    if self.it is not None and oid == self.it.id: continue
                    out[("h", oid, k)] = v
        return out
    def setloc(self, l, v):
        if l[0] == "v": self.E.frames[l[1]].vars[l[2]] = v
        else: self.E.fields(self.known[l[1]])[l[2]] = v
    def build(self, shape, name, parts, i, key):
        E = self.E; k = shape[0]
        def part(sort, suffix=""):
            c = fresh(name + suffix, sort); parts.append((key + suffix, c)); return c
        if k == "const": return shape[1]
        if k == "sameobj": return shape[1]
        if k == "int": return part(IntSort())
        if k == "bool": return part(BoolSort())
        if k == "val": return part(Val)
        if k == "tuple": return tuple(self.build(s, f"{name}.{j}", parts, i, f"{key}.{j}") for j, s in enumerate(shape[1]))
        if k == "parts": return shape[1](*[part(s, "." + p) for p, s in zip(PARTS[shape[1]], shape[2])])
        if k == "unbound":
            b = part(BoolSort(), "?")
            return Maybe(b, self.build(shape[1], name, parts, i, key)) if shape[1] is not None else UNBOUND
        if k == "obj":
            o = E.alloc(shape[1], {}, JOINED)
            E.path.heap[o.id] = {f: self.build(s, f"{name}.{f}", parts, i, f"{key}.{f}") for f, s in shape[2].items()}
            return o
        raise Unsupported("shape")
    def flat(self, shape, v, out, key):
        """The terms of value v for the parts of shape."""
        E = self.E; k = shape[0]
        if k in ("const", "sameobj"): return
        if k in ("int", "bool"): out.append((key, Z(v)))
        elif k == "val": out.append((key, E.toval(v)))
        elif k == "tuple":
            if not isinstance(v, tuple): raise Unsupported("tuple shape")
            for j, (s, x) in enumerate(zip(shape[1], v)): self.flat(s, x, out, f"{key}.{j}")
        elif k == "parts":
            for p in PARTS[shape[1]]: out.append((key + "." + p, getattr(v, p)))
        elif k == "unbound":
            if isinstance(v, Unbound):
                out.append((key + "?", BoolVal(False))); self.flatundef(shape[1], out, key)
            elif isinstance(v, Maybe): out.append((key + "?", v.cond)); self.flat(shape[1], v.val, out, key)
            else: out.append((key + "?", BoolVal(True))); self.flat(shape[1], v, out, key)
        elif k == "obj":
            f = E.fields(v)
            for n, s in shape[2].items(): self.flat(s, f[n], out, f"{key}.{n}")
    def flatundef(self, shape, out, key):
        if shape is None: return
        if shape[0] in ("int", "bool", "val"): out.append((key, None))
        elif shape[0] == "tuple":
            for j, s in enumerate(shape[1]): self.flatundef(s, out, f"{key}.{j}")
        elif shape[0] == "parts":
            for p in PARTS[shape[1]]: out.append((key + "." + p, None))
        elif shape[0] == "const": pass
        elif shape[0] == "obj":
            for n, s in shape[2].items(): self.flatundef(s, out, f"{key}.{n}")
        else: raise Unsupported("undefined")
    def havoc(self, i):
        parts = []
        for l, s in self.shapes.items(): self.setloc(l, self.build(s, str(l[2]), parts, i, self.key(l)))
        return parts
    def key(self, l): return f"{l[0]}{l[1]}:{l[2]}"
    def flatten(self, values):
        out = []
        for l, s in self.shapes.items(): self.flat(s, values.get(l, UNBOUND), out, self.key(l))
        return out

    # ---- the body at a symbolic iteration -------------------------------------------------------------------------------
    def body(self, i, assume):
        """Every path of one iteration: (path, conditions, parts, post terms) for those that complete."""
        E = self.E; res = []
        def fn():
            parts = self.havoc(i)
            E.path.parts = parts
            E.path.head = self.locs()
            E.assume(i >= 0)
            if self.N is not None: E.assume(i < self.N)
            S = dict(parts)
            for f in assume(i, S): E.assume(f)
            E.path.base_len = len(E.path.pc); E.path.nbr = len(E.path.branched)
            self.iteration(i)
            post = self.locs()
            E.path.post = post
        for p, kind, v in E.explore(fn):
            if kind == "ret": res.append(p)
        return res
    def iteration(self, i):
        if self.cond is not None:
            if not self.E.truth(self.cond()): raise _Break()
        try: self.one(i)
        except _Continue: pass

    def run(self):
        E = self.E
        if E.families: E.fold_all()
        self.known = {o: Obj.__new__(Obj) for o in E.path.heap}
        for o, h in self.known.items(): h.id = o; h.cls = None
        self.entry = self.locs()
        self.shapes = {}
        hit = self.recall()
        if hit is not None: cands, cont, P0 = hit
        else: cands, cont, P0 = self.infer()
        e = fint("e")
        parts = self.havoc(e); S = dict(parts)
        E.path.events += self.effects[0]; E.path.writes += self.effects[1]
        E.assume(e >= 0)
        if self.N is not None: E.assume(e <= self.N)
        for c in cands:
            for f in c.at(e, S): E.assume(f)
        if cont is not None:
            j = fint("j"); c = cont(j)
            E.assume(e <= 0 if is_false(c) else forall_int(j, Implies(And(0 <= j, j < e), c)))
        E.loop_notes.append((getattr(self.node, "lineno", 0), len(cands), [c.name for c in cands]))
        if self.N is not None and not E.branch(e < self.N):
            if self.it is not None: E.setfield(self.it, "pos", lit(simplify(Z(E.fields(self.it)["pos"]) + e)))
            return True
        if self.cond is not None:
            if not E.truth(self.cond()): return True
        try: self.one(e)
        except _Continue: pass
        except _Break: return False
        raise Cut()
    # The paths of a task are enumerated by re-execution; a loop reached again by the same path prefix, in the same state, has
    # the same invariant.
    def cache_key(self):
        E = self.E
        if not E.path.top or not hasattr(E, "loop_cache"): return None
        return (id(self.node), tuple(E.path.dec[:E.path.pos]), _counter().n)
    def recall(self):
        key = self.cache_key()
        self.ckey = key
        if key is None or key not in self.E.loop_cache: return None
        pc, entry, shapes, cands, cont, P0, n, effects = self.E.loop_cache[key]
        if len(pc) != len(self.E.path.pc) or not all(a.eq(b) or canonical(a) == canonical(b) for a, b in zip(pc, self.E.path.pc)): return None
        if set(entry) != set(self.entry) or not all(sameval(v, self.entry[l]) or _samerun(v, self.entry[l]) for l, v in entry.items()): return None
        self.shapes = shapes; _counter().n = n; self.effects = effects
        for c in cands:     # the ghosts are made anew, with the same names
            if getattr(c, "ghosts", None): c.ghosts.clear()
            l = getattr(c, "loop", None) or (c.g.loop if isinstance(getattr(c, "g", None), Seen) else None)
            if l is not None and getattr(l, "ghosts", None): l.ghosts.clear()
        return cands, cont, P0
    def infer(self):
        self.E.probing += 1
        try: cands, P0 = self.candidates()
        finally: self.E.probing -= 1
        return self.conclude(cands, P0)
    def candidates(self):
        E = self.E
        self.pc0, self.entry0 = list(E.path.pc), dict(self.entry)
        # 1. what an iteration modifies
        for rnd in range(8):
            i = fint("i")
            outs = self.body(i, lambda i, S: [])
            changed = False
            for p in outs:
                for l in set(p.post) | set(p.head):
                    a, b = p.head.get(l, UNBOUND), p.post.get(l, UNBOUND)
                    if l in self.shapes:
                        pass
                    elif sameval(a, b): continue
                    cur = self.shapes.get(l)
                    with self.at(p):
                        old = cur if cur is not None else shape_of(E, self.entry.get(l, UNBOUND))
                        new = joins(E, old, shape_of(E, b)) if not (cur is not None and cur[0] in ("obj",) and isinstance(b, Obj) and b.id == getattr(a, "id", None)) else cur
                    if cur is None or repr_shape(new) != repr_shape(cur):
                        self.shapes[l] = new; changed = True
            if not changed: break
        else: raise Unsupported("loop state does not stabilise")
        src = () if self.it is None else E.fields(self.it)["seq"].src
        if any(l[0] == "h" and l[1] == o.id for l in self.shapes for o, _ in src): raise Unsupported("iterating over an object that the loop changes")
        entry = self.flatten(self.entry)
        P0 = dict(entry)
        start = next(_counter())
        # 2. guesses
        i = fint("i")
        outs = self.body(i, lambda i, S: [])
        cands = self.guess(i, outs, P0)
        scal = [c for c in cands if isinstance(c, Scalar) and c.key in self.closed and not c.undef and c.name.endswith("closed")]
        if scal:      # guess again from what an iteration does when the counters have these values
            outs = self.body(i, lambda i, S: [f for c in scal for f in c.at(i, S)])
            cands = self.guess(i, outs, P0)
        cands += self.templates(P0, outs)
        # 3. filter
        return self.houdini(cands, P0), P0
    def conclude(self, cands, P0):
        E = self.E; pc, entry0 = self.pc0, self.entry0
        # 4. continue from an arbitrary reachable iteration
        i = fint("i"); n0 = next(_counter())
        outs = self.body(i, lambda i, S: [f for c in cands for f in c.at(i, S)])
        cont = self.contfact(i, outs, cands, P0, n0)
        self.effects = self.gather(outs)
        if self.N is None: E.ends(self.node, self.variant(i, outs, cands))
        if self.ckey is not None: E.loop_cache[self.ckey] = (pc, entry0, self.shapes, cands, cont, P0, _counter().n, self.effects)
        return cands, cont, P0
    def variant(self, i, outs, cands):
        """A natural number that every iteration makes smaller: an integer of the state that goes up to a bound or down to 0."""
        E = self.E
        if not outs: return "never repeated"
        keys = [(k, t) for k, t in outs[0].parts if t.sort() in (IntSort(), Val)]
        posts = [(p, dict(p.parts), self.posts(p)) for p in outs]
        ins = [(k, x) for l, v in self.entry.items() for k, x in [(l[2], v)] if l not in self.shapes and is_intlike(x)]
        num = lambda t: (BoolVal(True), t) if t.sort() == IntSort() else (is_int(t), vi(t))
        def measures(k):
            yield f"{k} goes down", lambda t: num(t)[1] + 1
            for b, x in sorted(ins, key=lambda a: not isz(a[1])): yield f"{k} goes up to {b}", lambda t, x=x: Z(x) - num(t)[1]
        for k, t in keys:
            for name, m in measures(k):
                def smaller(S, post):
                    a, b = S.get(k), post.get(k)
                    if a is None or b is None: return BoolVal(False)
                    f = lambda t: If(num(t)[0], If(m(t) > 0, m(t), 0), 0)
                    return f(b) < f(a)
                if all(self.holds(p, lambda: smaller(S, post)) for p, S, post in posts): return name
        return None
    def holds(self, p, f):
        with self.at(p): return self.E.must(simplify(f()), timeout=1000)
    def gather(self, outs):
        """The events and writes of the iterations (each once)."""
        E = self.E; ev, wr = [], []
        for p in outs:
            for e in p.events[len(E.path.events):]:
                if e[0] == "force" and not any(e[1].eq(x[1]) for x in ev): ev.append(e)
            for o, k in p.writes[len(E.path.writes):]:
                if o.id in self.known and not any(o.id == q.id and k == r for q, r in wr): wr.append((o, k))
        return ev, wr
    class _At:
        def __init__(self, E, p): self.E, self.p = E, p
        def __enter__(self):
            self.outer = self.E.path; self.snap = self.E.snapshot(); self.E.path = self.p; self.E.restore(self.p.final)
        def __exit__(self, *a):
            self.E.path = self.outer; self.E.restore(self.snap)
    def at(self, p): return Loop._At(self.E, p)

    def posts(self, p):
        with self.at(p): return dict(self.flatten(p.post))

    # ---- guesses ------------------------------------------------------------------------------------------------------------
    def guess(self, i, outs, P0):
        if not outs: return []
        E = self.E
        rows = []   # per path: (condition, S by key, post by key) with the consts of the first path
        base = dict(outs[0].parts)
        keys = list(base)
        for p in outs:
            S = dict(p.parts); post = self.posts(p)
            sub = [(S[k], base[k]) for k in keys if not S[k].eq(base[k])]
            f = lambda t: None if t is None else simplify(substitute(t, *sub)) if sub else simplify(t)
            conds = [f(c) for c in p.branched[p.nbr:]]
            rows.append((conds, {k: f(post.get(k)) for k in keys}))
        closed = {}    # key -> lambda i: term     (scalars)
        Sset = {base[k].get_id(): k for k in keys}
        def deps(t): return {Sset[c.get_id()] for c in free_consts(t) if c.get_id() in Sset}
        mark = int(str(i).rsplit("!", 1)[1])
        def alien(t):
            """Constants made up inside the body."""
            for c in free_consts(t):
                n = str(c).rsplit("!", 1)
                if len(n) == 2 and n[1].isdigit() and int(n[1]) > mark and c.get_id() not in Sset and not c.eq(i): return True
            return False
        def close(t):
            """t as a function of i alone, or None."""
            for _ in range(4):
                d = deps(t)
                if not d: break
                sub = []
                for k in d:
                    if k in closed: sub.append((base[k], closed[k](i)))
                    elif isinstance(base[k].sort(), z3.ArraySortRef) and P0.get(k) is not None: sub.append((base[k], P0[k]))
                    else: return None
                t = simplify(substitute(t, *sub))
            return None if deps(t) or alien(t) else t
        out = []
        progress = True
        pending = list(keys)
        while progress:
            progress = False
            for k in list(pending):
                s = base[k]; ts = [r[1][k] for r in rows]
                if any(t is None for t in ts): continue
                if isinstance(s.sort(), z3.ArraySortRef): continue
                if P0.get(k) is None and not all(not deps(t) for t in ts) and not k.endswith("?"): pass
                if s.sort() == IntSort() and P0.get(k) is not None:
                    ds = [simplify(t - s) for t in ts]
                    if all(is_int_value(d) and d.eq(ds[0]) for d in ds):
                        c = ds[0].as_long(); p0 = P0[k]
                        closed[k] = lambda j, p0=p0, c=c: simplify(p0 + c * j)
                        pending.remove(k); progress = True; continue
                if all(t.eq(ts[0]) for t in ts):
                    t = close(ts[0])
                    if t is not None:
                        p0 = P0.get(k)
                        if p0 is None: closed[k] = lambda j, t=t: simplify(substitute(t, (i, j - 1)))
                        else: closed[k] = lambda j, t=t, p0=p0: simplify(If(j > 0, substitute(t, (i, j - 1)), p0))
                        pending.remove(k); progress = True; continue
        for k, f in closed.items(): out.append(Scalar(k, f, undef=P0.get(k) is None))
        self.closed = closed
        # counts of maps and views, and other integers
        for k in pending:
            s = base[k]
            if s.sort() == IntSort() and P0.get(k) is not None:
                p0 = P0[k]
                for nm, f in (("+i", lambda j, p0=p0: p0 + j), ("same", lambda j, p0=p0: p0), ("first", lambda j, p0=p0: p0 + If(j > 0, 1, 0)),
                              ("last", lambda j, p0=p0: p0 + If(j >= (self.N if self.N is not None else IntVal(0)), If(j > 0, 1, 0), 0)), ("-i", lambda j, p0=p0: p0 - j)):
                    out.append(Scalar(k, f, name=f"{k} {nm}"))
                out.append(Fact(f"{k} grows", lambda j, S, k=k, p0=p0: [S[k] >= p0]))
                out.append(Fact(f"{k} at most i", lambda j, S, k=k, p0=p0: [S[k] <= p0 + j]))
                out.append(Fact(f"{k} shrinks", lambda j, S, k=k, p0=p0: [S[k] <= p0]))
        self.ghosts = {}
        out += self.counters(i, base, rows, pending, P0, close)
        out += self.sets(i, base, rows, pending, P0, close)
        out += self.prepends(i, base, rows, outs, P0, close)
        out += self.orders(i, base, rows, pending, P0, close)
        for k in pending:
            s = base[k]
            if s.sort() != VB: continue
            for n, (conds, post) in enumerate(rows):
                t = post[k]
                if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE and t.arg(0).eq(s) and is_true(t.arg(2))): continue
                x = close(t.arg(1)); c = self.cond_of(rows, {n}, close)
                if x is None: continue
                def f(j, S, k=k, x=x, c=c):
                    q = fint("j"); at = lambda t: substitute(t, (i, q))
                    return [at_most(q, Implies(And(0 <= q, q < j, at(c)), Select(S[k], at(x))), at(x))]
                out.append(Fact(f"{k} has {n}", f))
        # arrays
        for k in pending:
            s = base[k]
            if s.sort() == VB or not isinstance(s.sort(), z3.ArraySortRef) or P0.get(k) is None: continue
            writes = self.writes(s, [(r[0], r[1][k]) for r in rows], close)
            if writes is None:      # an index that may turn out to count the iterations
                old = dict(closed)
                for q in pending:
                    if base[q].sort() == IntSort() and P0.get(q) is not None: closed[q] = lambda j, p0=P0[q]: simplify(p0 + j)
                if len(closed) > len(old): writes = self.writes(s, [(r[0], r[1][k]) for r in rows], close)
                closed.clear(); closed.update(old)
            if writes is None: continue
            out.append(ArrayForm(k, P0[k], i, writes, self))
        return out
    def cond_of(self, rows, sel, close):
        """The condition on the iteration under which the paths of sel are taken (as far as it is known)."""
        ds = []
        for n, (conds, _) in enumerate(rows):
            if n not in sel: continue
            cs = [c for c in (close(c) for c in conds) if c is not None]
            ds.append(And(*cs) if cs else BoolVal(True))
        return simplify(Or(*ds)) if ds else BoolVal(False)
    def counters(self, i, base, rows, pending, P0, close):
        """Counters of the iterations that satisfy a condition, and lists that collect a value of each of them."""
        out = []
        for k in pending:
            s = base[k]
            if s.sort() != IntSort() or P0.get(k) is None: continue
            ts = [r[1][k] for r in rows]
            if any(t is None for t in ts): continue
            ds = [simplify(t - s) for t in ts]
            if not all(is_int_value(d) and d.as_long() in (0, 1) for d in ds) or all(d.eq(ds[0]) for d in ds): continue
            sel = {n for n, d in enumerate(ds) if d.as_long() == 1}
            c = self.cond_of(rows, sel, close)
            ak = k[:-2] + ".a" if k.endswith(".n") else None
            coll = None
            if ak in base:
                vals = []
                for n in sel:
                    t = rows[n][1][ak]
                    v = close(t.arg(2)) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE and t.arg(0).eq(base[ak]) and simplify(t.arg(1) - s).eq(IntVal(0)) else None
                    vals.append(v)
                if vals and all(v is not None and v.eq(vals[0]) for v in vals): coll = vals[0]
            if coll is not None and s is not None: out.append(Collect(k, ak, P0[k], P0[ak], i, c, coll, self))
            else: out.append(Count(k, P0[k], i, c, self))
        return out
    def prepends(self, i, base, rows, outs, P0, close):
        """Lists to whose front each iteration adds one value."""
        out = []
        for k in base:
            if not k.endswith(".a") or k[:-2] + ".n" not in base or P0.get(k) is None or not k.startswith("h"): continue
            vals = []
            for p, (conds, post) in zip(outs, rows):
                S = dict(p.parts); sub = [(S[q], base[q]) for q in base if not S[q].eq(base[q])]
                ev = [e for e in p.events if e[0] == "prepend" and e[2].eq(S[k])]
                vals.append(close(simplify(substitute(ev[-1][1], *sub)) if sub else simplify(ev[-1][1])) if ev else None)
            if not vals or any(v is None or not v.eq(vals[0]) for v in vals): continue
            val, a0, kn, n0 = vals[0], P0[k], k[:-2] + ".n", P0[k[:-2] + ".n"]
            def f(j, S, k=k, val=val, a0=a0):
                q = fint("q")
                return [ForAll([q], Implies(And(0 <= q, q < j + n0), Select(S[k], q) == If(q < j, substitute(val, (i, j - 1 - q)), Select(a0, q - j))), patterns=[Select(S[k], q)])]
            def g(j, S, k=k, val=val, a0=a0):
                q = fint("q")
                return [Implies(And(0 <= q, q < j + n0), Select(S[k], q) == If(q < j, substitute(val, (i, j - 1 - q)), Select(a0, q - j)))]
            out.append(Fact(f"{k} prepends", f, g))
        return out
    def orders(self, i, base, rows, pending, P0, close):
        """The ages of the keys of a dict to which every iteration puts one key: a new key is as old as its first iteration."""
        out = []
        for k in pending:
            s = base[k]
            if s.sort() != CI or not k.endswith(".ord") or P0.get(k) is None or k[:-4] + ".mem" not in base: continue
            ix = None; ok = True
            for conds, post in rows:
                t = post[k]
                if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE and t.arg(0).eq(s)): ok = False; break
                x = close(t.arg(1))
                if x is None or (ix is not None and not x.eq(ix)): ok = False; break
                ix = x
            if ok and ix is not None: out.append(FirstForm(k, P0[k], P0[k[:-4] + ".mem"], P0[k[:-4] + ".clk"], k[:-4] + ".mem", Seen(self, i, ix)))
        return out
    def sets(self, i, base, rows, pending, P0, close):
        """Sets of classes to which each iteration adds, from which it removes, or in which it toggles, one class."""
        out = []
        for k in pending:
            s = base[k]
            if s.sort() != CB or P0.get(k) is None: continue
            ix = None; ok = True
            for conds, post in rows:
                t = post[k]
                while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
                    x = close(t.arg(1))
                    if x is None or (ix is not None and not x.eq(ix)): ok = False
                    ix = x; t = t.arg(0)
                if t.eq(s): continue
                ok = False
            if not ok or ix is None: continue
            g = Seen(self, i, ix)
            for name, f in (("union", lambda m, b: Or(m, b)), ("minus", lambda m, b: And(m, Not(b))), ("toggle", lambda m, b: m != b)):
                out.append(SetForm(k, P0[k], g, name, f))
            out.append(SeenFact(f"{k} removed distinct", g, lambda j, g=g, p0=P0[k], i=i, ix=ix: Select(p0, substitute(ix, (i, j)))))
            out.append(SeenFact(f"{k} added distinct", g, lambda j, g=g, p0=P0[k], i=i, ix=ix: Not(Select(p0, substitute(ix, (i, j))))))
        return out
    def writes(self, s, rows, close):
        """[(cond(i), idx(i), val(i))], in program order, of the stores of one iteration; None if not of that form."""
        res = []
        for conds, t in rows:
            st = []
            t0 = t
            while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
                a, ix, v = t.children()
                st.append((ix, v)); t = a
            if not t.eq(s): return None
            st.reverse()
            cs = []
            for c in conds:
                cc = close(c)
                if cc is not None and len(rows) > 1: cs.append(cc)
            cond = And(*cs) if cs else BoolVal(True)
            for ix, v in st:
                ci, cv = close(ix), close(v)
                if ci is None or cv is None: return None
                res.append((simplify(cond), ci, cv))
        return res
    def templates(self, P0, outs):
        out = []
        for gen in getattr(self.E, "loop_templates", []): out += gen(self, P0, outs)
        # a value that an iteration leaves alone until some iteration sets it
        keys = list(P0)
        for k in keys:
            if k.endswith("?"):
                out.append(Fact(f"{k} after the first", lambda j, S, k=k: [S[k] == (j > 0)]))
                out.append(Fact(f"{k} bound", lambda j, S, k=k: [S[k]]))
            elif P0[k] is not None and P0[k].sort() in (Val, IntSort(), BoolSort()):
                out.append(Fact(f"{k} at entry", lambda j, S, k=k: [Implies(j == 0, S[k] == P0[k])]))
        return out
    def houdini(self, cands, P0):
        E = self.E
        # at entry
        keep = []
        for c in cands:
            try: fs = c.at(IntVal(0), P0, goal=True)
            except TypeError: fs = [BoolVal(False)]
            except z3.Z3Exception: fs = [BoolVal(False)]
            if fs is None: continue
            if all(E.must(f, timeout=self.HT) for f in fs): keep.append(c)
        cands = keep
        # a counter has at most one closed form
        for rnd in range(12):
            i = fint("i")
            outs = self.body(i, lambda i, S: [f for c in cands for f in c.at(i, S)])
            bad = set()
            for p in outs:
                post = self.posts(p); S = dict(p.parts)
                with self.at(p):
                    for n, c in enumerate(cands):
                        if n in bad: continue
                        try: fs = c.at(simplify(i + 1), post, goal=True, prev=(i, S))
                        except (TypeError, z3.Z3Exception): bad.add(n); continue
                        if fs is None or not all(E.must(f, timeout=self.HT) for f in fs): bad.add(n)
            if not bad: return cands
            cands = [c for n, c in enumerate(cands) if n not in bad]
        raise Unsupported("no stable invariant")
    def contfact(self, i, outs, cands, P0, n0):
        """What every completed iteration j satisfied, as a function of j."""
        if not outs: return lambda j: BoolVal(False)
        scal = {c.key: c for c in cands if isinstance(c, Scalar)}
        disj = []
        for p in outs:
            sub = [(t, scal[k].f(i)) for k, t in p.parts if k in scal]
            cs = []
            for f in p.pc[p.base_len:]:
                g = simplify(substitute(f, *sub)) if sub else f
                if any(fresh_since(c, n0) and not c.eq(i) for c in free_consts(g)): continue
                cs.append(g)
            disj.append(And(*cs) if cs else BoolVal(True))
        if any(is_true(simplify(d)) for d in disj): return None
        body = Or(*disj)
        return lambda j: substitute(body, (i, j))

def canonical(t, memo=None):
    """A term up to the order of the arguments of and, or and =."""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo: return memo[k]
    if z3.is_quantifier(t): r = ("Q", t.is_forall(), tuple(t.var_name(i) for i in range(t.num_vars())), canonical(t.body(), memo))
    elif z3.is_app(t) and t.num_args():
        cs = [canonical(c, memo) for c in t.children()]
        if z3.is_and(t) or z3.is_or(t) or z3.is_eq(t): cs.sort()
        r = (t.decl().name(),) + tuple(cs)
    else: r = t.sexpr()
    r = memo[k] = str(hash(str(r))) if len(str(r)) > 200 else str(r)
    return r
def _counter():
    from . import terms
    return terms._n
def fresh_since(c, n0):
    n = str(c).rsplit("!", 1)
    return len(n) == 2 and n[1].isdigit() and int(n[1]) >= n0
def _samerun(a, b):
    """Values that a re-execution makes anew: models, closures and functions of the same code."""
    return type(a) is type(b) and not isinstance(a, Obj) and not isz(a) and type(a).__name__ in ("Model", "Closure", "Bound", "Seq", "Slice", "ExcVal", "OpaqueStr", "dict", "tuple", "Chain", "DV", "SV", "LV", "Out", "Ret", "function", "Unbound")
def repr_shape(s):
    if s is None: return "-"
    if s[0] == "unbound": return "?" + repr_shape(s[1])
    if s[0] == "tuple": return "(" + ",".join(map(repr_shape, s[1])) + ")"
    if s[0] == "parts": return s[1].__name__
    if s[0] == "obj": return f"obj {s[1].__name__} " + ",".join(f"{k}:{repr_shape(v)}" for k, v in s[2].items())
    if s[0] == "sameobj": return f"#{s[1].id}"
    if s[0] == "const": return f"={s[1]!r}" if not isinstance(s[1], Obj) else f"#{s[1].id}"
    return s[0]

class Scalar:
    def __init__(self, key, f, undef=False, name=None): self.key, self.f, self.undef, self.name = key, f, undef, name or f"{key} closed"
    def at(self, i, S, goal=False, prev=None):
        t = S.get(self.key)
        if t is None: return [] if self.undef else [BoolVal(False)]
        if self.undef and not goal: return [Implies(i > 0, t == self.f(i))]
        if self.undef and is_int_value(simplify(i)) and simplify(i).as_long() == 0: return []
        return [t == self.f(i)]
class Fact:
    def __init__(self, name, f, g=None): self.name, self.f, self.g = name, f, g or f
    undef = False
    def at(self, i, S, goal=False, prev=None):
        """A fact about a variable that is unbound at entry is claimed from the first completed iteration on."""
        if goal and is_int_value(simplify(i)) and simplify(i).as_long() == 0:
            T = _Track(S)
            try: fs = self.g(i, T)
            except (TypeError, z3.Z3Exception, AttributeError):
                if not T.undef: raise
                fs = []
            if T.undef: self.undef = True; return []
            return fs
        fs = (self.g if goal else self.f)(i, S)
        return [Implies(i > 0, And(*fs) if len(fs) != 1 else fs[0])] if self.undef and not goal else fs
class _Track(dict):
    def __init__(self, S): super().__init__(S); self.undef = False
    def __getitem__(self, k):
        v = super().__getitem__(k)
        if v is None: self.undef = True
        return v
class ArrayForm:
    """An array after i iterations of writes (cond(i), idx(i), val(i))."""
    def __init__(self, key, p0, i, writes, loop):
        self.key, self.p0, self.i, self.writes, self.loop = key, p0, i, writes, loop
        self.name = f"{key} array"
        self.aff = [affine(ix, i) for c, ix, v in writes] if p0.sort().domain() == IntSort() else [None]
        self.affine = all(a is not None for a in self.aff) and all(is_true(simplify(c)) for c, _, _ in writes)
        self.dom = p0.sort().domain()
        self.ghosts = {}
        if not self.affine and len(writes) > 1 and not all(v.eq(writes[0][2]) for _, _, v in writes): self.dead = True
        else: self.dead = False
    def value(self, i, k, last=None):
        r = Select(self.p0, k)
        if self.affine:
            for (c, ix, v), (a, b) in zip(self.writes, self.aff):
                j = k - b if a == 1 else b - k
                r = If(And(0 <= j, j < i), substitute(v, (self.i, j)), r)
            return simplify(r)
        for (c, ix, v), l in zip(self.writes, last):
            lk = Select(l, k)
            r = If(lk >= 0, substitute(v, (self.i, lk)), r)
        return simplify(r)
    def ghost(self, i):
        """The last iteration (before i) in which each write touched an index, or -1."""
        key = i.get_id()
        if key not in self.ghosts:
            ls = []; facts = []
            for c, ix, v in self.writes:
                l = fresh("last", ArraySort(self.dom, IntSort()))
                k, j = fresh("k", self.dom), fint("j")
                lk = Select(l, k)
                facts.append(ForAll([k], And(-1 <= lk, lk < i, Implies(lk >= 0, And(substitute(ix, (self.i, lk)) == k, substitute(c, (self.i, lk))))), patterns=[lk]))
                ij = substitute(ix, (self.i, j))
                body = Implies(And(0 <= j, j < i, substitute(c, (self.i, j))), Select(l, ij) >= j)
                facts.append(ForAll([j], body, **(dict(patterns=[ij]) if is_pattern(ij, j) else {} if has_ite(ij) or not any(x.eq(j) for x in free_consts(ij)) else dict(patterns=[Select(l, ij)]))))
                if is_true(simplify(c)) and not any(x.eq(self.i) for x in free_consts(ix)): facts.append(Select(l, ix) >= i - 1)
                ls.append(l)
            self.ghosts[key] = (i, ls, facts)
        return self.ghosts[key][1:]
    def at(self, i, S, goal=False, prev=None):
        if self.dead: return [BoolVal(False)] if goal else []
        if S.get(self.key) is None: return [BoolVal(False)] if goal else []
        arr = S[self.key]
        k = fresh("k", self.dom)
        if self.affine:
            f = Select(arr, k) == self.value(i, k)
            if goal: return [f]
            return [ForAll([k], f, patterns=[Select(arr, k)])]
        if goal:
            if is_int_value(simplify(i)): return [Select(arr, k) == Select(self.p0, k)]
            pi, PS = prev
            ls, facts = self.ghost(pi)
            new = [If(substitute(c, (self.i, pi)), Store(l, substitute(ix, (self.i, pi)), pi), l) for (c, ix, v), l in zip(self.writes, ls)]
            return [Select(arr, k) == self.value(i, k, new)]
        ls, facts = self.ghost(i)
        return facts + [ForAll([k], Select(arr, k) == self.value(i, k, ls), patterns=[Select(arr, k)])]
def at_most(j, body, pat):
    """ForAll j. body, matched on pat when that is possible."""
    if is_pattern(pat, j): return ForAll([j], body, patterns=[pat])
    return forall_int(j, body)
class Seen:
    """Ghost: for a class, the last iteration so far whose class it was, or -1."""
    def __init__(self, loop, i, ix): self.loop, self.i, self.ix = loop, i, ix
    def idx(self, j): return substitute(self.ix, (self.i, j))
    def at(self, i):
        """(the ghost array after i iterations, the facts about it)"""
        G = self.loop.ghosts; key = (self.ix.get_id(), i.get_id())
        if key not in G:
            L = fresh("seen", CI); c, j = fresh("c", Cls), fint("j")
            lc = Select(L, c); cj = self.idx(j)
            facts = [ForAll([c], And(-1 <= lc, lc < i, Implies(lc >= 0, self.idx(lc) == c)), patterns=[lc]),
                     at_most(j, Implies(And(0 <= j, j < i), Select(L, cj) >= j), cj)]
            G[key] = (i, L, facts)
        return G[key][1:]
    def step(self, i):
        L, _ = self.at(i)
        return Store(L, self.idx(i), i)
class SetForm:
    undef = False
    def __init__(self, key, p0, g, name, f): self.key, self.p0, self.g, self.name, self.f = key, p0, g, f"{key} {name}", f
    def at(self, i, S, goal=False, prev=None):
        arr = S.get(self.key)
        if arr is None: return [BoolVal(False)]
        c = fresh("c", Cls)
        if goal:
            if is_int_value(simplify(i)): return [Select(arr, c) == Select(self.p0, c)]
            return [Select(arr, c) == self.f(Select(self.p0, c), Select(self.g.step(prev[0]), c) >= 0)]
        L, facts = self.g.at(i)
        return facts + [ForAll([c], Select(arr, c) == self.f(Select(self.p0, c), Select(L, c) >= 0), patterns=[Select(arr, c), Select(L, c)])]
class FirstForm:
    undef = False
    def __init__(self, key, p0, mem0, clk0, memk, g): self.key, self.p0, self.mem0, self.clk0, self.memk, self.g, self.name = key, p0, mem0, clk0, memk, g, f"{key} first"
    def ghost(self, i):
        """For a class that was seen, its first iteration."""
        G = self.g.loop.ghosts; key = ("first", self.g.ix.get_id(), i.get_id())
        L, seen = self.g.at(i)
        if key not in G:
            F = fresh("first", CI); c, j = fresh("c", Cls), fint("j")
            fc = Select(F, c); cj = self.g.idx(j)
            facts = [ForAll([c], Implies(Select(L, c) >= 0, And(0 <= fc, fc <= Select(L, c), self.g.idx(fc) == c)), patterns=[fc]),
                     at_most(j, Implies(And(0 <= j, j < i), Select(F, cj) <= j), cj)]
            G[key] = (i, F, facts)
        return G[key][1], L, seen + G[key][2]
    def at(self, i, S, goal=False, prev=None):
        arr, mem = S.get(self.key), S.get(self.memk)
        if arr is None: return [BoolVal(False)]
        c = fresh("c", Cls)
        val = lambda F: Select(arr, c) == If(Select(self.mem0, c), Select(self.p0, c), self.clk0 + Select(F, c))
        if goal:
            if is_int_value(simplify(i)): return [Implies(Select(mem, c), Select(arr, c) == Select(self.p0, c))]
            F, L, _ = self.ghost(prev[0]); cj = self.g.idx(prev[0])
            F2 = If(Select(L, cj) >= 0, F, Store(F, cj, prev[0]))
            return [Implies(Select(mem, c), val(F2))]
        F, L, facts = self.ghost(i)
        return facts + [ForAll([c], Implies(Select(mem, c), val(F)), patterns=[Select(arr, c), Select(L, c)])]
class SeenFact:
    """Every iteration so far satisfied f, and no class came twice."""
    undef = False
    def __init__(self, name, g, f): self.name, self.g, self.f = name, g, f
    def at(self, i, S, goal=False, prev=None):
        j = fint("j")
        if goal:
            if is_int_value(simplify(i)): return []
            L2 = self.g.step(prev[0]); L, _ = self.g.at(prev[0])
            return [Implies(And(0 <= j, j < i), And(self.f(j), Select(L2, self.g.idx(j)) == j))]
        L, facts = self.g.at(i)
        return facts + [at_most(j, Implies(And(0 <= j, j < i), And(self.f(j), Select(L, self.g.idx(j)) == j)), self.g.idx(j))]
class Count:
    """A counter of the iterations that satisfy c: it is 0 iff none did, and i iff all did."""
    undef = False
    def __init__(self, key, p0, i, c, loop): self.key, self.p0, self.i, self.c, self.loop, self.name = key, p0, i, c, loop, f"{key} counts"
    def cond(self, j): return substitute(self.c, (self.i, j))
    def wit(self, i):
        G = self.loop.ghosts; k = (self.key, "count", i.get_id())
        if k not in G: G[k] = (i, fint("w"), fint("v"))
        return G[k][1:]
    def facts(self, i, n, w, v, j):
        """(the ground facts, the facts for all j)"""
        return ([And(0 <= n, n <= i), Implies(n > 0, And(0 <= w, w < i, self.cond(w))), Implies(n < i, And(0 <= v, v < i, Not(self.cond(v))))],
                [Implies(And(n == 0, 0 <= j, j < i), Not(self.cond(j))), Implies(And(n == i, 0 <= j, j < i), self.cond(j))])
    def at(self, i, S, goal=False, prev=None):
        n = S[self.key] - self.p0; j = fint("j")
        if goal:
            if is_int_value(simplify(i)): return [n == 0]
            pi = prev[0]; w, v = self.wit(pi)
            a, b = self.facts(i, n, If(self.cond(pi), pi, w), If(self.cond(pi), v, pi), j)
            return a + b + [S[self.key] == prev[1][self.key] + If(self.cond(pi), 1, 0)]
        w, v = self.wit(i)
        a, b = self.facts(i, n, w, v, j)
        self.loop.E.is_count(n, i, self.cond)
        return a + [forall_int(j, f) for f in b]
class Collect:
    """A list to which each iteration that satisfies c appends a value."""
    undef = False
    def __init__(self, key, ak, p0, a0, i, c, val, loop):
        self.key, self.ak, self.p0, self.a0, self.i, self.c, self.val, self.loop, self.name = key, ak, p0, a0, i, c, val, loop, f"{key} collects"
    def ghost(self, i):
        G = self.loop.ghosts; k = (self.key, "collect", i.get_id())
        AI = ArraySort(IntSort(), IntSort())
        if k not in G: G[k] = (i, fresh("src", AI), fresh("inv", AI))
        return G[k][1:]
    def sub(self, t, j): return substitute(t, (self.i, j))
    def clauses(self, i, n, a, src, inv, k, k2, j):
        e = Select(src, k)
        return [(None, And(0 <= n - self.p0, n - self.p0 <= i)), ((k,), Implies(And(0 <= k, k < self.p0), Select(a, k) == Select(self.a0, k))),
                ((k,), Implies(And(self.p0 <= k, k < n), And(0 <= e, e < i, self.sub(self.c, e), Select(a, k) == self.sub(self.val, e), Select(inv, e) == k))),
                ((k, k2), Implies(And(self.p0 <= k, k < k2, k2 < n), e < Select(src, k2))),
                ((j,), Implies(And(0 <= j, j < i, self.sub(self.c, j)), And(self.p0 <= Select(inv, j), Select(inv, j) < n, Select(src, Select(inv, j)) == j)))]
    def at(self, i, S, goal=False, prev=None):
        n, a = S[self.key], S[self.ak]; k, k2, j = fint("k"), fint("k2"), fint("j")
        if goal:
            if is_int_value(simplify(i)): return [n == self.p0, Implies(And(0 <= k, k < n), Select(a, k) == Select(self.a0, k))]
            pi, PS = prev; src, inv = self.ghost(pi); c = self.sub(self.c, pi)
            src2, inv2 = If(c, Store(src, PS[self.key], pi), src), If(c, Store(inv, pi, PS[self.key]), inv)
            return [f for _, f in self.clauses(i, n, a, src2, inv2, k, k2, j)]
        src, inv = self.ghost(i)
        out = []
        for vs, f in self.clauses(i, n, a, src, inv, k, k2, j):
            if vs is None: out.append(f)
            elif vs == (k,): out.append(ForAll([k], f, patterns=[Select(a, k), Select(src, k)]))
            elif vs == (j,):
                ps = [q for q in (self.sub(self.c, j), self.sub(self.val, j)) for q in _subpats(q, j)]
                out.append(ForAll([j], f, patterns=[Select(inv, j)] + ps[:3]))
            else: out.append(ForAll([k, k2], f, patterns=[z3.MultiPattern(Select(src, k), Select(src, k2))]))
        return out
def _subpats(t, j):
    return [Select(a, ix) for a, ix in selects_on(t, j) if ix.eq(j) and not any(c.eq(j) for c in free_consts(a))]
def has_ite(t):
    return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c) for c in t.children()))
def is_pattern(t, j):
    return z3.is_app(t) and t.num_args() > 0 and any(c.eq(j) for c in free_consts(t)) and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)
