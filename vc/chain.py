"""The hashed chains shared by the set and dict types: els maps an index to (payload, next index or None); idx maps a hash to the
first index of its chain. The well-formedness predicate, and the loop templates for walks along a chain."""
import z3
from .terms import *
from .engine import Obj, Phamt, Unsupported
from .loops import Fact
from .pymodel import THAMT

class Chain:
    """els, idx, top with a ghost loc: the index at which a class is (or would be) stored. A chain of a fixture has ghost arrays
    P (payload), N (next index, -1 for none), F (first index of a hash) that agree with the entries of the maps."""
    def __init__(self, els, idx, top, keyp, loc, P=None, N=None, F=None):
        self.els, self.idx, self.top, self.keyp, self.loc, self.P, self.N, self.F = els, idx, Z(top), keyp, loc, P, N, F
    def d(self, j): return Select(self.els.dom, j)
    def e(self, j): return Select(self.els.val, j)
    def pay(self, j): return Select(self.P, j) if self.P is not None else fst(self.e(j))
    def key(self, j): return self.keyp(self.pay(j))
    def c(self, j): return cls(self.key(j))
    def h(self, j): return H(self.c(j))
    def di(self, h): return Select(self.idx.dom, h)
    def iv(self, h): return Select(self.idx.val, h)
    def mem(self, c):
        l = Select(self.loc, c)
        return And(self.d(l), self.c(l) == c)
    def hasnext(self, j): return Select(self.N, j) >= 0 if self.N is not None else is_int(snd(self.e(j)))
    def next(self, j): return Select(self.N, j) if self.N is not None else vi(snd(self.e(j)))
    def first(self, h): return Select(self.F, h) if self.F is not None else vi(self.iv(h))
    # each clause: (name, number of bound variables, body, patterns)
    def clauses(self, payload_ok):
        d, e, c, h, di, iv, first = self.d, self.e, self.c, self.h, self.di, self.iv, self.first
        def D1(j):
            if self.P is None: return Implies(d(j), And(is_tup(e(j)), Or(is_none(snd(e(j))), is_int(snd(e(j))))))
            return Implies(d(j), e(j) == vtup(self.pay(j), If(self.hasnext(j), vint(self.next(j)), vnone)))
        def D2(k):
            if self.F is None: return Implies(di(k), is_int(iv(k)))
            return Implies(di(k), iv(k) == vint(first(k)))
        def A1(j): return Implies(d(j), And(0 <= j, j < self.top, payload_ok(self.pay(j))))
        def A1b(j):
            m = self.next(j)
            return Implies(And(d(j), self.hasnext(j)), And(j < m, d(m), h(m) == h(j)))
        def A2(j): return Implies(d(j), Select(self.loc, c(j)) == j)
        def A3(k): return Implies(di(k), And(d(first(k)), h(first(k)) == k))
        def A4(j): return Implies(d(j), And(di(h(j)), first(h(j)) <= j))
        def A5(j, m): return Implies(And(d(j), d(m), j < m, h(j) == h(m)), And(self.hasnext(j), self.next(j) <= m))
        return [("entries", 1, D1, lambda j: [e(j)]), ("index entries", 1, D2, lambda k: [iv(k)]), ("range", 1, A1, lambda j: [d(j)]),
                ("next", 1, A1b, lambda j: [self.next(j)]), ("distinct", 1, A2, lambda j: [d(j)]),
                ("index", 1, A3, lambda k: [di(k)]), ("first", 1, A4, lambda j: [d(j)]), ("order", 2, A5, lambda j, m: [z3.MultiPattern(self.next(j), d(m))])]

def fixture(E, name, keyp, payload_ok):
    d, v, n = fresh("ED" + name, AB), fresh("EV" + name, AV), fint("en" + name)
    di, iv, ni = fresh("ID" + name, AB), fresh("IV" + name, AV), fint("in" + name)
    top, loc = fint("top" + name), fresh("loc" + name, CI)
    AI = ArraySort(IntSort(), IntSort())
    ch = Chain(Phamt(d, v, n), Phamt(di, iv, ni), top, keyp, loc, fresh("P" + name, AV), fresh("N" + name, AI), fresh("F" + name, AI))
    E.assume(And(n >= 0, ni >= 0, top >= 0, ni <= n))
    assume_wf(E, ch, payload_ok)
    return ch
def assume_wf(E, ch, payload_ok):
    for nm, k, f, pats in ch.clauses(payload_ok):
        vs = [fint("q") for _ in range(k)]
        E.assume(ForAll(vs, f(*vs), patterns=pats(*vs)))
    # an empty map has no entries; one entry is enough for a positive count
    q = fint("q")
    E.assume(ForAll([q], Implies(ch.d(q), ch.els.n > 0), patterns=[ch.d(q)]))
    w = fint("w")
    E.assume(Implies(ch.els.n > 0, ch.d(w)))
    E.assume((ch.els.n > 0) == (ch.idx.n > 0))
def prove_wf(E, ch, payload_ok, where, tag="wf"):
    ok = True
    for nm, k, f, pats in ch.clauses(payload_ok):
        vs = [fint("g") for _ in range(k)]
        ok = E.goal(tag, f"{where}: {nm}", f(*vs)) and ok
    return ok
def pick_loc(E, els, idx, top, keyp, cands):
    """A witness for the ghost loc of a new state: the first candidate that makes the entries distinct."""
    for loc in cands:
        ch = Chain(els, idx, top, keyp, loc)
        j = fint("g")
        if E.must(Implies(ch.d(j), Select(loc, ch.c(j)) == j), timeout=4000): return ch
    return Chain(els, idx, top, keyp, cands[0])

def arrpats(arrays, x):
    return [Select(a, x) for a in arrays if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED]
def unfolded(E, fam, o, v, ch):
    """The fields of a concrete state of an abstract object, with the chain ch."""
    if o.cls in fam.persistent: u = {"_els": ch.els, "_idx": ch.idx, "_top": ch.top, "_hashcode": fval("hash")}
    else:
        u = {"_els": E.alloc(THAMT, {"#map": ch.els, "#ro": (o, v)}, "pre"), "_idx": E.alloc(THAMT, {"#map": ch.idx, "#ro": (o, v)}, "pre"), "_top": ch.top, "_version": fint("version")}
        u["_orig"] = lambda: E.alloc(fam.pers_of[o.cls], {"#view": v}, "pre") if E.branch(fbool("has_orig")) else None
    return u, (ch.els, ch.idx, ch.top)
def foldable(E, fam, o, empty):
    """The view of a concrete object, when it is plain: its maps are empty or those of an unfolded object."""
    f = E.fields(o); m = lambda x: E.fields(x)["#map"] if isinstance(x, Obj) and x.cls is THAMT else x
    els, idx, top = m(f.get("_els")), m(f.get("_idx")), f.get("_top")
    if not isinstance(els, Phamt) or not isinstance(idx, Phamt) or top is None or isinstance(top, Obj): return None
    none = z3.K(IntSort(), BoolVal(False)); v = None
    if els.dom.eq(none) and idx.dom.eq(none) and is_int_value(Z(els.n)) and Z(els.n).as_long() == 0 and E.must(Z(top) >= 0): v = empty
    else:
        for o2, v2, u, key in getattr(E.path, "unfolds", []):
            if len(key) != 3: continue
            e2, i2, t2 = key
            if isinstance(e2, Phamt) and els is e2 and idx is i2 and E.must(Z(top) == t2): v = v2
    og = f.get("_orig")
    if v is not None and (E.unset(fam, o) or not E.unhashed(f)): return None
    if v is not None and og is not None and not (isinstance(og, Obj) and og.cls is fam.pers_of.get(o.cls) and E.isview(og) and E.view(og) is v): return None
    return v
class _Parts:
    def __init__(self, S, parts): self.S, self.parts = S, parts
    def __getitem__(self, k):
        if k not in self.parts: return self.S[k]
        v, f = self.parts[k]
        return If(is_tup(self.S[v]), f(self.S[v]), vnone)
def is_tup_term(t): return t is not None and z3.is_app(t) and t.decl().eq(vtup(vnone, vnone).decl())
def templates(loop, P0, outs):
    E = loop.E; out = []
    def Fact_(name, vs, f):
        def g(i, S):
            if not all(S[v].sort() == Val for v in vs if v in P0): return []
            return f(i, S if not parts else _Parts(S, parts))
        return Fact(name, g)
    vals = [k for k, t in P0.items() if t is None or t.sort() == Val]
    chains = getattr(E.path, "chains", []); targets = getattr(E.path, "targets", [])
    if not chains: return out
    # a variable that becomes a pair: its parts are treated like variables
    parts = {}
    for p in outs:
        post = loop.posts(p)
        for v in vals:
            if is_tup_term(post.get(v)): parts[v + ".0"], parts[v + ".1"] = (v, fst), (v, snd)
    for v in {v for v, _ in parts.values()}:
        out.append(Fact_(f"{v} pair after first", [v], lambda i, S, v=v: [is_none(S[v]) == (i == 0), Or(is_none(S[v]), is_tup(S[v]))]))
    vals += list(parts)
    for ch in chains:
        for t in targets:
            ht = H(cls(t))
            for v in vals:
                out.append(Fact_(f"{v} on chain", [v], lambda i, S, v=v, ch=ch, ht=ht: [Or(is_none(S[v]), And(is_int(S[v]), ch.d(vi(S[v])), ch.h(vi(S[v])) == ht))]))
                def f2(i, S, v=v, ch=ch, ht=ht, t=t):
                    m = fint("m")
                    return [ForAll([m], Implies(And(ch.d(m), ch.h(m) == ht, Or(is_none(S[v]), m < vi(S[v]))), ch.c(m) != cls(t)), patterns=[ch.d(m)])]
                out.append(Fact_(f"{v} not before", [v], f2))
                for w in vals:
                    if w == v: continue
                    out.append(Fact_(f"{w} before {v}", [v, w], lambda i, S, v=v, w=w, ch=ch, ht=ht: [Implies(is_int(S[w]), And(ch.d(vi(S[w])), ch.h(vi(S[w])) == ht, snd(ch.e(vi(S[w]))) == S[v]))]))
                    out.append(Fact_(f"{v} payload of {w}", [v, w], lambda i, S, v=v, w=w, ch=ch: [Implies(is_int(S[w]), S[v] == ch.pay(vi(S[w])))]))
    for v in vals:
        out.append(Fact_(f"{v} none at first", [v], lambda i, S, v=v: [is_none(S[v]) == (i == 0), Or(is_none(S[v]), is_int(S[v]))]))
        out.append(Fact_(f"{v} index", [v], lambda i, S, v=v: [Or(is_none(S[v]), is_int(S[v]))]))
        out.append(Fact_(f"{v} int after first", [v], lambda i, S, v=v: [Implies(i > 0, is_int(S[v]))]))
    return out
