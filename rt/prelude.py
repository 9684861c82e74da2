# ---- helpers of the run-time contract monitor (copied verbatim into every replay file) ----
import collections, functools, copy, itertools, pickle, threading, time, gc
import pcollections
from pcollections import *
from pcollections.abc import (PersistentSequence, TransientSequence, PersistentSet, TransientSet,
                              PersistentMapping, TransientMapping, Persistent, Transient)
from pcollections import holdlazy, unlazy
from pcollections._lazy import LazyError

class E:
    """An opaque element: equal to every E with the same e; the object itself tells equal ones apart."""
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __eq__(self, o): return isinstance(o, E) and self.e == o.e
    def __hash__(self): return hash(("E", self.e))
    def __lt__(self, o): return self.e < o.e if isinstance(o, E) else NotImplemented
    def __gt__(self, o): return self.e > o.e if isinstance(o, E) else NotImplemented
    def __le__(self, o): return self.e <= o.e if isinstance(o, E) else NotImplemented
    def __ge__(self, o): return self.e >= o.e if isinstance(o, E) else NotImplemented
    def __repr__(self): return f"E({self.e})"
class K:
    """A key with a chosen hash h; equality is equality of e; the object itself tells equal keys apart."""
    __slots__ = ("h", "e")
    def __init__(self, h, e): self.h, self.e = h, e
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, K) and self.e == o.e
    def __lt__(self, o): return self.e < o.e
    def __repr__(self): return f"K(h={self.h},e={self.e})"
_E = [E(i) for i in range(64)]
a0, a1, a2, a3, a4, a5, a6, a7, a8, a9 = _E[:10]
x, y = E(100), E(101)
b0, b1, b2 = E(0), E(1), E(2)       # equal to a0, a1, a2 but other objects

_TW = [E(i) for i in range(300)]
def tw(L, i):
    """An object equal to element i of L, but another one."""
    e = L[i] if -len(L) <= i < len(L) else None
    return _TW[e.e] if isinstance(e, E) and e.e < 300 else x

CALLS = []
def lz(v, fail=0):
    """A lazy object: its function logs each call, fails `fail` times, then returns v."""
    left = [fail]
    def compute():
        CALLS.append(v)
        if left[0]:
            left[0] -= 1
            raise ValueError("planned failure")
        return v
    return lazy(compute)
def ready(v):
    l = lz(v); l(); del CALLS[:]
    return l
def un(v): return v() if isinstance(v, lazy) else v

# -- reading collections ---------------------------------------------------------------------
def raw(s):
    """The stored elements, lazies not computed, by iteration."""
    if isinstance(s, llist): return list(s.as_plist())
    if isinstance(s, tllist): return [s.getlazy(i) for i in range(len(s))]
    return list(s)
def rawi(s):
    """The stored elements by indexing."""
    g = s.getlazy if isinstance(s, (llist, tllist)) else s.__getitem__
    return [g(i) for i in range(len(s))]
def rawd(d):
    """The stored items of a dict, lazies not computed."""
    if isinstance(d, ldict): return list(d.as_pdict().items())
    if isinstance(d, tldict): return list(d.as_tdict().items())
    return list(d.items())
def rawget(d, k, default=None):
    if isinstance(d, (ldict, tldict)): return d.getlazy(k, default)
    return d.get(k, default)
def same(a, b):
    """Same objects in the same order."""
    a, b = list(a), list(b)
    return len(a) == len(b) and all(u is v for u, v in zip(a, b))
def sameval(a, b): return same(map(un, a), map(un, b))
def tryf(f):
    try: return f()
    except Exception as e: return e
def sound(s):
    """Iteration, indexing and len of the list agree (the state can be used as a starting point)."""
    try: return same(raw(s), rawi(s))
    except Exception: return False
def holds(s, m):
    """The contents of the list s are exactly the objects of the list m (by iteration or by indexing)."""
    r = tryf(lambda: raw(s))
    if isinstance(r, list) and same(r, m): return True
    r = tryf(lambda: rawi(s))
    return isinstance(r, list) and same(r, m)
def holdsval(s, m):
    m = list(map(un, m))
    r = tryf(lambda: list(s))
    if isinstance(r, list) and same(map(un, r), m): return True
    r = tryf(lambda: rawi(s))
    return isinstance(r, list) and same(map(un, r), m)
def show(v):
    try:
        if isinstance(v, (PersistentSequence, TransientSequence)): return f"{type(v).__name__}({raw(v)!r})"
        if isinstance(v, (PersistentSet, TransientSet)): return f"{type(v).__name__}({list(v)!r})"
        if isinstance(v, (PersistentMapping, TransientMapping)): return f"{type(v).__name__}({rawd(v)!r})"
        return repr(v)
    except Exception as e:
        return f"<{type(v).__name__} whose contents cannot be read: {e!r}>"

# -- outcomes --------------------------------------------------------------------------------
class Out:
    __slots__ = ("exc", "val")
    def __init__(self, exc, val): self.exc, self.val = exc, val
    def __repr__(self):
        return f"raises {type(self.exc).__name__}({self.exc})" if self.exc is not None else f"returns {show(self.val)}"
def out(f):
    try: return Out(None, f())
    except Exception as e: return Out(e, None)
def tree(v, m, eq):
    """Does the real value v agree with the model value m?"""
    if isinstance(m, MS): return eq_members(v, m.keys)
    if isinstance(m, MD): return holdsd(v, m.items)
    if isinstance(m, tuple): return isinstance(v, tuple) and len(v) == len(m) and all(tree(a, b, eq) for a, b in zip(v, m))
    if isinstance(m, list): return eq(v, m)
    if m is None or isinstance(m, (bool, int, str)): return type(v) is type(m) and v == m
    return un(v) is un(m)
def agree(r, m, eq=holds, what=""):
    """The real outcome r agrees with the model outcome m."""
    if m.exc is not None:
        assert r.exc is not None, f"{what}: {r}, but the built-in {m}"
        assert isinstance(r.exc, type(m.exc)), f"{what}: {r}, but the built-in {m}"
    else:
        assert r.exc is None, f"{what}: {r}, but the built-in {m}"
        assert tree(r.val, m.val, eq), f"{what}: {r}, but the built-in {m}"
def is_(r, s, what=""):
    assert r.exc is None and r.val is s, f"{what}: {r}, expected the receiver itself, {show(s)}"

# -- models of operations on built-in lists --------------------------------------------------------
def l_do(L, f):
    m = list(L); f(m); return m
def l_set(L, i, v): m = list(L); m[i] = v; return m
def l_del(L, i=-1): m = list(L); del m[i]; return m
def l_ins(L, i, v): m = list(L); m.insert(i, v); return m
def l_drop(L, i=-1): return l_del(L, i) if -len(L) <= i < len(L) else list(L)
def l_pop(L, i=-1): return (L[i], l_del(L, i))
def l_rem(L, v): m = list(L); m.remove(v); return m

# -- histories that build lists ----------------------------------------------------------------------
TLIST = {"plist": tlist, "llist": tllist}
def lhist(T, h, els=None):
    """A list of type T built by the history h: p/a prepend/append the next element, f/l/m delete first/last/middle,
    i insert in the middle, s overwrite the middle, t go through a transient or persistent and back, c copy,
    digits: start from that many elements, v: go on with the transient (or persistent) counterpart."""
    els = iter(_E if els is None else els)
    trans = issubclass(T, TransientSequence)
    s = T()
    for ch in h:
        n = len(s)
        if ch.isdigit():
            s = T([next(els) for _ in range(int(ch))])
        elif ch == "t":
            s = s.persistent().transient() if trans else s.transient().persistent()
        elif ch == "c":
            s = s.copy()
        elif ch == "v":
            s = s.persistent() if trans else s.transient(); trans = not trans
        elif trans:
            if ch == "p": s.prepend(next(els))
            elif ch == "a": s.append(next(els))
            elif ch == "i": s.insert(n // 2, next(els))
            elif n == 0: pass
            elif ch == "f": del s[0]
            elif ch == "l": del s[n - 1]
            elif ch == "m": del s[n // 2]
            elif ch == "s": s[n // 2] = next(els)
        else:
            if ch == "p": s = s.prepend(next(els))
            elif ch == "a": s = s.append(next(els))
            elif ch == "i": s = s.insert(n // 2, next(els))
            elif n == 0: pass
            elif ch == "f": s = s.delete(0)
            elif ch == "l": s = s.delete(n - 1)
            elif ch == "m": s = s.delete(n // 2)
            elif ch == "s": s = s.set(n // 2, next(els))
    return s if type(s) is T else s.persistent() if trans else s.transient()
def mixed(n):
    """n different hashable values of several types."""
    mk = (lambda i: i, lambda i: f"s{i}", lambda i: (i, -i), lambda i: i + 0.5, lambda i: -i - 1, lambda i: b"%d" % i, lambda i: K(i % 3, i))
    return [mk[(i * i + i // 5) % 7](i) for i in range(n)]
def mixedmap(n):
    """n entries under keys of several types ."""
    return [(k, (i, "v")) for (i, k) in enumerate(mixed(n)) if type(k) is not K]
def lmake(T, start, n, els=None):
    """A list of type T with n elements whose first element lies `start` places from where a fresh list begins."""
    els = list(itertools.islice(itertools.cycle(_E) if els is None else els, n))
    trans = issubclass(T, TransientSequence)
    if start <= 0:
        k = min(-start, n)            # the first k elements by prepending
        extra = -start - k
        s = T(els[k:])
        for e in reversed(els[:k]):
            if trans: s.prepend(e)
            else: s = s.prepend(e)
        if extra and n:               # shift further left: prepend a dummy, delete the last, re-add
            for _ in range(extra):
                if trans: s.prepend(x); del s[len(s) - 1]
                else: s = s.prepend(x).delete(len(s))
            for i in range(n):
                if trans: s[i] = els[i]
                else: s = s.set(i, els[i])
    else:
        s = T([x] * start + els)
        for _ in range(start):
            if trans: del s[0]
            else: s = s.delete(0)
    return s
def lazies(pattern):
    """Elements for a lazy list: '.' plain, 'L' lazy, 'R' lazy already computed."""
    r = []
    for i, c in enumerate(pattern):
        r.append(_E[i] if c == "." else lz(_E[i]) if c == "L" else ready(_E[i]))
    return r

# -- sets ------------------------------------------------------------------------------------------------
HASHES = {   # hash patterns: key i has hash HASHES[p][i]
    "same":  [7] * 8,
    "two":   [3, 3, 5, 3, 5, 5, 3, 5],
    "neg":   [-2, -2, -2, 4, 4, -2, -2, -2],
    "big":   [2**60, -2**60, 2**60, -2**60, 2**60, 0, 0, 0],
    "small": [0, 0, 1, 1, 0, 1, 2, 2],
    "uniq":  [11, 12, 13, 14, 15, 16, 17, 18],
    "none":  [None] * 8,
}
_KEYS = {p: [K(h, i) if h is not None else i for i, h in enumerate(hs)] for p, hs in HASHES.items()}
_TWIN = {p: [K(h, i) if h is not None else float(i) for i, h in enumerate(hs)] for p, hs in HASHES.items()}
def keys_of(p): return _KEYS[p]
def twins_of(p): return _TWIN[p]     # equal keys, other objects
class MS:
    """Model value: a set with exactly these keys."""
    def __init__(self, keys): self.keys = list(keys)
    def __repr__(self): return f"a set of {self.keys!r}"
class MD:
    """Model value: a dict with exactly these items, in this order."""
    def __init__(self, d): self.items = list(d.items()) if isinstance(d, dict) else list(d)
    def __repr__(self): return f"a dict of {self.items!r}"
def nodup(keys):
    r = []
    for k in keys:
        if not any(k == j for j in r): r.append(k)
    return r
def members(s): return list(s)
def eq_members(s, keys, pool=()):
    """s has exactly these members, read by iteration or by membership and len."""
    it = tryf(lambda: list(s))
    if isinstance(it, list) and len(it) == len(keys) and all(any(k == j for j in it) for k in keys): return True
    def by_in(): return len(s) == len(keys) and all(k in s for k in keys)
    return tryf(by_in) is True
def ssound(s, pool):
    """Iteration, len and membership of the set agree."""
    try:
        it = list(s)
        return (len(it) == len(s) == len(nodup(it)) and all((k in s) == any(k == j for j in it) for k in pool))
    except Exception: return False
def shist(T, p, h):
    """A set of type T built by the history h over the keys of hash pattern p:
    '3' add key 3, 'x3' discard key 3, 't' through a transient/persistent and back, 'c' copy, 'v' go on with the
    transient (or persistent) counterpart."""
    ks = keys_of(p); trans = issubclass(T, TransientSet)
    s = T(); it = iter(h)
    for ch in it:
        if ch == "t": s = s.persistent().transient() if trans else s.transient().persistent()
        elif ch == "c": s = s.copy()
        elif ch == "v": s = s.persistent() if trans else s.transient(); trans = not trans
        elif ch == "x":
            k = ks[int(next(it))]
            if trans: s.discard(k)
            else: s = s.discard(k)
        else:
            k = ks[int(ch)]
            if trans: s.add(k)
            else: s = s.add(k)
    return s if type(s) is T else s.persistent() if trans else s.transient()
def s_del(M, k): return [j for j in M if not j == k]
def s_add(M, k): return list(M) if any(j == k for j in M) else list(M) + [k]
def s_has(M, k): return any(j == k for j in M)
def s_remove(M, k):
    if not s_has(M, k): raise KeyError(k)
    return s_del(M, k)

# -- dicts --------------------------------------------------------------------------------------------------
_V = [E(200 + i) for i in range(64)]
def d_get(M, k, *default):
    for j, v in M:
        if j == k: return v
    if default: return default[0]
    raise KeyError(k)
def d_has(M, k): return any(j == k for j, _ in M)
def d_set(M, k, v):
    if d_has(M, k): return [(j, v if j == k else w) for j, w in M]
    return list(M) + [(k, v)]
def d_del(M, k):
    if not d_has(M, k): raise KeyError(k)
    return [(j, w) for j, w in M if not j == k]
def d_drop(M, k): return [(j, w) for j, w in M if not j == k]
def d_fold(M, items):
    for k, v in items: M = d_set(M, k, v)
    return M
def sameitems(a, b, val=lambda v: v):
    return len(a) == len(b) and all(j == k and val(v) is val(w) for (j, v), (k, w) in zip(a, b))
def holdsd(d, items, order=False):
    """d maps exactly these keys to these (raw) values, read by items() or by lookups."""
    it = tryf(lambda: rawd(d))
    if isinstance(it, list) and len(it) == len(items) and len(nodup([k for k, _ in it])) == len(it) \
            and all(d_has(it, k) and d_get(it, k) is v for k, v in items): return True
    if order: return False
    miss = object()
    def by_get(): return len(d) == len(items) and all(rawget(d, k, miss) is v for k, v in items)
    return tryf(by_get) is True
def holdsdval(d, items):
    """The same with lazy values computed."""
    it = tryf(lambda: list(d.items()))
    return isinstance(it, list) and len(it) == len(items) and all(
        d_has(it, k) and un(d_get(it, k)) is un(v) for k, v in items)
def dsound(d, pool):
    try:
        it = rawd(d); miss = object()
        return (len(it) == len(d) == len(nodup([k for k, _ in it]))
                and all((rawget(d, k, miss) is d_get(it, k, miss)) for k in pool)
                and same([k for k, _ in it], list(d)))
    except Exception: return False
LAZIER = {pdict: ldict, tdict: tldict}
def dhist(T, p, h, vals=None):
    """A dict of type T built by the history h over keys of hash pattern p:
    '3' set key 3 to the next value, 'x3' delete key 3, 't' through transient/persistent, 'c' copy, 'v' go on with
    the other kind, 'a' from the lazy class to the plain one (and back, when T is lazy)."""
    ks = keys_of(p); trans = issubclass(T, TransientMapping)
    vals = iter(_V if vals is None else vals)
    d = (LAZIER.get(T, T) if "a" in h else T)(); it = iter(h)
    for ch in it:
        if ch == "a":
            if hasattr(d, "as_pdict"): d = d.as_pdict() if T is pdict else ldict(d.as_pdict())
            elif hasattr(d, "as_tdict"): d = d.as_tdict() if T is tdict else tldict(d.as_tdict())
            continue
        if ch == "t": d = d.persistent().transient() if trans else d.transient().persistent()
        elif ch == "c": d = d.copy()
        elif ch == "v": d = d.persistent() if trans else d.transient(); trans = not trans
        elif ch == "x":
            k = ks[int(next(it))]
            if trans: d.pop(k, None)
            else: d = d.drop(k)
        else:
            k = ks[int(ch)]; v = next(vals)
            if trans: d[k] = v
            else: d = d.set(k, v)
    if isinstance(d, TransientMapping) and not issubclass(T, TransientMapping): d = d.persistent()
    elif issubclass(T, TransientMapping) and not isinstance(d, TransientMapping): d = d.transient()
    return d if type(d) is T else d.as_pdict() if T is pdict else d.as_tdict() if T is tdict else T(d)
# ---- end of helpers ----
# ---- helpers for properties about several collections ----
def fam(c):
    if isinstance(c, (PersistentSequence, TransientSequence)): return "list"
    if isinstance(c, (PersistentSet, TransientSet)): return "set"
    if isinstance(c, (PersistentMapping, TransientMapping)): return "dict"
def snap(c):
    """Everything a reader can see of c, lazies not computed."""
    f = fam(c)
    if f == "list": return (type(c), len(c), tryf(lambda: raw(c)), tryf(lambda: rawi(c)))
    if f == "set": return (type(c), len(c), tryf(lambda: list(c)))
    if f == "dict": return (type(c), len(c), tryf(lambda: rawd(c)), tryf(lambda: list(c)))
    if isinstance(c, (list, tuple)): return (type(c), list(c))
    if isinstance(c, dict): return (type(c), list(c.items()))
    if isinstance(c, (set, frozenset)): return (type(c), sorted(map(id, c)))
def samesnap(a, b):
    if isinstance(a, Exception) or isinstance(b, Exception): return type(a) is type(b)
    if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(samesnap(u, v) for u, v in zip(a, b))
    return a is b or (type(a) in (int, bool, str, float) and a == b)
def unchanged(c, old, what=""):
    new = snap(c)
    assert samesnap(old, new), f"{what}: a collection changed from {old[1:3]} to {new[1:3]}"
def consistent(c, keys=()):
    """The ways of reading c agree (a starting point for a case)."""
    f = fam(c)
    try:
        if f == "list": return sound(c)
        if f == "set": return ssound(c, keys)
        if f == "dict": return dsound(c, keys)
    except Exception: return False
    return True
def shows(t, p, what=""):
    """p has exactly the contents (and order of entries) of t."""
    f = fam(t)
    if f == "list":
        L = raw(t)
        assert len(p) == len(t) and (same(raw(p), L) or same(rawi(p), L)), f"{what}: {show(p)} instead of {L}"
    elif f == "set":
        L = list(t)
        assert len(p) == len(t) and same(list(p), L), f"{what}: {show(p)} instead of {L}"
    else:
        L = rawd(t)
        assert len(p) == len(t) and sameitems(rawd(p), L), f"{what}: {show(p)} instead of {L}"
PAIRED = {plist: tlist, llist: tllist, pset: tset, pdict: tdict, ldict: tldict}
UNPAIR = {t: p for p, t in PAIRED.items()}
def slots(c):
    r = []
    for k in type(c).__mro__:
        v = k.__dict__.get("__slots__", ())
        r += [v] if isinstance(v, str) else list(v)
    return [s for s in r if s != "__weakref__"]
# ---- end ----
