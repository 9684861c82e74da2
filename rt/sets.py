"""Run-time contracts of the set operations (C05-C07)."""
import itertools
from .common import State, Enough

PATS = ["same", "two", "neg", "big", "small", "uniq", "none"]
TS = ("pset", "tset")

def histories(mon, nk=4, depth=5):
    """Edit histories over nk keys: enumerated by length, then random longer ones."""
    steps = [str(i) for i in range(nk)] + [f"x{i}" for i in range(nk)]
    yield ""
    for k in range(1, depth + 1):
        for h in itertools.product(steps, repeat=k):
            if h[0].startswith("x"): continue
            yield "".join(h)

# histories that pass between a collection and its transient or persistent counterpart
MIXED = ["0v1", "v0v1", "0v1v2", "v0v1v2", "v0v12", "0v12v3", "01v2v3v4", "v01v23", "v0x0v1", "v01x1v1v2", "0v1x0v2", "01vx0v2v0", "v012vx1v34", "0vv1v2v3x2v4", "v0v1v2v3v4v5", "012v3x1v5x0v6"]
def sstates(mon, types=TS, nk=3, depth=4, rand=True):
    for h in histories(mon, nk, 2):
        for p in PATS:
            for T in types: yield State(f"s = shist({T}, {p!r}, {h!r})", fresh=T == "tset", tag=(T, p), info=(p, h))
    for h in MIXED:
        for p in ("same", "two", "uniq"):
            for T in types: yield State(f"s = shist({T}, {p!r}, {h!r})", fresh=T == "tset", tag=(T, p), info=(p, h))
    hs = [h for h in histories(mon, nk, depth)]
    hs = hs[:200] + mon_shuffle(mon, hs[200:])
    for h in hs:
        for p in ("same", "two", "neg"):
            for T in types: yield State(f"s = shist({T}, {p!r}, {h!r})", fresh=T == "tset", tag=(T, p), info=(p, h))
    while rand and not mon.over():
        r = mon.rng
        h = "".join(r.choice(("t", "c", "v") + tuple("01234567") * 2 + tuple(f"x{i}" for i in range(8)) * r.randint(0, 2)) for _ in range(r.randint(3, 24)))
        p = r.choice(PATS)
        for T in types: yield State(f"s = shist({T}, {p!r}, {h!r})", fresh=T == "tset", tag=(T, p, "r"), info=(p, h))

def mon_shuffle(mon, xs):
    import random
    xs = list(xs); random.Random(mon.seed).shuffle(xs); return xs

SOPS = [  # (name, real, model of the resulting key list; for pset the result, for tset the receiver)
    ("add", "s.add(k)", "s_add(M, k)"),
    ("discard", "s.discard(k)", "s_del(M, k)"),
    ("remove", "s.remove(k)", "s_remove(M, k)"),
]
def c05(mon):
    try:
        for n, st in enumerate(sstates(mon)):
            if mon.over(): break
            if not mon.mine(n): continue
            p, h = st.info
            if not mon.setup(st): continue
            T = st.tag[0]
            pool = f"keys_of({p!r})"
            size = len(mon.ns["s"]) if mon.ok(st, "len(s) >= 0") else 0
            # reads agree with each other
            mon.case(st, f"it = list(s); assert len(it) == len(s) == len(nodup(it)), f'iteration yields {{it}}, len is {{len(s)}}'\nfor k in {pool} + twins_of({p!r}): assert (k in s) == any(k == j for j in it), f'{{k}} in s is {{k in s}}, elements are {{it}}'",
                     None, (st.tag, "reads", size))
            if not mon.ok(st, f"ssound(s, {pool})"): mon.skipped += 1; continue
            # history as a whole against the built-in set
            chk = f"m = set(); h = iter({h!r})\nfor ch in h:\n    if ch == 'x': m.discard({pool}[int(next(h))])\n    elif ch not in 'tcv': m.add({pool}[int(ch)])\nassert eq_members(s, list(m)), f'history {h} gives {{show(s)}} instead of {{m}}'"
            mon.case(st, chk, None, (st.tag, "hist", len(h)))
            mon.sample(st, "s.add(k) for every key")
            for src in (f"keys_of({p!r})", f"twins_of({p!r})"):
                for i in range(6):
                    for name, real, model in SOPS:
                        if T == "pset":
                            body = f"M = list(s); r = out(lambda: {real}); m = out(lambda: {model}); agree(r, Out(m.exc, None if m.exc else MS(m.val)), holds, {real!r})\nfor k in {pool}: assert r.exc is not None or (k in r.val) == s_has(m.val, k), f'{{k}} in result is {{k in r.val}}'"
                        else:
                            body = f"M = list(s); r = out(lambda: {real}); m = out(lambda: {model}); agree(r, Out(m.exc, None), holds, {real!r}); m = m.val if m.exc is None else M; assert eq_members(s, m), f'after {real} on {{M}}: {{show(s)}}'\nfor k in {pool}: assert (k in s) == s_has(m, k), f'after {real}: {{k}} in s is {{k in s}}'"
                        mon.case(st, body, dict(k=f"{src}[{i}]"), (st.tag, name, size))
            if T == "pset":
                mon.case(st, "M = list(s); r = out(lambda: s.clear()); agree(r, Out(None, MS([])), holds, 's.clear()')", None, (st.tag, "clear", size))
                mon.case(st, "M = list(s); r = out(lambda: s.pop())\nif not M: assert isinstance(r.exc, KeyError), r\nelse:\n    assert r.exc is None, r\n    (e, t) = r.val\n    assert s_has(M, e) and eq_members(t, s_del(M, e)), f's.pop() on {M}: {r}'", None, (st.tag, "pop", size))
            else:
                mon.case(st, "M = list(s); r = out(lambda: s.clear()); assert r.exc is None and eq_members(s, []), r", None, (st.tag, "clear", size))
                mon.case(st, "M = list(s); r = out(lambda: s.pop())\nif not M: assert isinstance(r.exc, KeyError), r\nelse:\n    assert r.exc is None, r\n    assert s_has(M, r.val) and eq_members(s, s_del(M, r.val)), f's.pop() on {M}: {r}, left {show(s)}'", None, (st.tag, "pop", size))
    except Enough:
        pass
    # larger sets
    try:
        for n in [33, 100, 1000] + [c + d for c in mon.ints if 8 < c < 1500 for d in (-1, 0, 1)]:
            for mod in (1, 3, 10**9):
                if n > 300 and mod < 10: continue
                S = State(f"ks = [K(i % {mod}, i) for i in range({n})]; s = pset(ks); t = tset(ks)", ("ks", "s", "t"))
                mon.case(S, "assert len(s) == len(ks) == len(list(s)) and all(k in s for k in ks), 'pset of distinct keys'; assert len(t) == len(ks) and all(k in t for k in ks), 'tset of distinct keys'\nd = s\nfor k in ks[::2]: d = d.discard(k)\nassert len(d) == len(ks) // 2 and all((k in d) == bool(i % 2) for i, k in enumerate(ks)), 'discarding every other key'\nd = t.copy()\nfor k in ks[::2]: d.discard(k)\nassert len(d) == len(ks) // 2 and all((k in d) == bool(i % 2) for i, k in enumerate(ks)), 'discarding every other key from a tset'", None, ("large", n, mod))
    except Enough:
        pass

def subsets(n): return list(itertools.product((0, 1), repeat=n))
def build(kind, p, bits, order=0, twins=False):
    src = "twins_of" if twins else "keys_of"
    ix = [i for i, b in enumerate(bits) if b]
    if order: ix = ix[::-1]
    lst = "[" + ", ".join(f"{src}({p!r})[{i}]" for i in ix) + "]"
    if kind == "list": return lst
    if kind == "iter": return f"iter({lst})"
    if kind == "keys": return f"dict.fromkeys({lst}).keys()"
    if kind == "dup": return f"{lst} * 2"
    if kind == "psetx":   # reached through an extra element that was removed again
        return f"pset([keys_of({p!r})[7]] + {lst}).discard(keys_of({p!r})[7])" if 7 not in ix else f"pset({lst})"
    return f"{kind}({lst})"

SETKINDS = ["pset", "tset", "set", "frozenset", "psetx", "keys"]
BINOPS = [("|", "A | B"), ("&", "A & B"), ("-", "A - B"), ("^", "A ^ B")]
PM = [("union", "A | B", True), ("intersection", "A & B", False), ("difference", "A - B", True), ("symmetric_difference", "A ^ B", False)]
def c06(mon):
    def cases():
        subs = subsets(4)
        for p in PATS:
            for a in subs:
                for b in subs:
                    for own in ("pset", "tset", "psetx"):
                        tr = own == "tset"
                        okind = mon.rng.choice(SETKINDS) if (sum(a) + sum(b)) > 2 else None
                        for other in ([okind] if okind else SETKINDS):
                            order = mon.rng.randint(0, 1); tw = mon.rng.random() < .3
                            S = State(f"s = {build(own, p, a)}; o = {build(other, p, b, order, tw)}; A = frozenset(s); B = frozenset(o)", ("s", "o", "A", "B"), fresh=True, tag=(p, own, other))
                            yield S, own, other, sum(a), sum(b), sum(1 for i, j in zip(a, b) if i and j)
    def frame(both=True):
        return "; assert eq_members(s, list(A)), f'the operation changed its operand to {show(s)}'; assert eq_members(o, list(B)), f'the operation changed its operand to {show(o)}'"
    def keep(keep_self):   # for in-place operations
        return "; assert o is s or eq_members(o, list(B)), f'the operation changed its operand to {show(o)}'"
    try:
        todo = list(cases())
        import random
        random.Random(mon.seed + 1).shuffle(todo)
        for n, (S, own, other, na, nb, nc) in enumerate(todo):
            if mon.over(): break
            if not mon.mine(n): continue
            if not mon.setup(S) or not mon.ok(S, "ssound(s, A | B) and A == frozenset(s) and len(list(o)) == len(B)"): mon.skipped += 1; continue
            cl = (own, other, na, nb, nc)
            for op, model in BINOPS:
                mon.case(S, f"r = out(lambda: s {op} o); agree(r, Out(None, MS({model})), holds, 's {op} o')" + frame(), None, (op,) + cl)
                rmodel = model.replace("A", "$").replace("B", "A").replace("$", "B")
                mon.case(S, f"r = out(lambda: o {op} s); agree(r, Out(None, MS({rmodel})), holds, 'o {op} s')" + frame(), None, ("r" + op,) + cl)
                if own == "tset":
                    mon.case(S, f"t = s\nt {op}= o\nassert t is s, 'in-place operator made a new object'\nassert eq_members(s, list({model})), f's {op}= o gave {{show(s)}} instead of {{{model}}}'" + keep(1), None, (op + "=",) + cl)
            for name, model, it in PM:
                for arg in ("o",) + (("list(o)", "iter(list(o))", "list(o) + list(o)") if it else ()):
                    mon.case(S, f"r = out(lambda: s.{name}({arg})); agree(r, Out(None, MS({model})), holds, 's.{name}({arg})')" + frame(), None, (name, arg) + cl)
            mon.sample(S, "s ^ o")
            if own != "tset":
                for name, model in (("union", "A | B | C"), ("intersection", "A & B & C"), ("difference", "A - B - C"), ("symmetric_difference", "A ^ B ^ C")):
                    c = mon.rng.choice(["frozenset(list(A)[:1])", "frozenset(list(B)[1:])", "frozenset()", "A"])
                    mon.case(S, f"C = {c}; r = out(lambda: s.{name}(o, C)); agree(r, Out(None, MS({model})), holds, 's.{name}(o, C)')" + frame(), None, (name, 3) + cl)
                    mon.case(S, f"r = out(lambda: s.{name}()); agree(r, Out(None, MS(A)), holds, 's.{name}()')", None, (name, 1) + cl)
                    mon.case(S, f"C = B; r = out(lambda: s.{name}(o, o)); agree(r, Out(None, MS({model})), holds, 's.{name}(o, o)')" + frame(), None, (name, "twice") + cl)
                for arg in ("o", "list(o)", "list(o) * 2"):
                    mon.case(S, f"r = out(lambda: s.addall({arg})); agree(r, Out(None, MS(A | B)), holds, 's.addall({arg})')" + frame(), None, ("addall", arg) + cl)
                    mon.case(S, f"r = out(lambda: s.discardall({arg})); agree(r, Out(None, MS(A - B)), holds, 's.discardall({arg})')" + frame(), None, ("discardall", arg) + cl)
                for arg in ("o", "list(o)"):
                    mon.case(S, f"r = out(lambda: s.removeall({arg}))\nif B <= A: agree(r, Out(None, MS(A - B)), holds, 's.removeall({arg})')\nelse: assert isinstance(r.exc, KeyError), r\nassert eq_members(s, list(A)), 'removeall changed the receiver'", None, ("removeall", arg) + cl)
            else:
                for name, model, it in (("update", "A | B", True), ("intersection_update", "A & B", False), ("difference_update", "A - B", True), ("symmetric_difference_update", "A ^ B", False), ("addall", "A | B", True), ("discardall", "A - B", True)):
                    for arg in ("o",) + (("list(o)", "list(o) * 2") if it else ()):
                        mon.case(S, f"r = out(lambda: s.{name}({arg})); assert r.exc is None and r.val is None, r; assert eq_members(s, list({model})), f's.{name}({arg}) left {{show(s)}} instead of {{{model}}}'" + keep(1), None, (name, arg) + cl)
                for name, model in (("update", "A | B | C"), ("intersection_update", "A & B & C"), ("difference_update", "A - B - C")):
                    c = mon.rng.choice(["frozenset(list(A)[:1])", "frozenset(list(B)[1:])", "frozenset(list(A - B))", "frozenset()", "A"])
                    mon.case(S, f"C = {c}; r = out(lambda: s.{name}(o, C)); assert r.exc is None and r.val is None, r; assert eq_members(s, list({model})), f's.{name}(o, C) left {{show(s)}} instead of {{{model}}}'" + keep(1), None, (name, 3) + cl)
                    mon.case(S, f"r = out(lambda: s.{name}()); assert r.exc is None and r.val is None, r; assert eq_members(s, list(A)), f's.{name}() left {{show(s)}}'", None, (name, 1) + cl)
                    mon.case(S, f"C = B; r = out(lambda: s.{name}(o, o)); assert r.exc is None and r.val is None, r; assert eq_members(s, list({model})), f's.{name}(o, o) left {{show(s)}} instead of {{{model}}}'" + keep(1), None, (name, "twice") + cl)
                mon.case(S, "r = out(lambda: s.removeall(o))\nif B <= A: assert r.exc is None and eq_members(s, list(A - B)), f's.removeall(o): {r}, left {show(s)}'\nelse: assert isinstance(r.exc, KeyError), r", None, ("removeall",) + cl)
            # the receiver itself as operand
            selfops = [("s | s", "A"), ("s & s", "A"), ("s - s", "A - A"), ("s ^ s", "A - A"), ("s.union(s)", "A"), ("s.intersection(s)", "A"), ("s.difference(s)", "A - A"), ("s.symmetric_difference(s)", "A - A")]
            for e, model in selfops:
                mon.case(S, f"r = out(lambda: {e}); agree(r, Out(None, MS({model})), holds, {e!r}); assert eq_members(s, list(A)), 'the operation changed its operand'", None, ("self", e, own, na))
            if own == "tset":
                for st, model in (("t |= s", "A"), ("t &= s", "A"), ("t -= s", "A - A"), ("t ^= s", "A - A"), ("t.update(s)", "A"), ("t.difference_update(s)", "A - A"), ("t.discardall(s)", "A - A"), ("t.removeall(s)", "A - A"), ("t.symmetric_difference_update(s)", "A - A"), ("t.intersection_update(s)", "A")):
                    mon.case(S, f"t = s\n{st}\nassert t is s, '{st} with t = s made a new object'\nassert eq_members(s, list({model})), f'{st} with t = s left {{show(s)}}'", None, ("selfin", st, na))
            # constructors
            for T in TS:
                mon.case(S, f"r = out(lambda: {T}(o)); agree(r, Out(None, MS(B)), holds, '{T}(o)'); r = out(lambda: {T}(list(o) * 2)); agree(r, Out(None, MS(B)), holds, '{T}(list)'); r = out(lambda: {T}(s)); agree(r, Out(None, MS(A)), holds, '{T}(s)')" + frame(), None, ("new", T) + cl)
        while not mon.over():     # larger random sets, collisions by modulus
            r = mon.rng; n = r.choice([6, 10, 33, 65]); mod = r.choice([1, 2, 5, 10**6])
            pa, pb = r.random(), r.random()
            A = [i for i in range(n) if r.random() < pa]; B = [i for i in range(n) if r.random() < pb]
            own = r.choice(TS); other = r.choice(["pset", "tset", "set", "frozenset"])
            S = State(f"ks = [K(i % {mod}, i) for i in range({n})]; s = {own}([ks[i] for i in {A}]); o = {other}([ks[i] for i in {B}]); A = frozenset([ks[i] for i in {A}]); B = frozenset([ks[i] for i in {B}])", ("s", "o", "A", "B"), fresh=True)
            for op, model in BINOPS:
                mon.case(S, f"r = out(lambda: s {op} o); agree(r, Out(None, MS({model})), holds, 's {op} o'); assert eq_members(s, list(A)) and eq_members(o, list(B)), 'operand changed'", None, ("L" + op, own, other, n, mod))
            for name, model, it in PM:
                mon.case(S, f"r = out(lambda: s.{name}(o)); agree(r, Out(None, MS({model})), holds, 's.{name}(o)')", None, ("L" + name, own, other, n, mod))
    except Enough:
        pass

def c07(mon):
    CMP = ["==", "!=", "<", "<=", ">", ">="]
    body = "; ".join(f"r = out(lambda: s {o} o); agree(r, out(lambda: A {o} B), same, 's {o} o')" for o in CMP)
    rbody = "; ".join(f"r = out(lambda: o {o} s); agree(r, out(lambda: B {o} A), same, 'o {o} s')" for o in CMP)
    meth = "; ".join(f"r = out(lambda: s.{m}(o)); agree(r, out(lambda: A.{m}(B)), same, 's.{m}(o)')" for m in ("isdisjoint", "issubset", "issuperset"))
    methl = "; ".join(f"r = out(lambda: s.{m}({a})); agree(r, out(lambda: A.{m}(B)), same, 's.{m}({a})')" for m in ("issubset", "issuperset") for a in ("list(o)", "list(o) * 2"))
    meti = "L = list(o)\nfor d in range(max(1, len(L))):\n    O = L[d:] + L[:d]\n" + "".join(f"    r = out(lambda: s.{m}({a}(O))); agree(r, out(lambda: A.{m}(B)), same, f's.{m}({a}({{O}}))')\n" for m in ("issubset", "issuperset") for a in ("iter", "reversed", "(lambda X: (e for e in X))", "tuple", "dict.fromkeys", "plist"))
    try:
        todo = []
        for p in PATS:
            for a in subsets(4):
                for b in subsets(4):
                    for own in ("pset", "tset", "psetx"): todo.append((p, a, b, own))
        import random
        random.Random(mon.seed + 2).shuffle(todo)
        for n, (p, a, b, own) in enumerate(todo):
            if mon.over(): break
            if not mon.mine(n): continue
            for other in SETKINDS:
                S = State(f"s = {build(own, p, a)}; o = {build(other, p, b, mon.rng.randint(0, 1), mon.rng.random() < .3)}; A = frozenset(s); B = frozenset(o)", ("s", "o", "A", "B"), tag=(p, own, other))
                if not mon.setup(S) or not mon.ok(S, f"ssound(s, keys_of({p!r})) and len(A) == {sum(a)} and len(B) == {sum(b)}"): mon.skipped += 1; continue
                nc = sum(1 for i, j in zip(a, b) if i and j); cl = (own, other, sum(a), sum(b), nc)
                mon.case(S, body, None, ("cmp",) + cl)
                if other != "keys": mon.case(S, rbody, None, ("rcmp",) + cl)
                mon.case(S, meth, None, ("meth",) + cl)
                mon.case(S, methl, None, ("methl",) + cl)
                if other in ("pset", "set"): mon.case(S, meti, None, ("meti",) + cl)
                mon.sample(S, "s <= o")
                mon.case(S, "assert (s == s) is True and (s <= s) is True and (s < s) is False and (s != s) is False, 'comparison with itself'", None, ("self", own, sum(a)))
        for own in TS:
            for n in (0, 1, 2):
                for o in ("None", "0", "'ab'", "[]", "[0]", "(0, 1)", "{}", "{0: 1}", "plist()", "plist([0])", "pdict()", "pdict({0: 1})", "tdict()", "object()"):
                    S = State(f"s = {own}(range({n})); o = {o}", ("s", "o"))
                    mon.case(S, "r = out(lambda: s == o); assert r.exc is None and r.val is False, f's == o: {r}'; r = out(lambda: s != o); assert r.exc is None and r.val is True, f's != o: {r}'", None, ("other", own, n, o))
        while not mon.over():
            r = mon.rng; n = r.choice([5, 9, 33, 65, 130]); mod = r.choice([1, 2, 5, 10**6])
            A = sorted(r.sample(range(n), r.randint(0, n))); B = list(A)
            for _ in range(r.randint(0, 2)):
                i = r.randrange(n)
                if i in B: B.remove(i)
                else: B.append(i)
            if r.random() < .2: B = [i for i in range(n) if i not in A]
            own = r.choice(TS); other = r.choice(["pset", "tset", "set", "frozenset"])
            S = State(f"ks = [K(i % {mod}, i) for i in range({n})]; s = {own}([ks[i] for i in {A}]); o = {other}([ks[i] for i in {B}]); A = frozenset([ks[i] for i in {A}]); B = frozenset([ks[i] for i in {B}])", ("s", "o", "A", "B"))
            for bdy, nm in ((body, "cmp"), (rbody, "rcmp"), (meth, "meth")): mon.case(S, bdy, None, ("L" + nm, own, other, n, mod))
    except Enough:
        pass

CHECKS = dict(C05=c05, C06=c06, C07=c07)
