"""Run-time contracts of the list operations (C01-C04, C15) and the shared tables of list operations."""
import itertools
from .common import State, Enough

PT = ("plist", "llist"); TT = ("tlist", "tllist")
SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 8]

def big_sizes(mon, limit=2100):
    r = {31, 32, 33, 64, 65, 1024, 1025}
    for c in mon.ints:
        if 8 < abs(c) <= limit: r |= {abs(c) - 1, abs(c), abs(c) + 1}
    return sorted(n for n in r if 8 < n <= limit)

def lstates(mon, types, deep=True, big=True, hist=True, sizes=SIZES, starts=range(-9, 6)):
    """States in order of interest: (layout, length) grid; random and enumerated histories; large ones."""
    fresh = lambda T: T in TT
    for n in sizes:
        for st in starts:
            for T in types:
                yield State(f"s = lmake({T}, {st}, {n})", fresh=fresh(T), tag=(T, "grid"), info=(n, st))
    if hist:
        for k in (1, 2, 3, 4):
            for h in itertools.product("paflmist", repeat=k):
                if h[0] in "flmt" : continue
                for T in types:
                    yield State(f"s = lhist({T}, {''.join(h)!r})", fresh=fresh(T), tag=(T, "hist"), info=(None, None))
    if big:
        for n in big_sizes(mon):
            for st in (0, -1, -(n // 2), -n - 1, 2):
                for T in types:
                    yield State(f"s = lmake({T}, {st}, {n})", fresh=fresh(T), tag=(T, "big"), info=(n, st))
    if deep:
        while not mon.over():
            k = mon.rng.randint(4, 22)
            h = str(mon.rng.randint(0, 9)) + "".join(mon.rng.choice("papaiflmist" if mon.rng.random() < .5 else "paflmistcvv") for _ in range(k))
            for T in types:
                yield State(f"s = lhist({T}, {h!r})", fresh=fresh(T), tag=(T, "rand"), info=(None, None))

def idxs(n, big=False, mon=None):
    if n <= 10: return range(-n - 2, n + 3)
    r = {0, 1, 2, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1, n, n + 1, -1, -2, -n, -n - 1, -n + 1, -(n // 2)}
    if mon is not None:
        for c in mon.ints:
            if abs(c) < n + 2: r |= {c, c - 1, c + 1, n - c}
    return sorted(r)

# Operations that return an edited persistent list: (name, real, model, parameters)
EDITS = [
    ("set", "s.set(i, v)", "l_set(L, i, v)", "iv"),
    ("setsame", "s.set(i, L[i])", "l_set(L, i, L[i])", "i"),
    ("settwin", "s.set(i, tw(L, i))", "l_set(L, i, tw(L, i))", "i"),
    ("delete", "s.delete(i)", "l_del(L, i)", "i"),
    ("delete0", "s.delete()", "l_del(L)", ""),
    ("insert", "s.insert(i, v)", "l_ins(L, i, v)", "iv"),
    ("drop", "s.drop(i)", "l_drop(L, i)", "i"),
    ("drop0", "s.drop()", "l_drop(L)", ""),
    ("pop", "s.pop(i)", "l_pop(L, i)", "i"),
    ("pop0", "s.pop()", "l_pop(L)", ""),
    ("append", "s.append(v)", "L + [v]", "v"),
    ("prepend", "s.prepend(v)", "[v] + L", "v"),
    ("clear", "s.clear()", "[]", ""),
]
VALS = ["x", "b1", "None", "a0"]

def params(mon, spec, n, vals=VALS):
    iv = [{}]
    if "i" in spec: iv = [dict(i=str(i)) for i in idxs(n, mon=mon)]
    if "v" in spec: iv = [dict(d, v=vals[(k + n) % len(vals)]) for k, d in enumerate(iv)] if len(iv) > 1 else [dict(d, v=v) for d in iv for v in vals]
    return iv

def each(mon, types, fn, **kw):
    """fn(state, n) for every sharded state that can be built and is sound."""
    try:
        for k, st in enumerate(lstates(mon, types, **kw)):
            if mon.over(): break
            if not mon.mine(k): continue
            if not mon.setup(st) or not mon.ok(st, "sound(s)"):
                mon.skipped += 1; continue
            n = mon.ns["s"]
            fn(st, len(n))
    except Enough:
        pass

def c01(mon):
    def one(st, n):
        for name, real, model, spec in EDITS:
            body = f"L = raw(s); r = out(lambda: {real}); agree(r, out(lambda: {model}), holds, {real!r})"
            for p in params(mon, spec, n):
                mon.case(st, body, p, (st.tag, name, n, p.get("i")))
        mon.sample(st, "s.insert(1, x)")
    each(mon, PT, one)

READS = [
    ("len", "len(s)", "len(L)", ""),
    ("get", "s[i]", "L[i]", "i"),
    ("iter", "list(iter(s))", "list(L)", ""),
    ("iter2", "list(zip(s, s))", "list(zip(L, L))", ""),
    ("rev", "list(reversed(s))", "L[::-1]", ""),
    ("bool", "bool(s)", "bool(L)", ""),
    ("in", "w in s", "w in L", "w"),
    ("count", "s.count(w)", "L.count(w)", "w"),
    ("index", "s.index(w)", "L.index(w)", "w"),
]
def c02(mon):
    dup = "[a0, a1, b1, a2, a0, b0, a3, a1, a5]"
    def cases():
        for n in range(0, 9):
            for start in list(range(-9, 6)):
                for T in PT + TT:
                    yield State(f"E0 = {dup}[:{n}]; s = lmake({T}, {start}, {n}, E0); L = list(E0)", ("s", "L"), False, (T, "grid"), (n, start))
        yield from hist_states()
    def hist_states():
        for st in lstates(mon, PT + TT):
            yield State(st.src + "; L = rawi(s)", ("s", "L"), False, st.tag, st.info)
    try:
        # long lists of elements of many types: the searches see every element
        for n in [5, 9, 18, 33, 40, 70, 130] + [c + d for c in mon.ints if 4 < c < 300 for d in (1, 2)]:
            for T in PT + TT:
                if mon.over(): break
                S = State(f"L = mixed({n}); s = {T}(L)", ("s", "L"), False, (T, "mixed"), (n, 0))
                mon.case(S, "for (k, w) in enumerate(L):\n    assert w in s, f'{w!r} in s is False, s[{k}] is it'\n    assert s.index(w) == L.index(w), f's.index({w!r})'\n    assert s.count(w) == L.count(w), f's.count({w!r})'\n    assert s.index(w, -1000, 1000) == L.index(w), f's.index({w!r}, -1000, 1000)'\nassert not any(w in s for w in ('none', -77, (9, 9), 7.25, b'n')), 'an absent element is in s'", None, (T, "mixed", n))
        for k, st in enumerate(cases()):
            if mon.over(): break
            if not mon.mine(k): continue
            if not mon.setup(st):
                mon.skipped += 1; continue
            n = len(mon.ns["L"])
            if st.tag[1] == "grid" and not mon.ok(st, "holds(s, L)"):
                # neither iteration nor indexing gives what was put in: building is broken, or both reads are
                st = State(st.src + "; L = rawi(s)", ("s", "L"), False, st.tag, st.info)
                if not mon.setup(st): continue
                n = len(mon.ns["L"])
            ps = {"": [{}], "i": [dict(i=str(i)) for i in idxs(n, mon=mon)], "w": [dict(w=w) for w in ("a0", "a1", "b1", "a2", "x", "a7")]}
            for name, real, model, spec in READS:
                body = f"r = out(lambda: {real}); agree(r, out(lambda: {model}), same, {real!r})"
                if name == "iter2": body = f"assert [p[0] is p[1] for p in zip(s, s)] == [True] * len(L), 'two iterators over one list differ'"
                for p in ps[spec]: mon.case(st, body, p, (st.tag, name, n, p.get("i")))
            small = n <= 8
            rng = list(range(-n - 2, n + 3)) if small else idxs(n, mon=mon)
            bounds = ["None"] + [str(i) for i in rng]
            steps = ["None", "1", "2", "3", "-1", "-2", "-3", "0"] + [str(n), str(-n - 1)]
            full = st.tag[1] == "grid" and n <= 4
            combos = itertools.product(bounds, bounds, steps) if full else \
                ((mon.rng.choice(bounds), mon.rng.choice(bounds), mon.rng.choice(steps)) for _ in range(60))
            for i, j, d in combos:
                mon.case(st, "r = out(lambda: s[i:j:d]); agree(r, out(lambda: L[i:j:d]), holds, f's[{i}:{j}:{d}]')",
                         dict(i=i, j=j, d=d), (st.tag, "slice", n, d))
                if mon.over(): break
            for w in ("a0", "a1", "a2", "x"):
                for i, j in (itertools.product(bounds[1:], bounds) if full else [(mon.rng.choice(bounds[1:]), mon.rng.choice(bounds)) for _ in range(8)]):
                    if j == "None":
                        mon.case(st, "r = out(lambda: s.index(w, i)); agree(r, out(lambda: L.index(w, i)), same, f's.index({w}, {i})')", dict(w=w, i=i), (st.tag, "index2", n, i))
                    else:
                        mon.case(st, "r = out(lambda: s.index(w, i, j)); agree(r, out(lambda: L.index(w, i, j)), same, f's.index({w}, {i}, {j})')", dict(w=w, i=i, j=j), (st.tag, "index3", n, i))
            mon.sample(st, "s[1:3:1]")
    except Enough:
        pass

ITERS = [  # (source of an argument, its elements)
    ("[]", "[]"), ("[x]", "[x]"), ("[x, y, a1]", "[x, y, a1]"), ("(y, x)", "[y, x]"), ("iter([x, y, b1, a2])", "[x, y, b1, a2]"),
    ("(e for e in [x, a2])", "[x, a2]"), ("{x: 1, y: 2}", "[x, y]"), ("'abc'", "list('abc')"), ("range(4)", "[0, 1, 2, 3]"),
    ("range(33)", "list(range(33))"), ("{x: 1}.keys()", "[x]"), ("collections.deque([x, y])", "[x, y]"),
]
def lops(types, n_opts, starts=(0, -2, 1, -5)):
    for T in types:
        for n in n_opts:
            for st in starts:
                yield f"lmake({T}, {st}, {n}, _E[20:])"

WHOLE = [   # on every list; the result is compared by value (lazies computed)
    ("mul", "s * k", "V * k", "k"), ("rmul", "k * s", "k * V", "k"),
]
def c03(mon):
    def cases():
        # constructors from iterables
        for T in PT + TT:
            for a, m in ITERS:
                yield State("pass", ()), f"r = out(lambda: {T}({a})); agree(r, out(lambda: list({m})), holds, {T + '(' + a + ')'!r})", ("new", T, a)
            yield State("pass", ()), f"r = out(lambda: {T}()); agree(r, out(lambda: []), holds, '{T}()')", ("new0", T)
            yield State("pass", ()), f"r = out(lambda: {T}([1], [2])); assert isinstance(r.exc, TypeError), r", ("new2", T)
        grid = [(n, st) for n in (0, 1, 2, 3, 5) for st in (0, -1, -3, -7, 2)]
        srcs = [f"lmake({T}, {st}, {n})" for n, st in grid for T in PT + TT]
        for src in srcs:
            for T in PT + TT:
                yield State(f"s = {src}", fresh=False), (f"L = raw(s); r = out(lambda: {T}(s)); agree(r, out(lambda: L), holds, 'the constructor {T} on a list'); "
                       f"assert holds(s, L), 'the constructor {T} changed its argument'"), ("conv", T, src)
        for pat in ("", "L", "L.", ".R", "LRL", "L..L.R"):
            for src in [f"lmake({T}, {st}, {len(pat)}, lazies({pat!r}))" for T in ("llist", "tllist") for st in (0, -1, 2)] + [f"lazies({pat!r})"]:
                for T in PT + TT:
                    if T in ("plist", "tlist") and src.startswith("laz"): continue      # a plain list of lazies keeps them
                    w = "L" if T in ("llist", "tllist") else "list(map(un, L))"
                    yield State(f"s = {src}; L = raw(s)", ("s", "L"), fresh=True), (f"r = out(lambda: {T}(s)); agree(r, out(lambda: {w}), holds, 'the constructor {T} on a list with lazies'); "
                       f"assert same(raw(s), L), 'the constructor {T} changed its argument'"), ("convlz", T, src)
        # extend / + / += with iterables and with lists of every kind
        for src in srcs:
            pers = src.startswith(("lmake(plist", "lmake(llist"))
            S = State(f"s = {src}", fresh=not pers)
            for a, m in ITERS:
                if pers:
                    yield S, f"L = raw(s); r = out(lambda: s.extend({a})); agree(r, out(lambda: L + list({m})), holdsval, {'s.extend(' + a + ')'!r})", ("ext", src, a)
                else:
                    yield S, f"L = raw(s); r = out(lambda: s.extend({a})); assert r.exc is None, r; assert holdsval(s, L + list({m})), {'after s.extend(' + a + ')'!r} + f': {{show(s)}}'", ("ext", src, a)
            for o in ["[]", "[x]", "[x, a1, y]", "[E(e.e) for e in L]"] + list(lops(PT + TT, (0, 1, 3), (0, -2, 1))) + ["s"]:
                otrans = o.startswith(("lmake(tl", "lmake(tll"))
                if pers:
                    yield S, f"L = raw(s); o = {o}; O = raw(o); r = out(lambda: s.extend(o)); agree(r, out(lambda: L + O), holdsval, 's.extend(o)'); assert holds(o, O), 's.extend(o) changed o'", ("exto", src, o)
                    if not otrans:
                        yield S, f"L = raw(s); o = {o}; O = raw(o); r = out(lambda: s + o); agree(r, out(lambda: L + O), holdsval, 's + o'); assert holds(o, O), 's + o changed o'", ("add", src, o)
                else:
                    yield S, f"L = raw(s); o = {o}; O = raw(o); r = out(lambda: s.extend(o)); assert r.exc is None, r; assert holdsval(s, L + O), f's.extend(o) gave {{show(s)}} instead of {{L + O}}'; assert o is s or holds(o, O), 's.extend(o) changed o'", ("exto", src, o)
                    yield S, f"L = raw(s); o = {o}; O = raw(o); r = out(lambda: s + o); agree(r, out(lambda: L + O), holdsval, 's + o'); assert holds(o, O) and holds(s, L), 's + o changed an operand'", ("add", src, o)
                    yield S, f"L = raw(s); o = {o}; O = raw(o); t = s\nt += o\nassert t is s, 'in-place + made a new object'\nassert holdsval(s, L + O), f's += o gave {{show(s)}} instead of {{L + O}}'\nassert o is s or holds(o, O), 's += o changed o'", ("iadd", src, o)
                if o.startswith("["):
                    yield S, f"L = raw(s); o = {o}; O = list(o); r = out(lambda: o + s); agree(r, out(lambda: O + L), holdsval, 'list + s'); assert same(o, O) and holds(s, L), 'list + s changed an operand'", ("radd", src, o)
            for k in ("-3", "-1", "0", "1", "2", "3", "7", "True"):
                for e in ("s * k", "k * s"):
                    yield S, f"L = raw(s); k = {k}; r = out(lambda: {e}); agree(r, out(lambda: list(map(un, L)) * k), holdsval, f'{e}, k = {{k}}'); assert holds(s, L), '{e} changed s'", ("mul", src, k, e)
                if not pers:
                    yield S, f"L = raw(s); k = {k}; t = s\nt *= k\nassert t is s, 'in-place * made a new object'\nassert holdsval(s, L * k), f's *= {{k}} gave {{show(s)}} instead of {{L * k}}'", ("imul", src, k)
        # many repetitions
        for k in sorted({10, 24, 40, 100} | {c + d for c in mon.ints if 3 < c < 400 for d in (0, 1)}):
            for T in PT + TT:
                for n in (0, 1, 2, 3):
                    S = State(f"s = lmake({T}, {-(k % 4)}, {n})", fresh=T in TT)
                    for e in ("s * k", "k * s"):
                        yield S, f"L = raw(s); k = {k}; r = out(lambda: {e}); agree(r, out(lambda: list(map(un, L)) * k), holdsval, f'{e}, k = {{k}}')", ("mulbig", T, n, k)
                    if T in TT:
                        yield S, f"L = raw(s); k = {k}; t = s\nt *= k\nassert t is s, 'in-place * made a new object'\nassert holdsval(s, L * k), f's *= {{k}} gave {{show(s)}} instead of {{L * k}}'", ("imulbig", T, n, k)
        # sort, reverse, remove: contents with repeated and unordered elements
        mixes = ["[a3, a1, a2]", "[a1, b1, a0, a1]", "[a5, a4, a3, a2, a1, a0, b0, b1, b2]", "[a0]", "[]", "[a2, a2, a1, b2, b1, a0, a9, a8, a7, a6, a5, x]", "[a1, a2, a3, a4]"]
        for m in mixes:
            for st in (0, -1, -2, -5, -20, 3):
                for T in PT + TT:
                    S = State(f"E0 = {m}; s = lmake({T}, {st}, len(E0), E0); L = raw(s)", ("s", "L"), fresh=T in TT)
                    for kw in ("", "reverse=True", "key=lambda e: -e.e", "key=lambda e: e.e % 3", "key=lambda e: e.e % 3, reverse=True", "key=lambda e: 0", "key=None, reverse=False"):
                        if T in PT:
                            yield S, f"r = out(lambda: s.sort({kw})); agree(r, out(lambda: sorted(L, {kw})), holds, 's.sort({kw})')", ("sort", T, m, st, kw)
                        else:
                            yield S, f"r = out(lambda: s.sort({kw})); assert r.exc is None and r.val is None, r; assert holds(s, sorted(L, {kw})), f's.sort({kw}) left {{show(s)}}'", ("sort", T, m, st, kw)
                    if T in PT:
                        yield S, "r = out(lambda: s.reverse()); agree(r, out(lambda: L[::-1]), holds, 's.reverse()')", ("reverse", T, m, st)
                    else:
                        yield S, "r = out(lambda: s.reverse()); assert r.exc is None and r.val is None, r; assert holds(s, L[::-1]), f's.reverse() left {show(s)}'", ("reverse", T, m, st)
                    for v in ("a0", "a1", "b1", "b2", "a3", "x", "a9"):
                        if T in PT:
                            yield S, f"r = out(lambda: s.remove({v})); agree(r, out(lambda: l_rem(L, {v})), holds, 's.remove({v})')", ("remove", T, m, st, v)
                        else:
                            yield S, f"r = out(lambda: s.remove({v})); m = out(lambda: L.remove({v})); agree(r, m, same, 's.remove({v})'); assert holds(s, L), f's.remove({v}) left {{show(s)}} instead of {{L}}'", ("remove", T, m, st, v)
        # larger
        for n in big_sizes(mon):
            for T in PT + TT:
                for st in (0, -(n // 2)):
                    S = State(f"s = lmake({T}, {st}, {n}); L = raw(s)", ("s", "L"), fresh=T in TT)
                    if T in PT:
                        yield S, "r = out(lambda: s.reverse()); agree(r, out(lambda: L[::-1]), holds, 's.reverse()')", ("reverseB", T, n, st)
                        yield S, "r = out(lambda: s.sort(key=lambda e: e.e % 7)); agree(r, out(lambda: sorted(L, key=lambda e: e.e % 7)), holds, 's.sort()')", ("sortB", T, n, st)
                        yield S, "r = out(lambda: s.extend(L)); agree(r, out(lambda: L + L), holds, 's.extend(L)')", ("extB", T, n, st)
                        yield S, "r = out(lambda: L + s); agree(r, out(lambda: L + L), holds, 'L + s')", ("raddB", T, n, st)
                        yield S, "r = out(lambda: s * 3); agree(r, out(lambda: L * 3), holds, 's * 3')", ("mulB", T, n, st)
                    else:
                        yield S, "s.reverse(); assert holds(s, L[::-1]), 's.reverse()'", ("reverseB", T, n, st)
                        yield S, "s.extend(L); assert holds(s, L + L), 's.extend(L)'", ("extB", T, n, st)
                        yield S, "s *= 3; assert holds(s, L * 3), 's *= 3'", ("mulB", T, n, st)
        # random
        while not mon.over():
            T = mon.rng.choice(PT + TT)
            h = str(mon.rng.randint(0, 9)) + "".join(mon.rng.choice("paflmistc") for _ in range(mon.rng.randint(0, 14)))
            S = State(f"s = lhist({T}, {h!r}, itertools.cycle([a3, a1, b1, a0, a2, b2, a1, a5, a4])); L = raw(s)", ("s", "L"), fresh=T in TT)
            k = mon.rng.randint(0, 4)
            if T in PT:
                for real, model in (("s.reverse()", "L[::-1]"), ("s.sort()", "sorted(L)"), ("s.sort(reverse=True)", "sorted(L, reverse=True)"),
                                    ("s.remove(a1)", "l_rem(L, a1)"), (f"s * {k}", f"L * {k}"), ("s + s", "L + L"), ("[x] + s", "[x] + L"), ("s + [x]", "L + [x]"), ("s.extend(s)", "L + L")):
                    yield S, f"r = out(lambda: {real}); agree(r, out(lambda: {model}), holdsval, {real!r})", ("rnd", T, real)
            else:
                for real, model in (("s.reverse()", "L[::-1]"), ("s.sort()", "sorted(L)"), ("s.extend(s)", "L + L"), (f"s.__imul__({k})", f"L * {k}"), ("s.__iadd__([x, y])", "L + [x, y]")):
                    yield S, f"r = out(lambda: {real}); assert r.exc is None, r; assert holds(s, {model}), f'after {real}: {{show(s)}}'", ("rnd", T, real)
    try:
        for k, (S, body, cls) in enumerate(cases()):
            if mon.over(): break
            if not mon.mine(k): continue
            if S.src != "pass":
                if not mon.setup(S) or not mon.ok(S, "sound(s)"): mon.skipped += 1; continue
            mon.case(S, body, None, cls)
            mon.sample(S, body)
    except Enough:
        pass

# in-place operations: (name, real, model on list M, parameters)
INPLACE = [
    ("setitem", "s.__setitem__(i, v)", "M.__setitem__(i, v)", "iv"),
    ("delitem", "s.__delitem__(i)", "M.__delitem__(i)", "i"),
    ("insert", "s.insert(i, v)", "M.insert(i, v)", "iv"),
    ("append", "s.append(v)", "M.append(v)", "v"),
    ("prepend", "s.prepend(v)", "M.insert(0, v)", "v"),
    ("pop", "s.pop(i)", "M.pop(i)", "i"),
    ("pop0", "s.pop()", "M.pop()", ""),
    ("remove", "s.remove(w)", "M.remove(w)", "w"),
    ("extend", "s.extend([v, a1])", "M.extend([v, a1])", "v"),
    ("clear", "s.clear()", "M.clear()", ""),
]
def c04(mon):
    bodies = {}
    def body(real, model):
        return (f"L = raw(s); M = list(L); r = out(lambda: {real}); m = out(lambda: {model}); agree(r, m, same, {real!r}); "
                f"assert holds(s, M), f'after {real} on {{L}}: {{show(s)}} instead of {{M}}'")
    def one(st, n):
        for name, real, model, spec in INPLACE:
            ps = params(mon, spec.replace("w", ""), n)
            if "w" in spec: ps = [dict(w=w) for w in ("a0", "b1", "a2", "a5", "x")]
            for p in ps:
                mon.case(st, body(real, model), p, (st.tag, name, n, p.get("i")))
        mon.sample(st, "s.insert(1, x)")
    half = mon.t0 + (mon.deadline - mon.t0) * 0.6
    real_deadline, mon.deadline = mon.deadline, half
    each(mon, TT, one, deep=False)
    mon.deadline = real_deadline
    # long histories in one case
    try:
        while not mon.over():
            T = mon.rng.choice(TT)
            st = State(f"s = lmake({T}, {mon.rng.randint(-6, 4)}, {mon.rng.randint(0, 9)})", fresh=True, tag=(T, "long"))
            steps = []
            for _ in range(mon.rng.randint(3, 25)):
                name, real, model, spec = mon.rng.choice(INPLACE[:9] * 4 + INPLACE[9:])
                i = mon.rng.randint(-9, 9); v = mon.rng.choice(VALS); w = mon.rng.choice(("a0", "a1", "a3"))
                sub = lambda t: t.replace("(i", f"({i}").replace(", v)", f", {v})").replace("(v)", f"({v})").replace("[v", f"[{v}").replace("(w)", f"({w})")
                steps.append(f"r = out(lambda: {sub(real)}); m = out(lambda: {sub(model)}); agree(r, m, same, {sub(real)!r}); assert holds(s, M), f'after {sub(real)}: {{show(s)}} instead of {{M}}'")
            if not mon.setup(st) or not mon.ok(st, "sound(s)"): continue
            src = "M = raw(s)\n" + "\n".join(steps)
            mon.case(st, src, None, (T, "long", len(steps)))
    except Enough:
        pass

def c15(mon):
    import itertools as it
    kinds = ["list", "plist", "llist", "tlist", "tllist"]
    els = ["a0", "a1", "b1", "a2"]
    def mk(kind, seq, start):
        e = "[" + ", ".join(seq) + "]"
        return e if kind == "list" else f"lmake({kind}, {start}, {len(seq)}, {e})"
    seqs = [s for n in range(0, 4) for s in it.product(els, repeat=n)]
    def pairs():
        for a in seqs:
            for b in seqs:
                if abs(len(a) - len(b)) <= 2: yield a, b
    body_eq = "r = out(lambda: p == q); agree(r, out(lambda: A == B), same, 'p == q'); r = out(lambda: p != q); agree(r, out(lambda: A != B), same, 'p != q')"
    body_or = "; ".join(f"r = out(lambda: p {o} q); agree(r, out(lambda: A {o} B), same, 'p {o} q')" for o in ("<", "<=", ">", ">="))
    try:
        kp = [(a, b) for a in kinds for b in kinds if (a, b) != ("list", "list")]
        ps = list(pairs())
        for k, (a, b) in enumerate(ps):
            if not mon.mine(k): continue
            if mon.over(): break
            for k1, k2 in (kp if len(a) + len(b) <= 3 else mon.rng.sample(kp, 4)):
                s1, s2 = mon.rng.choice((0, -1, -2, 1)), mon.rng.choice((0, -1, -2, 1))
                S = State(f"p = {mk(k1, a, s1)}; q = {mk(k2, b, s2)}; A = [{', '.join(a)}]; B = [{', '.join(b)}]", ("p", "q", "A", "B"))
                if not mon.setup(S) or not mon.ok(S, "same(p, A) and same(q, B)"): mon.skipped += 1; continue
                mon.case(S, body_eq, None, ("eq", k1, k2, len(a), len(b)))
                mon.case(S, body_or, None, ("ord", k1, k2, len(a), len(b)))
                mon.sample(S, body_or)
        others = ["None", "0", "'ab'", "(a0, a1)", "{a0}", "{a0: 1}", "pset([a0])", "pdict()", "tset([a0])", "tdict()", "object()", "frozenset()", "()", "''", "iter([a0])"]
        for T in kinds[1:]:
            for n in (0, 1, 2):
                for o in others:
                    S = State(f"p = lmake({T}, 0, {n}); q = {o}", ("p", "q"))
                    mon.case(S, "r = out(lambda: p == q); assert r.exc is None and r.val is False, f'p == q: {r}'; r = out(lambda: p != q); assert r.exc is None and r.val is True, f'p != q: {r}'", None, ("other", T, n, o))
        for d in sorted({50, 100, 200, 300} | {c for c in mon.ints if 8 < c < 1500}):
            for q, tag in (("A[:d] + [a1] + A[d:]", "ins"), ("A + [a1]", "app"), ("A[:-1] + [a2]", "last"), ("list(A)", "same"), ("[a1] + A[1:]", "first")):
                S = State(f"d = {d}; A = [a0] * (d + 1); B = {q}; p = {mon.rng.choice(kinds[1:])}(A); q = {mon.rng.choice(kinds)}(B)", ("p", "q", "A", "B"))
                mon.case(S, body_eq, None, ("eqlong", d, tag)); mon.case(S, body_or, None, ("orlong", d, tag))
        # longer sequences, nested sequences, numbers, strings, elements that can be compared only when they differ
        mixed = ["None", "1", "1j", "{1: 2}", "[None]", "2"]
        while not mon.over():
            r = mon.rng
            pool = r.choice([mixed, ["0", "1", "2", "-1", "2.0", "True"], ["'a'", "'b'", "''", "'ab'"], els, ["(0, 1)", "(0,)", "()", "(1,)"]])
            n = r.choice([0, 1, 2, 3, 5, 8, 33])
            a = [r.choice(pool) for _ in range(n)]
            b = list(a)
            for _ in range(r.randint(0, 2)):
                q = r.randint(0, 3)
                if q == 0 and b: b[r.randrange(len(b))] = r.choice(pool)
                elif q == 1: b.append(r.choice(pool))
                elif q == 2 and b: b.pop(r.randrange(len(b)))
            k1, k2 = r.choice(kp)
            S = State(f"p = {mk(k1, a, r.randint(-4, 2))}; q = {mk(k2, b, r.randint(-4, 2))}; A = [{', '.join(a)}]; B = [{', '.join(b)}]", ("p", "q", "A", "B"))
            if not mon.setup(S) or not mon.ok(S, "list(p) == A and list(q) == B"): mon.skipped += 1; continue
            mon.case(S, body_eq, None, ("eqr", k1, k2, n))
            if pool is mixed and not mon.ok(S, "all(e == f or out(lambda: e < f).exc is None for e, f in zip(A, B))"): continue
            mon.case(S, body_or, None, ("ordr", k1, k2, n))
            # numbers only: elements whose == holds but < differs in no way; nested library sequences
            S2 = State(f"p = plist([plist([0, {n}]), llist([1])]); q = plist([plist([0, {n}]), llist([{r.randint(0, 2)}])]); A = [list(e) for e in p]; B = [list(e) for e in q]", ("p", "q", "A", "B"))
            mon.case(S2, body_eq, None, ("nest", n)); mon.case(S2, body_or, None, ("nestord", n))
    except Enough:
        pass

CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C15=c15)
