"""Run-time contracts of the dict operations (C08-C11, C22)."""
import itertools, random
from .common import State, Enough
from .sets import histories, PATS, mon_shuffle, MIXED

TD = ("pdict", "tdict", "ldict", "tldict"); PD = ("pdict", "ldict"); RD = ("tdict", "tldict")

def dstates(mon, types=TD, nk=3, depth=4, rand=True):
    for h in histories(mon, nk, 2):
        for p in PATS:
            for T in types: yield State(f"s = dhist({T}, {p!r}, {h!r})", fresh=T in RD, tag=(T, p), info=(p, h))
    for h in MIXED + ["a", "01a2", "01x0a2", "012x0x1a34", "0a1a2", "012x1a3x0a4", "01ta2x1", "0123x0vax13", "01x1a1", "012x2a2v0"]:
        for p in ("same", "two", "uniq"):
            for T in types: yield State(f"s = dhist({T}, {p!r}, {h!r})", fresh=T in RD, tag=(T, p), info=(p, h))
    hs = list(histories(mon, nk, depth))
    hs = hs[:150] + mon_shuffle(mon, hs[150:])
    for h in hs:
        for p in ("same", "two", "neg"):
            for T in types: yield State(f"s = dhist({T}, {p!r}, {h!r})", fresh=T in RD, tag=(T, p), info=(p, h))
    while rand and not mon.over():
        r = mon.rng
        h = "".join(r.choice(("t", "c", "v", "a") + tuple("01234567") * 2 + tuple(f"x{i}" for i in range(8)) * r.randint(0, 2)) for _ in range(r.randint(3, 24)))
        p = r.choice(PATS)
        for T in types: yield State(f"s = dhist({T}, {p!r}, {h!r})", fresh=T in RD, tag=(T, p, "r"), info=(p, h))

DREAD = [("s[k]", "d_get(M, k)"), ("s.get(k)", "d_get(M, k, None)"), ("s.get(k, x)", "d_get(M, k, x)"), ("k in s", "d_has(M, k)")]
DEDIT = [   # persistent: (name, real, model); model gives MD or a tuple with one
    ("set", "s.set(k, v)", "MD(d_set(M, k, v))"),
    ("setsame", "s.set(k, d_get(M, k, v))", "MD(d_set(M, k, d_get(M, k, v)))"),
    ("drop", "s.drop(k)", "MD(d_drop(M, k))"),
    ("delete", "s.delete(k)", "MD(d_del(M, k))"),
    ("pop", "s.pop(k)", "(d_get(M, k), MD(d_del(M, k)))"),
    ("popd", "s.pop(k, x)", "(d_get(M, k, x), MD(d_drop(M, k)))"),
    ("popn", "s.pop(k, None)", "(d_get(M, k, None), MD(d_drop(M, k)))"),
    ("setdefault", "s.setdefault(k, v)", "MD(M if d_has(M, k) else d_set(M, k, v))"),
    ("setdefault0", "s.setdefault(k)", "MD(M if d_has(M, k) else d_set(M, k, None))"),
]
TEDIT = [   # transient: (name, real, model return value, model of the contents afterwards)
    ("setitem", "s.__setitem__(k, v)", "None", "d_set(M, k, v)"),
    ("delitem", "s.__delitem__(k)", "(d_del(M, k), None)[1]", "d_drop(M, k)"),
    ("pop", "s.pop(k)", "d_get(M, k)", "d_drop(M, k)"),
    ("popd", "s.pop(k, x)", "d_get(M, k, x)", "d_drop(M, k)"),
    ("popn", "s.pop(k, None)", "d_get(M, k, None)", "d_drop(M, k)"),
    ("setdefault", "s.setdefault(k, v)", "d_get(M, k, v)", "M if d_has(M, k) else d_set(M, k, v)"),
    ("setdefault0", "s.setdefault(k)", "d_get(M, k, None)", "M if d_has(M, k) else d_set(M, k, None)"),
    ("update", "s.update([(k, v)])", "None", "d_set(M, k, v)"),
    ("updated", "s.update({k: v})", "None", "d_set(M, k, v)"),
]
DVALS = ["x", "None", "y", "0", "_V[0]", "E(M0.e) if isinstance(M0 := rawget(s, k), E) else y"]   # the last: equal to the value there, another object
def hist_model(p, h):
    return (f"m = {{}}; vals = iter(_V); h = iter({h!r})\nfor ch in h:\n    if ch == 'x': m.pop(keys_of({p!r})[int(next(h))], None)\n"
            f"    elif ch not in 'tcva': m[keys_of({p!r})[int(ch)]] = next(vals)")

def states(mon, types):
    for n, st in enumerate(dstates(mon, types)):
        if mon.over(): return
        if not mon.mine(n): continue
        if not mon.setup(st): continue
        yield st

def c08(mon):
    try:
        for st in states(mon, PD):
            p, h = st.info
            size = len(mon.ns["s"])
            # the history as a whole, and reads against each other
            mon.case(st, hist_model(p, h) + f"\nassert holdsd(s, list(m.items())), f'history {h} gives {{show(s)}} instead of {{m}}'", None, (st.tag, "hist", len(h)))
            mon.case(st, f"it = rawd(s); M = it\nassert len(it) == len(s) == len(nodup([k for k, _ in it])), f'items are {{it}}, len is {{len(s)}}'\n"
                     f"for k in keys_of({p!r}) + twins_of({p!r}):\n" + "\n".join(f"    r = out(lambda: {a}); agree(r, out(lambda: {b}), holds, {a!r} + f' with k = {{k}}, items {{M}}')" for a, b in DREAD), None, (st.tag, "reads", size))
            if not mon.ok(st, f"dsound(s, keys_of({p!r}))"): mon.skipped += 1; continue
            for i in range(6):
                src = "twins_of" if mon.rng.random() < .3 else "keys_of"
                for name, real, model in DEDIT:
                    body = (f"M = rawd(s); r = out(lambda: {real}); m = out(lambda: {model}); agree(r, m, holds, {real!r})\n"
                            f"if r.exc is None:\n    t = r.val[1] if isinstance(r.val, tuple) else r.val; T = (m.val[1] if isinstance(m.val, tuple) else m.val).items\n"
                            f"    for j in keys_of({p!r}): assert rawget(t, j, CALLS) is d_get(T, j, CALLS), f'{{j}} is mapped to {{rawget(t, j)}} in the result'\n"
                            f"    assert len(t) == len(T), 'len of the result'")
                    mon.case(st, body, dict(k=f"{src}({p!r})[{i}]", v=mon.rng.choice(DVALS)), (st.tag, name, size, i))
            mon.case(st, "r = out(lambda: s.clear()); agree(r, Out(None, MD([])), holds, 's.clear()')", None, (st.tag, "clear", size))
            mon.case(st, "M = rawd(s); r = out(lambda: s.popitem())\nif not M: assert isinstance(r.exc, KeyError), r\nelse:\n    assert r.exc is None, r\n    ((k, v), t) = r.val\n    assert d_has(M, k) and d_get(M, k) is v and holdsd(t, d_del(M, k)), f's.popitem() on {M}: {r}'", None, (st.tag, "popitem", size))
            mon.sample(st, "s.set(k, v) for every key")
        large(mon)
    except Enough:
        pass

EQUALS = [("(1,)", "(True,)"), ("1", "True"), ("1.0", "1"), ("[1]", "[1]"), ("E(3)", "E(3)"), ("frozenset([1])", "frozenset([True])"), ("''.join(['a', 'b'])", "''.join(['a', 'b'])"), ("plist([1])", "plist([1])"), ("b'ab' * 2", "bytes(b'abab')"), ("{1: 2}", "{1: 2}"), ("0", "False"), ("None", "None")]
def equals(mon):
    """A value that equals the stored one without being it replaces it."""
    for T in (PD if mon.prop == "C08" else RD):
        for v, w in EQUALS:
            S = State(f"v = {v}; w = {w}; k = K(1, 1); s = {T}([(k, v), (K(1, 2), x)])", ("s", "k", "v", "w"), fresh=True)
            if T in PD: mon.case(S, "assert s[k] is v; t = s.set(k, w); assert t[k] is w and s[k] is v and len(t) == 2, f'set(k, {w!r}) over {v!r} holds {t[k]!r}'; assert t.set(k, v)[k] is v", None, (T, "equals", v))
            else: mon.case(S, "s[k] = w; assert s[k] is w and len(s) == 2, f's[k] = {w!r} over {v!r} holds {s[k]!r}'; s.update([(k, v)]); assert s[k] is v", None, (T, "equals", v))

def large(mon):
    equals(mon)
    for n in [33, 100, 1000] + [c + d for c in mon.ints if 8 < c < 1500 for d in (-1, 0, 1)]:
        for mod in (1, 3, 10**9):
            if n > 300 and mod < 10: continue
            for T in (PD if mon.prop == "C08" else RD):
                S = State(f"ks = [K(i % {mod}, i) for i in range({n})]; vs = [E(i) for i in range({n})]; s = {T}(zip(ks, vs))", ("ks", "vs", "s"), fresh=T in RD)
                if T in PD:
                    mon.case(S, "d = s\nassert len(d) == len(ks) and all(d[k] is v for k, v in zip(ks, vs)), 'distinct keys'\nfor k in ks[::2]: d = d.drop(k)\nassert len(d) == len(ks) // 2 and all((k in d) == bool(i % 2) for i, k in enumerate(ks)), 'dropping every other key'\nfor k, v in zip(ks, vs[::-1]): d = d.set(k, v)\nassert len(d) == len(ks) and all(d[k] is v for k, v in zip(ks, vs[::-1])), 'setting every key'", None, (T, "large", n, mod))
                else:
                    mon.case(S, "d = s\nassert len(d) == len(ks) and all(d[k] is v for k, v in zip(ks, vs)), 'distinct keys'\nfor k in ks[::2]: del d[k]\nassert len(d) == len(ks) // 2 and all((k in d) == bool(i % 2) for i, k in enumerate(ks)), 'deleting every other key'\nfor k, v in zip(ks, vs[::-1]): d[k] = v\nassert len(d) == len(ks) and all(d[k] is v for k, v in zip(ks, vs[::-1])), 'setting every key'", None, (T, "large", n, mod))

def esc(src):
    """src as literal text of an f-string."""
    return src.replace('{', '{{').replace('}', '}}')

def c09(mon):
    def tbody(p, real, ret, model):
        return (f"M = rawd(s); r = out(lambda: {real}); m = out(lambda: {ret}); agree(r, m, holds, {real!r}); W = M if m.exc is not None else {model}; "
                f"assert holdsd(s, W), f'after {esc(real)} on {{M}}: {{show(s)}}'\n"
                f"for j in keys_of({p!r}): assert rawget(s, j, CALLS) is d_get(W, j, CALLS), f'after {esc(real)}, {{j}} is mapped to {{rawget(s, j)}}'\n"
                f"assert len(s) == len(W), f'after {esc(real)}: len {{len(s)}}'")
    try:
        end = mon.deadline; mon.deadline = mon.t0 + (end - mon.t0) * .6
        for st in states(mon, RD):
            p, h = st.info
            size = len(mon.ns["s"])
            mon.case(st, hist_model(p, h) + f"\nassert holdsd(s, list(m.items())), f'history {h} gives {{show(s)}} instead of {{m}}'", None, (st.tag, "hist", len(h)))
            mon.case(st, f"it = rawd(s); M = it\nassert len(it) == len(s) == len(nodup([k for k, _ in it])), f'items are {{it}}, len is {{len(s)}}'\n"
                     f"for k in keys_of({p!r}) + twins_of({p!r}):\n" + "\n".join(f"    r = out(lambda: {a}); agree(r, out(lambda: {b}), holds, {a!r} + f' with k = {{k}}, items {{M}}')" for a, b in DREAD), None, (st.tag, "reads", size))
            if not mon.ok(st, f"dsound(s, keys_of({p!r}))"): mon.skipped += 1; continue
            for i in range(6):
                src = "twins_of" if mon.rng.random() < .3 else "keys_of"
                for name, real, ret, model in TEDIT:
                    mon.case(st, tbody(p, real, ret, model), dict(k=f"{src}({p!r})[{i}]", v=mon.rng.choice(DVALS)), (st.tag, name, size, i))
            mon.case(st, "r = out(lambda: s.clear()); assert r.exc is None and holdsd(s, []), f'after clear: {show(s)}'", None, (st.tag, "clear", size))
            mon.case(st, "M = rawd(s); r = out(lambda: s.popitem())\nif not M: assert isinstance(r.exc, KeyError), r\nelse:\n    assert r.exc is None, r\n    (k, v) = r.val\n    assert d_has(M, k) and d_get(M, k) is v and holdsd(s, d_del(M, k)), f's.popitem() on {M}: {r}, left {show(s)}'", None, (st.tag, "popitem", size))
            mon.sample(st, "s[k] = v; del s[k]; ... for every key")
        mon.deadline = end
        large(mon)
        while not mon.over():       # long histories, every step checked
            r = mon.rng; p = r.choice(PATS); T = r.choice(RD)
            st = State(f"s = dhist({T}, {p!r}, {''.join(r.choice('01234567t') for _ in range(r.randint(0, 6)))!r})", fresh=True, tag=(T, p, "long"))
            if not mon.setup(st) or not mon.ok(st, f"dsound(s, keys_of({p!r}))"): continue
            lines = []
            for _ in range(r.randint(3, 20)):
                name, real, ret, model = r.choice(TEDIT)
                lines.append(f"k = {r.choice(('keys_of', 'twins_of'))}({p!r})[{r.randint(0, 7)}]; v = {r.choice(DVALS)}")
                lines.append(tbody(p, real, ret, model))
            mon.case(st, "\n".join(lines), None, (T, p, "long", len(lines)))
    except Enough:
        pass

# the order of entries: a built-in dict run through the same history is the reference
def c10(mon):
    views = [("list(s)", "[k for k, v in M]", False), ("list(s.keys())", "[k for k, v in M]", False), ("list(s.items())", "[(k, v) for k, v in M]", True), ("list(s.values())", "[v for k, v in M]", None),
             ("list(reversed(s))", "[k for k, v in M][::-1]", False), ("list(reversed(s.keys()))", "[k for k, v in M][::-1]", False), ("list(reversed(s.items()))", "M[::-1]", True), ("list(reversed(s.values()))", "[v for k, v in M][::-1]", None)]
    chk = {False: "r == m", True: "sameitems(r, m)", None: "same(r, m)"}
    seq = "\n".join(f"r = out(lambda: {a}); assert r.exc is None, f'{a}: {{r}}'; r = r.val; m = {b}; assert {chk[c]}, f'{a} gives {{r}}, expected {{m}}'" for a, b, c in views)
    try:
        for st in states(mon, TD):
            p, h = st.info
            size = len(mon.ns["s"])
            if not mon.ok(st, f"len(rawd(s)) == len(s) and all(rawget(s, k) is v for k, v in rawd(s))"): mon.skipped += 1; continue
            # order against the built-in dict, when the contents are right
            mon.case(st, hist_model(p, h) + f"\nM = list(m.items())\nif holdsd(s, M):\n    assert list(s) == [k for k, v in M], f'history {h}: order {{list(s)}}, expected {{list(m)}}'", None, (st.tag, "order", size))
            # one more step, judged against the order before
            for i in range(5):
                k = f"keys_of({p!r})[{i}]"
                ops = [("s = s.set(k, y)", "d_set(M, k, y)"), ("s = s.drop(k)", "d_drop(M, k)"), ("s = s.pop(k, None)[1]", "d_drop(M, k)")] if st.tag[0] in PD else \
                      [("s[k] = y", "d_set(M, k, y)"), ("s.pop(k, None)", "d_drop(M, k)"), ("if k in s: del s[k]", "d_drop(M, k)")]
                for op, model in ops:
                    mon.case(st, f"k = {k}; M = rawd(s); W = {model}\n{op}\nif holdsd(s, W): assert list(s) == [j for j, _ in W], f'after {op}: order {{list(s)}}, expected {{[j for j, _ in W]}}'", None, (st.tag, "step", op, size, i))
            # the views against each other and against the mapping
            mon.case(st, "M = [(k, rawget(s, k)) for k in s]\n" + seq, None, (st.tag, "views", size))
            mon.case(st, f"M = [(k, rawget(s, k)) for k in s]\nassert len(s.keys()) == len(s.items()) == len(s.values()) == len(M) == len(s), 'length of a view'\n"
                     f"for k in keys_of({p!r}) + twins_of({p!r}):\n    assert (k in s.keys()) is d_has(M, k), f'{{k}} in keys()'\n"
                     f"    for v in [None, x, 0] + [v for _, v in M][:6] + [E(v.e) for _, v in M if isinstance(v, E)][:4]: assert ((k, v) in s.items()) is (d_has(M, k) and d_get(M, k) == v), f'{{(k, v)}} in items(), which are {{M}}'\n"
                     f"for v in [None, x, 0] + [v for _, v in M][:6] + _V[:4] + [E(v.e) for _, v in M if isinstance(v, E)][:4]: assert (v in s.values()) is any(v == w for _, w in M), f'{{v}} in values()'\n"
                     f"assert (x not in s.items()) and ((x,) not in s.items()) and ((x, x, x) not in s.items()), 'a non-pair is in items()'", None, (st.tag, "in", size))
            for v in ("None", "0", "False", "''"):
                k = f"keys_of({p!r})[1]"
                op = "s = s.set(k, v)" if st.tag[0] in PD else "s[k] = v"
                mon.case(st, f"k = {k}; v = {v}\n{op}\nassert (k, v) in s.items() and v in s.values() and (k, x) not in s.items(), f'{{(k, v)}} and the views'\nj = K(99, 99)\nassert (j, None) not in s.items() and (j, v) not in s.items(), 'a missing key with value None is in items()'", None, (st.tag, "inv", v, size))
            mon.case(st, "ks = s.keys(); i1 = list(ks); i2 = list(ks); assert i1 == i2 == list(s), 'iterating a view twice'\nassert ks == set(i1) and s.keys() & set(i1[:1]) == set(i1[:1]), 'keys view as a set'", None, (st.tag, "viewset", size))
            mon.sample(st, "list(s), keys, items, values, reversed, in")
        # sizes; values that repeat
        for n in [2, 4, 9, 10, 20, 33] + [c + d for c in mon.ints if 4 < c < 300 for d in (0, 1)]:
            for T in TD:
                for per in (1, 2, 3):
                    S = State(f"s = {T}([(K(i % 3, i), _V[i // {per} % {2 if per == 3 else 7}]) for i in range({n})]); M = [(k, rawget(s, k)) for k in s]", ("s", "M"), fresh=True)
                    mon.case(S, seq + f"\nassert len(s) == len(s.keys()) == len(s.items()) == len(s.values()) == {n}, 'length of a view'", None, (T, "repeats", n, per))
        for n in [33, 65, 200, 1025]:
            for mod in (2, 10**9):
                if n > 300 and mod < 10: continue
                for T in TD:
                    S = State(f"ks = [K(i % {mod}, i) for i in range({n})]; s = {T}([(k, k.e) for k in ks])", ("ks", "s"), fresh=True)
                    mon.case(S, "assert [k.e for k in s] == list(range(len(ks))) and list(s.values()) == list(range(len(ks))) and [k.e for k in reversed(s)] == list(range(len(ks)))[::-1], 'order of a large dict'", None, (T, "large", n))
    except Enough:
        pass

def items_src(p, ix, r):
    return "[" + ", ".join(f"({r.choice(('keys_of', 'twins_of'))}({p!r})[{i}], _V[{r.randint(0, 60)}])" for i in ix) + "]"
def c11(mon):
    r = mon.rng
    kw = ["", "aa=x", "aa=x, bb=None"]
    def bare(T, a, k): return f"{T}({', '.join(q for q in (a, k) if q)})"
    try:
        grid = [(p, ix) for p in PATS for n in range(0, 5) for ix in itertools.product(range(3), repeat=n)]
        random.Random(mon.seed + 3).shuffle(grid)
        n = 0
        for p, ix in itertools.chain(grid, ((r.choice(PATS), tuple(r.randint(0, 7) for _ in range(r.randint(0, 12)))) for _ in itertools.count())):
            n += 1
            if mon.over(): break
            if n <= len(grid) and not mon.mine(n): continue
            its = items_src(p, ix, r)
            S0 = State(f"its = {its}; D = d_fold([], its)", ("its", "D"))
            if not mon.setup(S0): continue
            size = len(set(ix))
            for T in TD:
                for a in ("its", "dict(its)", "iter(its)", "tuple(its)", "pdict(its)", "tdict(its)", "ldict(its)", "tldict(its)", "collections.OrderedDict(its)", "dict(its).items()", "pdict(its).items()"):
                    k = r.choice(kw)
                    mon.case(S0, f"r = out(lambda: {bare(T, a, k)}); agree(r, Out(None, MD(d_fold(D, dict({k}).items()))), holds, {bare(T, a, k)!r})", None, ("new", T, a, k, size))
                for k in kw:
                    mon.case(S0, f"r = out(lambda: {bare(T, '', k)}); agree(r, Out(None, MD(dict({k}))), holds, {bare(T, '', k)!r})", None, ("new0", T, k))
                base = f"dhist({T}, {p!r}, {''.join(r.choice('0123t') for _ in range(r.randint(0, 5)))!r})"
                S = State(f"s = {base}; its = {its}; D = d_fold([], its); M = rawd(s)", ("s", "its", "D", "M"), fresh=T in RD)
                if not mon.setup(S) or not mon.ok(S, f"dsound(s, keys_of({p!r}))"): mon.skipped += 1; continue
                two = r.choice(("{'aa': 1}, its", "its, {'aa': 1, 'cc': 2}", "pdict(its), [('bb', 3)]", "its, dict(its), {}"))
                for k in kw:
                    call = f"s.update({', '.join(q for q in (two, k) if q)})"
                    model = f"d_fold(functools.reduce(lambda m, o: d_fold(m, list(o.items()) if hasattr(o, 'items') else o), [{two}], M), dict({k}).items())"
                    if T in PD:
                        mon.case(S, f"r = out(lambda: {call}); agree(r, Out(None, MD({model})), holds, {call!r}); assert holdsd(s, M), 'update changed the receiver'", None, ("update2", T, two, k))
                    else:
                        mon.case(S, f"r = out(lambda: {call}); assert r.exc is None, r; assert holdsd(s, {model}), f'after an update with two mappings: {{show(s)}}'", None, ("update2", T, two, k))
                for a in ("its", "dict(its)", "iter(its)", "pdict(its)", "tdict(its)", "s", "pdict(s)"):
                    k = r.choice(kw)
                    model = f"d_fold(d_fold(M, {'M' if a in ('s', 'pdict(s)') else 'its'}), dict({k}).items())"
                    call = f"s.update({', '.join(q for q in (a, k) if q)})"
                    if a == "s" and T in RD: continue
                    if T in PD:
                        mon.case(S, f"r = out(lambda: {call}); agree(r, Out(None, MD({model})), holdsdval and holds, {call!r}); assert holdsd(s, M), 'update changed the receiver'", None, ("update", T, a, k, size))
                    else:
                        mon.case(S, f"r = out(lambda: {call}); assert r.exc is None, r; assert holdsd(s, {model}), f'after {call}: {{show(s)}} instead of {{{model}}}'", None, ("update", T, a, k, size))
                if T in PD:
                    mon.case(S, "r = out(lambda: s.setall([k for k, v in its], [v for k, v in its])); agree(r, Out(None, MD(d_fold(M, its))), holds, 's.setall(keys, values)')", None, ("setall", T, size))
                    mon.case(S, "r = out(lambda: s.setall(iter([k for k, v in its]), [v for k, v in its] + [x])); agree(r, Out(None, MD(d_fold(M, its))), holds, 's.setall(keys, values)')", None, ("setall2", T, size))
                    mon.case(S, "ks = [k for k, v in its]; W = [(k, v) for k, v in M if not s_has(ks, k)]; r = out(lambda: s.dropall(ks)); agree(r, Out(None, MD(W)), holds, 's.dropall(keys)')", None, ("dropall", T, size))
                    mon.case(S, "ks = [k for k, v in its]; W = [(k, v) for k, v in M if not s_has(ks, k)]; r = out(lambda: s.deleteall(ks))\nif all(d_has(M, k) for k in ks) and len(nodup(ks)) == len(ks): agree(r, Out(None, MD(W)), holds, 's.deleteall(keys)')\nelse: assert isinstance(r.exc, KeyError), r\nassert holdsd(s, M), 'deleteall changed the receiver'", None, ("deleteall", T, size))
                    mon.case(S, "ks = [k for k, v in M][::2]; W = [(k, v) for k, v in M if not s_has(ks, k)]; r = out(lambda: s.deleteall(ks)); agree(r, Out(None, MD(W)), holds, 's.deleteall(some keys)')", None, ("deleteall2", T, size))
                # equality with other mappings
                for o in ("dict(its)", "pdict(its)", "tdict(its)", "ldict(its)", "tldict(its)", "dict(M)", "pdict(M)", "tdict(M)", "ldict(M)", "dict(M[::-1])", "pdict(M[::-1])", "ldict(M[1:])", "dict(M[:-1] + its[:1])", "tdict([(k, E(v.e)) for k, v in M])"):
                    mon.case(S, f"o = {o}; r = out(lambda: s == o); m = Out(None, dict(M) == dict(o.items())); agree(r, m, same, 's == o'); r = out(lambda: o == s); agree(r, m, same, 'o == s'); r = out(lambda: s != o); agree(r, Out(None, not m.val), same, 's != o')", None, ("eq", T, o, size))
                for o in ("None", "0", "'a'", "[]", "list(M)", "set()", "object()", "pset()", "plist()"):
                    mon.case(S, f"o = {o}; assert (s == o) is False and (s != o) is True, f'comparison with {{o}}'", None, ("eqo", T, o))
                mon.sample(S, "s.update(its), setall, dropall, deleteall, ==")
    except Enough:
        pass

def c22(mon):
    its = ["iter(s)", "iter(s.keys())", "iter(s.items())", "iter(s.values())", "map(lambda e: e, s)"]
    r = mon.rng
    muts = ["s[K(5, 50)] = x", "s[K(3, 51)] = x", "del s[k]", "s.pop(k)", "s.clear()", "s.popitem()", "s.setdefault(K(5, 52), 1)", "s.update({K(5, 53): 1})",
            "del s[k]; s[k] = x", "s[K(5, 50)] = x; del s[K(5, 50)]", "s.clear(); s.update(W)", "s.pop(k); s[K(8, 54)] = 1",
            "s.clear(); s[K(1, 60)] = 1; s[K(1, 61)] = 2; s[K(1, 62)] = 3; s[K(1, 63)] = 3", "s.pop(k); s.persistent()", "s.persistent(); s[K(5, 55)] = 2; s.copy()"]
    try:
        for st in states(mon, RD):
            p, h = st.info
            if not mon.ok(st, f"dsound(s, keys_of({p!r})) and len(s) > 1"): continue
            size = len(mon.ns["s"])
            for it in its:
                for mut in (muts if len(h) < 4 else r.sample(muts, 3)):
                    for steps in range(1, min(size, 4)):
                        kx = r.randint(0, size - 1)
                        body = (f"W = dict(rawd(s)); k = list(s)[{kx}]; it = {it}\nfor _ in range({steps}): next(it)\n{mut}\n"
                                f"r = out(lambda: next(it)); assert isinstance(r.exc, RuntimeError), f'after {mut}, the next step of {it} {{r}}'")
                        mon.case(st, body, None, (st.tag[:2], it, mut, size, steps))
            # an iterator that is not disturbed is complete
            for it in its[:4]:
                mon.case(st, f"W = rawd(s); it = {it}; got = list(it); assert len(got) == len(W), 'an undisturbed iterator'\ns.get(W[0][0]); len(s); s.persistent(); W[0][0] in s\nit = {it}; next(it); s.get(W[0][0]); len(s); s.persistent(); s.copy(); W[0][0] in s; repr(s)\nrest = list(it); assert len(rest) == len(W) - 1, 'reads disturbed an iterator'", None, (st.tag, "quiet", it, size))
            mon.sample(st, "it = iter(s); next(it); s[new] = x; next(it)")
    except Enough:
        pass

CHECKS = dict(C08=c08, C09=c09, C10=c10, C11=c11, C22=c22)
