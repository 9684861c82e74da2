"""Run-time contracts about several collections: C12, C13, C14, C16, C19, C20, C21, C23, C24."""
import itertools, random
from .common import State, Enough
from .lists import lstates, EDITS, VALS, params, PT, TT, INPLACE
from .sets import sstates, PATS
from .dicts import dstates, DEDIT, TEDIT, PD, RD

PERS = ("plist", "llist", "pset", "pdict", "ldict"); TRANS = ("tlist", "tllist", "tset", "tdict", "tldict")
FAM = {t: f for f, ts in (("list", PT + TT), ("set", ("pset", "tset")), ("dict", PD + RD)) for t in ts}

# ---- random programs over several collections -------------------------------------------------------------
def atom(r, fam, p):
    if fam == "list": return r.choice(["x", "y", "a1", "b1", "None"] + ["lz(a5)"] * 1)
    return f"keys_of({p!r})[{r.randint(0, 5)}]"
def start_expr(r, T, p):
    f = FAM[T]
    if f == "list":
        if r.random() < .5: return f"lmake({T}, {r.randint(-6, 4)}, {r.choice([0, 1, 2, 3, 4, 5, 8])})"
        return f"lhist({T}, {str(r.randint(0, 5)) + ''.join(r.choice('paflmist') for _ in range(r.randint(0, 6)))!r})"
    h = "".join(r.choice(("0", "1", "2", "3", "4", "5", "x0", "x1", "x2", "t")) for _ in range(r.randint(0, 8)))
    return f"{'shist' if f == 'set' else 'dhist'}({T}, {p!r}, {h!r})"
def pers_ops(r, T, s, p, others):
    """Expressions giving a new collection (or a pair) from the persistent collection s."""
    f = FAM[T]; i = r.randint(-5, 5); v = atom(r, f, p); w = r.choice(["x", "y", "None", "lz(a3)"])
    o = r.choice(others) if others else s
    if f == "list":
        return [f"{s}.set({i}, {v})", f"{s}.delete({i})", f"{s}.delete()", f"{s}.insert({i}, {v})", f"{s}.drop({i})", f"{s}.pop({i})[1]", f"{s}.pop()[1]",
                f"{s}.append({v})", f"{s}.prepend({v})", f"{s}.clear()", f"{s}[{i}:]", f"{s}[:{i}]", f"{s}[::-1]", f"{s}.transient()", f"{s}.copy()", f"{s}.extend({o})",
                f"{s} + {o}", f"[x] + {s}", f"{s} + [x]", f"{s} * 2", f"{s}.reverse()", f"{s}.sort(key=id)", f"{s}.remove(a1)", f"tlist({s})", f"tllist({s})", f"llist({s})", f"plist({s})",
                f"holdlazy({s})", f"{s}.__iter__()", f"hash({s})", f"str({s})"]
    if f == "set":
        return [f"{s}.add({v})", f"{s}.discard({v})", f"{s}.remove({v})", f"{s}.pop()[1]", f"{s}.clear()", f"{s}.transient()", f"{s}.copy()", f"tset({s})", f"pset({s})", f"{s} | {o}", f"{s} & {o}",
                f"{s} - {o}", f"{s} ^ {o}", f"{s}.union({o})", f"{s}.intersection({o})", f"{s}.difference({o})", f"{s}.symmetric_difference({o})", f"{s}.addall([{v}])", f"{s}.discardall([{v}])",
                f"{s}.removeall([{v}])", f"set([{v}]) - {s}", f"set([{v}]) | {s}", f"hash({s})", f"{s} == {o}", f"{s} < {o}"]
    return [f"{s}.set({v}, {w})", f"{s}.drop({v})", f"{s}.delete({v})", f"{s}.pop({v}, None)[1]", f"{s}.pop({v})[1]", f"{s}.popitem()[1]", f"{s}.setdefault({v}, {w})", f"{s}.clear()", f"{s}.transient()", f"{s}.copy()",
            f"{s}.update({o})", f"{s}.update([({v}, {w})])", f"{s}.setall([{v}], [{w}])", f"{s}.dropall([{v}])", f"{s}.deleteall([{v}])", f"tdict({s})", f"tldict({s})", f"pdict({s})", f"ldict({s})",
            f"pdict({s}, aa=1)", f"ldict({s}, aa=1)", f"tdict({s}, aa=1)", f"holdlazy({s})", f"hash({s})", f"str({s})", f"{s} == {o}", f"list({s}.items())"]
def trans_new(r, T, s, p, others):
    """Expressions giving a new collection from the transient s without editing it."""
    f = FAM[T]; o = r.choice(others) if others else s; i = r.randint(-4, 4)
    if f == "list":
        return [f"{s}.persistent()", f"{s}.copy()", f"tlist({s})", f"tllist({s})", f"plist({s})", f"llist({s})", f"{s}[{i}:]", f"{s} + {o}", f"{s} * 2", f"[x] + {s}", f"list(reversed({s}))"] + ([f"{s}.__copy__()"] if False else [])
    if f == "set":
        return [f"{s}.persistent()", f"{s}.copy()", f"tset({s})", f"pset({s})", f"{s} | {o}", f"{s} & {o}", f"{s} - {o}", f"{s} ^ {o}", f"{s}.union({o})", f"{s}.difference({o})", f"{s}.intersection({o})", f"{s}.symmetric_difference({o})"]
    return [f"{s}.persistent()", f"{s}.copy()", f"tdict({s})", f"tldict({s})", f"pdict({s})", f"ldict({s})", f"tdict({s}, aa=1)", f"ldict({s}, aa=1)", f"holdlazy({s})", f"{s}.as_tdict()", f"list({s}.items())"]
def trans_edit(r, T, s, p, others):
    """Statements editing the transient s in place."""
    f = FAM[T]; o = r.choice(others) if others else s; i = r.randint(-5, 5); v = atom(r, f, p); w = r.choice(["x", "y", "None", "lz(a3)"])
    if f == "list":
        return [f"{s}[{i}] = {v}", f"del {s}[{i}]", f"{s}.append({v})", f"{s}.prepend({v})", f"{s}.insert({i}, {v})", f"{s}.pop({i})", f"{s}.pop()", f"{s}.remove(a1)", f"{s}.extend([{v}, y])", f"{s}.extend({o})",
                f"{s}.clear()", f"{s}.reverse()", f"{s}.sort(key=id)", f"{s} += [x]", f"{s} *= 2", f"{s} += {o}"]
    if f == "set":
        return [f"{s}.add({v})", f"{s}.add({v})", f"{s}.discard({v})", f"{s}.discard({v})", f"{s}.remove({v})", f"{s}.pop()", f"{s}.clear()", f"{s} |= {o}", f"{s} &= {o}", f"{s} -= {o}", f"{s} ^= {o}", f"{s}.update([{v}])", f"{s}.discardall([{v}])"]
    return [f"{s}[{v}] = {w}", f"{s}[{v}] = {w}", f"del {s}[{v}]", f"del {s}[{v}]", f"{s}.pop({v}, None)", f"{s}.pop({v})", f"{s}.popitem()", f"{s}.setdefault({v}, {w})", f"{s}.update([({v}, {w})])", f"{s}.update({o})", f"{s}.clear()", f"{s}.ready_all()"]

def programs(mon, facet):
    """Random programs over up to six collections; facet: 'C12' persistent ones never change, 'C13' only the edited one changes,
    'C14' persistent() shows the current contents."""
    r = mon.rng
    fams = ["list", "set", "dict"]
    while not mon.over():
        f = r.choice(fams); p = r.choice(PATS)
        T0 = r.choice([t for t in PERS + TRANS if FAM[t] == f])
        st = State(f"c0 = {start_expr(r, T0, p)}", ("c0",), fresh=True)
        if not mon.setup(st) or not mon.ok(st, f"consistent(c0, keys_of({p!r}))"): mon.skipped += 1; continue
        cells = [("c0", T0)]; lines = []
        ns = mon.ns
        # the program is generated while it runs on a scratch copy of the namespace, then judged as one case
        for step in range(r.randint(2, 10)):
            name, T = r.choice(cells[-3:] + cells)
            others = [c for c, t in cells if FAM[t] == f] if r.random() < .8 else [name]
            if T in PERS: kind, e = "new", r.choice(pers_ops(r, T, name, p, others))
            elif r.random() < .45: kind, e = "new", r.choice(trans_new(r, T, name, p, others))
            else: kind, e = "edit", r.choice(trans_edit(r, T, name, p, others))
            if kind == "new":
                new = f"c{len(cells)}" if len(cells) < 6 else None
                stmt = f"{new or 'tmp'} = tryf(lambda: {e})"
            else:
                new = None; stmt = f"try: {e}\nexcept Exception: pass"
            # run it to learn the type of the new cell
            try:
                mon.cur_started = __import__("time").time()
                exec(compile(stmt, "<gen>", "exec"), ns)
            except BaseException as ex:
                if isinstance(ex, Enough): raise
                if not isinstance(ex, Exception):   # a hang: not this property's business
                    break
            finally:
                mon.cur_started = None
            if new:
                tn = type(ns.get(new)).__name__
                if tn not in FAM: new = None; stmt = stmt.replace(f"c{len(cells)} =", "tmp =", 1)
            watch = [c for c, t in cells if (facet == "C12" and t in PERS) or (facet == "C13" and not (kind == "edit" and c == name))]
            if facet == "C12" and kind == "edit" and False: watch = []
            if facet in ("C12", "C13") and watch:
                skip = f" if c is not {name}" if facet == "C13" and kind == "edit" else ""   # two names may denote one object
                lines.append(f"KS = [(c, snap(c)) for c in ({', '.join(watch)},){skip}]\n{stmt}\nfor c, k in KS: unchanged(c, k, {e!r})")
            else:
                lines.append(stmt)
            if new:
                cells.append((new, tn))
            if facet == "C14":
                for c, t in cells:
                    if t in TRANS and (c == name or c == new): lines.append(f"shows({c}, {c}.persistent(), 'persistent() after ' + {e!r})")
        mon.case(st, "\n".join(lines), None, (facet, T0, len(lines), lines[-1].split("(")[0][:20]))
        mon.sample(st, "; ".join(lines)[:400])

def all_states(mon, types, limit=None, lazy=False):
    """States of every kind, interleaved."""
    def lim(g, n): return itertools.islice(g, n)
    lt = [t for t in types if FAM[t] == "list"]; s_ = [t for t in types if FAM[t] == "set"]; d = [t for t in types if FAM[t] == "dict"]
    gens = []
    if lt:
        gens.append(((st, "list") for st in lstates(mon, lt, deep=False, big=False)))
        if any(t in ("llist", "tllist") for t in lt): gens.append(((st, "list") for st in lazy_lists([t for t in lt if t in ("llist", "tllist")])))
    if s_: gens.append(((st, "set") for st in sstates(mon, s_, depth=3, rand=False)))
    if d:
        gens.append(((st, "dict") for st in dstates(mon, d, depth=3, rand=False)))
        if any(t in ("ldict", "tldict") for t in d): gens.append(((st, "dict") for st in lazy_dicts([t for t in d if t in ("ldict", "tldict")])))
    n = 0
    while gens:
        for g in list(gens):
            for st in itertools.islice(g, 20):
                n += 1
                if mon.mine(n): yield st
            else:
                pass
        alive = []
        for g in gens:
            try: nxt = next(g)
            except StopIteration: continue
            n += 1
            if mon.mine(n): yield nxt
            alive.append(g)
        gens = alive

def lazy_lists(types, pats=None):
    pats = pats or ["L", "LL", ".L", "L.", "R", "LR.", "L.L", "RL", "..", "L..L", ".RL.", "LLLLL", "R.L.R.L", "LLLLLLLL"]
    for k, pat in enumerate(pats):
        for st in (0, -1, -len(pat), -len(pat) - 2, 2):
            for T in types:
                yield State(f"E0 = lazies({pat!r}); s = lmake({T}, {st}, {len(pat)}, E0); del CALLS[:]", ("s", "E0"), fresh=True, tag=(T, "lazy"), info=(len(pat), st))
def lazy_dicts(types):
    for pat in ["L", "LL", ".L", "R", "LR.", "L.L", "L..L", "RLRL", "LLLLLL"]:
        for p in PATS:
            for h in ("".join(map(str, range(len(pat)))), "".join(map(str, range(len(pat)))) + "x0", "0x0" + "".join(map(str, range(1, len(pat)))) + "0"):
                for T in types:
                    yield State(f"E0 = lazies({pat!r}) + lazies('LL'); s = dhist({T}, {p!r}, {h!r}, E0); del CALLS[:]", ("s", "E0"), fresh=True, tag=(T, p, "lazy"), info=(p, h))

# ---- C12 -------------------------------------------------------------------------------------------------------
def c12(mon):
    end = mon.deadline
    try:
        mon.deadline = mon.t0 + (end - mon.t0) * .5
        r = mon.rng
        for st, f in all_states(mon, PERS):
            if mon.over(): break
            p = st.info[0] if f != "list" else "two"
            if not mon.setup(st) or not mon.ok(st, f"consistent(s, keys_of({p!r}))"): mon.skipped += 1; continue
            T = st.tag[0]
            if T in ("llist", "ldict"):
                # forcing the lazies leaves the stored ones in place, whichever way they are forced
                keep = "L = raw(s) if isinstance(s, llist) else [(k, rawget(s, k)) for k in s]; h = holdlazy(s); lz0 = [s.is_lazy(k) for k in (range(len(s)) if isinstance(s, llist) else s)]\n"
                after = "; M = raw(s) if isinstance(s, llist) else [(k, rawget(s, k)) for k in s]; assert len(L) == len(M) and all(e is g or (type(e) is tuple and e[0] is g[0] and e[1] is g[1]) for e, g in zip(L, M)), 'the stored lazies were replaced'; assert lz0 == [s.is_lazy(k) for k in (range(len(s)) if isinstance(s, llist) else s)], 'is_lazy changed'; unchanged(s, old, 'forcing')"
                for frc in ("s.ready_all()", "list(s) if isinstance(s, llist) else list(s.values())", "(s == s.copy(), s == 3)", "[s[k] for k in (range(len(s)) if isinstance(s, llist) else s)]", "repr(s)", "s.transient()"):
                    mon.case(st, keep + f"old = snap(s); tmp = tryf(lambda: {frc})" + after, None, (T, "force", frc[:8]))
            # attributes and items
            mon.case(st, "old = snap(s)\nfor n in slots(s) + ['foo', '_x', '__class__', '__dict__']:\n    v = getattr(s, n, None)\n    for w in (v, None, 5):\n        r = out(lambda: setattr(s, n, w)); assert isinstance(r.exc, TypeError), f'setattr {n}: {r}'\n    r = out(lambda: delattr(s, n)); assert isinstance(r.exc, TypeError), f'delattr {n}: {r}'\nunchanged(s, old, 'attribute assignment')", None, (T, "attr", f))
            mon.case(st, "old = snap(s)\ndef f1(): s[0] = x\ndef f2(): del s[0]\ndef f3(): s[x] = x\ndef f4(): del s[x]\ndef f5(): s[0:1] = [x]\ndef f6(): del s[0:1]\nfor g in (f1, f2, f3, f4, f5, f6):\n    r = out(g); assert isinstance(r.exc, TypeError), f'item assignment or deletion: {r}'\nunchanged(s, old, 'item assignment')", None, (T, "item", f))
            others = {"list": ["[a1]", "plist([x])", "llist([x])"], "set": ["{1}", "pset([1])", "tset([1])"], "dict": ["{1: 2}", "pdict({1: 2})", "tdict({1: 2})"]}[f]
            for e in r.sample(pers_ops(r, T, "s", p, others), 8):
                mon.case(st, f"old = snap(s); tmp = tryf(lambda: {e}); unchanged(s, old, {e!r}); h = tryf(lambda: hash(s)); unchanged(s, old, 'hash')", None, (T, e.split("(")[0]))
                # derived transient, edited: the source stays
            aug = {"list": ["t += [x]", "t *= 2", "t += s"], "set": ["t |= {x}", "t &= set()", "t -= s", "t ^= {x}"], "dict": ["t = t | {x: 1}"]}[f]
            for a in aug:
                mon.case(st, f"old = snap(s); t = s\ntry:\n    {a}\nexcept TypeError: pass\nunchanged(s, old, {a!r})", None, (T, a))
            ed = r.sample(trans_edit(r, {"plist": "tlist", "llist": "tllist", "pset": "tset", "pdict": "tdict", "ldict": "tldict"}[T], "t", p, others), 5)
            mon.case(st, "old = snap(s); t = s.transient()\n" + "\n".join(f"try: {e}\nexcept Exception: pass\nunchanged(s, old, 't = s.transient(); ' + {e!r})" for e in ed), None, (T, "edits"))
            mon.sample(st, "every operation, then s is read again")
        mon.deadline = end
        programs(mon, "C12")
    except Enough:
        pass

# ---- C13 -------------------------------------------------------------------------------------------------------
LINKS = {   # ways to get a collection b from a collection a
    "list": ["a.transient()", "a.persistent()", "a.copy()", "tlist(a)", "tllist(a)", "plist(a)", "llist(a)", "a[:]", "a[::1]", "holdlazy(a)", "copy.copy(a)", "a + []", "a * 1", "a.persistent().transient()", "tlist(a).persistent()", "a.transient().persistent()"],
    "set": ["a.transient()", "a.persistent()", "a.copy()", "tset(a)", "pset(a)", "copy.copy(a)", "a | set()", "a - set()", "a.union()", "a.difference()", "a.difference([object()])", "a.difference([], iter([]))", "a.union([], [])", "a - {object()}", "a.intersection(a)", "a & a", "a.persistent().transient()"],
    "dict": ["a.transient()", "a.persistent()", "a.copy()", "tdict(a)", "tldict(a)", "pdict(a)", "ldict(a)", "holdlazy(a)", "a.as_tdict()", "a.as_pdict()", "copy.copy(a)", "tdict(a, aa=1)", "pdict(a, aa=1)", "a.persistent().transient()", "tdict(a).persistent()", "a.update()", "a.dropall([])", "a.setall([], [])"],
}
def c13(mon):
    r = mon.rng; end = mon.deadline
    try:
        mon.deadline = mon.t0 + (end - mon.t0) * .5
        for st, f in all_states(mon, PERS + TRANS):
            if mon.over(): break
            p = st.info[0] if f != "list" else "two"
            if not mon.setup(st) or not mon.ok(st, f"consistent(s, keys_of({p!r}))"): mon.skipped += 1; continue
            T = st.tag[0]
            for link in LINKS[f]:
                for pre in ("", "edit"):
                    # optionally edit a first, then derive b, then edit either one repeatedly, and read the other after each edit
                    TT_ = {"list": "tlist", "set": "tset", "dict": "tdict"}[f]
                    ea = r.sample(trans_edit(r, TT_, "a", p, None), 3); eb = r.sample(trans_edit(r, TT_, "b", p, None), 3)
                    ok = "isinstance(%s, (TransientSequence, TransientSet, TransientMapping))"
                    src = "a = s\n"
                    if pre and T in TRANS: src += f"try: {ea[0]}\nexcept Exception: pass\n"
                    src += f"b = tryf(lambda: {link})\n" + ("" if "hold" in link else f"assert b is not a or not {ok % 'a'}, {link + ' is the transient itself'!r}\n") + f"if fam(b) is not None and b is not a:\n    ka = snap(a); kb = snap(b)\n"
                    for e1, e2 in zip(ea, eb):
                        src += f"    if {ok % 'a'}:\n        try: {e1}\n        except Exception: pass\n        unchanged(b, kb, 'b = {link}; ' + {e1!r}); ka = snap(a)\n"
                        src += f"    if {ok % 'b'}:\n        try: {e2}\n        except Exception: pass\n        unchanged(a, ka, 'b = {link}; ' + {e2!r}); kb = snap(b)\n"
                    S = State(st.src, st.names, fresh=True)
                    if T in TRANS or "t" in link: mon.case(S, src, None, (T, link, pre))
            mon.sample(st, "b = s.persistent(); edit s; read b; ...")
        mon.deadline = end
        programs(mon, "C13")
    except Enough:
        pass

# ---- C14 -------------------------------------------------------------------------------------------------------
def c14(mon):
    r = mon.rng; end = mon.deadline
    try:
        mon.deadline = mon.t0 + (end - mon.t0) * .6
        for st, f in all_states(mon, PERS + TRANS):
            if mon.over(): break
            p = st.info[0] if f != "list" else "two"
            if not mon.setup(st) or not mon.ok(st, f"consistent(s, keys_of({p!r}))"): mon.skipped += 1; continue
            T = st.tag[0]; n = len(mon.ns["s"])
            if T in PERS:
                mon.case(st, "t = s.transient(); shows(s, t, 'transient()'); q = t.persistent(); shows(s, q, 'round trip')\nif len(s): assert q is s and s.transient().copy().persistent() is s, 'an unedited round trip makes a new object'\nt2 = t.copy(); len(t2); list(t2)\nif len(s): assert t2.persistent() is s, 'reading an unedited transient makes persistent() build a new object'", None, (T, "round", n))
                if f == "list":
                    mon.case(st, "L = raw(s)\nfor i in range(-len(L), len(L)): is_(out(lambda: s.set(i, L[i])), s, f's.set({i}, the same object)')\nfor i in (len(L), len(L) + 3, -len(L) - 1): is_(out(lambda: s.drop(i)), s, f's.drop({i})')\nis_(out(lambda: s.copy()), s, 's.copy()'); len(s) and is_(out(lambda: type(s)(s)), s, f'{type(s).__name__}(s)')", None, (T, "noop", n))
                elif f == "set":
                    mon.case(st, f"for k in keys_of({p!r}) + twins_of({p!r}):\n    if k in s: is_(out(lambda: s.add(k)), s, f's.add({{k}})')\n    else: is_(out(lambda: s.discard(k)), s, f's.discard({{k}})')\nis_(out(lambda: s.copy()), s, 's.copy()'); len(s) and is_(out(lambda: pset(s)), s, 'pset(s)'); is_(out(lambda: s.addall(list(s))), s, 's.addall(s)'); is_(out(lambda: s.discardall([])), s, 's.discardall([])')", None, (T, "noop", n))
                else:
                    mon.case(st, f"for k in keys_of({p!r}) + twins_of({p!r}):\n    if k in s:\n        is_(out(lambda: s.set(k, rawget(s, k))), s, f's.set({{k}}, the same object)'); is_(out(lambda: s.setdefault(k, x)), s, f's.setdefault({{k}})')\n    else:\n        is_(out(lambda: s.drop(k)), s, f's.drop({{k}})'); r = out(lambda: s.pop(k, None)); assert r.exc is None and r.val[1] is s, f's.pop({{k}}, None): {{r}}'\nis_(out(lambda: s.copy()), s, 's.copy()'); len(s) and is_(out(lambda: type(s)(s)), s, f'{{type(s).__name__}}(s)')", None, (T, "noop", n))
            else:
                mon.case(st, "shows(s, s.persistent(), 'persistent()'); q = s.persistent(); t = q.transient(); shows(s, t, 'persistent().transient()')", None, (T, "snap", n))
                TT_ = T
                for e in r.sample(trans_edit(r, TT_, "s", p, None), 8) + ["s.clear()"]:
                    for first in ("", "q = s.persistent()\n", "s = s.persistent().transient()\n", "s = s.copy()\n"):
                        S = State(st.src, st.names, fresh=True)
                        mon.case(S, first + f"try: {e}\nexcept Exception: pass\nshows(s, s.persistent(), 'persistent() after ' + {e!r}); shows(s, s.copy(), 'copy() after ' + {e!r})", None, (T, e.split("(")[0][:14], first[:9], n))
                # every kind of edit on a transient that remembers where it came from, enumerated over all indices and keys
                if f == "list":
                    es = [f"s[{i}] = x" for i in range(-n, n)] + [f"s[{i}] = tw(raw(s), {i})" for i in range(-n, n)] + [f"del s[{i}]" for i in range(-n, n)] + [f"s.insert({i}, x)" for i in range(-n, n + 1)] + ["s.append(x)", "s.prepend(x)", "s.pop()", "s.reverse()"]
                elif f == "set":
                    es = [f"s.{m}(keys_of({p!r})[{i}])" for m in ("add", "discard") for i in range(5)] + ["s.pop()"]
                else:
                    es = [f"s[keys_of({p!r})[{i}]] = x" for i in range(5)] + [f"s[keys_of({p!r})[{i}]] = tw([rawget(s, keys_of({p!r})[{i}])], 0)" for i in range(5)] + [f"s.pop(keys_of({p!r})[{i}], None)" for i in range(5)] + [f"if keys_of({p!r})[{i}] in s: del s[keys_of({p!r})[{i}]]" for i in range(5)] + ["s.popitem()", f"s.setdefault(keys_of({p!r})[0], x)"]
                for e in es:
                    S = State(st.src, st.names, fresh=True)
                    mon.case(S, f"s = s.persistent().transient()\ntry:\n    {e}\nexcept Exception: pass\nshows(s, s.persistent(), 'persistent() after ' + {e!r})", None, (T, "all", e.split("(")[0][:12], n))
            mon.sample(st, "edit; shows(s, s.persistent())")
        mon.deadline = end
        programs(mon, "C14")
    except Enough:
        pass

# ---- C16 -------------------------------------------------------------------------------------------------------
def c16(mon):
    r = mon.rng
    body = ("assert (p == q) is True, 'built to be equal'\n" if False else "if p == q:\n    hp, hq = hash(p), hash(q)\n    assert hp == hq, f'{show(p)} == {show(q)} but their hashes are {hp} and {hq}'\n    assert hash(p) == hp and hash(q) == hq, 'a second hash differs'\n    assert hash(p.copy()) == hp and {p: 1}.get(q) == 1, 'hash lookup'")
    try:
        n = 0
        # lists: layouts and kinds
        while not mon.over():
            n += 1
            k = r.randint(0, 2)
            if k == 0:
                m = r.choice([0, 1, 2, 3, 5, 9])
                els = [r.choice(["a0", "b0", "a1", "b1", "1", "1.0", "True", "0", "-1", "-2", "'s'", "(1, 2)", "(1.0, 2)", "None"]) for _ in range(m)]
                eq = {"a0": "b0", "b0": "a0", "a1": "b1", "b1": "a1", "1": "1.0", "1.0": "True", "True": "1", "0": "0.0", "(1, 2)": "(1.0, 2)"}
                els2 = [eq.get(e, e) if r.random() < .5 else e for e in els]
                lz1 = [f"lz({e})" if r.random() < .3 else e for e in els]
                def mk(T, es): return f"lmake({T}, {r.randint(-6, 4)}, {m}, [{', '.join(es)}])"
                a = mk("plist", els) if r.random() < .5 else mk("llist", lz1)
                b = mk("plist", els2) if r.random() < .5 else mk("llist", [f"lz({e})" if r.random() < .3 else e for e in els2])
                if r.random() < .3: b = f"{b}.append(x).delete()" 
                if r.random() < .2: b = f"{b}.transient().persistent()"
                S = State(f"p = {a}; q = {b}", ("p", "q"), fresh=True); tag = ("list", m)
            elif k == 1:
                p = r.choice(PATS); ix = [i for i in range(7) if r.random() < .5]; jx = list(ix); r.shuffle(jx)
                a = "[" + ", ".join(f"keys_of({p!r})[{i}]" for i in ix) + "]"
                b = "[" + ", ".join(f"{r.choice(('keys_of', 'twins_of'))}({p!r})[{i}]" for i in jx) + "]"
                b = r.choice([f"pset({b})", f"pset({b} + [keys_of({p!r})[7]]).discard(keys_of({p!r})[7])", f"tset({b}).persistent()", f"pset({b}[::-1]).addall({a})", f"pset({b}) | pset({a})"])
                S = State(f"p = pset({a}); q = {b}", ("p", "q"), fresh=True); tag = ("set", p, len(ix))
            else:
                p = r.choice(PATS); ix = [i for i in range(6) if r.random() < .5]; jx = list(ix); r.shuffle(jx)
                val = {i: r.choice(["a0", "a1", "1", "None", "(1, 2)"]) for i in ix}
                val2 = {"a0": "b0", "a1": "b1", "1": "1.0"}
                def lzz(v, T): return f"lz({v})" if T == "ldict" and r.random() < .4 else v
                T1, T2 = r.choice(PD), r.choice(PD)
                a = f"{T1}([" + ", ".join(f"(keys_of({p!r})[{i}], {lzz(val[i], T1)})" for i in ix) + "])"
                b = f"{T2}([" + ", ".join(f"({r.choice(('keys_of', 'twins_of'))}({p!r})[{i}], {lzz(val2.get(val[i], val[i]) if r.random() < .5 else val[i], T2)})" for i in jx) + "])"
                if r.random() < .4: b = f"{b}.set(keys_of({p!r})[7], 1).drop(keys_of({p!r})[7])"
                if r.random() < .3 and ix: b = f"{b}.set(keys_of({p!r})[{ix[0]}], x).set(keys_of({p!r})[{ix[0]}], {val[ix[0]]})"
                S = State(f"p = {a}; q = {b}", ("p", "q"), fresh=True); tag = ("dict", p, len(ix), T1, T2)
            if not mon.setup(S): mon.skipped += 1; continue
            mon.case(S, "h0 = hash(q) if len(q) % 2 else None\n" + body + "\nassert h0 is None or hash(q) == h0, 'hash changed'", None, tag)
            # the cached hash must not leak into collections derived from a hashed one
            der = {"list": "p.append(x), p.set(0, x) if len(p) else p, p.transient().persistent(), p[:], llist(p), plist(p)", "set": "p.add(x), p.discard(x), p | {x}, p.transient().persistent()", "dict": "p.set(x, 1), p.drop(x), ldict(p), pdict(p), p.transient().persistent()"}[tag[0]]
            fresh = {"list": "plist(list(d))", "set": "pset(list(d))", "dict": "pdict(list(d.items()))"}[tag[0]]
            mon.case(S, f"hash(p)\nfor d in ({der}): assert hash(d) == hash({fresh}), f'the hash of {{show(d)}}, derived from a hashed collection, differs from that of an equal fresh one'", None, ("derived",) + tag)
            ops = r.sample(pers_ops(r, {"list": "plist", "set": "pset", "dict": "pdict"}[tag[0]], "p", tag[1] if tag[0] != "list" else "two", ["p", "q"]), 6)
            if tag[0] == "list": ops += [f"p.set({i}, {v})" for i in (0, -1) for v in ("x", "1", "'s'")]
            if tag[0] == "dict" and tag[2]: ops += [f"p.set({kk}, {v})" for kk in (f"keys_of({tag[1]!r})[{r.choice(ix)}]", f"keys_of({tag[1]!r})[7]") for v in ("x", "5", "a0", "None")]
            TF = {"list": "(plist, llist)", "set": "pset", "dict": "(pdict, ldict)"}[tag[0]]
            for e in ops:
                mon.case(S, f"hash(p); hash(q)\nd = tryf(lambda: {e})\nif isinstance(d, {TF}): assert hash(d) == hash({fresh}), f'the hash of {{show(d)}}, made by ' + {e!r} + ' from hashed collections, differs from that of an equal fresh one'", None, ("derived", e.split("(")[0]) + tag[:1])
            mon.sample(S, body)
    except Enough:
        pass

# ---- C19 -------------------------------------------------------------------------------------------------------
def c19(mon):
    r = mon.rng
    none = "\nassert CALLS == [], f'{len(CALLS)} lazy elements were computed by ' + %r"
    LP = ["s.append(lz(x))", "s.append(x)", "s.prepend(lz(x))", "s.insert(i, lz(x))", "s.set(i, lz(x))", "s.set(i, y)", "s.delete(i)", "s.delete()", "s.drop(i)", "s.drop()", "s.clear()", "s.transient()", "s.transient().persistent()", "s.as_plist()", "holdlazy(s)",
          "s.getlazy(i)", "len(s)", "bool(s)", "s.is_lazy(i)", "s.is_ready(i)", "str(s)", "s.copy()", "llist(s)", "tllist(s)", "llist(s.transient())", "s[0:2]", "s[::-1]", "s + [lz(x)]", "[lz(x)] + s", "s.extend([lz(x)])", "llist(holdlazy(s))", "s.append(x).prepend(y).delete(1).transient().persistent()", "iter(s)", "s.as_plist().transient()", "llist(E0)", "llist(iter(E0))", "copy.copy(E0)", "s is not None", "s == s"]
    LT = ["s.append(lz(x))", "s.prepend(lz(x))", "s.insert(i, lz(x))", "s.__setitem__(i, lz(x))", "s.__delitem__(i)", "s.clear()", "s.persistent()", "s.copy()", "s.getlazy(i)", "len(s)", "str(s)", "tllist(s)", "llist(s)", "s.extend([lz(x)])", "s.persistent().transient()", "tllist(E0)", "tlist(E0)", "s + [lz(x)]", "s.__iadd__([lz(x)])"]
    DP = ["s.set(k, lz(x))", "s.set(k, y)", "s.drop(k)", "s.delete(k)", "s.clear()", "s.transient()", "s.transient().persistent()", "s.as_pdict()", "holdlazy(s)", "s.getlazy(k)", "s.getlazy(k, lz(x))", "len(s)", "k in s", "s.is_lazy(k)", "s.is_ready(k)", "str(s)", "s.copy()", "ldict(s)", "tldict(s)", "ldict(s, aa=lz(x))", "ldict(s.transient())",
          "s.setdefault(k, lz(x))", "s.update([(k, lz(x))])", "s.update({k: lz(x)})", "s.update(aa=lz(x))", "s.setall([k], [lz(x)])", "s.dropall([k])", "s.deleteall([k])", "list(s)", "list(s.keys())", "len(s.items())", "len(s.values())", "list(reversed(s))", "k in s.keys()", "ldict(s.as_pdict())", "ldict(dict(s.as_pdict()))", "ldict([(1, lz(x))])", "s.items()", "s.values()"]
    DT = ["s.__setitem__(k, lz(x))", "s.__delitem__(k)", "s.clear()", "s.persistent()", "s.copy()", "s.getlazy(k)", "len(s)", "k in s", "s.is_lazy(k)", "s.is_ready(k)", "str(s)", "s.as_tdict()", "holdlazy(s)", "tldict(s)", "ldict(s)", "ldict(s, aa=lz(x))", "s.update([(k, lz(x))])", "s.update({k: lz(x)})", "s.update(aa=lz(x))", "list(s)", "list(s.keys())", "len(s.items())", "s.persistent().transient()", "tldict([(1, lz(x))])", "s.setdefault(K(1, 77), lz(x))"]
    one = {"llist": ["s[i]", "s.pop(i)", "s.pop()"], "tllist": ["s[i]", "s.pop(i)", "s.pop()"], "ldict": ["s[k]", "s.get(k)", "s.get(k, lz(x))", "s.pop(k, lz(x))", "s.pop(k)", "s.pop(k, None)", "s.popitem()"], "tldict": ["s[k]", "s.get(k)", "s.get(k, lz(x))", "s.pop(k, lz(x))", "s.pop(k)", "s.pop(k, None)", "s.setdefault(k, 1)", "s.popitem()"]}
    try:
        todo = [(st, "list") for st in lazy_lists(("llist", "tllist"))] + [(st, "dict") for st in lazy_dicts(("ldict", "tldict"))]
        for n in (33, 65):
            for T in ("llist", "tllist"): todo.append((State(f"E0 = lazies('L' * {n}); s = lmake({T}, {-n // 2}, {n}, E0); del CALLS[:]", ("s", "E0"), fresh=True, tag=(T, "big"), info=(n, 0)), "list"))
        random.Random(mon.seed).shuffle(todo)
        for rnd in itertools.count():
            for n, (st, f) in enumerate(todo):
                if mon.over(): return
                if not mon.mine(n): continue
                T = st.tag[0]
                ops = {"llist": LP, "tllist": LT, "ldict": DP, "tldict": DT}[T]
                if not mon.setup(st): continue
                size = len(mon.ns["s"])
                for e in ops:
                    params_ = [dict(i=str(i)) for i in range(-size, size)] if f == "list" and ("(i" in e or "[i" in e) else [dict(k=f"keys_of({st.info[0]!r})[{i}]") for i in range(5)] if f == "dict" and "k" in e.replace("keys", "") else [{}]
                    if len(params_) > 5: params_ = r.sample(params_, 5)
                    for q in params_:
                        mon.case(st, f"tmp = tryf(lambda: {e})" + none % e, q, (T, e, size, str(q.get("i"))))
                for e in one[T]:
                    params_ = [dict(i=str(i)) for i in range(-size, size)][:8] if f == "list" else [dict(k=f"keys_of({st.info[0]!r})[{i}]") for i in range(4)]
                    for q in params_:
                        mon.case(st, f"tmp = tryf(lambda: {e})\nassert len(CALLS) <= 1, f'{{len(CALLS)}} lazy elements were computed by ' + {e!r}", q, (T, "one", e, size))
                # iteration computes only what it yields
                it = "iter(s)" if f == "list" else r.choice(["iter(s.values())", "iter(s.items())"])
                for k in range(0, min(size, 3)):
                    mon.case(st, f"it = {it}\nfor _ in range({k}): next(it)\nassert len(CALLS) <= {k}, f'{{len(CALLS)}} lazy elements were computed to read {k}'", None, (T, "iter", k))
                # a chain of structural operations
                chain = [r.choice(LP[:10] if T == "llist" else LT[:6] if T == "tllist" else DP[:4] if T == "ldict" else DT[:2]) for _ in range(4)]
                q = f"i = {r.randint(-2, 2)}; k = keys_of('two')[{r.randint(0, 4)}]\n"
                mon.case(st, q + "\n".join((f"t = tryf(lambda: {e}); s = s if isinstance(t, Exception) else t" if T in PERS else f"tryf(lambda: {e})") for e in chain) + none % " then ".join(chain), None, (T, "chain", tuple(chain)))
                mon.sample(st, "each structural operation; CALLS stays empty")
            if rnd > 50: return
    except Enough:
        pass

# ---- C20 -------------------------------------------------------------------------------------------------------
def c20(mon):
    r = mon.rng
    LR = [("s[i]", "V[i]"), ("s.getlazy(i)", "RAW(E0[i])"), ("list(s)", "V"), ("list(iter(s))", "V"), ("list(reversed(s))", "V[::-1]"), ("s.index(w)", "V.index(w)"), ("s.count(w)", "V.count(w)"), ("w in s", "w in V"), ("len(s)", "len(V)"),
          ("list(s[0:2])", "V[0:2]"), ("list(s[::-1])", "V[::-1]"), ("list(plist(s))", "V"), ("list(tlist(s))", "V"), ("s == V", "True"), ("plist(V) == s", "True"), ("s == plist(V)", "True"), ("s == V[:-1]", "V == V[:-1]"), ("list(s.copy())", "V"), ("list(list(s) + s) if isinstance(s, llist) else V + V", "V + V")]
    LRP = [("s.pop(i)[0]", "V[i]"), ("s.pop()[0]", "V[-1]"), ("list(s.as_plist())", "RAWS"), ("list(holdlazy(s))", "RAWS"), ("s.is_lazy(i)", "isinstance(E0[i], lazy)"), ("s.is_ready(i)", "not isinstance(E0[i], lazy) or E0[i].is_ready()"), ("list(s.transient())", "V"), ("s < V", "False"), ("s <= V", "True"), ("hash(s)", "hash(plist(V))"), ("list(s.sort(key=lambda e: e.e))", "V"), ("list(s.reverse())", "V[::-1]"), ("repr(plist(s))", "repr(plist(V))")]
    LRT = [("s.pop(i)", "V[i]"), ("s.pop()", "V[-1]"), ("list(s.persistent())", "V")]
    DR = [("s[k]", "V[k]"), ("s.get(k)", "V.get(k)"), ("s.get(k, x)", "V.get(k, x)"), ("k in s", "k in V"), ("len(s)", "len(V)"), ("list(s)", "list(V)"), ("list(s.items())", "ITEMS(V)"), ("list(s.values())", "list(V.values())"), ("list(s.keys())", "list(V)"), ("s == V", "True"), ("V == s", "True"),
          ("s.getlazy(k)", "RAW(D0.get(k))"), ("s.getlazy(k, x)", "RAW(D0.get(k, x))"), ("(k, V.get(k)) in s.items()", "k in V"), ("(k, x) in s.items()", "False"), ("V.get(k) in s.values()", "V.get(k) in list(V.values())"), ("E(getattr(V.get(k), 'e', 0)) in s.values()", "E(getattr(V.get(k), 'e', 0)) in list(V.values())"), ("(k, E(getattr(V.get(k), 'e', 0))) in s.items()", "k in V and V[k] == E(getattr(V.get(k), 'e', 0))"), ("list(reversed(s.values()))", "list(V.values())[::-1]"), ("list(reversed(s.items()))", "ITEMS(V)[::-1]"),
          ("dict(pdict(s))", "V"), ("list(pdict(s).items())", "ITEMS(V)"), ("list(pdict(s).values())", "list(V.values())"), ("list(tdict(s).values())", "list(V.values())"), ("s.is_lazy(k)", "isinstance(D0[k], lazy)"), ("s.is_ready(k)", "not isinstance(D0[k], lazy) or D0[k].is_ready()"), ("dict(s)", "V"), ("list(s.copy().values())", "list(V.values())"), ("{**s}", "V")]
    DRP = [("s.pop(k)[0]", "V[k]"), ("s.pop(k, x)[0]", "V.get(k, x)"), ("list(s.as_pdict().values())", "list(map(RAW, D0.values()))"), ("list(holdlazy(s).values())", "list(map(RAW, D0.values()))"), ("s.popitem()[0]", "V.popitem() if not V else next(iter(V.items()))"), ("hash(s)", "hash(pdict(V))"), ("list(s.transient().values())", "list(V.values())"), ("list(s.update({}).values())", "list(V.values())")]
    DRT = [("s.pop(k)", "V[k]"), ("s.pop(k, x)", "V.get(k, x)"), ("list(s.as_tdict().values())", "list(map(RAW, D0.values()))"), ("list(holdlazy(s).values())", "list(map(RAW, D0.values()))"), ("s.popitem()", "V.popitem() if not V else next(iter(V.items()))"), ("s.setdefault(k, x)", "V.get(k, x)"), ("list(s.persistent().values())", "list(V.values())")]
    # eq on values: RAW marks a value compared as the stored object itself
    helper = ("class RAWV:\n    def __init__(self, v): self.v = v\n    def __repr__(self): return f'the stored {self.v!r}'\n"
              "def RAW(v): return RAWV(v)\nclass ITEMS(list):\n    def __init__(self, d): list.__init__(self, [(k, v) for k, v in d.items()])\n    def __getitem__(self, i):\n        r = list.__getitem__(self, i)\n        if isinstance(i, slice):\n            t = ITEMS({}); t.extend(r); return t\n        return r\n"
              "def veq(v, m):\n    if isinstance(m, RAWV): return v is m.v\n    if isinstance(m, ITEMS): return len(v) == len(m) and all(type(a) is tuple and a[0] == b[0] and a[1] is b[1] for a, b in zip(v, m))\n    if isinstance(m, tuple): return type(v) is tuple and len(v) == len(m) and v[0] == m[0] and v[1] is m[1]\n    if isinstance(m, dict): return list(v) == list(m) and all(v[k] is m[k] for k in m)\n    if isinstance(m, list): return isinstance(v, list) and len(v) == len(m) and all(veq(a, b) for a, b in zip(v, m))\n    if m is None or type(m) in (int, bool, str): return type(v) is type(m) and v == m\n    return v is m or (isinstance(m, (K, float)) and v == m)\n"
              "def vagree(r, m, what):\n    if m.exc is not None: assert isinstance(r.exc, type(m.exc)), f'{what}: {r}, expected {m}'\n    else: assert r.exc is None and veq(r.val, m.val), f'{what}: {r}, expected {m.val!r}'\n")
    try:
        todo = [(st, "list") for st in lazy_lists(("llist", "tllist"))] + [(st, "dict") for st in lazy_dicts(("ldict", "tldict"))]
        random.Random(mon.seed).shuffle(todo)
        for v in ("0", "''", "()", "False", "[]", "None", "{}", "0.0", "plist()", "pdict()", "b''", "frozenset()", "1", "(1,)"):
            for lz in ("lazy(lambda: v)", "v"):
                for T in ("llist", "tllist"):
                    S = State(f"v = {v}; s = {T}([{lz}, x, {lz}])", ("s", "v"), fresh=True)
                    mon.case(S, "assert s[0] is v and list(s)[2] is v and list(reversed(s))[0] is v and s[-1] is v and [e for e in s][0] is v and s[0:1][0] is v, f'reading {v!r}: {list(s)}'\nassert un(s.getlazy(0)) is v, f'getlazy on {v!r}'\np = s.pop(0)\nassert (p[0] if isinstance(s, llist) else p) is v, f'pop of {v!r}: {p}'", None, (T, "falsy", v, lz))
                for T in ("ldict", "tldict"):
                    S = State(f"v = {v}; s = {T}([('k', {lz}), ('j', x)])", ("s", "v"), fresh=True)
                    mon.case(S, "assert s['k'] is v and s.get('k') is v and s.get('k', x) is v and list(s.values())[0] is v and list(s.items())[0][1] is v and ('k', v) in s.items() and v in s.values() and 'k' in s, f'reading {v!r}: {list(s.items())}'\nassert un(s.getlazy('k')) is v and un(s.getlazy('k', x)) is v and s.getlazy('z', v) is v and s.get('z', v) is v, f'getlazy and get on {v!r}'\np = s.pop('k')\nassert (p[0] if isinstance(s, ldict) else p) is v, f'pop of {v!r}: {p}'", None, (T, "falsy", v, lz))
                mon.case(State(f"v = {v}; o = {lz}", ("v", "o"), fresh=True), "assert unlazy(o) is v and unlazy(o) is v, f'unlazy gives {unlazy(o)!r} for {v!r}'", None, ("unlazy", v, lz))
        for rnd in itertools.count():
            for n, (st, f) in enumerate(todo):
                if mon.over(): return
                if not mon.mine(n): continue
                T = st.tag[0]
                if f == "list":
                    S = State(helper + st.src + "; RAWS = list(map(RAW, E0)); V = list(map(lambda v: v.partial[0]() if isinstance(v, lazy) and v.partial else un(v), E0))", ("s", "E0"), fresh=True)
                else:
                    S = State(helper + st.src + "; D0 = dict(rawd(s)); V = {k: (v.partial[0]() if isinstance(v, lazy) and v.partial else un(v)) for k, v in D0.items()}", ("s",), fresh=True)
                # V is the list of computed values (computed here by calling the function directly, so the lazies stay as they are)
                if not mon.setup(S): mon.skipped += 1; continue
                size = len(mon.ns["V"])
                pre = "same(rawi(s), E0)" if f == "list" else f"len(D0) == len(s) and all(rawget(s, k) is v for k, v in D0.items())"
                if not mon.ok(S, pre): mon.skipped += 1; continue
                ops = (LR + (LRP if T == "llist" else LRT)) if f == "list" else (DR + (DRP if T == "ldict" else DRT))
                for real, model in ops:
                    q = {}
                    if f == "list":
                        if "i" in real.replace("list", "").replace("iter", "").replace("is_", "").replace("index", "").replace("plist", ""): q["i"] = str(r.randint(-size - 1, size))
                        if "w" in real: q["w"] = r.choice(["a0", "b0", "a1", "a2", "x"])
                    elif "k" in real: q["k"] = f"keys_of({st.info[0]!r})[{r.randint(0, 5)}]"
                    mon.case(S, f"m = out(lambda: {model}); r = out(lambda: {real}); vagree(r, m, {real!r})", q, (T, real, size, st.tag))
                    # twice: the second read gives the same
                mon.case(S, "A = list(s) if fam(s) == 'list' else list(s.items()); B = list(s) if fam(s) == 'list' else list(s.items()); assert A == B", None, (T, "twice"))
                if T in ("llist", "ldict", "tldict"):
                    mon.case(S, "r = out(lambda: s.ready_all()); assert r.exc is None and r.val is s, f's.ready_all(): {r}'\nassert all(v.is_ready() for v in (E0 if fam(s) == 'list' else D0.values()) if isinstance(v, lazy)), 'ready_all left a lazy element waiting'", None, (T, "ready_all", size))
                mon.sample(st, "every read against the computed values")
            if rnd > 50: return
    except Enough:
        pass

# ---- C21 -------------------------------------------------------------------------------------------------------
def c21(mon):
    r = mon.rng
    LSAME = ["s.set(i, x)", "s.delete(i)", "s.delete()", "s.insert(i, x)", "s.drop(i)", "s.drop()", "s.pop(i)[1]", "s.pop()[1]", "s.append(x)", "s.prepend(x)", "s.clear()", "s[0:2]", "s[:]", "s[3:1]", "s[::-1]", "s[5:]", "s.copy()", "s.extend([])", "s.extend([x])", "s.extend(())", "s + []", "s + [x]", "s + plist([x])", "s + llist([x])", "s + plist()", "s + llist()", "[] + s", "[x] + s", "s * 0", "s * 1", "s * 2", "s * -1", "2 * s", "0 * s", "s.sort()", "s.sort(key=id, reverse=True)", "s.reverse()", "s.remove(a0)", "s.transient().persistent()", "type(s)(s)", "type(s)(s.transient())", "type(s)()", "type(s)([])", "type(s)([x])", "type(s)(tlist())", "type(s)(plist())", "type(s)(tllist([x]))", "type(s)(llist([x]))", "s.set(i, x).delete(i)", "s.append(x).delete()", "type(s)(tllist())", "type(s)(llist())", "type(s)(iter([]))", "type(s)(plist([x]))"]
    LTR = ["s.copy()", "s[0:2]", "s[:]", "s[5:1]", "s + [x]", "s + []", "[x] + s", "[] + s", "s * 0", "s * 2", "s * 1", "type(s)(s)", "type(s)()", "type(s)(plist([x]))", "type(s)([])", "s.persistent().transient()", "s.__iadd__([x])", "s.__imul__(2)", "s.__imul__(0)", "type(s)(llist([x]))", "type(s)(tlist([x]))", "2 * s", "s + plist([x])", "s + tllist([x])"]
    SSAME = ["s.add(k)", "s.discard(k)", "s.remove(k)", "s.pop()[1]", "s.clear()", "s.copy()", "s | o", "s & o", "s - o", "s ^ o", "o | s", "o & s", "o - s", "o ^ s", "s.union(o)", "s.intersection(o)", "s.difference(o)", "s.symmetric_difference(o)", "s.union()", "s.addall([k])", "s.addall([])", "s.discardall([k])", "s.removeall([])", "s.transient().persistent()", "type(s)(s)", "type(s)()", "type(s)([])", "type(s)([k])", "type(s)(tset())", "type(s)(tset([k]))", "s - s", "s & set()", "s ^ s", "s | set()"]
    STR = ["s.copy()", "s | o", "s & o", "s - o", "s ^ o", "o | s", "o & s", "o ^ s", "o - s", "s.union(o)", "s.intersection(o)", "s.difference(o)", "s.symmetric_difference(o)", "type(s)(s)", "type(s)()", "type(s)([k])", "s.persistent().transient()", "s.__ior__(o)", "s.__iand__(o)", "s.__isub__(o)", "s.__ixor__(o)", "s - s"]
    DSAME = ["s.set(k, x)", "s.drop(k)", "s.delete(k)", "s.pop(k)[1]", "s.pop(k, x)[1]", "s.popitem()[1]", "s.setdefault(k, x)", "s.clear()", "s.copy()", "s.setall([k], [x])", "s.setall([], [])", "s.dropall([k])", "s.dropall(list(s))", "s.deleteall(list(s))", "s.deleteall([])", "s.update({k: x})", "s.update({})", "s.update()", "s.update(aa=1)", "s.transient().persistent()", "type(s)(s)", "type(s)()", "type(s)({})", "type(s)({k: x})", "type(s)(aa=1)", "type(s)(s, aa=1)", "type(s)(tdict())", "type(s)(tdict({k: x}))", "type(s)(pdict({k: x}))", "type(s)(pdict())", "type(s)(ldict({k: x}))", "type(s)(tldict({k: x}))", "type(s)(ldict())", "type(s)([])", "type(s)([(k, x)])", "s.drop(k).set(k, x)"]
    DTR = ["s.copy()", "type(s)(s)", "type(s)()", "type(s)({})", "type(s)({k: x})", "type(s)(aa=1)", "type(s)(pdict({k: x}))", "type(s)(ldict({k: x}))", "type(s)(tdict({k: x}))", "type(s)(tldict({k: x}))", "s.persistent().transient()", "type(s)(s, aa=1)"]
    pair = "t = out(lambda: s.transient()); assert t.exc is None and type(t.val) is PAIRED[type(s)], f'transient() of a {type(s).__name__}: {t}'; p = out(lambda: t.val.persistent()); assert p.exc is None and type(p.val) is type(s), f'transient().persistent(): {p}'"
    unpair = "t = out(lambda: s.persistent()); assert t.exc is None and type(t.val) is UNPAIR[type(s)], f'persistent() of a {type(s).__name__}: {t}'"
    fixed = {"llist": [("s.as_plist()", "plist"), ("holdlazy(s)", "plist"), ("plist(s)", "plist"), ("tlist(s)", "tlist"), ("tllist(s)", "tllist")], "plist": [("llist(s)", "llist"), ("tllist(s)", "tllist"), ("tlist(s)", "tlist"), ("holdlazy(s)", "plist")],
             "tlist": [("plist(s)", "plist"), ("llist(s)", "llist"), ("tllist(s)", "tllist")], "tllist": [("plist(s)", "plist"), ("llist(s)", "llist"), ("tlist(s)", "tlist")],
             "pset": [("tset(s)", "tset")], "tset": [("pset(s)", "pset")],
             "pdict": [("ldict(s)", "ldict"), ("tdict(s)", "tdict"), ("tldict(s)", "tldict"), ("holdlazy(s)", "pdict")], "ldict": [("pdict(s)", "pdict"), ("tdict(s)", "tdict"), ("tldict(s)", "tldict"), ("s.as_pdict()", "pdict"), ("holdlazy(s)", "pdict")],
             "tdict": [("pdict(s)", "pdict"), ("ldict(s)", "ldict"), ("tldict(s)", "tldict")], "tldict": [("pdict(s)", "pdict"), ("ldict(s)", "ldict"), ("tdict(s)", "tdict"), ("s.as_tdict()", "tdict"), ("holdlazy(s)", "tdict")]}
    ok = {"list": "sound(s)", "set": "True", "dict": "True"}
    body = "r = out(lambda: %s); assert r.exc is not None or type(r.val) is type(s), %r + f' of a {type(s).__name__} {r}'"
    try:
        for rnd in range(30):
            for st, f in all_states(mon, PERS + TRANS):
                if mon.over(): return
                T = st.tag[0]; p = st.info[0] if f != "list" else None
                if not mon.setup(st): mon.skipped += 1; continue
                n = len(mon.ns["s"])
                mon.case(st, pair if T in PERS else unpair, None, (T, "pair", n))
                if f != "set":
                    for t in (("tlist", "tllist") if f == "list" else ("tdict", "tldict")):
                        for e in ("s",) + (("s.transient()",) if T in PERS else ("s.persistent()", "s.persistent().transient()")):
                            mon.case(st, f"r = out(lambda: {t}({e}).persistent()); assert r.exc is None and type(r.val) is UNPAIR[{t}], '{t}({e}).persistent()' + f' of a {{type(s).__name__}} {{r}}'", None, (T, "back", t, e, n))
                for e, t in fixed[T]:
                    mon.case(st, f"r = out(lambda: {e}); assert r.exc is None and type(r.val) is {t}, {e!r} + f' of a {{type(s).__name__}} {{r}}'", None, (T, e, n))
                ops = {"plist": LSAME, "llist": LSAME, "tlist": LTR, "tllist": LTR, "pset": SSAME, "tset": STR, "pdict": DSAME, "ldict": DSAME, "tdict": DTR, "tldict": DTR}[T]
                for e in (ops if n <= 2 else r.sample(ops, min(len(ops), 14))):
                    q = dict(i=str(r.randint(-n, n)))
                    if f != "list": q["k"] = f"keys_of({p!r})[{r.randint(0, 4)}]"
                    if f == "set": q["o"] = r.choice([f"set(keys_of({p!r})[:2])", f"pset(keys_of({p!r})[1:3])", "frozenset()", f"frozenset(keys_of({p!r})[:1])"])
                    if f == "set" and q["o"].startswith("pset") and e.startswith("o "): continue
                    mon.case(st, body % (e, e), q, (T, e, n))
                mon.sample(st, "type of every result")
            if mon.over(): return
    except Enough:
        pass

# ---- C23 -------------------------------------------------------------------------------------------------------
def c23(mon):
    r = mon.rng
    helper = '''class W:
    """An element whose repr is n characters long."""
    def __init__(self, n, c="w"): self.n, self.c = n, c
    def __repr__(self): return self.c * self.n
    def __hash__(self): return hash(self.c) + self.n
    def __eq__(self, o): return isinstance(o, W) and (self.n, self.c) == (o.n, o.c)
def inner(t):
    """The text between the delimiters (two characters on each side)."""
    assert len(t) >= 4, t
    return t[2:-2]
def check_str(s, parts):
    t = inner(str(s)); full = ", ".join(parts)
    assert len(t) <= 60, f"str shows {len(t)} characters between its delimiters: {t}"
    if len(full) <= 60: assert t == full, f"str shows {t!r}, though {full!r} fits"
    else:
        assert t.endswith("..."), f"str shows {t!r} and no ellipsis"
        k = t[:-3]
        ok = [n for n in range(len(parts)) if k == "".join(q + ", " for q in parts[:n])]
        assert ok, f"str shows {t!r}, not a prefix of the elements"
        n = ok[-1] + 1
        assert n >= len(parts) or len("".join(q + ", " for q in parts[:n])) + 3 > 60, f"str shows {t!r}, though {parts[n - 1]!r} fits too"
def check_seqstr(seq, parts, m, sep):
    from pcollections.util import seqstr
    if m is None: kw = {}
    else: kw = dict(maxlen=m)
    if sep != ", ": kw["sep"] = sep
    t = seqstr(seq, **kw); full = sep.join(parts)
    assert type(t) is str, f"seqstr gives {t!r}"
    if m is None or len(full) <= m: assert t == full, f"seqstr shows {t!r} instead of {full!r}"
    else:
        assert len(t) <= m, f"seqstr shows {len(t)} characters, the limit is {m}: {t}"
        assert t.endswith("..."), f"seqstr shows {t!r} and no ellipsis"
        ok = [n for n in range(len(parts)) if t == sep.join(parts[:n] + ["..."])]
        assert ok, f"seqstr shows {t!r}, not a prefix of {parts}"
        n = ok[-1] + 1
        assert n >= len(parts) or len(sep.join(parts[:n] + ["..."])) > m, f"seqstr shows {t!r}, though {parts[n - 1]!r} fits too"
def check_repr(s, parts):
    assert inner(repr(s)) == ", ".join(parts), f"repr is {repr(s)!r}, the elements are {parts}"
'''
    try:
        while not mon.over():
            T = r.choice(PERS + TRANS); f = FAM[T]
            n = r.choice([0, 1, 2, 3, 5, 8, 20, 70])
            if r.random() < .3:
                ks = [r.choice([0, 1, 2, 3, 4, 5, 6, 9]) for _ in range(r.randint(0, 6))]; sep = r.choice([", ", ", ", "", " -- "])
                m = r.choice([None, 3, 4, 5, 6, 7, 8, 10, sum(ks) + len(sep) * (len(ks) - 1) + r.randint(-4, 4), sum(ks[:-1]) + len(sep) * len(ks) + r.randint(-1, 6)])
                if m is not None and m < 3: m = 3
                els = "[" + ", ".join(f"W({k}, '{'abcdef'[i]}')" for i, k in enumerate(ks)) + "]"
                if r.random() < .7: S = State(helper + f"E0 = {els}; s = E0; P = [repr(e) for e in E0]", ("s",), fresh=True)
                else: S = State(helper + f"E0 = {els}; s = dict(enumerate(E0)); P = [f'{{i}}: {{e!r}}' for i, e in enumerate(E0)]", ("s",), fresh=True)
                if mon.setup(S): mon.case(S, f"check_seqstr(s, P, {m}, {sep!r})", None, ("seqstr", m, len(ks)))
                continue
            total = r.choice([56, 57, 58, 59, 60, 61, 62, 63, 64, 66, 80, 10, 30])
            lens = []
            rest = total
            for i in range(n):
                k = r.randint(0, 12) if r.random() < .7 else r.choice([0, 1, 30, 54, 55, 56, 57, 58, 59, 60, 61, 62])
                lens.append(k)
            if n and r.random() < .7:   # aim at a total near the limit
                cur = sum(lens[:-1]) + 2 * (n - 1)
                if cur < total: lens[-1] = max(0, total - cur)
            cs = "abcdefghijklmnopqrstuvwxyz"
            strs = r.random() < .3      # strings, whose str and repr differ
            els = "[" + ", ".join(f"'{cs[i % 26] * (k - 2)}'" if strs and k > 2 else f"W({k}, '{cs[i % 26]}')" for i, k in enumerate(lens)) + "]"
            if f == "list":
                lzy = T in ("llist", "tllist")
                mask = [lzy and r.random() < .3 for _ in lens]
                src = f"E0 = {els}; E1 = [lz(e) if m else e for e, m in zip(E0, {mask})]; s = lmake({T}, {r.randint(-5, 3)}, {n}, E1); del CALLS[:]; P = ['<lazy>' if m else repr(e) for e, m in zip(E0, {mask})]"
                rep = "R = [repr(e) for e in E1]" if T == "llist" else "R = [repr(e) for e in E0]"
            elif f == "set":
                src = f"s = {T}({els}); del CALLS[:]; P = [repr(e) for e in s]"; rep = "R = [repr(e) for e in s]"
            else:
                lzy = T in ("ldict", "tldict")
                mask = [lzy and r.random() < .3 for _ in lens]
                src = f"E0 = {els}; E1 = [lz(e) if m else e for e, m in zip(E0, {mask})]; s = {T}(list(zip(range({n}), E1))); del CALLS[:]; P = [f\"{{i}}: {{'<lazy>' if m else repr(e)}}\" for i, (e, m) in enumerate(zip(E0, {mask}))]"
                rep = "R = [f'{k}: {v!r}' for k, v in rawd(s)]"
            S = State(helper + src, ("s",), fresh=True)
            if not mon.setup(S) or not mon.ok(S, "consistent(s)"): mon.skipped += 1; continue
            mon.case(S, "check_str(s, P); assert CALLS == [], 'str computed a lazy element'", None, (T, n, total, tuple(lens[-2:])))
            mon.case(S, rep + "; check_repr(s, R)", None, (T, "repr", n))
            mon.sample(State(src), "check_str(s, P)")
    except Enough:
        pass

# ---- C24 -------------------------------------------------------------------------------------------------------
def c24(mon):
    r = mon.rng
    pool = ["0", "1", "-1", "'a'", "'b'", "None", "(1, 2)", "2.5", "True", "[1]", "plist([1, 2])", "pset([1])", "pdict(a=1)", "b'x'", "2**70", "'z' * 9", "llist([4])", "ldict(k=1)"]
    hash_ = ["0", "1", "-1", "-2", "'a'", "'b'", "None", "(1, 2)", "2.5", "2**61 - 1", "0.5", "b'x'", "plist([1])", "pset([2])", "pdict(a=1)"]
    def chk(kind, exact=True):
        return (f"assert q.exc is None, f'{kind}: {{q}}'; q = q.val\nassert type(q) is type(s), f'{kind} gives a {{type(q).__name__}}'\nassert q == s and s == q and len(q) == len(s), f'{kind}: {{show(q)}} instead of {{show(s)}}'\n"
                "f = fam(s)\n" + f"if f == 'list': assert list(q) == list(s) and rawi(q) == list(s), '{kind}'\nelif f == 'set': assert list(q) == list(s) and all(k in q for k in s), '{kind}'\nelse: assert list(q.items()) == list(s.items()) and all(q[k] == s[k] for k in s), '{kind}'\nunchanged(s, old, '{kind}')")
    sizes = [128, 200, 201, 300] + [c + d for c in mon.ints if 8 < c < 1500 for d in (0, 1)]
    try:
        while not mon.over():
            T = r.choice(PERS + TRANS); f = FAM[T]; n = r.choice([0, 1, 2, 3, 5, 9, 33, 70] + r.choices(sizes, k=2))
            big = n > 9 and f != "list" and r.random() < .7
            if big:
                src = f"s = {T}({'(k for k in mixed(%d) if type(k) is not K)' % n if f == 'set' else 'mixedmap(%d)' % n})"
            elif f == "list":
                src = f"s = lmake({T}, {r.randint(-6, 4)}, {n}, [{', '.join(r.choice(pool) for _ in range(n))}])"
            elif f == "set":
                src = f"s = {T}([{', '.join(r.choice(hash_) for _ in range(n))}])"
                if r.random() < .5: src = src + (f"; s = s.discard({r.choice(hash_)})" if T == "pset" else f"; s.discard({r.choice(hash_)})")
            else:
                src = f"s = {T}([{', '.join('(' + r.choice(hash_) + ', ' + r.choice(pool) + ')' for _ in range(n))}])"
                if r.random() < .5: src = src + (f"; s = s.drop({r.choice(hash_)})" if T in PD else f"; s.pop({r.choice(hash_)}, None)")
            if T in TRANS and r.random() < .3: src += "; s = s.persistent().transient()"
            S = State(src + "; old = snap(s)", ("s", "old"), fresh=True)
            if not mon.setup(S) or not mon.ok(S, "consistent(s)"): mon.skipped += 1; continue
            for proto in range(0, 6):
                mon.case(S, f"q = out(lambda: pickle.loads(pickle.dumps(s, {proto})))\n" + chk(f"pickling (protocol {proto})"), None, (T, "pickle", proto, n))
            mon.case(S, "q = out(lambda: copy.deepcopy(s))\n" + chk("deepcopy"), None, (T, "deep", n))
            mon.case(S, "q = out(lambda: copy.copy(s))\n" + chk("copy.copy"), None, (T, "copy", n))
            if T in PERS: mon.case(S, "is_(out(lambda: s.copy()), s, 's.copy()')", None, (T, "m", n))
            else:
                ed = {"list": ["q.append(1)", "q.clear()", "q.prepend(2)"], "set": ["q.add('new')", "q.clear()"], "dict": ["q['new'] = 1", "q.clear()"]}[f]
                mon.case(S, "q = out(lambda: s.copy())\n" + chk("copy()") + f"\nassert q is not s, 'copy() is the receiver'\n{r.choice(ed)}\nunchanged(s, old, 'editing a copy')", None, (T, "m", n))
                mon.case(S, f"q = copy.copy(s)\n{r.choice(ed)}\nunchanged(s, old, 'editing a copy.copy')", None, (T, "cc", n))
            mon.sample(S, "pickle.loads(pickle.dumps(s)), copy, deepcopy")
    except Enough:
        pass

CHECKS = dict(C12=c12, C13=c13, C14=c14, C16=c16, C19=c19, C20=c20, C21=c21, C23=c23, C24=c24)
