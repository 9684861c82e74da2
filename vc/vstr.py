"""Contracts on the string forms of the collections and on seqstr (C23)."""
import z3
from .terms import *
from .engine import Obj, Seq, Raised, Unsupported, SymStr, Model
from .loops import Fact
from .strings import psum, slen, isstr, srepr, sstr, scat, sjoin
from . import vlist, vset, vdict, vmisc

def totals(arr, m, sep=2): return psum(arr, m) + sep * (m - 1)
def lemmas(E, G, n):
    """psum over the fixed sequence G: its recurrence, and the lemmas psum_mono and psum_nonneg (vc/lemmas.py)."""
    k = fint("k")
    E.assume(ForAll([k], Implies(And(0 <= k, k < n), psum(G, k + 1) == psum(G, k) + slen(Select(G, k))), patterns=[z3.MultiPattern(psum(G, k), Select(G, k))]))
    E.assume(ForAll([k], Implies(And(0 <= k, k <= n), And(0 <= psum(G, k), psum(G, k) <= psum(G, n))), patterns=[psum(G, k)]))
    E.lemma_used("psum_mono"); E.lemma_used("psum_nonneg")
def same_sum(E, A, G, n):
    """psum_ext: equal strings have equal sums."""
    w = fint("w"); k = fint("k"); E.lemma_used("psum_ext")
    E.assume(Or(And(0 <= w, w < n, Select(A, w) != Select(G, w)), And(psum(A, n) == psum(G, n), ForAll([k], Implies(And(0 <= k, k <= n), psum(A, k) == psum(G, k)), patterns=[psum(A, k), psum(G, k)]))))
def templates(loop, P0, outs):
    E = loop.E; out = []
    if not E.strings: return out
    G = getattr(E.path, "ghost", None)
    ints = [k for k, t in P0.items() if t is not None and t.sort() == IntSort() and not k.endswith(".n")]
    lists = [(k[:-2], k[:-2] + ".n") for k, t in P0.items() if k.endswith(".a") and k[:-2] + ".n" in P0 and t is not None and t.sort() == AV]
    for base, kn in lists:
        ka = base + ".a"
        if G is not None:
            def pre(i, S, ka=ka, kn=kn):
                j = fint("j"); return [ForAll([j], Implies(And(0 <= j, j < S[kn]), Select(S[ka], j) == Select(G, j)), patterns=[Select(S[ka], j)])]
            out.append(Fact(f"{base} is a prefix", pre))
            m, sep = getattr(E.path, "maxlen", None), getattr(E.path, "seplen", 2)
            if m is not None and P0[kn] is not None:     # whatever was taken off does not fit
                out.append(Fact(f"{base} longest", lambda i, S, kn=kn, m=m, sep=sep: [Or(S[kn] >= P0[kn], psum(G, S[kn] + 1) + sep * (S[kn] + 1) + 3 > m)]))
            out.append(Fact(f"{base} sum", lambda i, S, ka=ka, kn=kn: [psum(S[ka], S[kn]) == psum(G, S[kn])]))
        out.append(Fact(f"{base} length", lambda i, S, kn=kn: [S[kn] >= 0]))
        if P0[kn] is not None:
            out.append(Fact(f"{base} shorter", lambda i, S, kn=kn: [S[kn] <= P0[kn]]))
        for v in ints:
            for sep in (getattr(E.path, "seplen", 2),):
                out.append(Fact(f"{v} is the length of {base}", lambda i, S, ka=ka, kn=kn, v=v, sep=sep: [S[v] == psum(S[ka], S[kn]) + sep * (S[kn] - 1)]))
                out.append(Fact(f"{v} is the length of nonempty {base}", lambda i, S, ka=ka, kn=kn, v=v, sep=sep: [Implies(S[kn] > 0, S[v] == psum(S[ka], S[kn]) + sep * (S[kn] - 1))]))
            out.append(Fact(f"{v} of empty {base}", lambda i, S, kn=kn, v=v: [Implies(S[kn] == 0, S[v] == 0)]))
    for v in ints:
        m = getattr(E.path, "maxlen", None)
        if m is not None: out.append(Fact(f"{v} within the limit", lambda i, S, v=v, m=m: [S[v] <= m]))
    return out

def strings_of(E, F, c, v, o, lazy):
    """The strings of the elements, in iteration order: a fixed array; lazy: "hide", "raw" or "value"."""
    if isinstance(F, vlist.ListFamily): key, val = None, v.at
    elif isinstance(F, vset.SetFamily):
        el = E.enumview(E.view(o)); key, val = None, lambda i: Select(el, i)
    else:
        el = E.enumview(E.view(o)); key = lambda i: Select(el, i); val = lambda i: Select(v.get, cls(Select(el, i)))
    def r(x, isval=True):
        if c not in getattr(F, "lazy", ()) : return srepr(x)
        if lazy == "hide": return If(islazy(x), E.litstr("<lazy>"), srepr(x))
        return srepr(un(x)) if lazy == "value" and isval else srepr(x)
    G = fresh("strs", AV); i = fint("i"); colon = E.litstr(": ")
    t = r(val(i)) if key is None else scat(scat(r(key(i), False), colon), r(val(i)))
    n = Z(v.n)
    E.assume(ForAll([i], Implies(And(0 <= i, i < n), Select(G, i) == t), patterns=[Select(G, i)] + ([Select(el, i)] if not isinstance(F, vlist.ListFamily) else [])))
    E.assume(ForAll([i], Implies(And(0 <= i, i < n), And(isstr(Select(G, i)), slen(Select(G, i)) >= 0)), patterns=[Select(G, i)]))
    return G
def parts_of(E, r):
    """What stands between the delimiters: (opening, (array, number of parts) or None when nothing, closing)."""
    if isinstance(r, str): return r[:2], None, r[2:]
    ps = r.pieces
    if len(ps) != 3 or not isinstance(ps[0], str) or not isinstance(ps[2], str): raise Unsupported("the pieces of the string")
    return ps[0], ps[1], ps[2]
def is_join(t): return z3.is_app(t) and t.num_args() == 3 and t.decl().eq(sjoin)
DELIMS = {"[|": "|]", "[<": ">]", "{|": "|}", "{<": ">}"}
def same(A, G, hi):
    k = fint("k")
    return ForAll([k], Implies(And(0 <= k, k < hi), Select(A, k) == Select(G, k)), patterns=[Select(A, k), Select(G, k)])
def judge(E, inner, G, n, limit, sep=", "):
    """The text between the delimiters: every element string in order, or a prefix and an ellipsis within the limit."""
    if inner is None or isinstance(inner, str):
        E.goal("content", "shows nothing only when empty", n == 0 if not inner else False); return
    if not is_join(inner): raise Unsupported("the text is not a join")
    A, m = inner.arg(1), inner.arg(2)
    E.goal("content", "separated by the separator", inner.arg(0) == E.litstr(sep))
    whole = And(m == n, same(A, G, n))
    if limit is None:
        E.goal("content", "shows every element in order", whole); return
    ell = Select(A, m - 1) == E.litstr("...")
    fits = Or(n == 0, totals(G, n, len(sep)) <= limit)
    E.goal("content", "shows at most the limit", slen(inner) <= limit)
    E.goal("content", "shows every element when they fit", Implies(fits, whole))
    E.goal("content", "else no longer prefix fits with the ellipsis", Implies(And(Not(fits), Not(whole)), psum(G, m) + len(sep) * m + 3 > limit))
    E.goal("content", "else a prefix of the elements, then an ellipsis", Implies(Not(fits), Or(whole, And(m >= 1, m - 1 < n, ell, same(A, G, m - 1)))))

def tasks(F, c, seqstr):
    out = []
    lazy = c in getattr(F, "lazy", ())
    for m, limit in (("__str__", 60), ("__repr__", None)):
        def task(E, m=m, limit=limit):
            vmisc.reg(F)(E); E.use_strings(); contracts(E, seqstr)
            o = F.mk(E, c, view=True); v = F.view(E, o); n = Z(v.n)
            E.receiver = o; E.current = (c, m)
            G = strings_of(E, F, c, v, o, "hide" if limit else "raw")
            kind, r = E.attempt(lambda: E.callmethod(o, m, []))
            E.covered += 1; E.outcomes.add(kind if kind == "ret" else r.__name__)
            E.goal("content", f"{m} returns a string", kind == "ret" and isinstance(r, (str, SymStr)))
            if kind != "ret" or not isinstance(r, (str, SymStr)): return
            a, inner, b = parts_of(E, r)
            E.goal("content", "the delimiters", DELIMS.get(a) == b)
            forced = [e for e in E.path.events if e[0] == "force"]
            if lazy:
                if limit: E.goal("force", "computes nothing", not forced)
                elif is_join(inner) and not E.must(same(inner.arg(1), G, n)): G = strings_of(E, F, c, v, o, "value")     # the lazies, or their values
            for A, m in getattr(E.path, "texts", ()): same_sum(E, A, G, n)
            judge(E, inner, G, n, limit)
            E.check_frame(F, o)
        out.append((f"{c.__name__}.{m}", task))
    return out
def m_seqstr(E, seqstr, seq, maxlen=None, sep=", ", tostr=repr):
    """The contract of seqstr, as its callers see it."""
    from collections.abc import Mapping
    if not isinstance(sep, str) or not (maxlen is None or isinstance(maxlen, int)): raise Unsupported("the arguments of seqstr")
    if maxlen is not None and maxlen < 3: raise Raised(TypeError)
    st = lambda x: E.strterm(E.text(x, "r") if tostr is repr else E.call(tostr, [x], {}))
    if E.b_isinstance(seq, Mapping):
        seq = E.callmethod(seq, "items", [])
        colon = E.litstr(": "); pair = lambda kv: scat(scat(st(kv[0]), colon), st(kv[1]))
    else: pair = st
    def one(x):
        if pair is st: return st(x)
        if not (isinstance(x, tuple) and len(x) == 2): raise Unsupported("an item that is not a pair")
        return pair(x)
    s = E.seq(seq); n = Z(s.n); i, k = fint("i"), fint("k")
    G = E.array_of(Seq(s.n, lambda i: one(s.at(i))))
    E.must_hold(ForAll([i], Implies(And(0 <= i, i < n), isstr(Select(G, i))), patterns=[Select(G, i)]), "strings of the elements")
    E.path.texts = tuple(getattr(E.path, "texts", ())) + ((G, n),)
    sp = E.litstr(sep); L = lambda t, A, m: E.assume(slen(t) == If(m <= 0, 0, psum(A, m) + len(sep) * (m - 1)))
    whole = sjoin(sp, G, n); L(whole, G, n)
    if maxlen is None: return SymStr([whole])
    A, m = fresh("shown", AV), fint("nshown"); t = sjoin(sp, A, m); L(t, A, m)
    E.assume(m >= 0)
    fits = Or(n == 0, psum(G, n) + len(sep) * (n - 1) <= maxlen)
    E.assume(slen(t) <= maxlen)
    E.assume(Implies(fits, And(m == n, same(A, G, n))))
    E.assume(Implies(Not(fits), Or(And(m == n, same(A, G, n)), And(m >= 1, m - 1 < n, Select(A, m - 1) == E.litstr("..."), same(A, G, m - 1), psum(G, m) + len(sep) * m + 3 > maxlen))))
    return SymStr([t])
def contracts(E, seqstr):
    E.fmodels = dict(getattr(E, "fmodels", {})); E.fmodels[seqstr] = lambda *a, **k: m_seqstr(E, seqstr, *a, **k)
stext = z3.Function("stext", Val, Val)        # what the given conversion returns
def function_tasks(pc, D):
    """seqstr itself, on a generic sequence or mapping, for a generic conversion to strings."""
    S = pc.util._core.seqstr
    from .engine import ListView
    def a_list(E):
        n, a = fint("len"), fresh("els", AV); E.assume(n >= 0)
        return E.alloc(list, {"#view": ListView(n, a)}, "pre"), n, lambda i: a_(a, i)
    def a_(a, i): return Select(a, i)
    def task(mapping, limit, sep, given):
        def run(E):
            E.use_strings()
            if templates not in E.loop_templates: E.loop_templates = E.loop_templates + [templates]
            v = fval("v"); text = stext if given else srepr
            E.assume(ForAll([v], And(isstr(stext(v)), slen(stext(v)) >= 0), patterns=[stext(v)]))
            if mapping:
                vmisc.reg(D)(E)
                o = D.mk(E, D.persistent[0], view=True); w = D.view(E, o); n = Z(w.n); el = E.enumview(E.view(o)); colon = E.litstr(": ")
                at = lambda i: scat(scat(text(Select(el, i)), colon), text(Select(w.get, cls(Select(el, i)))))
            else:
                n, el = fint("len"), fresh("els", AV); E.assume(n >= 0)
                o = E.alloc(list, {"#view": ListView(n, el)}, "pre")
                at = lambda i: text(Select(el, i))
            m = None
            if limit: m = fint("maxlen"); E.assume(m >= 3)
            G = fresh("strs", AV); i = fint("i")
            E.assume(ForAll([i], Implies(And(0 <= i, i < n), And(Select(G, i) == at(i), isstr(Select(G, i)), slen(Select(G, i)) >= 0)), patterns=[Select(G, i), Select(el, i)]))
            E.path.ghost = G; E.path.maxlen = m; E.path.seplen = len(sep); lemmas(E, G, n)
            kw = {}
            if m is not None: kw["maxlen"] = m
            if sep != ", ": kw["sep"] = sep
            if given: kw["tostr"] = Model(lambda x: SymStr([stext(E.toval(x))]), "tostr")
            kind, r = E.attempt(lambda: E.call(S, [o], kw))
            E.covered += 1; E.outcomes.add(kind if kind == "ret" else r.__name__)
            E.goal("content", "seqstr returns a string", kind == "ret" and isinstance(r, (str, SymStr)))
            if kind != "ret" or not isinstance(r, (str, SymStr)): return
            if isinstance(r, SymStr) and len(r.pieces) != 1: raise Unsupported("the pieces of the string")
            judge(E, r if isinstance(r, str) else r.pieces[0], G, n, m, sep)
        return run
    out = []
    for mapping in (False, True):
        for limit in (False, True):
            for sep in ((", ", "", " -- ") if not mapping else (", ",)):
                for given in ((False, True) if (sep == ", " and not mapping) or not limit else (True,)):
                    out.append((f"seqstr of a {'mapping' if mapping else 'list'}" + (", with a limit" if limit else "") + (f", separated by {sep!r}" if sep != ", " else "") + (", tostr given" if given else ""), task(mapping, limit, sep, given)))
    def bad(E):
        E.use_strings(); m = fint("maxlen"); E.assume(m < 3)
        o = E.alloc(list, {"#view": ListView(fint("len"), fresh("els", AV))}, "pre")
        kind, r = E.attempt(lambda: E.call(S, [o], {"maxlen": m}))
        E.covered += 1; E.outcomes.add(kind if kind == "ret" else r.__name__)
        E.goal("raise", "a limit below 3 raises TypeError", kind == "raise" and r is TypeError)
    out.append(("seqstr with a limit below 3", bad))
    return out
