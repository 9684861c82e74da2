"""The mathematical lemmas that the models and contracts use, proved by z3 (inductions are split into base and step)."""
import time
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Int, IntSort, BoolSort, Function, Const, Array, Select, Store, BoolVal, IntVal, Solver

I, B = IntSort(), BoolSort()
X = z3.DeclareSort("LX")            # the elements of the sets
def _i(s): return [Int(x) for x in s.split()]

def enum_order():
    """The set-up of enum_interval: key enumerates [lo, hi) with inverse rank, in unsigned order."""
    key, rank = Function("key", I, I), Function("rank", I, I); n, lo, hi, i, j, k = _i("n lo hi i j k")
    u = lambda x, y: If((x >= 0) == (y >= 0), x < y, x >= 0)
    dom = lambda k: And(lo <= k, k < hi)
    hyp = [n >= 0, ForAll([i], Implies(And(0 <= i, i < n), And(dom(key(i)), rank(key(i)) == i)), patterns=[key(i)]),
           ForAll([k], Implies(dom(k), And(0 <= rank(k), rank(k) < n, key(rank(k)) == k)), patterns=[rank(k)]),
           ForAll([i, j], Implies(And(0 <= i, i < j, j < n), u(key(i), key(j))), patterns=[z3.MultiPattern(key(i), key(j))])]
    at = lambda i: If(Or(lo >= 0, hi <= 0), lo + i, If(i < hi, i, lo + i - hi))
    return key, rank, n, lo, hi, at, hyp
def enum_interval():
    key, rank, n, lo, hi, at, hyp = enum_order(); k, j = _i("m q")
    # induction over k: for all j < k, j < n: key(j) == at(j)
    ih = ForAll([j], Implies(And(0 <= j, j < k, j < n), key(j) == at(j)), patterns=[key(j)])
    # the value the k-th key must have is in the interval, has a rank, and the rank can only be k
    nxt, x = at(k), key(k); r = rank(nxt); pos = If(Or(lo >= 0, hi <= 0), x - lo, If(x >= 0, x, x - lo + hi))
    u = lambda x, y: If((x >= 0) == (y >= 0), x < y, x >= 0); inside = lambda k: And(lo <= k, k < hi)
    inst = [Implies(And(0 <= j, j < k, j < n), key(j) == at(j)) for j in (r, pos)] + [Implies(inside(nxt), And(0 <= r, r < n, key(r) == nxt)), inside(x), rank(x) == k,
        Implies(And(0 <= pos, pos < n), rank(key(pos)) == pos), Implies(And(k < r, r < n), u(x, key(r)))]
    yield "the first k keys determine the k-th, when the interval has it (instances of the hypotheses)", [n >= 0, k >= 0, k < n, k < hi - lo] + inst, key(k) == at(k)
    yield "there are no more keys than the interval has", hyp + [k >= 0, k < n, k == hi - lo, hi > lo, ForAll([j], Implies(And(0 <= j, j < k), key(j) == at(j)), patterns=[key(j)])] + [key(k) == key(k), rank(key(k)) == rank(key(k)), key(rank(key(k))) == key(k)] \
        + [Implies(And(0 <= x, x < k), key(x) == at(x)) for x in (key(k) - lo, key(k), key(k) - lo + hi)] + [rank(at(x)) == rank(at(x)) for x in (key(k) - lo, key(k), key(k) - lo + hi)], BoolVal(False)
    yield "an empty interval has no keys", hyp + [hi <= lo, n > 0, key(0) == key(0)], BoolVal(False)
def card_interval():
    """The number of entries of a map is the length of the enumeration of its keys."""
    key, rank, n, lo, hi, at, hyp = enum_order(); j = Int("q")
    full = ForAll([j], Implies(And(0 <= j, j < n), key(j) == at(j)), patterns=[key(j)])
    yield "n is at least hi - lo", hyp + [full, hi > lo, n < hi - lo, rank(at(n)) == rank(at(n)), key(rank(at(n))) == at(n)] + [Implies(And(0 <= rank(at(n)), rank(at(n)) < n), key(rank(at(n))) == at(rank(at(n))))], BoolVal(False)
def psum():
    p, l = Function("p", I, I), Function("l", I, I); p2, l2 = Function("p2", I, I), Function("l2", I, I); i, j, n = _i("i j n")
    rec = lambda p, l: [p(0) == 0, p(i + 1) == p(i) + l(i), l(i) >= 0]
    yield "psum_nonneg: base", rec(p, l), p(0) >= 0
    yield "psum_nonneg: step", rec(p, l) + [i >= 0, p(i) >= 0], p(i + 1) >= 0
    yield "psum_mono: base (j = i)", [], p(i) <= p(i)
    yield "psum_mono: step in j", [p(j + 1) == p(j) + l(j), l(j) >= 0, i <= j, p(i) <= p(j)], p(i) <= p(j + 1)
    yield "psum_ext: base", rec(p, l) + rec(p2, l2), p(0) == p2(0)
    yield "psum_ext: step", [p(i + 1) == p(i) + l(i), p2(i + 1) == p2(i) + l2(i), p(i) == p2(i), l(i) == l2(i)], p(i + 1) == p2(i + 1)
def counting():
    c, d = Function("c", I, I), Function("d", I, I); P, Q = Function("P", I, B), Function("Q", I, B); i = Int("i")
    rec = lambda c, P: [c(0) == 0, c(i + 1) == c(i) + If(P(i), 1, 0)]
    yield "count: base", rec(c, P) + rec(d, Q), c(0) == d(0)
    yield "count: step (the conditions agree)", [rec(c, P)[1], rec(d, Q)[1], c(i) == d(i), P(i) == Q(i)], c(i + 1) == d(i + 1)
    yield "count: bounds, step", [rec(c, P)[1], i >= 0, 0 <= c(i), c(i) <= i], And(0 <= c(i + 1), c(i + 1) <= i + 1)
def cardinality():
    """card over finite sets: card(empty) = 0, card(s + x) = card(s) + 1 for x not in s. Induction over the smaller set."""
    S = z3.ArraySort(X, B); card = Function("lcard", S, I); a, b = Const("a", S), Const("b", S); x, y = Const("x", X), Const("y", X); q = Const("q", X)
    sub = lambda a, b: ForAll([q], Implies(Select(a, q), Select(b, q)))
    rem = lambda s, x: Store(s, x, BoolVal(False)); add = lambda s, x: Store(s, x, BoolVal(True))
    empty = z3.K(X, BoolVal(False)); bx = rem(b, x)
    law = lambda s, x: Implies(Not(Select(s, x)), card(add(s, x)) == card(s) + 1)
    yield "adding again what was removed", [Select(b, x)], add(bx, x) == b
    yield "never negative: step", [law(a, x), Not(Select(a, x)), card(a) >= 0], card(add(a, x)) > 0
    yield "subset: base", [card(empty) == 0, card(b) >= 0], card(empty) <= card(b)
    yield "subset: step", [law(a, x), law(bx, x), add(bx, x) == b, Not(Select(a, x)), sub(add(a, x), b), Implies(sub(a, bx), card(a) <= card(bx))], card(add(a, x)) <= card(b)
    by = rem(b, y)
    yield "proper subset has fewer", [law(by, y), add(by, y) == b, sub(a, b), Select(b, y), Not(Select(a, y)), Implies(sub(a, by), card(a) <= card(by))], card(a) < card(b)
    yield "adding: the number", [law(a, x)], card(add(a, x)) == card(a) + If(Select(a, x), 0, 1) if False else Implies(Not(Select(a, x)), card(add(a, x)) == card(a) + 1)
    yield "adding a member changes nothing", [Select(a, x)], add(a, x) == a
    yield "removing: the number", [Select(b, x), law(bx, x), add(bx, x) == b], card(bx) == card(b) - 1
def ranges():
    """range and slice.indices: rlen(d, s) is the number of elements of range(0, d, s), and mul(i, s) is i*s."""
    a, b, n, s, i, q, r = _i("a b n s i q r")
    up = [s > 0, b - a + s - 1 == q * s + r, 0 <= r, r < s]         # q = (b - a + s - 1) div s
    yield "ascending: the multiple of an index below the count", [s > 0, 0 <= i, i + 1 <= q], (i + 1) * s <= q * s
    yield "ascending: elements are before the end", up + [0 <= i, i < q, (i + 1) * s <= q * s], a + i * s < b
    yield "ascending: no more elements before the end", up + [i >= q, i * s >= q * s], a + i * s >= b
    yield "ascending: an index at or above the count", [s > 0, i >= q], i * s >= q * s
    yield "ascending: elements are indices", [0 <= a, b <= n, s > 0, 0 <= i, a + i * s < b, i * s >= 0], And(0 <= a + i * s, a + i * s < n)
    yield "a multiple of a positive step is not negative", [s > 0, i >= 0], i * s >= 0
    t = -s
    yield "descending: elements are indices", [a < n, b >= -1, s < 0, 0 <= i, a + i * s > b, i * s <= 0], And(0 <= a + i * s, a + i * s < n)
    yield "descending is ascending mirrored", [s < 0], (a + i * s > b) == (-a + i * t < -b)
    yield "a multiple of a negative step is not positive", [s < 0, i >= 0], i * s <= 0
    for c in (1, 2, 3):
        m = (b - a + c - 1) / c
        yield f"constant step {c}", [i >= 0], (i < m) == (a + c * i < b)
def repetition():
    r, n, k, q, m = _i("r n k q m")
    yield "mulp: step", [], (r + 1) * n == r * n + n
    yield "mulp: not negative", [r >= 0, n >= 0], r * n >= 0
    # k = q*n + m is the division of k by n
    div = [n > 0, k == q * n + m, 0 <= m, m < n, r * n <= k, k < r * n + n]
    yield "modp: not a smaller quotient", div + [q < r, (q + 1) * n <= r * n], BoolVal(False)
    yield "modp: not a larger quotient", div + [q > r, (r + 1) * n <= q * n], BoolVal(False)
    yield "modp: products are monotone", [n > 0, q < r], (q + 1) * n <= r * n
    yield "modp: the remainder", div + [q == r], m == k - r * n
def folds():
    """fold_put: the closed form of putting key(i) -> val(i) for i = 0..n-1, by induction over n."""
    Cl, V = z3.DeclareSort("LC"), z3.DeclareSort("LV")
    F = lambda name, *s: Function(name, *s)
    mem0, get0, ord0 = F("mem0", Cl, B), F("get0", Cl, V), F("ord0", Cl, I); clk = Int("clk"); key, val = F("fkey", I, Cl), F("fval", I, V)
    L, Fi = F("L", I, Cl, I), F("Fi", I, Cl, I); mem, get, od = F("mem", I, Cl, B), F("get", I, Cl, V), F("ord", I, Cl, I); c = Const("c", Cl); i = Int("i")
    step = [L(i + 1, c) == If(key(i) == c, i, L(i, c)), Fi(i + 1, c) == If(L(i, c) >= 0, Fi(i, c), i),
            mem(i + 1, c) == Or(mem(i, c), key(i) == c), get(i + 1, c) == If(key(i) == c, val(i), get(i, c)),
            od(i + 1, c) == If(And(key(i) == c, Not(mem(i, c))), clk + i, od(i, c))]
    form = lambda n: And(mem(n, c) == Or(mem0(c), L(n, c) >= 0), Implies(mem(n, c), get(n, c) == If(L(n, c) >= 0, val(L(n, c)), get0(c))), Implies(mem(n, c), od(n, c) == If(mem0(c), ord0(c), clk + Fi(n, c))),
                         -1 <= L(n, c), L(n, c) < n, Implies(L(n, c) >= 0, And(key(L(n, c)) == c, 0 <= Fi(n, c), Fi(n, c) <= L(n, c), key(Fi(n, c)) == c)))
    base = [L(0, c) == -1, mem(0, c) == mem0(c), get(0, c) == get0(c), od(0, c) == ord0(c)]
    yield "fold_put: base", base, form(IntVal(0))
    yield "fold_put: step", step + [i >= 0, form(i)], form(i + 1)
LEMMAS = dict(enum_interval=enum_interval, card_interval=card_interval, psum=psum, counting=counting, cardinality=cardinality, ranges=ranges, repetition=repetition, folds=folds)

def prove(hyps, goal, ms=10000):
    s = Solver(); s.set("timeout", ms)
    for h in hyps: s.add(h)
    s.add(Not(goal) if not isinstance(goal, bool) else BoolVal(not goal))
    return s.check()
def task(name):
    def run(E):
        for what, hyps, goal in LEMMAS[name]():
            t = time.time(); r = prove(hyps, goal); E.covered += 1; E.solver_s += time.time() - t; E.nchecks += 1
            E.results.append((E.task, "content", what, "proved" if r == z3.unsat else "timeout" if r == z3.unknown else "unproved: sat", round(time.time() - t, 3)))
            # the hypotheses are consistent (except those of an argument by contradiction)
            if z3.is_false(goal) is False and prove(hyps, BoolVal(False), 2000) == z3.unsat:
                E.results.append((E.task, "content", what + ": the hypotheses are consistent", "unproved: contradictory", 0.0))
        E.outcomes.add("lemma")
    return run
def tasks(): return [("lemma " + n, task(n)) for n in LEMMAS]
