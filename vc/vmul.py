"""Repetition of a list (C03): the r-th copy of n elements starts at mulp(r, n) = r*n, and the k-th element of the result is the
element modp(k, n) = k mod n of the list. The functions are not interpreted; their definitions are instantiated where needed."""
from .terms import *
from .loops import Fact
from .verifier import Out, Ret, raises, rnew, rself

mulp = Function("mulp", IntSort(), IntSort(), IntSort())
modp = Function("modp", IntSort(), IntSort(), IntSort())

def lemma(r, n):
    """Instances of the definitions: for 0 <= r and 0 <= n."""
    k = fint("k"); m, m1 = mulp(r, n), mulp(simplify(r + 1), n)
    return Implies(And(0 <= r, 0 <= n), And(m1 == m + n, m >= 0, Implies(r == 0, m == 0),
        ForAll([k], Implies(And(m <= k, k < m + n), modp(k, n) == k - m), patterns=[modp(k, n)])))
def templates(loop, P0, outs):
    out = []; mul = getattr(loop.E.path, "mul", None)
    if mul is None: return out
    n, ok = mul
    for base in [k[:-2] for k in P0 if k.endswith(".a") and k[:-2] + ".n" in P0 and P0[k] is not None]:
        def f(i, S, ka=base + ".a", kn=base + ".n", lem=True):
            k = fint("k"); i = simplify(Z(i))
            return ([lemma(simplify(i + 1), n)] if lem else []) + [S[kn] == mulp(simplify(i + 1), n),
                ForAll([k], Implies(And(0 <= k, k < S[kn]), ok(modp(k, n), Select(S[ka], k))), patterns=[Select(S[ka], k)])]
        out.append(Fact(f"{base} is repeated", f, lambda i, S, f=f: f(i, S, lem=False)))
    return out
def reps(E):
    """The argument: any integer. The receiver's length and the elements a copy may have are what the invariants are about."""
    from . import vlist
    o = E.receiver; F = E.families[o.cls]; v = F.view(E, o); n = Z(v.n)
    if templates not in E.loop_templates: E.loop_templates = E.loop_templates + [templates]
    f = vlist.own(E, F, o, v, True)
    E.path.mul = (n, f)
    for r in (0, 1): E.assume(lemma(IntVal(r), n))
    return fint("reps")
def s_mul(E, F, o, v, r, inplace=False):
    from . import vlist
    vlist.may_any(E, o)
    n = Z(v.n); r = Z(E.asint(r)); f = vlist.own(E, F, o, v, True)
    for q in (IntVal(0), IntVal(1), simplify(r - 1)): E.assume(lemma(q, n))
    w = vlist.LV(simplify(If(r > 0, mulp(r, n), 0)), lambda k: v.at(modp(Z(k), n)))
    w.ok = lambda k, t: f(modp(Z(k), n), t)
    if inplace: return Out(rself(), post=w)
    return Out(rnew(o.cls, w, fresh=True)) if o.cls in F.transient else Out(Ret("either", cls=o.cls, view=w))
def s_imul(E, F, o, v, r): return s_mul(E, F, o, v, r, inplace=True)
TABLE = {"__mul__": (s_mul, [[reps]]), "__rmul__": (s_mul, [[reps]])}
