"""Normal forms of the source, applied to the parsed text before it is executed symbolically.  Each rewrite keeps the meaning.

Loops that drive an iterator by hand become for loops:

    it = iter(X)                                  for T in X: BODY
    while True:                            =>     else: H          (no else when H is empty)
        try: T = next(it)
        except StopIteration: H; break
        BODY

(also with BODY in the else clause of the try, and with H ending in return, raise or continue-free code that leaves the loop).
A for loop calls iter() on its operand again, which returns an iterator itself; when the name `it` is used for nothing else in
the function the assignment is folded into the loop.

Loops that count by hand become for loops over a range:

    while i < E: BODY; i += 1              =>     for i in range(i, E): BODY
                                                  else: if i < E: i = E

(and the like for <=, >, >= and steps of -1) where E is an expression over constants and names, BODY assigns neither i nor a name
in E, and has no continue.  Loops that count with several variables, or by other constant steps, get the number of their iterations:

    while lo < hi: BODY                    =>     for _ in range((hi - lo + 1) // 2): BODY
        (BODY has lo += 1 and hi -= 1 at its top level and nothing else assigns them)

(and for <=, >, >= and !=).  A further condition, `while i < E and C`, becomes `if not C: break` at the start of the body, and
`while True: if C: break; BODY` becomes `while not C: BODY`."""
import ast

def names(n, name): return sum(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n))
def is_call(e, f, n): return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == f and len(e.args) == n and not e.keywords
def true(e): return isinstance(e, ast.Constant) and bool(e.value)

def as_for(s):
    """The for loop that a hand-driven while loop is, or None."""
    if not (isinstance(s, ast.While) and true(s.test) and not s.orelse and s.body): return None
    t = s.body[0]
    if not (isinstance(t, ast.Try) and not t.finalbody and len(t.body) == 1 and len(t.handlers) == 1): return None
    a, h = t.body[0], t.handlers[0]
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and is_call(a.value, "next", 1) and isinstance(a.value.args[0], ast.Name)): return None
    if not (isinstance(a.targets[0], (ast.Name, ast.Tuple, ast.List)) and isinstance(h.type, ast.Name) and h.type.id == "StopIteration" and h.name is None): return None
    last = h.body[-1]
    if not isinstance(last, (ast.Break, ast.Return, ast.Raise)): return None
    if isinstance(last, ast.Raise) and last.exc is None: return None
    if any(isinstance(x, (ast.Break, ast.Continue)) for b in h.body[:-1] for x in ast.walk(b)): return None
    if not all(isinstance(x, (ast.Name, ast.Tuple, ast.List, ast.Store)) for x in ast.walk(a.targets[0])): return None
    orelse = h.body[:-1] if isinstance(last, ast.Break) else h.body
    f = ast.For(a.targets[0], a.value.args[0], (t.orelse + s.body[1:]) or [ast.Pass()], orelse, None)
    ast.copy_location(f, s); ast.fix_missing_locations(f)
    return f

def plain(e):
    """The names in an expression made of constants, names and arithmetic, or None."""
    if isinstance(e, ast.Constant): return set() if type(e.value) is int else None
    if isinstance(e, ast.Name): return {e.id}
    if isinstance(e, ast.UnaryOp): return plain(e.operand)
    if isinstance(e, ast.BinOp):
        a, b = plain(e.left), plain(e.right)
        return None if a is None or b is None else a | b
def step_of(s, i):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == i: op, v = s.op, s.value
    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and isinstance(s.value, ast.BinOp) and isinstance(s.value.left, ast.Name) and s.value.left.id == i: op, v = s.value.op, s.value.right
    else: return None
    if isinstance(v, ast.Constant) and type(v.value) is int and v.value == 1 and isinstance(op, (ast.Add, ast.Sub)): return 1 if isinstance(op, ast.Add) else -1
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant) and type(v.operand.value) is int and v.operand.value == 1 and isinstance(op, ast.Add): return -1
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
def linear(e, sign=1, o=None):
    """{name: coefficient, None: constant} of an expression that is linear in its names, or None."""
    o = {} if o is None else o
    if isinstance(e, ast.Constant) and type(e.value) is int: o[None] = o.get(None, 0) + sign * e.value
    elif isinstance(e, ast.Name): o[e.id] = o.get(e.id, 0) + sign
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub): return linear(e.operand, -sign, o)
    elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        if linear(e.left, sign, o) is None: return None
        return linear(e.right, sign if isinstance(e.op, ast.Add) else -sign, o)
    else: return None
    return o
def updates(s):
    """{name: constant} that a statement adds to names, or None."""
    def one(t, v):
        l = linear(v)
        return None if l is None or l.pop(t.id, 0) != 1 or any(c for n, c in l.items() if n is not None) else l.get(None, 0)
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)):
        l = linear(s.value, 1 if isinstance(s.op, ast.Add) else -1)
        return None if l is None or any(c for n, c in l.items() if n is not None) else {s.target.id: l.get(None, 0)}
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        t = s.targets[0]
        if isinstance(t, ast.Name): ps = [(t, s.value)]
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts) and all(isinstance(x, ast.Name) for x in t.elts): ps = list(zip(t.elts, s.value.elts))
        else: return None
        d = {t.id: one(t, v) for t, v in ps}
        return None if None in d.values() or len(d) != len(ps) else d
def by_step(s, gap, used):
    """while x != E: ... x += step  (step is not zero)"""
    for u in s.body:
        if isinstance(u, ast.AugAssign) and isinstance(u.target, ast.Name) and isinstance(u.value, ast.Name) and isinstance(u.op, ast.Add) and gap.get(u.target.id) in (1, -1): break
    else: return None
    x, st = u.target.id, u.value.id
    if st in used or any(isinstance(n, (ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.Delete)) for b in s.body for n in ast.walk(b)): return None
    if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in used | {st} for b in s.body if b is not u for n in ast.walk(b)): return None
    l, r = s.test.left, s.test.comparators[0]
    D = ast.BinOp(r, ast.Sub(), l) if gap[x] < 0 else ast.BinOp(l, ast.Sub(), r)
    f = ast.For(ast.Name(f"_count{s.lineno}", ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.BinOp(D, ast.FloorDiv(), ast.Name(st, ast.Load()))], []), s.body,
                [ast.If(s.test, [ast.While(ast.Constant(True), [ast.Pass()], [])], [])], None)
    ast.copy_location(f, s); ast.fix_missing_locations(f)
    return f
def as_count(s):
    """The for loop over a number of iterations that a while loop over linear counters is, or None."""
    if not (isinstance(s, ast.While) and not s.orelse and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and type(s.test.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)): return None
    a, b, op = s.test.left, s.test.comparators[0], type(s.test.ops[0])
    if op in FLIP and op in (ast.Gt, ast.GtE): a, b, op = b, a, FLIP[op]
    gap = linear(b); gap = None if gap is None else linear(a, -1, gap)
    if not gap: return None
    used = {n for n in gap if n is not None}
    if op is ast.NotEq and any(isinstance(x, ast.AugAssign) and isinstance(x.value, ast.Name) for x in s.body): return by_step(s, gap, used)
    if any(isinstance(n, (ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.Delete)) for x in s.body for n in ast.walk(x)): return None
    d = 0; got = set()
    for x in s.body:
        u = updates(x)
        if u and set(u) & used:
            if set(u) & got: return None
            got |= set(u) & used; d += sum(gap[n] * c for n, c in u.items() if n in used)
        elif any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in used for n in ast.walk(x)): return None
    if not got: return None
    D = ast.BinOp(b, ast.Sub(), a)
    if op is ast.NotEq:
        if d not in (1, -1): return None
        T = D if d < 0 else ast.BinOp(a, ast.Sub(), b)
        orelse = [ast.If(s.test, [ast.While(ast.Constant(True), [ast.Pass()], [])], [])]
    else:
        if d >= 0: return None
        T = ast.BinOp(D, ast.Add(), ast.Constant(-d - 1 if op is ast.Lt else -d)); orelse = []
        if d != -1: T = ast.BinOp(T, ast.FloorDiv(), ast.Constant(-d))
    f = ast.For(ast.Name(f"_count{s.lineno}", ast.Store()), ast.Call(ast.Name("range", ast.Load()), [T], []), s.body, orelse, None)
    ast.copy_location(f, s); ast.fix_missing_locations(f)
    return f
def split(s):
    """`while True: if C: break; BODY` as a loop with a test; and the test of a loop without its further conditions, which are tested in the body."""
    if not isinstance(s, ast.While) or s.orelse: return s
    if true(s.test) and len(s.body) > 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break):
        c = s.body[0].test
        inv = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in (ast.Is, ast.IsNot): t = ast.Compare(c.left, [inv[type(c.ops[0])]()], c.comparators)
        elif isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in inv and linear(c.left) is not None and linear(c.comparators[0]) is not None and as_count_like(c, s): t = ast.Compare(c.left, [inv[type(c.ops[0])]()], c.comparators)
        else: t = ast.UnaryOp(ast.Not(), c)
        s2 = ast.While(t, s.body[1:], []); ast.copy_location(s2, s); ast.fix_missing_locations(s2)
        return s2
    return s
def as_count_like(c, s):
    """Whether the names compared are counters: an int is compared, so that not (a < b) is a >= b."""
    ns = {n.id for e in (c.left, c.comparators[0]) for n in ast.walk(e) if isinstance(n, ast.Name)}
    return any(set(updates(x) or ()) & ns for x in s.body[1:])
def counted(s):
    s = split(s)
    f = as_range(s) or as_count(s)
    if f is not None: return f
    if isinstance(s, ast.While) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
        rest = s.test.values[1:]
        t = ast.If(ast.UnaryOp(ast.Not(), rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)), [ast.Break()], [])
        s2 = ast.While(s.test.values[0], [t] + s.body, []); ast.copy_location(s2, s); ast.fix_missing_locations(s2)
        f = as_range(s2) or as_count(s2)
        if f is not None: return f
    return s

def as_range(s):
    """The for loop that a hand-counted while loop is, or None."""
    if not (isinstance(s, ast.While) and not s.orelse and len(s.body) > 1 and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and type(s.test.ops[0]) in FLIP): return None
    for x, e, op in ((s.test.left, s.test.comparators[0], type(s.test.ops[0])), (s.test.comparators[0], s.test.left, FLIP[type(s.test.ops[0])])):
        if not isinstance(x, ast.Name): continue
        i, d, used = x.id, step_of(s.body[-1], x.id), plain(e)
        if d is None or used is None or i in used or (d > 0) != (op in (ast.Lt, ast.LtE)): continue
        body = s.body[:-1]
        if any(isinstance(n, (ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.Delete)) for b in body for n in ast.walk(b)): continue
        if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in used | {i} for b in body for n in ast.walk(b)): continue
        end = e if op in (ast.Lt, ast.Gt) else ast.BinOp(e, ast.Add() if d > 0 else ast.Sub(), ast.Constant(1))
        load = lambda: ast.Name(i, ast.Load())
        f = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [load(), end] + ([] if d > 0 else [ast.UnaryOp(ast.USub(), ast.Constant(1))]), []), body,
                    [ast.If(ast.Compare(load(), [ast.Lt() if d > 0 else ast.Gt()], [end]), [ast.Assign([ast.Name(i, ast.Store())], end)], [])], None)
        ast.copy_location(f, s); ast.fix_missing_locations(f)
        return f

class Loops(ast.NodeTransformer):
    def __init__(self): self.fn = []
    def visit_FunctionDef(self, n):
        self.fn.append(n)
        try: return self.generic_visit(n)
        finally: self.fn.pop()
    def generic_visit(self, n):
        n = super().generic_visit(n)
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list): setattr(n, fld, self.block(b))
        return n
    def block(self, b):
        o = []
        for s in b:
            f = as_for(s)
            if f is None: o.append(counted(s)); continue
            it = f.iter.id
            p = o[-1] if o else None
            if self.fn and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == it and is_call(p.value, "iter", 1) and names(self.fn[-1], it) == 2:
                o.pop(); f.iter = p.value.args[0]
            o.append(f)
        return o

def normalize(tree): return Loops().visit(tree)
