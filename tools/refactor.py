"""Behaviour-preserving rewrites of the whole package, to test that the machinery stays quiet: python3-vt tools/refactor.py KIND OUTDIR
writes a copy of /repo to OUTDIR with every function rewritten by KIND. Nothing here is used by the checks."""
import ast, copy, os, shutil, sys
FILES = ["_list.py", "_set.py", "_dict.py", "_lazy.py", "abc/_core.py", "abc/_seq.py", "abc/_set.py", "abc/_map.py", "util/_core.py"]
N = lambda x: ast.Name(x, ast.Load()); S = lambda x: ast.Name(x, ast.Store())
class Bodies(ast.NodeTransformer):
    """Rewrites every statement list."""
    def block(self, b): return b
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.Module, ast.ClassDef)): setattr(n, f, self.block(b))
        return n
class TempReturn(Bodies):
    def block(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                o += [ast.Assign([S("result_")], s.value), ast.Return(N("result_"))]
            else: o.append(s)
        return o
def terminal(b): return bool(b) and (isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or (isinstance(b[-1], ast.If) and terminal(b[-1].body) and terminal(b[-1].orelse)))
class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)): return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n
class ElseAfterReturn(Bodies):
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and terminal(s.body) and i + 1 < len(b):
                return b[:i] + [ast.If(s.test, s.body, self.block(b[i + 1:]))]
        return b
class Flatten(Bodies):
    """Drops else after a branch that ends."""
    def block(self, b):
        o = []
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and terminal(s.body):
                o.append(ast.If(s.test, s.body, [])); o += self.block(s.orelse)
            else: o.append(s)
        return o
class Unpack(Bodies):
    n = 0
    def block(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and all(isinstance(e, ast.Name) for e in s.targets[0].elts) and not isinstance(s.value, ast.Tuple):
                Unpack.n += 1; t = f"pair{Unpack.n}_"
                o.append(ast.Assign([S(t)], s.value))
                for i, e in enumerate(s.targets[0].elts): o.append(ast.Assign([S(e.id)], ast.Subscript(N(t), ast.Constant(i), ast.Load())))
            else: o.append(s)
        return o
class Locals(ast.NodeTransformer):
    """Renames local variables."""
    def visit_FunctionDef(self, f):
        args = {a.arg for a in f.args.args + f.args.posonlyargs + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        inner = [n for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f]
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
        for l in inner: loc -= {a.arg for a in l.args.args}
        glob = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        loc -= glob
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc: n.id = n.id + "_v"
        return f
class ForWhile(Bodies):
    n = 0
    def block(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse:
                ForWhile.n += 1; it = f"it{ForWhile.n}_"
                o.append(ast.Assign([S(it)], ast.Call(N("iter"), [s.iter], [])))
                t = ast.Try([ast.Assign([s.target], ast.Call(N("next"), [N(it)], []))], [ast.ExceptHandler(N("StopIteration"), None, [ast.Break()])], [], [])
                o.append(ast.While(ast.Constant(True), [t] + s.body, []))
            else: o.append(s)
        return o
class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        t = copy.deepcopy(n.target)
        for x in ast.walk(t):
            if hasattr(x, "ctx") and x is t: x.ctx = ast.Load()
        return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
class Enumerate(Bodies):
    n = 0
    def block(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and isinstance(s.target, ast.Tuple) and len(s.iter.args) == 1 \
                    and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                Enumerate.n += 1; i = s.target.elts[0]; v = s.target.elts[1]
                o.append(ast.Assign([S(i.id)], ast.Constant(0)))
                o.append(ast.For(v, s.iter.args[0], s.body + [ast.AugAssign(S(i.id), ast.Add(), ast.Constant(1))], []))
            else: o.append(s)
        return o
class Helper(ast.NodeTransformer):
    """Every method becomes a call of a helper that holds its body."""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == "self" and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) and not f.decorator_list and not any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(f)):
                g = copy.deepcopy(f); g.name = f"_{c.name}_{f.name.strip('_')}_impl"
                out.append(g)
                call = [N(a.arg) for a in f.args.args[1:]] + ([ast.Starred(N(f.args.vararg.arg), ast.Load())] if f.args.vararg else [])
                kws = [ast.keyword(a.arg, N(a.arg)) for a in f.args.kwonlyargs] + ([ast.keyword(None, N(f.args.kwarg.arg))] if f.args.kwarg else [])
                doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                f.body = doc + [ast.Return(ast.Call(ast.Attribute(N("self"), g.name, ast.Load()), call, kws))]
                g.args.defaults = g.args.defaults
        c.body = out
        return c
class FuncHelper(ast.NodeTransformer):
    """object.__setattr__ through a module-level function."""
    def visit_Module(self, m):
        self.generic_visit(m)
        i = next(i for i, s in enumerate(m.body) if isinstance(s, ast.ClassDef)) if any(isinstance(s, ast.ClassDef) for s in m.body) else len(m.body)
        m.body[i:i] = ast.parse("def _put(obj, name, value):\n    object.__setattr__(obj, name, value)\n").body
        return m
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__" and isinstance(n.func.value, ast.Name) and n.func.value.id == "object": return ast.Call(N("_put"), n.args, n.keywords)
        return n
class Cmp(ast.NodeTransformer):
    """a < b as b > a, and the like."""
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.F and all(isinstance(x, (ast.Name, ast.Constant, ast.Call, ast.BinOp, ast.UnaryOp)) for x in (n.left, n.comparators[0])):
            return ast.Compare(n.comparators[0], [self.F[type(n.ops[0])]()], [n.left])
        return n
class MapGen(ast.NodeTransformer):
    """map(lambda x: e, xs) as a generator expression; not where its result is an iterator given out by next (it is in any case)."""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "map" and len(n.args) == 2 and isinstance(n.args[0], ast.Lambda) and len(n.args[0].args.args) == 1:
            l = n.args[0]
            return ast.GeneratorExp(l.body, [ast.comprehension(S(l.args.args[0].arg), n.args[1], [], 0)])
        return n
class BoolIf(Bodies):
    """if a and b: X  (no else)  as nested ifs."""
    def block(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                t = s.body
                for v in reversed(s.test.values): t = [ast.If(v, t, [])]
                o += t
            else: o.append(s)
        return o
class AttrLocals(ast.NodeTransformer):
    """Slots of self that are only read are read once, at the start, when no statement before could change them: constructor-like slots of persistent classes."""
    def visit_ClassDef(self, c):
        if not c.name.startswith("p"): return c
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == "self" and not any(isinstance(x, (ast.Lambda, ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
                used = {}
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in ("_phamt", "_start", "_els", "_idx", "_top") and isinstance(x.ctx, ast.Load): used[x.attr] = 1
                if not used: continue
                class R(ast.NodeTransformer):
                    def visit_Attribute(s, n):
                        s.generic_visit(n)
                        if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in used and isinstance(n.ctx, ast.Load): return N("my" + n.attr)
                        return n
                k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                body = [R().visit(s) for s in f.body[k:]]
                f.body = f.body[:k] + [ast.Assign([S("my" + a)], ast.Attribute(N("self"), a, ast.Load())) for a in used] + body
        return c
class IfExp(Bodies):
    """x = a if c else b  as an if statement."""
    def block(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.IfExp):
                o.append(ast.If(s.value.test, [ast.Assign([s.targets[0]], s.value.body)], [ast.Assign([copy.deepcopy(s.targets[0])], s.value.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp): o.append(ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)]))
            else: o.append(s)
        return o
class RetBool(Bodies):
    """return a == b  as an if statement."""
    def block(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Compare) and isinstance(s.value.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)): o += [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
            else: o.append(s)
        return o
class Noop(Bodies):
    def visit_FunctionDef(self, f):
        self.generic_visit(f); k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[k:k] = ast.parse("unused_ = 0\nunused_ += 1").body
        return f
class WhileTrue(Bodies):
    """while C: B  as  while True: if not C: break; B"""
    def block(self, b):
        return [ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, []) if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant) else s for s in b]
class AllLoop(Bodies):
    """return all(e for t in x) and return all(map(f, x)) as loops."""
    def block(self, b):
        o = []
        for s in b:
            c = s.value if isinstance(s, ast.Return) else None
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("all", "any") and len(c.args) == 1:
                g = c.args[0]
                if isinstance(g, ast.GeneratorExp) and len(g.generators) == 1 and not g.generators[0].ifs: t, x, e = g.generators[0].target, g.generators[0].iter, g.elt
                elif isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id == "map" and len(g.args) == 2: t, x, e = S("el_"), g.args[1], ast.Call(g.args[0], [N("el_")], [])
                else: o.append(s); continue
                all_ = c.func.id == "all"
                o += [ast.For(t, x, [ast.If(ast.UnaryOp(ast.Not(), e) if all_ else e, [ast.Return(ast.Constant(not all_))], [])], []), ast.Return(ast.Constant(all_))]
            else: o.append(s)
        return o
class RangeWhile(Bodies):
    """for i in range(...) as a while loop with a counter."""
    def block(self, b):
        o = []
        for s in b:
            r = s.iter if isinstance(s, ast.For) else None
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "range" and not s.orelse and isinstance(s.target, ast.Name) and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                a = r.args if len(r.args) > 1 else [ast.Constant(0)] + r.args
                step = a[2] if len(a) > 2 else ast.Constant(1)
                neg = isinstance(step, ast.UnaryOp)
                if len(a) > 2 and not neg: o.append(s); continue
                o += [ast.Assign([S("end_")], a[1]), ast.Assign([s.target], a[0]),
                      ast.While(ast.Compare(N(s.target.id), [ast.Gt() if neg else ast.Lt()], [N("end_")]), s.body + [ast.AugAssign(S(s.target.id), ast.Add(), step)], [])]
            else: o.append(s)
        return o
class EnumRange(Bodies):
    """An enumerate loop as zip with a count."""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "enumerate" and len(n.args) == 1: return ast.Call(N("zip"), [ast.Call(ast.Attribute(ast.Call(N("__import__"), [ast.Constant("itertools")], []), "count", ast.Load()), [], []), n.args[0]], [])
        return n
class CompLoop(Bodies):
    """x = [e for t in y if c] as a loop that appends."""
    def block(self, b):
        o = []
        for s in b:
            c = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(c, ast.ListComp) and len(c.generators) == 1:
                g = c.generators[0]; body = [ast.Expr(ast.Call(ast.Attribute(N("acc_"), "append", ast.Load()), [c.elt], []))]
                for q in reversed(g.ifs): body = [ast.If(q, body, [])]
                s.value = N("acc_")
                o += [ast.Assign([S("acc_")], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), s]
            else: o.append(s)
        return o
class Tern(Bodies):
    """if c: return a  followed by  return b  as one expression; if c: x = a else: x = b as well."""
    def block(self, b):
        o = []
        for s in b:
            if o and isinstance(s, ast.Return) and s.value is not None and isinstance(o[-1], ast.If) and not o[-1].orelse and len(o[-1].body) == 1 and isinstance(o[-1].body[0], ast.Return) and o[-1].body[0].value is not None:
                o[-1] = ast.Return(ast.IfExp(o[-1].test, o[-1].body[0].value, s.value))
            elif isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and all(isinstance(z, ast.Return) and z.value is not None for z in (s.body[0], s.orelse[0])): o.append(ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
            elif isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and all(isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], ast.Name) for z in (s.body[0], s.orelse[0])) and s.body[0].targets[0].id == s.orelse[0].targets[0].id:
                o.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
            else: o.append(s)
        return o
class Hoist(Bodies):
    """Arguments of calls that are calls themselves are bound to names first."""
    n = 0
    def block(self, b):
        o = []
        for s in b:
            c = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
            if isinstance(c, ast.Call) and not c.keywords and not isinstance(c.func, ast.Call) and not (isinstance(c.func, ast.Name) and c.func.id in ("map", "all", "chain", "islice")):
                for i, a in enumerate(c.args):
                    if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript)) and all(isinstance(q, (ast.Name, ast.Constant, ast.Attribute)) or q is a for q in c.args[:i + 1]):
                        Hoist.n += 1; o.append(ast.Assign([S(f"arg{Hoist.n}_")], a)); c.args[i] = N(f"arg{Hoist.n}_")
            o.append(s)
        return o
class MapYield(Bodies):
    """return map(lambda u: e, x) of an __iter__ as a generator method."""
    def block(self, b):
        s = b[-1]
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "map" and len(s.value.args) == 2 and isinstance(s.value.args[0], ast.Lambda) and len(s.value.args[0].args.args) == 1:
            l = s.value.args[0]
            return b[:-1] + [ast.Return(ast.GeneratorExp(l.body, [ast.comprehension(S(l.args.args[0].arg), s.value.args[1], [], 0)]))]
        return b
class SelfLocal(ast.NodeTransformer):
    """cls = type(self) style: self.__class__ for type(self)."""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1 and isinstance(n.args[0], ast.Name): return ast.Attribute(n.args[0], "__class__", ast.Load())
        return n
class IsInst(ast.NodeTransformer):
    """isinstance(x, (A, B)) as isinstance(x, A) or isinstance(x, B)."""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple): return ast.BoolOp(ast.Or(), [ast.Call(N("isinstance"), [n.args[0], t], []) for t in n.args[1].elts])
        return n
class Method(ast.NodeTransformer):
    """x[k] = v, del x[k] and x[k] on self as calls of the special methods."""
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self": return ast.Call(ast.Attribute(n.value, "__getitem__", ast.Load()), [n.slice], [])
        return n
    def visit_Assign(self, n):
        self.generic_visit(n); t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == "self": return ast.Expr(ast.Call(ast.Attribute(t.value, "__setitem__", ast.Load()), [t.slice, n.value], []))
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], ast.Name) and n.comparators[0].id == "self": return ast.Call(ast.Attribute(n.comparators[0], "__contains__", ast.Load()), [n.left], [])
        return n
class Walrus(Bodies):
    """x = e; if x is None: ...  as  if (x := e) is None"""
    def block(self, b):
        o = []
        for s in b:
            p = o[-1] if o else None
            if isinstance(s, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == p.targets[0].id:
                o.pop(); s.test.left = ast.NamedExpr(S(p.targets[0].id), p.value)
            o.append(s)
        return o
class Pick(Bodies):
    """A conditional chain a if-elif-else with isinstance tests stays; x = y chains are merged: a = b; c = d  as  a, c = b, d when independent."""
    def block(self, b):
        o = []
        for s in b:
            p = o[-1] if o else None
            ok = lambda z: isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], ast.Name)
            if ok(s) and ok(p) and not any(isinstance(x, ast.Name) and x.id in (p.targets[0].id,) for x in ast.walk(s)):
                o[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load()))
            else: o.append(s)
        return o
KINDS = dict(tempreturn=TempReturn, invert=Invert, elseret=ElseAfterReturn, flatten=Flatten, unpack=Unpack, rename=Locals, forwhile=ForWhile, aug=Aug, enum=Enumerate, helper=Helper, put=FuncHelper, cmp=Cmp, mapgen=MapGen, boolif=BoolIf, attrs=AttrLocals, ifexp=IfExp, retbool=RetBool, noop=Noop, whiletrue=WhileTrue, allloop=AllLoop, rangewhile=RangeWhile, comploop=CompLoop, tern=Tern, hoist=Hoist, mapyield=MapYield, classattr=SelfLocal, isinst=IsInst, method=Method, walrus=Walrus, merge=Pick)
def main():
    kind, out = sys.argv[1], sys.argv[2]
    shutil.rmtree(out, ignore_errors=True); shutil.copytree("/repo", out, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    for f in FILES:
        p = f"{out}/pcollections/{f}"; src = open(p).read(); t = ast.parse(src)
        for k in kind.split("+"): t = ast.fix_missing_locations(KINDS[k]().visit(t))
        open(p, "w").write(ast.unparse(t) + "\n")
if __name__ == "__main__": main()
