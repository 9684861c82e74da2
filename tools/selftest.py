"""Differential test of the verifier's trusted base: python3-vt tools/selftest.py [N] [SEED].

Random small programs over ints, PHAMT/THAMT maps and lists (branches, loops with break/continue/else, try/except/finally,
closures, comprehensions, enumerate/zip/range/islice/chain/map, slices) are run by CPython with the real phamt extension, and executed
symbolically by vc/ with loops cut by inferred invariants.  What really happens has to be among what the executor admits: some
path's condition together with `result == the real result` is satisfiable.  A program where it is not is a soundness bug."""
import os, random, sys, tempfile, importlib.util, traceback, collections, time
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif"); sys.path.append("/opt/venv/lib/python3.12/site-packages")

class Gen:
    def __init__(self, r): self.r = r; self.depth = 0; self.n = 0
    def fresh(self, p): self.n += 1; return f"{p}{self.n}"
    def int(self, vs):
        r = self.r; k = r.randrange(12)
        if k < 4 or not vs: return str(r.randint(-3, 6))
        if k < 8: return r.choice(vs)
        if k == 8: return f"({self.int(vs)} + {self.int(vs)})"
        if k == 9: return f"({self.int(vs)} - {self.int(vs)})"
        if k == 10: return r.choice(["len(L)", "len(m)", "len(p)", f"({self.int(vs)} // 2)", f"({self.int(vs)} % 3)", f"({self.int(vs)} * 2)"])
        return f"({self.int(vs)} if {self.cond(vs)} else {self.int(vs)})"
    def cond(self, vs):
        r = self.r; k = r.randrange(9)
        c = lambda: f"{self.int(vs)} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {self.int(vs)}"
        if k < 4: return c()
        if k == 4: return f"({c()} and {c()})"
        if k == 5: return f"({c()} or {c()})"
        if k == 6: return f"not ({c()})"
        if k == 7: return f"{self.int(vs)} {r.choice(['in', 'not in'])} {r.choice(['m', 'p'])}"
        return f"0 < {self.int(vs)} <= {self.int(vs)}"
    def block(self, vs, ind, loop):
        out = []; vs = list(vs); self.depth += 1
        for _ in range(self.r.randint(1, 3)): out += self.stmt(vs, ind, loop)
        self.depth -= 1
        return out or [f"{ind}pass"]
    def stmt(self, vs, ind, loop):
        r = self.r; i2 = ind + "    "
        k = r.randrange(27) if self.depth < 4 else r.randrange(13)
        if r.random() < .2: return [ind + x for x in self.simple(vs)]
        v = r.choice(["a", "b", "c"])
        if k < 3: return [f"{ind}{v} = {self.int(vs)}"]
        if k == 3: return [f"{ind}{v} {r.choice(['+=', '-='])} {self.int(vs)}"]
        if k == 4: return [f"{ind}m[{self.int(vs)}] = {self.int(vs)}"]
        if k == 5: return [f"{ind}del m[{self.int(vs)}]"] if r.random() < .5 else [f"{ind}if {self.int(vs)} in m: {v} = 1"]
        if k == 6: return [f"{ind}{v} = m.get({self.int(vs)}, {self.int(vs)})"]
        if k == 7: return [f"{ind}p = p.assoc({self.int(vs)}, {self.int(vs)})"]
        if k == 8: return [f"{ind}p = p.dissoc({r.choice(vs)}) if {r.choice(vs)} in p else p"] if r.random() < .5 else [f"{ind}p = m.persistent()"]
        if k == 9: return [f"{ind}{x}" for x in [r.choice([f"L.append({self.int(vs)})", f"{v} = sum(L2)", f"{v} = sum(1 for q in L2 if q > {r.choice(vs)})", f"{v} = sum(q == {r.choice(vs)} for q in L)", f"L2.sort()", "L.reverse()", "L.sort(reverse=True)", f"m[len(m)] = {self.int(vs)}", "L2.reverse()"])]]
        if k == 10: return [f"{ind}{v} = {r.choice(['m', 'p'])}[{self.int(vs)}]"]
        if k == 11: return [f"{ind}{r.choice(['break', 'continue'])}"] if loop and r.random() < .3 else [f"{ind}{v} = {self.int(vs)}"]
        if k == 12: return [f"{ind}raise {r.choice(['KeyError', 'IndexError', 'ValueError'])}({self.int(vs)})"] if r.random() < .3 else [f"{ind}m = THAMT(p)"]
        if k < 16:
            o = [f"{ind}if {self.cond(vs)}:"] + self.block(vs, i2, loop)
            if r.random() < .5: o += [f"{ind}else:"] + self.block(vs, i2, loop)
            return o
        if k < 20:
            x = self.fresh("x"); y = self.fresh("y"); vs2 = vs + [x]
            h = r.choice([f"for {x} in range({self.int(vs)})", f"for {x} in range({self.int(vs)}, {self.int(vs)})", f"for {x} in range({self.int(vs)}, {self.int(vs)}, -1)",
                          f"for ({x}, {y}) in p", f"for {x} in L2", f"for ({x}, {y}) in enumerate(L2)", f"for ({x}, {y}) in zip(L2, range({self.int(vs)}))",
                          f"for {x} in map(lambda u: u[0] + {r.choice(vs)}, p)", f"for {x} in islice(L2, 0, 2)", f"for {x} in chain(L2, range(2))", f"for {x} in reversed(L2)", f"for {x} in [q + 1 for q in L2 if q > {r.randint(-1, 3)}]", f"for {x} in (u[0] for u in p)", f"for {x} in [g(q, {r.choice(vs)}) for q in range(2, {r.randint(5, 12)})]",
                          f"for {x} in map(g, range(2, {r.randint(5, 12)}), range(9))", f"for {x} in [q for q in range({r.randint(-3, 3)}, 9) if any(z > q for z in L2)]", f"for {x} in [len([z for z in range(7) if z > q]) for q in range(3, 12)]",
                          f"for {x} in tuple(L)", f"for {x} in gen(L2, {r.choice(vs)})", f"for {x} in sorted(L2)", f"for {x} in gen2(L2, {r.choice(vs)})", f"for ({x}, {y}) in gen3(p, {r.choice(vs)})", f"for {x} in gen4(L2, p)", f"for {x} in list(gen2(L2, {r.choice(vs)}))",
                          f"for {x} in (u + {r.choice(vs)} for u in gen2(L2, 2) if u < {r.choice(vs)})", f"for {x} in [u + w for u in L2 for w in range(2)]", f"for {x} in gen4(L, p)", f"for ({x}, {y}) in sorted(D.items())"])
            if ", " + y in h: vs2.append(y)
            b = self.block(vs2, i2, True)
            o = [f"{ind}{h}:"] + b
            if r.random() < .25: o += [f"{ind}else:"] + self.block(vs, i2, loop)
            return o
        if k < 22 and r.random() < .6:
            x = self.fresh("lo"); y = self.fresh("hi"); z = self.fresh("st")
            u = [f"{i2}{x} += {r.choice([1, 1, 2])}"] + ([f"{i2}{y} -= {r.choice([1, 1, 2])}"] if r.random() < .6 else []) if r.random() < .7 else [f"{i2}({x}, {y}) = ({x} + 1, {y} - 1)"]
            b = self.block(vs + [x, y], i2, False)
            if r.random() < .3: b.append(f"{i2}if {self.cond(vs + [x, y])}: break")
            n = r.randint(0, len(u)); body = u[:n] + b + u[n:]
            t = r.randrange(6)
            more = f" and {self.cond(vs + [x, y])}" if r.random() < .3 else ""
            if t == 0: return [f"{ind}({x}, {y}) = ({r.randint(-1, 3)}, {self.int(vs)})", f"{ind}while True:", f"{i2}if {x} >= {y}: break"] + body
            if t == 1: return [f"{ind}({x}, {y}) = ({r.randint(0, 3)}, {r.randint(3, 5)})", f"{ind}while {x} != {y}{more}:"] + b + [f"{i2}{x} += 1"]
            if t == 2: return [f"{ind}({x}, {y}, {z}) = ({r.randint(0, 3)}, {r.randint(-2, 0)}, -1)", f"{ind}while {x} != {y}:"] + b + [f"{i2}{x} += {z}"]
            return [f"{ind}({x}, {y}) = ({self.int(vs)}, {self.int(vs)})", f"{ind}while {x} {r.choice(['<', '<='])} {y}{more}:" if t < 5 else f"{ind}while {y} - {x} > {r.randint(-1, 1)}{more}:"] + body
        if k < 22:
            x = self.fresh("w")
            o = [f"{ind}{x} = {r.randint(0, 4)}", f"{ind}while {x} > 0{' and ' + self.cond(vs) if r.random() < .4 else ''}:", f"{i2}{x} -= 1"] + self.block(vs + [x], i2, True)
            if r.random() < .25: o += [f"{ind}else:"] + self.block(vs, i2, loop)
            return o
        if k < 24:
            o = [f"{ind}try:"] + self.block(vs, i2, loop)
            if r.random() < .85:
                o += [f"{ind}except {r.choice(['KeyError', 'IndexError', 'ValueError', '(KeyError, ValueError)', 'LookupError', 'Exception'])}:"] + self.block(vs, i2, loop)
                if r.random() < .3: o += [f"{ind}else:"] + self.block(vs, i2, loop)
                if r.random() < .3: o += [f"{ind}finally:", f"{i2}{v} = {self.int(vs)}"]
            else: o += [f"{ind}finally:", f"{i2}{v} = {self.int(vs)}"]
            return o
        if k == 24:
            f = self.fresh("f")
            return [f"{ind}def {f}(u, w={self.int(vs)}):", f"{i2}if {self.cond(['u', 'w', 'a'])}: return u", f"{i2}return {self.int(['u', 'w', 'b'])}", f"{ind}{v} = {f}({self.int(vs)}{', ' + self.int(vs) if r.random() < .5 else ''}{', w=1' if False else ''})"]
        if k == 25:
            return [f"{ind}return (a, b, {self.int(vs)})"] if r.random() < .3 else [f"{ind}({v}, {r.choice('ab')}) = ({self.int(vs)}, {self.int(vs)})"]
        return [f"{ind}{v} = 1 if all(q > {self.int(vs)} for q in L2) else 0"] if r.random() < .5 else [f"{ind}{v} = sum_(L2, {self.int(vs)})"]
    def simple(self, vs):
        r = self.r; v = r.choice(["a", "b", "c"]); i = lambda: self.int(vs)
        k = r.randrange(32)
        if k == 25: return [f"{v} = sum(x for x in gen5(L2, {i()}))"]
        if k == 26: return [f"{v} = len(list(zip(gen5(L2, {i()}), gen5(L, 1))))", f"{v} += next(islice(gen5(L2, {i()}), 1, 2), 0)"]
        if k == 27: return [f"{v} = Obj2({i()}, {i()}).bump({i()})"]
        if k == 28: return [f"{v} = Obj2({i()}, {i()}).twice()"]
        if k == 29: return [f"{v} = hasz(L2, {i()})"]
        if k == 30: return [f"{v} = first({r.choice(['L', 'L2', 'gen5(L, 2)', 'm'])}, {i()})"] if 1 else []
        if k == 31: return [f"if len(L2) and -len(L2) <= {v} < len(L2): {v} = L2[{v} % len(L2)] + {v} // len(L2)"]
        if k == 22: return [f"{v} = 1 if {r.choice(['any', 'all'])}(u > {i()} for u in {r.choice(['gen2(L2, 1)', 'gen4(L2, p)', 'gen2(L, 0)'])}) else 0"]
        if k == 23: return [f"{v} = next((u for u in gen4(L2, p) if u > {i()}), {i()})"]
        if k == 24: return [f"{v} = len({r.choice(['list', 'set', 'tuple'])}(gen4(L2, p)))"]
        if k == 0: return [f"{v} = next(it, {i()})"]
        if k == 1: return [f"{v} = next(it)"]
        if k == 2: return ["it = iter(range(3))"] if r.random() < .3 else [f"{v} = g({i()}, {i()})"]
        if k == 3: return [f"D[{i()}] = {i()}"]
        if k == 4: return [f"{v} = D.get({i()}, {i()})"]
        if k == 5: return [f"{v} = D.pop({i()}, {i()})"]
        if k == 6: return [f"{v} = D[{i()}]"]
        if k == 7: return [f"if {i()} in D: del D[{r.choice(vs)}]"]
        if k == 8: return [f"S.add({i()})"]
        if k == 9: return [f"S.discard({i()})"]
        if k == 10: return [f"{v} = 1 if {i()} in S else {i()}"]
        if k == 11: return [f"{v} = len(L2[{r.choice(vs)}:{r.choice(vs)}])"]
        if k == 12: return [f"o.x {r.choice(['=', '+='])} {i()}"]
        if k == 13: return [f"{v} = o.bump({i()})"]
        if k == 14: return [f"{v} = o.x"]
        if k == 15: return [f"{v} = {r.choice(['min', 'max'])}({i()}, {i()})"]
        if k == 16: return [f"{v} = len(list(gen(L2, {i()})))"]
        if k == 17: return [f"{v} = late({i()}, {', '.join(i() for _ in range(r.randint(0, 2)))})".replace(", )", ")")]
        if k == 18: return [f"{v} = late({i()}, k={i()})"]
        if k == 19: return ["L = list(reversed(L))"] if r.random() < .5 else [f"L = L + [{i()}]"]
        if k == 20: return [f"{v} = L.pop()"] if r.random() < .5 else [f"{v} = len(set(L2))"]
        return [f"{v} = {r.choice(['all', 'any'])}(g(q, {i()}) > {i()} for q in range(2, 9)) + 0"]
    def prog(self, name):
        r = self.r
        o = [f"def {name}():", f"    a = {r.randint(-2, 4)}; b = {r.randint(-2, 4)}; c = {r.randint(-2, 4)}", "    L = []; " + f"L2 = [{', '.join(str(r.randint(-2, 4)) for _ in range(r.randint(0, 3)))}]",
             "    m = THAMT(PHAMT.empty); p = PHAMT.empty; D = {}; S = set(); it = iter(L2); o = Obj_(a)"]
        for _ in range(r.randint(0, 3)): o.append(f"    p = p.assoc({r.randint(-3, 4)}, {r.randint(-3, 4)})")
        if r.random() < .5: o.append("    m = THAMT(p)")
        self.depth = 0
        for _ in range(r.randint(2, 6)): o += self.stmt(["a", "b", "c"], "    ", False)
        o.append("    s = 0; e = 0")
        o.append(r.choice(["    for q in L: s += q; e += 1", "    for (k, q) in p: s += k + 2 * q; e += 1", "    for (k, q) in m: s += k; e += q", "    pass"]))
        o.append("    return (a, b, c, len(L), len(m), len(p), s, e, o.x, len(D), len(S))")
        return "\n".join(o)

class Lib(Gen):
    """Programs over the library's collections, executed symbolically by the contracts of all their methods."""
    def simple(self, vs): return self.op(vs)
    def stmt(self, vs, ind, loop):
        r = self.r
        if r.random() < .7 or self.depth > 2: return [ind + x for x in self.op(vs)]
        k = r.randrange(4); i2 = ind + "    "
        if k == 0:
            o = [f"{ind}if {self.cond(vs)}:"] + self.block(vs, i2, loop)
            return o + ([f"{ind}else:"] + self.block(vs, i2, loop) if r.random() < .4 else [])
        if k == 1 and self.depth < 2:
            x = self.fresh("x")
            return [f"{ind}for {x} in {r.choice(['P', 'range(2)', 'Q', 'X', 'reversed(P)', 'T2', 'list(T)', 'list(X2)'])}:"] + [f"{i2}{v} {o} {x}" for v, o in [(r.choice('abc'), r.choice(['=', '+=']))]]
        if k == 2:
            return [f"{ind}try:"] + self.block(vs, i2, loop) + [f"{ind}except {r.choice(['KeyError', 'IndexError', 'ValueError', 'TypeError', 'LookupError'])}:"] + self.block(vs, i2, loop)
        return [ind + x for x in self.op(vs)]
    def op(self, vs):
        r = self.r; v = r.choice("abc"); i = lambda: str(r.randint(-4, 5)) if r.random() < .7 else r.choice(vs); P = r.choice(["P", "Q"]); T = r.choice(["T", "T2"])
        X = r.choice(["X", "Y"]); seq = lambda: r.choice(["P", "Q", "T", "L2", "T2"]); st = lambda: r.choice(["X", "Y", "X2", "{2, 3}"]); D = r.choice(["D", "E"]); U = r.choice(["U", "U2"])
        mp = lambda: r.choice(["D", "E", "U", "{1: 5}", "[(2, 3), (1, 4)]"]); sl = lambda: f"{r.choice([i(), ''])}:{r.choice([i(), ''])}" + (f":{r.choice(['1', '2', '-1', '-2'])}" if r.random() < .4 else "")
        return [r.choice(r.choice([
            [f"{P} = {P}.append({i()})", f"{P} = {P}.prepend({i()})", f"{P} = {P}.set({i()}, {i()})", f"{P} = {P}.insert({i()}, {i()})", f"{P} = {P}.delete({i()})", f"{P} = {P}.drop({i()})",
             f"{P} = {P}.clear()", f"{P} = {P} + {seq()}", f"{P} = {P} + [{i()}]", f"{P} = [{i()}] + {P}", f"{P} = {P} * {r.randint(-1, 3)}", f"{P} = {P}[{sl()}]", f"{P} = {P}.extend({seq()})",
             f"{P} = {P}.remove({i()})", f"{P} = {P}.reverse()", f"{P} = {P}.sort()", f"{P} = {P}.copy()", f"{P} = plist({seq()})", f"{P} = llist({seq()})", f"{P} = {T}.persistent()"],
            [f"{T}.append({i()})", f"{T}.prepend({i()})", f"{T}[{i()}] = {i()}", f"{T}.insert({i()}, {i()})", f"del {T}[{i()}]", f"{T}.clear()", f"{T}.extend({seq()})", f"{T}.remove({i()})", f"{T}.reverse()", f"{T}.sort()",
             f"{v} = {T}.pop()", f"{v} = {T}.pop({i()})", f"{T} = {P}.transient()", f"{T} = {T}.copy()", f"{T} += {seq()}", f"{T} *= {r.randint(0, 2)}", f"{T} = tlist({seq()})", f"{T} = {T}[{sl()}]"],
            [f"{v} = {seq()}[{i()}]", f"{v} = len({seq()})", f"{v} = P.index({i()})", f"{v} = {seq()}.count({i()})", f"{v} = 1 if {i()} in {seq()} else 0", f"{v} = 1 if {r.choice(['P', 'Q', 'T'])} {r.choice(['==', '!=', '<', '<=', '>'])} {seq()} else 0",
             f"{v} = 1 if P is Q else 0", "Q = P"],
            [f"X = X.add({i()})", f"X = X.discard({i()})", f"X = X.remove({i()})", f"Y = Y {r.choice('|&-^')} {st()}", f"X = X.union({st()}, {seq()})", f"Y = X.difference({seq()})", f"X = X.intersection({st()})", f"X = X2.persistent()", f"X = pset({seq()})", f"X = X.addall({seq()})", f"X = X.discardall({seq()})", f"X = X.removeall({st()})"],
            [f"X2.add({i()})", f"X2.discard({i()})", f"X2.remove({i()})", f"X2 {r.choice('|&-^')}= {st()}", f"X2.update({seq()})", f"X2.difference_update({st()})", f"X2.clear()", f"X2 = X.transient()", f"X2 = X2.copy()", "X2 = X2 | Y",
             f"{v} = len({st()})", f"{v} = 1 if {i()} in {st()} else 0", f"{v} = 1 if {r.choice(['X', 'Y', 'X2'])} {r.choice(['==', '!=', '<', '<=', '>', '>='])} {st()} else 0", f"{v} = 1 if X.isdisjoint({seq()}) else 0", f"{v} = 1 if X.issubset({st()}) else 0"],
            [f"{D} = {D}.set({i()}, {i()})", f"{D} = {D}.drop({i()})", f"{D} = {D}.delete({i()})", f"{D} = {D}.update({mp()})", f"{D} = {D}.clear()", f"{D} = {D}.setdefault({i()}, {i()})", f"{D} = {U}.persistent()", f"{D} = pdict({mp()})", f"{D} = ldict({mp()})", f"{D} = {D}.setall([{i()}, {i()}], {seq()})", f"{D} = {D}.dropall({seq()})", "E = D", f"{v} = 1 if D is E else 0"],
            [f"{U}[{i()}] = {i()}", f"del {U}[{i()}]", f"{v} = {U}.pop({i()})", f"{v} = {U}.pop({i()}, {i()})", f"{v} = {U}.setdefault({i()}, {i()})", f"{U}.update({mp()})", f"{U}.clear()", f"{U} = {D}.transient()", f"{U} = {U}.copy()", f"{v} = {U}.popitem()[0]", f"{U} = tdict({mp()})"],
            [f"{v} = {r.choice([D, U])}[{i()}]", f"{v} = {r.choice([D, U])}.get({i()}, {i()})", f"{v} = len({r.choice([D, U])})", f"{v} = 1 if {i()} in {r.choice([D, U])} else 0", f"{v} = list({r.choice([D, U])})[{i()}]", f"{v} = list({r.choice([D, U])}.values())[{i()}]",
             f"{v} = list({r.choice([D, U])}.items())[0][1]", f"{v} = 1 if {D} {r.choice(['==', '!='])} {U} else 0", f"{v} = list(reversed({D}))[0]"]]))]
    def prog(self, name):
        r = self.r; num = lambda n=4: "[" + ", ".join(str(r.randint(-2, 4)) for _ in range(r.randint(0, n))) + "]"
        o = [f"def {name}():", f"    a = {r.randint(-2, 4)}; b = {r.randint(-2, 4)}; c = {r.randint(-2, 4)}; L2 = {num()}", f"    P = {r.choice(['plist', 'llist'])}({num()}); Q = plist({num(2)}); T = tlist({num()}); T2 = P.transient(); X = pset({num()}); Y = pset({num(2)}); X2 = tset({num(2)})",
             f"    D = {r.choice(['pdict', 'ldict'])}([(1, {r.randint(-2, 4)}), (3, 2)][:{r.randint(0, 2)}]); E = pdict([({r.randint(-2, 4)}, 1)]); U = D.transient(); U2 = {r.choice(['tdict', 'tldict'])}([(2, 5)])"]
        self.depth = 0
        for _ in range(r.randint(2, 7)): o += self.stmt(["a", "b", "c"], "    ", False)
        q = lambda: r.choice([f"({x}[{r.choice([0, -1, 1])}] if len({x}) > 1 else 9)" for x in ("P", "Q", "T", "T2")] + [f"(1 if {r.randint(-1, 4)} in {x} else 0)" for x in ("X", "Y", "X2", "P", "T", "D", "U")]
            + [f"{x}.get({r.randint(0, 4)}, 7)" for x in "DEU"] + [f"(list({x})[{r.choice([0, -1])}] if len({x}) > 0 else 9)" for x in "DEU"])
        o.append(f"    return (a, b, c, len(P), len(Q), len(T), len(X), len(Y), len(X2), len(D), len(E), len(U), {', '.join(q() for _ in range(5))})")
        return "\n".join(o)
    def int(self, vs): return str(self.r.randint(-3, 5)) if self.r.random() < .5 else self.r.choice(vs)
    def cond(self, vs): return f"{self.int(vs)} {self.r.choice(['<', '<=', '==', '!='])} {self.int(vs)}" if self.r.random() < .5 else f"{self.int(vs)} in {self.r.choice(['P', 'T', 'X', 'Y', 'D', 'U'])}"

HEAD = '''from itertools import chain, islice
from phamt import PHAMT, THAMT
from pcollections import *
def sum_(xs, z):
    for x in xs: z += x
    return z
def g(q, z):
    for x in range(9):
        if x > q: return x
        if x == z: return z - q
    return 0
def gen(xs, z):
    for x in xs: yield x + z
def gen2(xs, z):
    k = 0
    for x in xs:
        if x == z: continue
        if x > z + 2: return
        yield x
        k += 1
    yield k
def gen3(p, i):
    n = 4
    while n > 0 and i in p:
        yield (i, p[i])
        i = p[i]; n -= 1
def gen4(xs, p):
    yield 0
    yield from gen2(xs, 1)
    for (k, x) in p:
        if x: yield k
def gen5(xs, z):
    n = len(xs)
    if z > 1:
        m = n + z
        for x in xs: yield x + m
    else:
        yield from xs
        yield z
    for x in range(2): yield x + n
def late(a, *b, k=3):
    try:
        if b: return a - b[0]
    finally:
        a = 5
    return a + k + len(b)
class Obj_:
    def __init__(self, x): self.x = x
    def bump(self, k):
        self.x += k
        return self.x - 1
    def twice(self): return self.bump(1) + self.bump(2)
class Obj2(Obj_):
    def __init__(self, x, y):
        super().__init__(x + y); self.y = y
    def bump(self, k): return super().bump(k + self.y) * 2
def hasz(xs, z):
    last = None
    for (k, x) in enumerate(xs):
        if x > z: return k if last is None else last[0] * 10 + last[1]
        last = (k, x)
    return -1 if last is None else last[1]
def first(xs, z):
    for x in xs: break
    else: return z
    return x
'''
def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200; seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    lib = len(sys.argv) > 3 and sys.argv[3] == "lib"
    d = tempfile.mkdtemp(prefix="selftest"); r = random.Random(seed)
    progs = [(Lib if lib else Gen)(r).prog(f"f{k}") for k in range(n)]
    f = f"{d}/corpus.py"; open(f, "w").write(HEAD + "\n\n".join(progs) + "\n")
    sys.path.insert(0, "/repo"); import pcollections
    spec = importlib.util.spec_from_file_location("corpus", f); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    from vc.verifier import Verifier
    from vc import engine, vlist, vset, vdict
    import z3
    tally = collections.Counter(); bad = []; exact = 0
    for k in range(n):
        fn = getattr(mod, f"f{k}")
        try: real = ("ret", fn())
        except Exception as e: real = ("raise", type(e))
        E = Verifier(repo=[d, "/repo"] if 0 else d); E.deadline = time.time() + 20
        if lib:
            for c, f_ in ((vlist.contracts, vlist.ListFamily), (vset.contracts, vset.SetFamily), (vdict.contracts, vdict.DictFamily)): c(f_(pcollections))(E)
        got = []
        def run():
            try: v = E.call(fn, [], {})
            except engine.Raised as x:
                if E.check() == z3.unsat: return
                got.append("raise" if real[0] == "raise" and x.cls is real[1] else "other"); return
            try: v = tuple(E.asint(x) for x in v)
            except engine.Raised: return
            if real[0] != "ret" or not isinstance(v, tuple) or len(v) != len(real[1]):
                if E.check() != z3.unsat: got.append("other")
                return
            same = z3.And(*[engine.Z(x) == y for x, y in zip(v, real[1])])
            if E.check(same) != z3.unsat: got.append("match")
            if E.check(z3.Not(same)) != z3.unsat: got.append("loose")
        try:
            E.top(run)
        except engine.Unsupported as e: tally["unsupported: " + str(e)[:60]] += 1; continue
        except Exception as e: tally[f"error: {type(e).__name__}: {str(e)[:80]}"] += 1; traceback.print_exc(limit=-9); continue
        if "match" in got or "raise" in got:
            tally["exact" if not set(got) & {"loose", "other"} else "admitted, among others"] += 1
        else: tally["EXCLUDED"] += 1; bad.append((progs[k], real, got))
    for c, x in tally.most_common(): print(x, c)
    for b in bad[:4]: print("=====\n" + b[0], "\nreal:", b[1], "executor:", b[2])
    import shutil; shutil.rmtree(d)
    sys.exit(1 if bad else 0)
main()
