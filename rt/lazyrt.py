"""Run-time contracts of lazy values under threads: C17 (computed once) and C18 (failures)."""
import itertools
from .common import State, Enough

HELP = '''
import sys as _sys, threading as _th, pcollections._lazy as _L
class Sched:
    """Runs thread bodies one at a time, switching only at bytecode boundaries of the lazy module: plan maps a step
    number to the thread that continues from there; otherwise the current thread goes on until it ends or blocks."""
    def __init__(self, bodies, plan):
        self.bodies, self.plan, self.n = bodies, dict(plan), len(bodies)
        self.cv = _th.Condition(_th.Lock()); self.turn = 0; self.step = 0
        self.at = [None] * self.n          # None: running, "wait": paused at an event, "end"
        self.file = _L.__file__
    def event(self, i):
        with self.cv:
            self.at[i] = "wait"; self.cv.notify_all()
            if not self.cv.wait_for(lambda: self.at[i] == "go" or self.dead, 10): raise SystemError("scheduler")
            self.at[i] = None
    def run(self):
        self.dead = False
        def body(i, f):
            def local(frame, ev, arg):
                if ev == "opcode": self.event(i)
                return local
            def glob(frame, ev, arg):
                if frame.f_code.co_filename == self.file:
                    frame.f_trace_opcodes = True
                    return local
            try:
                self.event(i)
                _sys.settrace(glob)
                try: f()
                finally: _sys.settrace(None)
            finally:
                with self.cv: self.at[i] = "end"; self.cv.notify_all()
        ts = [_th.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(self.bodies)]
        for t in ts: t.start()
        cur = 0; idle = 0
        with self.cv:
            self.cv.wait_for(lambda: all(a == "wait" for a in self.at), 5)
            while not all(a == "end" for a in self.at):
                if self.step in self.plan: cur = self.plan[self.step] % self.n
                if self.at[cur] != "wait":
                    other = [j for j in range(self.n) if self.at[j] == "wait"]
                    if not other:
                        if not self.cv.wait_for(lambda: any(a == "wait" for a in self.at) or all(a == "end" for a in self.at), 2):
                            self.dead = True; self.cv.notify_all()
                            raise AssertionError("the threads calling the lazy are stuck: " + str(self.at))
                        continue
                    cur = next((j for j in other if j > cur), other[0])
                self.step += 1; self.turn = cur; self.at[cur] = "go"; self.cv.notify_all()
                # a thread that reports nothing for a while waits for a lock
                self.cv.wait_for(lambda: self.at[cur] in ("wait", "end"), 0.004)
        for t in ts: t.join(2)
        return self.step
class Once:
    """The function of a lazy under test: fails `fails` times, then returns a new object each time it completes."""
    def __init__(self, fails=0, mode="call"):
        self.fails, self.started, self.done, self.raised, self.returned, self.late, self.mode = fails, 0, [], [], 0, 0, mode
    def __call__(self, *a, **k):
        self.started += 1
        if self.returned: self.late += 1
        if self.fails > 0:
            self.fails -= 1
            e = ValueError("planned failure"); self.raised.append(e); raise e
        r = {"call": [None], "none": None, "zero": 0, "empty": []}[self.mode]; self.done.append(r)
        return r
def race(n, plan, fails=0, retries=0, mode="call"):
    """n threads call one lazy (each retrying after a LazyError) under the schedule plan; returns the function and a log."""
    fn = Once(fails, mode); l = lazy(fn); log = []
    def body():
        for _ in range(retries + 1):
            try:
                v = l(); fn.returned += 1; log.append(("ok", v, l.is_ready())); return
            except LazyError as e:
                log.append(("fail", e, l.is_ready(), e.__cause__ if e.__cause__ is not None else e.__context__))
            except BaseException as e:
                log.append(("other", e)); return
    steps = Sched([body] * n, plan).run()
    return fn, l, log, steps
def hunt(judge, n, plan, *a):
    """Replay: the same schedule again, then the ones near it (the position of a switch moves a little from process to process)."""
    for i in range(2): race(n, [], *a)
    for d in sorted(range(-24, 25), key=abs): judge(*race(n, [(k + d, t) for k, t in plan if k + d >= 0], *a)[:3])
def judge17(fn, l, log):
    assert len(fn.done) <= 1, f"the function completed {len(fn.done)} times"
    vals = [e[1] for e in log if e[0] == "ok"]
    assert all(any(v is d for d in fn.done) for v in vals), "a call returned something the function did not return"
    assert all(e[2] for e in log if e[0] == "ok"), "is_ready() is false after a call has returned"
    assert fn.late == 0, "the function was called after a call had returned"
    assert not any(e[0] == "other" for e in log), f"a call raised {[e for e in log if e[0] == 'other']}"
    if vals:
        n = fn.started; assert l() is vals[0] and l() is vals[0] and fn.started == n and l.is_ready(), "a later call gives something else"
def judge18(fn, l, log, n, fails, retries):
    bad = [e for e in log if e[0] == "other"]
    assert not bad, f"a failing call raised {bad[0][1]!r}, not LazyError"
    assert sum(e[0] == "fail" for e in log) == min(fails, n * (retries + 1)) == len(fn.raised), f"{log}, though the function failed {len(fn.raised)} times"
    for e in log:
        if e[0] == "fail": assert any(e[3] is r for r in fn.raised), f"the LazyError is chained to {e[3]!r}"
    if fn.fails == 0 and not fn.done:
        t = out(l); assert t.exc is None and l.is_ready() and l() is t.val, f"a later call of the lazy {t}"
    if fn.fails: assert not l.is_ready(), "a lazy that has only failed is ready"
    t = []
    th = _th.Thread(target=lambda: t.append(out(l)), daemon=True); th.start(); th.join(3)
    assert t, "another thread cannot call the lazy after a failure: its lock is held"
'''

def c17(mon):
    r = mon.rng
    S = State(HELP, (), fresh=False)
    try:
        # basic behaviour
        for a in ("lz(x)", "lazy(lambda: x)", "lazy(lambda u, v=0: [u, v], 1, v=2)", "lazy(list)", "lazy(lambda: None)", "lazy(lambda: 0)", "lazy(lambda: lazy(lambda: 3))", "lazy(dict, a=1)"):
            mon.case(S, f"l = {a}; assert not l.is_ready(); v = l(); assert l.is_ready() and l() is v and l() is v and unlazy(l) is v and l.is_ready()", None, a)
        mon.case(S, "l = lazy(lambda *a, **k: (a, k), 1, [2], z=3); assert l() == ((1, [2]), {'z': 3})\ntry: lazy(3); assert False, 'lazy(3) is accepted'\nexcept TypeError: pass", None, "args")
        mon.case(S, "n = []\ndef rec(): n.append(1); return inner()\ninner = lazy(lambda: [7]); l = lazy(rec); assert l() is inner() and l() is l() and n == [1]", None, "nested")
        if not mon.setup(S): return
        total = 120
        def one(n, plan, fails, retries, mode="call"):
            mon.case(S, f"fn, l, log, steps = race({n}, {plan}, {fails}, {retries}, {mode!r}); judge17(fn, l, log)", None, (n, len(plan), fails, mode, tuple(p for p, _ in plan)), f"hunt(judge17, {n}, {plan}, {fails}, {retries}, {mode!r})")
            return mon.ns.get("steps", total)
        total = max(one(2, [], 0, 0) or 0, 60)
        mon.sample(None, "fn, l, log, steps = race(2, [(17, 1), (40, 0)]); judge17(fn, l, log)")
        for k in range(total):                               # one preemption, everywhere
            if mon.over(): return
            if mon.mine(k): one(2, [(k, 1)], 0, 0); one(2, [(k, 1)], 0, 0, "none")
        todo = [(a, b) for a in range(total) for b in range(a + 1, total)]
        import random; random.Random(mon.seed).shuffle(todo)
        for k, (a, b) in enumerate(todo):                    # two preemptions
            if mon.over(): return
            if not mon.mine(k): continue
            one(2, [(a, 1), (b, 0)], 0, 0, ("call", "none", "zero", "empty")[k % 4])
            if k % 4 == 0: one(3, sorted((r.randrange(2 * total), r.randrange(3)) for _ in range(r.randint(2, 6))), r.randrange(3), 2)
    except Enough:
        pass

def c18(mon):
    r = mon.rng
    S = State(HELP, (), fresh=False)
    try:
        for exc in ("ValueError('v')", "KeyError(1)", "StopIteration()", "AttributeError('a')", "RuntimeError()", "LazyError((len, (), {}))", "TypeError()", "RecursionError()"):
            mon.case(S, f"e0 = {exc}; n = []\ndef bad():\n    n.append(1)\n    if len(n) < 3: raise e0\n    return x\nl = lazy(bad)\n"
                     "for _ in range(2):\n    t = out(l); assert type(t.exc) is LazyError, f'a failing call {t}'\n    c = t.exc.__cause__ if t.exc.__cause__ is not None else t.exc.__context__\n    assert c is e0, f'chained to {c!r}'\n    assert not l.is_ready(), 'ready after a failure'; assert 'bad' in str(t.exc), str(t.exc)\n"
                     "assert l() is x and l.is_ready() and l() is x and len(n) == 3, 'the retry is not cached'", None, exc)
        mon.case(S, "e0 = ValueError(); l1 = lazy(lambda: (_ for _ in ()).throw(e0)); l2 = lazy(lambda: l1()); t = out(l2); assert type(t.exc) is LazyError and not l1.is_ready() and not l2.is_ready(), f'{t}'", None, "nested")
        for base in ("KeyboardInterrupt()", "SystemExit()", "GeneratorExit()"):
            mon.case(S, f"n = []\ndef stop():\n    n.append(1)\n    if len(n) < 2: raise {base}\n    return x\nl = lazy(stop)\ntry: l()\nexcept BaseException as e: pass\nassert not l.is_ready()\nt = []\nth = _th.Thread(target=lambda: t.append(out(l)), daemon=True); th.start(); th.join(3)\nassert t and t[0].val is x, 'the lock is held after ' + {base!r}", None, base)
        fns = ["def f(*a, **k): raise ValueError", "f = lambda *a, **k: 1 / 0", "from functools import partial\ndef g(*a, **k): raise ValueError\nf = partial(g, 1)", "class C:\n    def __call__(self, *a, **k): raise ValueError\nf = C()", "class C:\n    def f(self, *a, **k): raise KeyError\nf = C().f", "f = int", "class C:\n    def __call__(self, *a, **k): raise ValueError\n    __name__ = 'named'\nf = C()"]
        for fsrc in fns:
            for args in ("", "1", "1, 2", "'a', k=3", "k=1", "(1, 2)", "'%s', '{}'", "[], z={}", "1, 2, 3, a=4, b=5"):
                mon.case(S, f"{fsrc}\nl = lazy(f{', ' if args else ''}{args}); t = out(l)\nif t.exc is not None:\n    assert type(t.exc) is LazyError\n    s = out(lambda: (str(t.exc), repr(t.exc))); assert s.exc is None and all(isinstance(q, str) for q in s.val), f'str of the LazyError {{s}}'\n    nm = getattr(f, '__name__', None); assert nm is None or nm in s.val[0], s.val[0]", None, (fsrc[:14], args))
        mon.case(S, "from functools import partial\ndef named(*a): pass\nfor p in ((named, (), {}), (named, (1,), {'k': 2}), partial(named), partial(named, 1, k=3), partial(partial(named, 1), 2)): assert 'named' in str(LazyError(p)) and 'named' in repr(LazyError(p))", None, "strs")
        if not mon.setup(S): return
        def one(n, plan, fails, retries):
            mon.case(S, f"fn, l, log, steps = race({n}, {plan}, {fails}, {retries}); judge18(fn, l, log, {n}, {fails}, {retries})", None, (n, fails, retries, tuple(p for p, _ in plan)), f"hunt(lambda fn, l, log: judge18(fn, l, log, {n}, {fails}, {retries}), {n}, {plan}, {fails}, {retries})")
            return mon.ns.get("steps", 150)
        total = max(one(2, [], 1, 0) or 0, 80)
        for k in range(total):
            if mon.over(): return
            if mon.mine(k): one(2, [(k, 1)], 1, 0); one(2, [(k, 1)], 2, 0)
        mon.sample(None, "fn, l, log, steps = race(2, [(17, 1)], 1); judge18(fn, l, log, 2, 1, 0)")
        for k in itertools.count():
            if mon.over() or k > 20000: return
            one(r.choice((2, 2, 3)), sorted((r.randrange(2 * total), r.randrange(3)) for _ in range(r.randint(2, 5))), r.randrange(4), r.randrange(2))
    except Enough:
        pass

CHECKS = dict(C17=c17, C18=c18)
