"""Shared machinery of the run-time contract monitor.

A *case* is a handful of Python statements over the public API of /repo's
package: a recipe that builds collections through some history, and one
operation.  The operation is executed on the real code and, in lock step, on
built-in lists, sets and dicts, and the contract of the operation is evaluated
on the two outcomes.  The pre-state is always *observed* (by reading the real
collection), so each case judges one operation, not the history before it.
"""
import ast, functools, glob, itertools, json, os, random, signal, sys, time

REPO = os.environ.get("PCOLL_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"
PYTHON = "/opt/venv/bin/python"
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if SITE not in sys.path:
    sys.path.append(SITE)

PRELUDE = ("import sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, %r); sys.path.append(%r)\n" % (REPO, SITE)
           + open(os.path.join(VERIF, "rt", "prelude.py")).read())

_base = None
def base_ns():
    global _base
    if _base is None:
        _base = {"__name__": "replay"}
        exec(compile(PRELUDE, "<prelude>", "exec"), _base)
        f = _base["pcollections"].__file__
        if os.path.realpath(f) != os.path.realpath(os.path.join(REPO, "pcollections/__init__.py")):
            raise RuntimeError("imported the wrong package: " + f)
    return _base

@functools.lru_cache(maxsize=200000)
def comp(src):
    return compile(src, "<case>", "exec")

def mined_constants():
    """Integer literals (and lengths of strings) in /repo's sources, used to choose sizes and values."""
    ints = set(); strs = set()
    for f in glob.glob(os.path.join(REPO, "pcollections", "**", "*.py"), recursive=True):
        if os.sep + "test" + os.sep in f: continue
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if type(n.value) is int: ints.add(n.value)
                elif type(n.value) is str and len(n.value) < 40 and "\n" not in n.value: strs.add(n.value)
    # products and powers as in 1 << 5 or 2**5
            if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                try:
                    v = eval(compile(ast.Expression(n), "", "eval"))
                    if type(v) is int: ints.add(v)
                except Exception: pass
    return sorted(ints), sorted(strs)

class Hang(BaseException):
    """One case ran for longer than HANG_S seconds."""
HANG_S = 5.0

class State:
    """Source text that builds some collections, and (for persistent ones) the built collections."""
    __slots__ = ("src", "names", "fresh", "binds", "bad", "tag", "info")
    def __init__(self, src, names=("s",), fresh=False, tag=None, info=None):
        self.src, self.names, self.fresh, self.tag, self.info = src, names, fresh, tag, info
        self.binds = None; self.bad = False
    def bind(self, ns):
        if self.binds is None or self.fresh:
            exec(comp(self.src), ns)
            self.binds = {n: ns[n] for n in self.names}
        else:
            ns.update(self.binds)

class Monitor:
    """Runs cases for one property and collects failures and counts."""
    def __init__(self, prop, seed, budget, shard=0, nshards=1):
        self.prop, self.seed, self.shard, self.nshards = prop, seed, shard, nshards
        self.t0 = time.time(); self.deadline = self.t0 + budget
        self.evals = 0; self.skipped = 0
        self.classes = set()      # distinct case classes
        self.samples = []
        self.fails = []           # (key, what, script text)
        self.broken = []          # the first states that could not be used, reported when no case could be evaluated at all
        self.rng = random.Random(seed * 1000003 + shard * 7919 + sum(map(ord, prop)))
        self.maxfails = 3
        self.ns = dict(base_ns())
        self.cur_started = None; self.last_seen = None; self.n = 0
        self.seen_ops = {}
        self.ints, self.strs = mined_constants()
        signal.signal(signal.SIGALRM, self._tick)
        signal.setitimer(signal.ITIMER_REAL, 1.0, 1.0)
    def _tick(self, *a):
        if self.cur_started is not None and time.time() - self.cur_started > HANG_S:
            raise Hang()
    def mine(self, i):
        return i % self.nshards == self.shard
    def over(self):
        return time.time() > self.deadline
    def setup(self, st):
        """Bind the state in the namespace; False if it cannot be built."""
        if st.bad: return False
        try:
            self.cur_started = time.time()
            st.bind(self.ns)
            for n in st.names:      # the cases read its length
                if type(self.ns[n]).__module__.startswith("pcollections."):
                    try: len(self.ns[n])
                    except TypeError as e:
                        if hasattr(type(self.ns[n]), "__len__"):
                            if len(self.broken) < 2: self.broken.append((f"len: {e}", f"{st.src}\nlen({n})"))
                            st.bad = True; return False
            return True
        except (Exception, Hang) as e:
            st.bad = True
            tb = e.__traceback__
            while tb is not None and not self.broken:
                if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep): self.broken.append((f"a collection cannot be built: {type(e).__name__}: {e}", st.src))
                tb = tb.tb_next
            return False
        finally:
            self.cur_started = None
    def ok(self, st, expr):
        """A precondition over the state (evaluated on the real code); False also when it raises."""
        try:
            self.cur_started = time.time()
            r = bool(eval(compe(expr), self.ns))
        except (Exception, Hang):
            r = False
        finally:
            self.cur_started = None
        if not r and len(self.broken) < 2: self.broken.append(("the ways of reading a collection disagree", f"{st.src}\nassert {expr}, 'the ways of reading a collection disagree'"))
        return r
    def case(self, st, body, params=None, cls=None, replay=None):
        """Execute one case: True when every assertion held.  replay: what the replay file executes instead of body."""
        if st is not None and (st.fresh or st.binds is None):
            if not self.setup(st): self.skipped += 1; return None
        ns = self.ns
        if st is not None and not st.fresh: ns.update(st.binds)
        if params:
            for k, v in params.items(): ns[k] = eval(compe(v), ns)
        self.evals += 1
        if cls is not None: self.classes.add(cls)
        self.cur_started = time.time()
        try:
            exec(comp(body), ns)
            return True
        except Hang:
            what = f"did not finish within {HANG_S:g} s"
        except AssertionError as e:
            what = str(e) or "assertion failed"
        except Exception as e:
            what = f"unexpected {type(e).__name__}: {e}"
        finally:
            self.cur_started = None
        lines = ([st.src] if st is not None else []) + [f"{k} = {v}" for k, v in (params or {}).items()] + [replay or body]
        self.fail(body, what, lines)
        return False
    def sample(self, st, body, params=None):
        if len(self.samples) < 3:
            self.samples.append("; ".join(([st.src] if st is not None else []) + [f"{k} = {v}" for k, v in (params or {}).items()] + [body]))
    def fail(self, key, what, lines):
        self.fails.append((key, what, "\n".join(lines)))
        if len(self.fails) >= self.maxfails:
            raise Enough()
    def result(self):
        return dict(evals=self.evals, skipped=self.skipped, classes=sorted(map(repr, self.classes))[:50000],
                    samples=self.samples, fails=self.fails, broken=self.broken, wall=time.time() - self.t0)

class Enough(BaseException):
    """Enough failures were recorded."""

@functools.lru_cache(maxsize=200000)
def compe(src):
    return compile(src, "<expr>", "eval")

REPLAY_TAIL = """
"""
def script(body):
    """A self-contained replay: exits 1 with the failed assertion, 0 when the property holds on this input."""
    return PRELUDE + "\nimport signal; signal.alarm(20)   # a case that does not end fails, too\n" + body + "\nprint('held')\n"
