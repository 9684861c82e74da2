"""Mutation test of the machinery: python3-vt tools/mutate.py OUT.jsonl [regex of function names] [max].
Each mutant of /repo's source (in a scratch copy) is given to the verification tasks that execute the mutated function, and to the
run-time monitors of the properties those tasks belong to. Nothing here is used by the checks.
MUT_SOUND=1 looks for mutants that the tests or the monitors reject and the verifier proves: holes in its soundness."""
import ast, collections, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
FILES = ["_list.py", "_set.py", "_dict.py", "_lazy.py", "abc/_core.py", "abc/_seq.py", "abc/_set.py", "abc/_map.py", "util/_core.py"]
NEG = {"Lt": ">=", "LtE": ">", "Gt": "<=", "GtE": "<", "Eq": "!=", "NotEq": "==", "Is": "is not", "IsNot": "is", "In": "not in", "NotIn": "in"}
ALT = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">"}
def mutants(src, rel):
    tree = ast.parse(src); out = []
    def seg(n): return ast.get_source_segment(src, n)
    def walk(f, q):
        doc = ast.get_docstring(f, clean=False)
        for n in ast.walk(f):
            if not hasattr(n, "lineno") or n.lineno != n.end_lineno: continue
            def add(a, b, new, kind): out.append((rel, q, n.lineno, a, b, new, kind))
            if isinstance(n, ast.Constant) and type(n.value) is int:
                for d in (1, -1): add(n.col_offset, n.end_col_offset, str(n.value + d), "const")
            if isinstance(n, ast.Constant) and type(n.value) is bool: add(n.col_offset, n.end_col_offset, str(not n.value), "bool")
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                k = type(n.ops[0]).__name__
                for t in (NEG, ALT):
                    if k in t: add(n.left.end_col_offset, n.comparators[0].col_offset, f" {t[k]} ", "cmp")
                if k == "Is": add(n.left.end_col_offset, n.comparators[0].col_offset, " == ", "is->==")
                if k == "Eq": add(n.left.end_col_offset, n.comparators[0].col_offset, " is ", "==->is")
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                add(n.left.end_col_offset, n.right.col_offset, " - " if isinstance(n.op, ast.Add) else " + ", "arith")
            if isinstance(n, ast.BoolOp) and len(n.values) == 2:
                add(n.values[0].end_col_offset, n.values[1].col_offset, " or " if isinstance(n.op, ast.And) else " and ", "boolop")
                add(n.col_offset, n.end_col_offset, "(" + seg(n.values[0]) + ")", "drop operand"); add(n.col_offset, n.end_col_offset, "(" + seg(n.values[1]) + ")", "drop operand")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add(n.col_offset, n.end_col_offset, "(" + seg(n.operand) + ")", "not")
            if isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): add(n.col_offset, n.end_col_offset, "pass", "drop statement")
            if isinstance(n, ast.Return) and n.value is not None and seg(n.value) != "self" and seg(n.value) != "None": add(n.value.col_offset, n.value.end_col_offset, "None", "return None")
            if isinstance(n, ast.Return) and seg(n.value) == "self" if isinstance(n, ast.Return) and n.value is not None else False: add(n.value.col_offset, n.value.end_col_offset, "self.copy() if 0 else type(self)(self)", "not self")
            if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Call) and "self" in [a.arg for a in f.args.args]: add(n.value.col_offset, n.value.end_col_offset, "self", "return self")
            if isinstance(n, (ast.Break, ast.Continue)): add(n.col_offset, n.end_col_offset, "pass", "drop jump")
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)): add(n.col_offset, n.end_col_offset, "pass", "drop assignment")
            if isinstance(n, ast.Delete): add(n.col_offset, n.end_col_offset, "pass", "drop del")
            if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                add(n.args[0].col_offset, n.args[1].end_col_offset, seg(n.args[1]) + ", " + seg(n.args[0]), "swap arguments")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "unlazy", "reversed", "iter") and len(n.args) == 1: add(n.col_offset, n.end_col_offset, "(" + seg(n.args[0]) + ")", "drop call")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ("llist", "plist"): pass
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP: add(n.col_offset, n.end_col_offset, SWAP[n.id], "class")
            if isinstance(n, (ast.If, ast.While)) : pass
        for n in ast.walk(f):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and n.test.lineno == n.test.end_lineno:
                out.append((rel, q, n.test.lineno, n.test.col_offset, n.test.end_col_offset, "not (" + seg(n.test) + ")", "negate test"))
    for c in tree.body:
        if isinstance(c, ast.FunctionDef): walk(c, c.name)
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef): walk(f, c.name + "." + f.name)
    return [m for i, m in enumerate(out) if m not in out[:i]]
SWAP = {"plist": "llist", "llist": "plist", "tlist": "tllist", "tllist": "tlist", "pdict": "ldict", "ldict": "pdict", "tdict": "tldict", "tldict": "tdict", "pset": "tset", "tset": "pset"}
def apply(src, m):
    ls = src.split("\n"); l = ls[m[2] - 1]; b = l.encode()
    ls[m[2] - 1] = (b[:m[3]] + m[5].encode() + b[m[4]:]).decode()
    return "\n".join(ls)
def sh(cmd, t, **kw):
    try: return subprocess.run(cmd, capture_output=True, text=True, timeout=t, **kw)
    except subprocess.TimeoutExpired: return None
MON = "import sys,json\nfrom rt import run\nr=run.monitor(sys.argv[1],float(sys.argv[2]),1,1)\nprint(json.dumps([len(r['fails']),r['evals'],len(r['errors'])]))"
def one(k, m, tasks, owners):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp"); out = dict(k=k, m=m)
    try:
        shutil.copytree(REPO + "/pcollections", d + "/pcollections", ignore=shutil.ignore_patterns("__pycache__"))
        src = open(f"{REPO}/pcollections/{m[0]}").read(); new = apply(src, m)
        out["line"] = new.split("\n")[m[2] - 1].strip()
        try: ast.parse(new)
        except SyntaxError: return dict(out, st="syntax")
        open(f"{d}/pcollections/{m[0]}", "w").write(new)
        if not tasks: return dict(out, st="notask")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "seed_random", "--timeout=30", "-o", "python_files=_[a-z]*.py test_*.py", "pcollections/test"],
               60, cwd=d, env=dict(env, PYTHONPATH=d + ":/opt/vp", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1"))
        out["tests"] = r is None or r.returncode != 0
        if out["tests"] and not os.environ.get("MUT_SOUND"): return dict(out, st="tests")
        r = sh(["python3-vt", "-c", "import multiprocessing as mp, os\nos.cpu_count=lambda:1\nimport vc.pool as p\np.main()", d, "=" + "|".join(tasks), "40", "150"], 240, cwd=V, env=env)
        bad, und, n = [], [], 0
        for l in (r.stdout.splitlines() if r else []):
            j = json.loads(l)
            if "plan" in j: continue
            for tag, what, v, s in j["results"]:
                n += 1
                if v == "proved": continue
                (und if v == "unsupported" or any(t in v for t in ("timeout", "canceled")) else bad).append((j["task"], tag, what[:80], v[:60]))
        out.update(obl=n, bad=bad[:6], und=und[:4], nbad=len(bad), nund=len(und))
        props = sorted({p for t, tag, *_ in bad for p in owners[t].get(tag, owners[t]["content"])}) or sorted({p for t in tasks for p in owners[t]["content"]})
        out["st"] = "verifier" if bad else "survived" if n else "noload"
        got = None
        if os.environ.get("MUT_SOUND") and (bad or und): return dict(out, st="agree" if out["tests"] else out["st"])
        env["PCOLL_REPO"] = d
        cnt = collections.Counter(p for t, tag, *_ in bad for p in owners[t].get(tag, owners[t]["content"])) or collections.Counter(p for t in tasks for p in owners[t]["content"])
        for p in sorted(props, key=lambda p: (-cnt[p], p))[:8]:
            r = sh(["/opt/venv/bin/python", "-c", MON, p, "8"], 120, cwd=V, env=env)
            try: f = json.loads(r.stdout.splitlines()[-1])
            except Exception: f = None
            out.setdefault("mon", {})[p] = f
            if f and f[0]: got = p; break
        out["input"] = got
        return out
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    outp, rx, mx = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "."), int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
    r = sh(["python3-vt", "-m", "vc.pool", REPO, "all", "100", "400"], 600, cwd=V)
    by = collections.defaultdict(list); owners = {}
    for l in r.stdout.splitlines():
        j = json.loads(l)
        if "plan" in j: owners = j["owners"]; continue
        for f in j["inlined"]: by[f].append((j["secs"], j["task"]))
    ms = []
    for f in FILES: ms += mutants(open(f"{REPO}/pcollections/{f}").read(), f)
    ms = [m for m in ms if re.search(rx, m[1])]
    rnd = random.Random(int(os.environ.get("SEED", 7)))
    if len(ms) > mx: ms = rnd.sample(ms, mx)
    print(len(ms), "mutants")
    def pick(q):
        ts = [x for k, v in by.items() if k == q or k.startswith(q + ".") for x in v]
        if len(ts) > 24: ts = rnd.sample(ts, 24)
        return sorted({t for _, t in ts})
    with open(outp, "w") as f, cf.ThreadPoolExecutor(int(os.environ.get('J', 8))) as ex:
        for o in cf.as_completed([ex.submit(one, k, m, pick(m[1]), owners) for k, m in enumerate(ms)]):
            f.write(json.dumps(o.result()) + "\n"); f.flush()
if __name__ == "__main__": main()
