"""Runs the run-time contract monitor of one property: python -m rt.run PROP SECONDS [SEED] -> JSON on stdout."""
import json, multiprocessing as mp, os, resource, subprocess, sys, tempfile, time
from . import common

def modules():
    from . import lists
    reg = dict(lists.CHECKS)
    for name in ("sets", "dicts", "lazyrt", "cross"):
        try:
            m = __import__("rt." + name, fromlist=["CHECKS"])
        except ModuleNotFoundError as e:
            if e.name != "rt." + name: raise
            continue
        reg.update(m.CHECKS)
    return reg

def worker(args):
    prop, seed, budget, shard, n = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        import signal, traceback
        mon = common.Monitor(prop, seed, budget, shard, n); err = None
        try:
            modules()[prop](mon)
        except common.Enough:
            pass
        except (Exception, common.Hang):
            err = "".join(traceback.format_exc())[-3000:]
        signal.setitimer(signal.ITIMER_REAL, 0)
        return dict(mon.result(), **({"note": err} if err else {}))
    except BaseException as e:
        import traceback
        return dict(error="".join(traceback.format_exc())[-3000:])

def confirm(body):
    """Run a replay in a fresh interpreter; the text of the failure, or None when it holds there."""
    with tempfile.NamedTemporaryFile("w", suffix=".py", delete=False) as f:
        f.write(common.script(body))
    try:
        p = subprocess.run([common.PYTHON, f.name], capture_output=True, text=True, timeout=60)
        if p.returncode == 0: return None
        return (p.stderr.strip().splitlines() or [f"exit {p.returncode}"])[-1]
    except subprocess.TimeoutExpired:
        return "did not finish"
    finally:
        os.unlink(f.name)

def monitor(prop, seconds, seed=1, n=8):
    """Run the monitor in n processes.  Failures are confirmed by replay in a fresh interpreter."""
    t0 = time.time()
    with mp.get_context("fork").Pool(n) as pool:
        rs = pool.map(worker, [(prop, seed, seconds, k, n) for k in range(n)], 1)
    out = dict(evals=0, skipped=0, classes=set(), samples=[], fails=[], errors=[], wall=0)
    seen = set()
    for r in rs:
        if "error" in r: out["errors"].append(r["error"]); continue
        if "note" in r: out["errors"].append(r["note"])
        out["evals"] += r["evals"]; out["skipped"] += r["skipped"]; out["classes"] |= set(r["classes"])
        out["samples"] += r["samples"][:1]
        for key, what, body in sorted(r["fails"], key=lambda f: len(f[2])):
            if key in seen or len(out["fails"]) >= 4: continue
            seen.add(key)
            said = confirm(body)
            if said is not None: out["fails"].append(dict(what=what, replayed=said, body=body))
            else: out["errors"].append(f"not reproduced in a fresh interpreter: {what}\n{body}")
    if not out["evals"] and not out["fails"]:      # nothing could be evaluated: the states themselves are broken
        for what, body in [b for r in rs for b in r.get("broken", ())][:3]:
            said = confirm(body)
            if said is not None: out["fails"].append(dict(what=what, replayed=said, body=body)); break
    out["distinct"] = len(out.pop("classes")); out["wall"] = round(time.time() - t0, 2)
    return out

if __name__ == "__main__":
    r = monitor(sys.argv[1], float(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    print(json.dumps(r, indent=1))
