"""Runs verification tasks in parallel: python3-vt -m vc.pool REPO SELECT LIMIT TOTAL; SELECT: a property, or =task|task.
Prints one JSON line per task, and a last line with the totals."""
import json, multiprocessing as mp, multiprocessing.connection, os, sys, time, traceback

def setup(repo):
    sys.path.append("/opt/venv/lib/python3.12/site-packages"); sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import pcollections
    if not pcollections.__file__.startswith(repo + os.sep): raise SystemExit(f"pcollections is imported from {pcollections.__file__}")
    from . import tasks
    return tasks.all_tasks(pcollections)

def one(name):
    from .verifier import Verifier
    t = TASKS[name]
    E = Verifier(repo=REPO)
    E.deadline = min(time.time() + LIMIT, END)
    t0 = time.time()
    err = None
    if time.time() < END:
        try: E.run_task(t.name, t.fn)
        except MemoryError: E.results.append((name, "reach", "memory", "unsupported", 0))
        except RecursionError: E.results.append((name, "reach", "recursion", "unsupported", 0))
        except Exception as e:
            E.results.append((name, "reach", f"verifier error: {type(e).__name__}: {e}", "unsupported", 0)); err = traceback.format_exc()[-1500:]
    else: E.results.append((name, "reach", "not started within the time limit", "unsupported", 0))
    if err is None and not E.covered and not any(r[3] != "proved" for r in E.results):
        E.results.append((name, "reach", "no path reaches the postcondition", "unproved: vacuous", 0))
    return dict(task=name, node=getattr(E, "node", name.split("/")[0]), secs=round(time.time() - t0, 2), results=[r[1:] for r in E.results], details=E.details[:8], queries=E.nchecks, solver_s=round(E.solver_s, 2),
                used=sorted(map(list, E.used)), inlined=sorted(E.inlined), outcomes=sorted(E.outcomes), loops=len(E.loop_notes), error=err, files=sorted(f for f in E.touched_files if f.startswith(REPO)))

def main():
    global TASKS, LIMIT, END, REPO
    REPO, sel, LIMIT, total = sys.argv[1], sys.argv[2], float(sys.argv[3]), float(sys.argv[4])
    END = time.time() + total
    ts = setup(REPO)
    if sel.startswith("="): ts = [t for t in ts if any(t.name == n or t.name.startswith(n + "/") for n in sel[1:].split("|"))]
    elif sel != "all": ts = [t for t in ts if sel in t.props()]
    ts.sort(key=lambda t: -t.cost)
    TASKS = {t.name: t for t in ts}
    owners = {t.name: {k: sorted(v) for k, v in t.owners.items()} for t in ts}
    print(json.dumps(dict(plan=[t.name for t in ts], owners=owners)), flush=True)
    if not ts: return
    for r in spread([t.name for t in ts], min(8, os.cpu_count() or 2)): print(json.dumps(r), flush=True)

def crashed(name, why):
    return dict(task=name, node=name.split("/")[0], secs=0, results=[("reach", why, "unsupported", 0)], details=[], queries=0, solver_s=0, used=[], inlined=[], outcomes=[], loops=0, error=None, files=[])
def serve(inp, out):
    """A worker: takes names of tasks, gives reports; it may die (a solver that crashes) or be ended (one that does not return)."""
    from . import verifier
    import ctypes; ctypes.CDLL(None).prctl(1, 9)      # ends with the parent
    while True:
        try: name, second = inp.recv()
        except EOFError: os._exit(0)
        verifier.Verifier.second = second
        out.send(one(name))
def spread(names, n):
    """Reports of all tasks.  A task whose worker dies is tried once more without the second solver configuration."""
    ctx = mp.get_context("fork"); todo = [(x, True) for x in names]; todo.reverse(); ws = {}
    def start():
        (a, b), (c, d) = ctx.Pipe(False), ctx.Pipe(False)
        p = ctx.Process(target=serve, args=(a, d), daemon=True); p.start(); a.close(); d.close()
        ws[c] = dict(p=p, inp=b, job=None, t=0.0)
        return c
    def feed(c):
        w = ws[c]
        if not todo: w["job"] = None; return
        w["job"] = todo.pop(); w["t"] = time.time(); w["inp"].send(w["job"])
    def lost(c, why):
        w = ws.pop(c); job = w["job"]; w["p"].kill(); w["p"].join(); c.close(); w["inp"].close()
        r = None
        if job is not None:
            if job[1] and time.time() < END and why != "time": todo.append((job[0], False))
            else: r = crashed(job[0], "the solver crashed" if why != "time" else "the solver did not return")
        if todo: feed(start())
        return r
    for _ in range(min(n, len(todo))): feed(start())
    while any(w["job"] is not None for w in ws.values()):
        for c in mp.connection.wait([c for c, w in ws.items() if w["job"] is not None], 2):
            try: r = c.recv()
            except (EOFError, OSError): r = lost(c, "crash")
            else: feed(c)
            if r is not None: yield r
        for c in [c for c, w in ws.items() if w["job"] is not None and time.time() > min(w["t"] + LIMIT, max(END, w["t"])) + 40]:
            r = lost(c, "time")
            if r is not None: yield r
    for w in ws.values(): w["p"].kill()

if __name__ == "__main__": main()
