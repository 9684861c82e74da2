"""The check of one property: python -m vc.check PROP quick|thorough.

1. The deductive verifier (vc.dv, in its own process under python3-vt) reads /repo's current source, generates the
   obligations of the contracts the property depends on, and discharges them.
2. The run-time contract monitor (rt.*) evaluates the same contracts on the running code: it supplies concrete failing
   inputs for failed obligations, and is the bounded stand-in for functions out of the verifier's reach.

Exit 0: held on everything explored.  Exit 1: a line VIOLATION property=<id> replay=<path>.
"""
import json, os, subprocess, sys, time
from rt import run, common

VERIF = common.VERIF
BUDGET = {"quick": 20.0, "thorough": 240.0}

def known():
    """Entries of the known-findings file: open findings by property (fixed ones suppress nothing)."""
    r = {}
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
        if l.startswith("finding: property="):
            p, what = l[len("finding: property="):].strip().split(" ", 1)
            r.setdefault(p, []).append(what)
    return r

def deduce(prop, tier):
    try:
        from . import dv_driver
    except ImportError:
        return None
    return dv_driver.run(prop, tier)

def write_replay(prop, k, text):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{k}.py")
    with open(p, "w") as f: f.write(text)
    return p

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    violations = []
    dv = deduce(prop, tier)
    budget = BUDGET[tier]
    if dv and dv["failed"]: budget = max(budget, 60.0)
    mon = run.monitor(prop, budget, seed)
    for e in mon["errors"]: print("note:", e.strip().splitlines()[-1] if e.strip() else e, file=sys.stderr)
    for k, f in enumerate(mon["fails"]):
        p = write_replay(prop, k, common.script(f["body"]))
        print(f"{prop}: {f['what']}")
        violations.append(f"VIOLATION property={prop} replay={p}")
    if dv and dv["failed"] and not violations:
        text = "".join(f"# failed obligation: {o['name']}\n#   verdict: {o['verdict']}\n" + "".join("#   " + l + "\n" for l in o.get("detail", "").splitlines()) for o in dv["failed"])
        p = write_replay(prop, "obligation", text + "# The verifier gives no failing input; the run-time contract monitor found none either.\nimport sys; print(open(__file__).read()); sys.exit(1)\n")
        for o in dv["failed"][:5]: print(f"{prop}: failed obligation {o['name']}: {o['verdict']}")
        violations.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")
    findings = known().get(prop, [])
    if mon["evals"] == 0 and not violations:
        print(f"{prop}: the monitor evaluated no case: {mon['errors'][:1]}", file=sys.stderr)
        return 3
    cov = dict(evaluations=mon["evals"], distinct_nontrivial=mon["distinct"],
               rule="run-time contract monitor (bounded): each case runs one operation on the real code and on the built-in model from an observed state; distinct by operation, kind of collection and size class",
               samples=[s[:700] for s in mon["samples"][:4]], skipped=mon["skipped"], monitor_wall_s=mon["wall"], label="bounded")
    level = "exploration"
    assumptions = []
    if dv:
        level = dv["level"]; cov.update(dv["coverage"]); assumptions = dv["assumptions"]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for f in findings: print(f"KNOWN-FINDING: property={prop} {f}")
    for v in violations: print(v)
    if not violations: print(f"{prop}: held ({mon['evals']} monitored cases" + (f", {cov['discharged']} of {cov['obligations']} obligations discharged" if dv else "") + f", {ev['wall_s']} s)")
    return 1 if violations else 0

if __name__ == "__main__":
    sys.exit(main())
