"""Runs the deductive verifier for one property and sorts its verdicts."""
import json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = {"quick": (60, 240), "thorough": (300, 600)}
TIMEOUTS = ("timeout", "canceled", "max. memory", "resource", "interrupted")

def undecided(v):
    return v == "unsupported" or any(t in v for t in TIMEOUTS)

def cycles(graph):
    """The functions that are reached from themselves."""
    out = []
    for n in graph:
        seen, todo = set(), list(graph[n])
        while todo:
            m = todo.pop()
            if m not in seen: seen.add(m); todo += graph.get(m, ())
        if n in seen: out.append(n)
    return sorted(out)
def run(prop, tier, repo=os.environ.get("PCOLL_REPO", "/repo")):
    limit, total = LIMIT[tier]
    py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
    cmd = [py, "-m", "vc.pool", repo, prop, str(limit), str(total)]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    t0 = time.time()
    try: p = subprocess.run(cmd, cwd=VERIF, env=env, capture_output=True, text=True, timeout=total + 120)
    except subprocess.TimeoutExpired: return dict(failed=[], level="exploration", coverage={}, assumptions=["the verifier did not finish"], open=["all"])
    lines = []
    for l in p.stdout.splitlines():
        try: lines.append(json.loads(l))
        except ValueError: pass
    if not lines or "plan" not in lines[0]:
        # the tree cannot be loaded by the verifier: the monitor decides
        return dict(failed=[], level="exploration", coverage={}, assumptions=["the verifier could not load the tree: " + p.stderr[-300:]], open=["all"])
    plan, owners, reports = lines[0]["plan"], lines[0]["owners"], lines[1:]
    if not plan: return None
    failed, opened = [], []
    total_ob = disch = 0
    queries = solver = 0; inlined, used, funcs, samples = set(), set(), [], []
    seen = set()
    for r in reports:
        seen.add(r["task"]); own = owners[r["task"]]
        queries += r["queries"]; solver += r["solver_s"]; inlined |= set(r["inlined"]); used |= {".".join(u) for u in r["used"]}
        mine = [x for x in r["results"] if prop in own.get(x[0], own["content"])]
        details = {d["name"]: d for d in r["details"]}
        bad = []
        for tag, what, verdict, secs in mine:
            if tag == "reach" and verdict == "unsupported": opened.append(f"{r['task']}: {what}"); continue
            total_ob += 1
            if verdict == "proved": disch += 1
            elif undecided(verdict): opened.append(f"{r['task']}: {what} [{tag}]: {verdict}")
            else:
                name = f"{r['task']}: {what} [{tag}]"
                if name not in bad: bad.append(name); failed.append(dict(name=name, verdict=verdict, detail=details.get(name, {}).get("detail", "")))
        if mine and not bad and all(x[2] == "proved" for x in mine): funcs.append(r["task"])
        if len(samples) < 3 and mine: samples.append(f"{r['task']}: {len(mine)} obligations, outcomes {r['outcomes']}, {r['secs']} s; e.g. {mine[0][1]} [{mine[0][0]}]: {mine[0][2]}")
    for t in plan:
        if t not in seen: opened.append(f"{t}: no report")
    graph = {}
    for r in reports: graph.setdefault(r["node"], set()).update(".".join(u) for u in r["used"])
    for n in cycles(graph): opened.append(f"{n}: verified with its own contract: it may not end")
    from .trusted import base
    cov = dict(obligations=total_ob, discharged=disch, checker_cmd=" ".join(cmd), trusted_base=base(prop), functions_under_contract=sorted(f for f in funcs if not f.startswith("lemma ")), lemmas_proved=sorted(f for f in funcs if f.startswith("lemma ")), functions_executed_inside=sorted(inlined),
               callee_contracts_used=sorted(used), back_end="z3 (e-matching; model-based instantiation as a second opinion)", solver_queries=queries, solver_s=round(solver, 1), verifier_wall_s=round(time.time() - t0, 1),
               undecided=opened[:40], proof_samples=samples)
    return dict(failed=failed, level="proof" if total_ob and disch == total_ob and not opened else "exploration", coverage=cov, assumptions=base(prop), open=opened)
