"""tools/seed.py ID PROP FILE <<< JSON {old,new,demo,needs,breaks}: builds /verif/seeded/ID from one textual replacement,
confirming that it applies, passes the stable tests and fails its demonstration."""
import json, os, subprocess, sys, shutil
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(i, prop, edits, demo, needs, breaks):
    w = f"/tmp/seed-{i}"; shutil.rmtree(w, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    for f, old, new, *after in edits:
        p = f"{w}/pcollections/{f}"; s = open(p).read()
        if after:        # the replacement is made after this unique text
            if s.count(after[0]) != 1: print(i, "NOT UNIQUE", s.count(after[0]), after[0]); shutil.rmtree(w); return False
            h = s.index(after[0]); t = s[h:]
            if old not in t: print(i, "MISSING", old); shutil.rmtree(w); return False
            open(p, "w").write(s[:h] + t.replace(old, new, 1)); continue
        if s.count(old) != 1: print(i, "NOT UNIQUE", s.count(old), old); shutil.rmtree(w); return False
        open(p, "w").write(s.replace(old, new))
    d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
    diff = sh("git diff", cwd=w).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write("import sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, '.')\nfrom pcollections import *\n" + demo)
    open(f"{d}/demo.sh", "w").write('#!/bin/sh\nexec timeout 60 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    good = sh(f"{d}/demo.sh", cwd="/repo").returncode; r = sh(f"{d}/demo.sh", cwd=w); bad = r.returncode
    t = sh(f"PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 PYTHONPATH={w}:/opt/vp /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p pytest_timeout -p seed_random --timeout=100 -o python_files='_[a-z]*.py test_*.py' pcollections/test 2>&1 | tail -1", cwd=w).stdout.strip()
    ok = good == 0 and bad != 0 and "21 passed" in t
    # the patch must change lines of the original repository
    print(i, "OK" if ok else "REJECTED", f"clean={good} patched={bad} tests={t!r}", "" if ok else r.stderr[-300:])
    shutil.rmtree(w)
    if not ok: shutil.rmtree(d)
    return ok
