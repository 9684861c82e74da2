"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
levels = json.load(open(os.path.join(V, "tools", "levels.json")))
checks = []
for p in props:
    i = p["id"]; lv = levels.get(i, levels["default"])
    checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough", technique=lv["technique"], level=lv["level"], level_note=lv["note"]))
m = dict(version=1, setup_cmd="sh bin/setup", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
