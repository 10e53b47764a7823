#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables beside it."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
V = os.path.dirname(HERE)
props, na = [], []
for m in sorted(f[:-3] for f in os.listdir(HERE) if f.startswith("props_")):
    mod = importlib.import_module(m)
    props += mod.PROPS
    na += getattr(mod, "NA", [])
props.sort(key=lambda p: p["id"])
assert len({p["id"] for p in props}) == len(props)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": p["mech"], "where": p["files"][0]}]}}) + "\n")
checks = []
for p in props:
    if p["id"] in {x["property"] for x in na}:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python -B bin/check.py {p['id']}",
        "thorough_cmd": f"/opt/venv/bin/python -B bin/check.py {p['id']} thorough",
        "technique": p["tech"], "level": p.get("level", "model_checking"),
        "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks,
       "hooks": {"guard": "none", "enable": "no hooks are needed: checks observe public interfaces only",
                 "source_commits": []},
       "not_applicable": na,
       "notes": "Specifications are TLA+ (spec/), checked with TLC. The sources run on this interpreter through shims/."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props), "properties,", len(checks), "checks")
