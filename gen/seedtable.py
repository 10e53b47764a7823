#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
mark = "## Planted bugs\n"
t = t.split(mark)[0].rstrip() + "\n\n" + mark
t += """
Each is in `seeded/<id>/` with a demonstration; every one is caught by the quick check of its property
(`gen/runseeds.sh` replays them against scratch copies). Those marked * were missed when first planted and led to
stronger worlds or clauses.

| bug | caught by | what it breaks | needs |
|---|---|---|---|
"""
missed = {"T10", "T11"} | set(json.load(open(os.path.join(V, "gen", "missed.json"))))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    t += f"| {d}{'*' if d in missed else ''} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n"
open(p, "w").write(t)
