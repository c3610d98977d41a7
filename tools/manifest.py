#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changing it)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "4d630e4..HEAD"], stdout=subprocess.PIPE).stdout.decode().split("\n")
hooks = [l.split()[0] for l in log if l and not l.split(" ", 1)[1].startswith("fix:")]
m = dict(version=1, setup_cmd="true",
         hooks=dict(guard="ONA_VERIF", enable="the checks compile /repo/src with -DONA_VERIF themselves (lib/common.py, build())", source_commits=hooks),
         checks=[dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="VERIF_TIER=thorough ./check %s" % i, technique=T[i][0],
                      level="model_checking", level_note=T[i][1]) for i in ids if i in T],
         not_applicable=[dict(property=i, reason=N.get(i, "no check yet")) for i in ids if i not in T],
         notes="TLA+ specifications in spec/, checked with TLC; see DESIGN.md")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
