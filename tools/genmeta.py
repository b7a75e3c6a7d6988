#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks = []
for p in PROPS:
    checks.append(dict(
        property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
        thorough_cmd="python3 check.py %s --thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=p.get("tech", "runtime monitoring: online oracle over randomised and hostile executions of the real code"),
        level="exploration",
        level_note=p.get("note", "Held on every monitored execution of the run (counts and samples in the evidence file); "
                         "trusts the independent reference in the monitor and covers only the generated inputs.")))
m = dict(version=1, setup_cmd="python3 lib/build.py --warm", checks=checks, not_applicable=[],
         notes="No hooks in /repo: every monitor observes public API calls on a private build of /repo's working tree. "
               "VERIF_SEED drives every random choice; replay with `python3 check.py <ID> --replay <file>`.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties")
