#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and rv/meta.py: a property is claimed when it has a META entry."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, "rv/meta.py")).read(), ns)
META = ns["META"]
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in META and os.path.exists(os.path.join(V, "rv/props/%s.py" % p.lower())):
        checks.append(dict(property=p, quick_cmd="python3 rv/run.py %s --tier quick" % p,
                           thorough_cmd="python3 rv/run.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p,
                           technique=META[p].get("technique", "runtime monitoring: generated workloads on the real code, each observed result compared by an independent reference oracle"),
                           level="exploration", level_note=META[p]["level_note"]))
    else:
        na.append(dict(property=p, reason="check under construction: no monitor for this property is finished yet"))
json.dump(dict(version=1, setup_cmd="python3 rv/build.py --smoke", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the monitors wrap objects from outside. Deciding method everywhere: oracle over observed executions."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
