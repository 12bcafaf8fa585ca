#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for k, p in list(PROPS.items()) + [(k, p) for k, p in NOT_APPLICABLE.items()]:
        f.write(json.dumps(dict(id=k, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mechanism"]))) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(property=k, quick_cmd=f"python3 check.py {k}", thorough_cmd=f"python3 check.py {k} --thorough",
    evidence_file=f"evidence/{k}.json", technique=p["technique"], level=p["level"], level_note=p["note"]) for k, p in PROPS.items()],
    not_applicable=[dict(property=k, reason=p["reason"]) for k, p in NOT_APPLICABLE.items()],
    notes="No hooks in /repo: contracts live in /verif/contracts and are woven around the functions extracted from /repo on every run. Repairs: see known-findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
