#!/usr/bin/env python3
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools")); sys.path.insert(0, str(V))
from props import PROPS, NA
from registry import PROPERTIES
na = dict(NA)
with open(V / "properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], state=p["state"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))) + "\n")
claimed = [p for p in PROPS if p["id"] not in na]
assert {p["id"] for p in claimed} == set(PROPERTIES), {p["id"] for p in claimed} ^ set(PROPERTIES)
m = dict(version=1, setup_cmd="python3 run.py --self-test",
         hooks=dict(guard="OPENCMW_VERIF_HOOKS", enable="no hooks were needed: every check observes the public behaviour of the unmodified headers (interposed system calls, sanitizers, model oracles)", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} quick", thorough_cmd=f"python3 run.py {p['id']} thorough",
                      technique=p["technique"], level="exploration", level_note=p["note"], evidence_file=f"evidence/{p['id']}.json") for p in claimed],
         not_applicable=[dict(property=i, reason=r) for i, r in NA],
         notes="See DESIGN.md. Checks build their harnesses from /repo's working tree with g++-14 (sanitizers); known findings are in known_findings.json.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(claimed), "claimed", len(NA), "n/a")
