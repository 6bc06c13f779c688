#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), technique=None, note=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=None),
        technique=technique, note=note, level=level))

exec(open(os.path.join(ROOT, "tools", "props_def.py")).read())

NA = {}
claimed_path = os.path.join(ROOT, "tools", "claimed")
claimed = open(claimed_path).read().split() if os.path.exists(claimed_path) else []
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in claimed:
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=NA_REASONS.get(p["id"], "check not built yet")))
json.dump(dict(version=1, setup_cmd="./tools/setup.sh", checks=checks, not_applicable=na,
    notes="All harness code is in /verif/mc and enters the build of /repo through a go build overlay; /repo has no hooks. check.sh replay FILE re-runs one recorded execution."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
