#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, not by any check)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "src/core/transport/wire/"
P = []
def p(id, title, statement, over, text, why, files, mech, claimed=None, note="", observe=None, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claimed=claimed, note=note, observe=observe or [], reason=reason))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
checks, na = [], []
for x in P:
    if x["claimed"]:
        checks.append({"property": x["id"], "quick_cmd": f"./check.sh {x['id']}", "thorough_cmd": f"./check.sh {x['id']}",
                       "evidence_file": f"evidence/{x['id']}.json", "technique": x["claimed"],
                       "level": "exploration", "level_note": x["note"]})
    else:
        na.append({"property": x["id"], "reason": x["reason"] or "check not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh build",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.sh builds /verif/harness (path dependency on /repo) and runs one property; VERIF_TIER selects the depth. ./check.sh <id> --replay <file> re-runs one recorded case without any search."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties", len(checks), "claimed")
