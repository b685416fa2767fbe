#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique="", note="", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, note=note, hook=hook))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                "mechanism": [dict(name=a, where=b) for a, b in p["mechanism"]],
                "observe_at": list(p["observe"]),
                "hook_needed": p["hook"],
            },
        }, ensure_ascii=False) + "\n")

m = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P if p["technique"]],
    "not_applicable": [dict(property=p["id"], reason=p["note"]) for p in P if not p["technique"]],
    "notes": "Every check is decided by runtime monitors over executions of the real library; no hooks in /repo are needed. Exit 2 means no answer. Replay a finding with: bash run.sh replay <path>.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
