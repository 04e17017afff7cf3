#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, built=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note, built=built, na=na))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
m = dict(
    version=1,
    setup_cmd="bash ./setup.sh",
    hooks=dict(guard="none: no hook was added to /repo; the harness patches rayon-core, crossbeam and profiling with controllable stand-ins through its own Cargo.toml",
               enable="cargo build in /verif/harness, which has a path dependency on /repo", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                 technique=p["technique"], level="model_checking", level_note=p["note"]) for p in P if p["built"]],
    not_applicable=[dict(property=p["id"], reason=p["na"] or "check not built yet") for p in P if not p["built"]],
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
