#!/usr/bin/env python3
import json, os, subprocess, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props
with open(f"{V}/properties.jsonl", "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
        for x in p["files"] + [w for _, w in p["mech"]]:
            assert os.path.exists("/repo/" + x), x
checks, na = [], []
for p in props.P:
    if p["claimed"] and glob.glob(f"{V}/harness/{p['id']}*.cpp"):
        checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} quick",
                           thorough_cmd=f"python3 run.py {p['id']} thorough", technique=p["tech"],
                           level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks: checks compile /repo's headers unchanged into harnesses in /verif", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Each check compiles its harnesses from /repo's working tree (about 15-40 s) and explores them exhaustively within bounds; see DESIGN.md.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
