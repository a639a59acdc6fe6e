#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The 47 tests evaluate fixed expressions at fixed points, once; "
S = "include/Scalar/"
M = "include/Matrix/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=dict(files=files,
                   mechanism=[dict(name=a, where=b) for a, b in mech],
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   observe_at=observe, hook_needed=None)), note))


exec(open(os.path.join(V, "lib", "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 lib/setup.py",
                   checks=[dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"],
                                thorough_cmd="./check.sh %s thorough" % p["id"],
                                technique=TECH.get(p["id"], TECH[""]), level="model_checking", level_note=note)
                           for p, note in P], not_applicable=NA), f, indent=1)
    f.write("\n")
