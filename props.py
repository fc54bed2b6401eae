#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, glob
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), check=True, note="", reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech, observe=list(observe), check=check, note=note, reason=reason))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_text.py")).read())
TECH = "symbolic execution of the library's LLVM IR (and of the kernels it generates) with Z3, bounded; counterexamples replayed natively"
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
checks = []
for p in P:
    if not p["check"]: continue
    assert os.path.exists("checks/%s.py" % p["id"]), p["id"]
    checks.append(dict(property=p["id"], quick_cmd="./check.py %s" % p["id"], thorough_cmd="./check.py %s --tier thorough" % p["id"], technique=TECH, level="model_checking",
        level_note=(p["note"] + " " if p["note"] else "") + "Holds for every value within the bounds stated in the evidence; trusted: clang's IR, the engine's instruction semantics (validated against native runs on every run), Z3, the stubs listed in DESIGN.md."))
man = dict(version=1, setup_cmd="python3 -m lib.build all", checks=checks, not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in P if not p["check"]])
man["notes"] = "No hooks: the checks compile /repo's sources unmodified. Exit 2 means the check could not decide (build failure, timeout)."
json.dump(man, open("MANIFEST.json", "w"), indent=1)
