#!/usr/bin/env python3
"""Appends the per-property, seeded-bug and defect sections to DESIGN.md (run after props.py)."""
import json, glob, os, importlib.util, sys
os.chdir(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ".")
M = "<!-- generated by design.py -->\n"
P = [json.loads(l) for l in open("properties.jsonl")]
na = {d["property"]: d["reason"] for d in json.load(open("MANIFEST.json"))["not_applicable"]}
o = ["## Properties", "Oracle in every row: a reference in the harness, evaluated over the same symbolic values (for histories: a sequential model). Cost: quick check on 8 cores, builds included.", ""]
for p in P:
    i = p["id"]
    if i in na: o += ["* **%s** %s - *not applicable*: %s" % (i, p["title"], na[i])]; continue
    s = importlib.util.spec_from_file_location("c_" + i, "checks/%s.py" % i); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); c = m.CHECK
    t = ""
    if os.path.exists("evidence/%s.json" % i): t = " About %d s." % (5 * round(json.load(open("evidence/%s.json" % i))["wall_s"] / 5 + 1))
    o += ["* **%s** %s. Harness %s, %d jobs. Bounds: %s.%s Why tests cannot: %s" % (i, p["title"], ", ".join(sorted({h for j in c["jobs"]("quick") for h in (j.get("harness") or c["harness"])})), len(c["jobs"]("quick")), c.get("bounds", "see evidence"), t, p["why_tests_cant"])]
    if c.get("assumptions"): o += ["  Assumptions: " + "; ".join(c["assumptions"]) + "."]
o += ["", "## Planted bugs", "`lib/seedrun.sh [ids]` applies each one to /repo, runs the check of its property and undoes it. All of the following are caught by the quick check named.", "", "| bug | check | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    j = json.load(open(d)); o += ["| %s | %s | %s | %s |" % (d.split("/")[1], j["property"], j["needs"], j["what_it_breaks"])]
o += ["", "## Defects found and repaired", "All counterexamples that reproduced natively were genuine defects of drjit-core and have been repaired by `fix:` commits in /repo (no known finding is left open):", ""]
o += ["* " + x[7:] for x in json.load(open("known_findings.json"))["fixed"]]
t = open("DESIGN.md").read().split(M)[0].rstrip("\n") + "\n\n" + M + "\n".join(o) + "\n"
open("DESIGN.md", "w").write(t)
