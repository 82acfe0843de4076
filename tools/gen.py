#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P, NA
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + [n["prop"] for n in NA if "prop" in n]:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p.get("obs", []), "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "bin/vx setup", "checks": [], "not_applicable": [{"property": n["property"], "reason": n["reason"]} for n in NA],
       "notes": "No hooks: nothing in /repo is instrumented. Commits in /repo are fixes only (known-findings.json lists them)."}
for p in P:
    man["checks"].append({"property": p["id"], "quick_cmd": "bin/vx check %s" % p["id"], "thorough_cmd": "bin/vx check %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "symbolic execution of the LLVM IR of the real code, assertions decided by z3" + (" (%s)" % p["tech"] if "tech" in p else ""),
        "level": "model_checking", "level_note": "Bounded: for every value, text, history or schedule inside the bounds, not outside. " + p["note"] + " Trusted: clang's IR generation at -O1, the executor and its library stubs (counterexamples are replayed natively), z3."})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import glob, re
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert glob.glob(os.path.join(V, "harness", p["id"].lower() + "_*.cpp")), p["id"]
    for f in p["files"]: assert os.path.exists("/repo/" + f), f
try:
    import jsonschema
    for n, s in (("MANIFEST.json", "MANIFEST"),): jsonschema.validate(json.load(open(os.path.join(V, n))), json.load(open("/root/.vp/%s.schema.json" % s)))
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), sc)
    print("valid", len(ids))
except ImportError: print("written (jsonschema missing)", len(ids))
# ---- DESIGN.md
import subprocess
D = open(os.path.join(V, "tools/doc/head.md")).read() + "## Properties\n\n"
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    j = json.load(open(m)); seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j))
caught = json.load(open(os.path.join(V, "tools/doc/caught.json"))) if os.path.exists(os.path.join(V, "tools/doc/caught.json")) else {}
for p in P:
    D += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    D += "* Oracle: %s\n" % p.get("oracle", "an independent reference computation in the harness, compared on every path.")
    for f in sorted(glob.glob(os.path.join(V, "harness", p["id"].lower() + "_*.cpp"))):
        t = open(f).read(); D += "* Harness: `%s`; entries %s.\n" % (os.path.relpath(f, V), ", ".join(sorted(set(re.findall(r"^//@ case entry=(\w+)", t, re.M)))))
        for k, lab in (("bounds", "Bounds"), ("outside", "Outside"), ("stubs", "Stubs"), ("assume", "Assumes")):
            for x in re.findall(r"^//@ *%s +(.*)$" % k, t, re.M): D += "* %s: %s.\n" % (lab, x.rstrip("."))
    D += "* Reach beyond tests: %s\n" % p["why"]
    D += "* Assurance: bounded; %s\n" % p["note"]
    for s, j in seeds.get(p["id"], []): D += "* Planted bug `%s` (%s): %s.\n" % (s, j["needs"], caught.get(s, "caught by this check"))
    D += "\n"
if NA:
    D += "## Not applicable\n\n"
    for n in NA: D += "* %s: %s\n" % (n["property"], n["reason"])
D += open(os.path.join(V, "tools/doc/tail.md")).read() if os.path.exists(os.path.join(V, "tools/doc/tail.md")) else ""
open(os.path.join(V, "DESIGN.md"), "w").write(D)
