#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = json.load(open(os.path.join(HERE, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")) and i in TECH:
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json", technique="property-based testing: " + t, level="exploration", level_note=note))
    else:
        missing.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python3 -B -c 'import hypothesis, sys; sys.path.insert(0, \"/repo\"); import richard.core.System'",
         checks=checks, not_applicable=missing,
         notes="Pure Python, nothing to build: every check imports the working tree of /repo in a fresh process with bytecode caching off. "
               "No hooks in /repo. Random choices depend on VERIF_SEED only; a failing case is shrunk and written to /verif/replays, "
               "'python3 check.py <ID> --replay <file>' re-decides it without the generator library.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in missing])
