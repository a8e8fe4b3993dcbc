#!/usr/bin/env python3-vt
"""Regenerates MANIFEST.json and properties.jsonl from the META of the property modules and not_applicable.json."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "engine"), os.path.join(here, "props")]
sys.dont_write_bytecode = True
props = []
for f in sorted(glob.glob(os.path.join(here, "props", "[A-Z][0-9][0-9].py"))):
    m = importlib.import_module(os.path.basename(f)[:-3])
    if hasattr(m, "META"):
        props.append(dict(m.META, id=m.ID))
na = json.load(open(os.path.join(here, "not_applicable.json")))
reasons = []
for p in na:
    reasons.append({"property": p["id"], "reason": p.pop("reason")})
    props.append(p)
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in sorted(props, key=lambda p: p["id"]):
        a = p["anchors"]
        a["mechanism"] = [x if isinstance(x, dict) else dict(name=x.split(" @ ")[0], where=(x.split(" @ ") + [a["files"][0]])[1]) for x in a["mechanism"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
nas = {r["property"] for r in reasons}
checks = [{"property": p["id"], "quick_cmd": "python3-vt engine/check.py --property %s --tier quick" % p["id"],
           "thorough_cmd": "python3-vt engine/check.py --property %s --tier thorough" % p["id"],
           "technique": "contract-based deductive verification of the code extracted from /repo on every run (VC generation + SMT), bounded stand-in labelled as such", "level": "proof", "level_note": p["level_note"]}
          for p in sorted(props, key=lambda p: p["id"]) if p["id"] not in nas]
m = {"version": 1, "setup_cmd": "python3-vt engine/setup.py", "checks": checks, "not_applicable": reasons,
     "notes": "No hooks in /repo. Contracts: props/*.py; VC generator: engine/; harnesses that run the same contracts on the compiled code: native/*.cpp; see DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
