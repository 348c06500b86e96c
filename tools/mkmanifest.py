"""Writes MANIFEST.json and properties.jsonl from props/catalog.py (run by hand
when a property is added; nothing at check time depends on it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE]
from props.catalog import PROPERTIES, NOT_APPLICABLE  # noqa

checks = []
for p in PROPERTIES:
	i = p["id"]
	if i in NOT_APPLICABLE or not os.path.isfile(os.path.join(HERE, "props", i + ".py")):
		continue
	checks.append({
		"property": i,
		"quick_cmd": "python3-vt -m symex.run %s --tier quick" % i,
		"thorough_cmd": "python3-vt -m symex.run %s --tier thorough" % i,
		"technique": "symbolic execution of the real Python source with z3 (bounded, counterexamples replayed)",
		"level": "model_checking",
		"level_note": "Every path of the encoded functions within the bounds listed in evidence/%s.json is decided by "
		              "z3; says nothing outside them. Trusts z3, the engine's model of Python built-ins (cross-checked "
		              "per path against CPython) and its virtual file system; long CRCs are uninterpreted." % i,
	})
na = [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]
for p in PROPERTIES:
	if p["id"] not in NOT_APPLICABLE and p["id"] not in [c["property"] for c in checks]:
		na.append({"property": p["id"], "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, symex.run'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the engine instruments the sources while loading them."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
	json.dump(m, f, indent=1)
	f.write("\n")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
	for p in PROPERTIES:
		f.write(json.dumps(p) + "\n")
