"""Writes MANIFEST.json from the contracts present (committed output; run by hand)."""
import importlib.util, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
 "C30": "crash points inside a MAKE are not visible to function contracts (the file system between two writes is not a state any pre/postcondition talks about), and the code has no recovery or atomic replacement to put a contract on",
 "C31": "two processes interleaving on the same files is concurrency; contracts of sequential functions say nothing about it and no verifier for it is available for Python here",
}
NOTES = {}
if os.path.exists(os.path.join(HERE, "levels.json")):
    NOTES = json.load(open(os.path.join(HERE, "levels.json")))
checks = []
for i in ids:
    if i in NA:
        continue
    proved = os.path.exists(os.path.join(HERE, "contracts", i + ".py"))
    n = NOTES.get(i, {})
    checks.append(dict(
        property=i, quick_cmd=f"python3-vt check.py {i} quick", thorough_cmd=f"python3-vt check.py {i} thorough",
        technique=n.get("technique") or ("contract-based deductive verification: contracts on the functions of /repo, verification conditions generated from their syntax trees on every run, discharged by z3; bounded input search supplies failing inputs"
                   if proved else "bounded stand-in: contract of the public function checked on generated inputs on the real code"),
        level=n.get("level") or ("proof" if proved else "exploration"),
        level_note=n.get("note") or ("all inputs within the stated preconditions; see DESIGN.md for the trusted base" if proved else
                   "bounded: postcondition evaluated against an independent oracle on generated inputs; not a proof"),
    ))
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import z3\" && /opt/venv/bin/python -c \"import pydantic\"", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
