"""regenerates MANIFEST.json from the table below (run by hand, not by a check)"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROOF_NOTE = {}
NOTES = os.path.join(HERE, "level_notes.json")
if os.path.exists(NOTES):
    PROOF_NOTE = json.load(open(NOTES))
checks = []
for ln in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(ln)["id"]
    note = PROOF_NOTE.get(pid)
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "technique": note["technique"] if note else "bounded stand-in: run-time contract checking of the real functions on generated inputs",
        "level": note["level"] if note else "exploration",
        "level_note": note["note"] if note else "Bounded: contracts evaluated on generated inputs of the real code only; nothing is proved yet.",
    })
doc = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5'", "checks": checks, "not_applicable": [],
       "notes": "See DESIGN.md. Checks read /repo's working tree directly (pure Python, nothing to build)."}
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
