"""Writes MANIFEST.json from the checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import checks
NOTES = checks.NOTES
out = []
missing = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in checks.CHECKS:
        missing.append({"property": p, "reason": "the check is not built yet"})
        continue
    tech, note = NOTES.get(p, NOTES["default"])
    out.append({"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "env VERIF_TIER=thorough bin/check " + p,
                "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": out, "not_applicable": missing,
     "notes": "No hooks: every observation is made through the exported API of the packages of the module. "
              "Known findings and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
