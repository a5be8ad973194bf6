"""Writes /verif/MANIFEST.json from the properties and the harnesses that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real code, every branch and assertion decided by Z3; counterexamples replayed"
NOTE = ("Every assertion is decided for all values within the stated bounds and for the listed configurations (field "
        "kinds, options, entry points); the configurations themselves are enumerated. Trusted: Z3 and the models of "
        "CPython built-ins (bytes, int, struct, codecs, BytesIO, uuid, datetime), which are validated on every run by "
        "replaying path models on the real code; a counterexample counts only if the real code shows it too.")
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "harness", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": f"python3-vt run.py {p} --tier quick",
                       "thorough_cmd": f"python3-vt run.py {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "model_checking",
                       "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "no harness built yet"})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
