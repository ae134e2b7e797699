"""python3 tools/mkmanifest.py: MANIFEST.json from the harnesses present and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTES = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")) and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the real Python source (AST-instrumented from /repo at run time) with z3 deciding every branch and assertion; counterexamples replayed on the unmodified code",
            "level": "model_checking",
            "level_note": NOTES.get(i, "exhaustive over all inputs within the bounds listed per obligation in the evidence; nothing is claimed outside them; floats are exact rationals; library calls are modelled and cross-checked by replaying sampled path models on the real code"),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, sys; sys.path.insert(0, '.'); import symx.instr\" && /opt/venv/bin/python -c \"import numpy, scipy\"",
     "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
