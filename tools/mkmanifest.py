#!/opt/venv/bin/python
"""Regenerate MANIFEST.json from checks/*.py and properties.jsonl."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python check.py"
TECH = ("symbolic execution of the real Python code, every obligation decided "
        "by an SMT solver (z3, nonlinear real arithmetic); counterexamples "
        "replayed on the installed package")
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    m = importlib.import_module("checks." + p.lower())
    note = "Bounded claim. Bounds: " + m.BOUNDS + "."
    a = list(getattr(m, "ASSUME", []))
    a.append("floats as reals (rounding outside the claim)")
    a.append("numpy/scipy entry points as modelled in symx/shim.py and "
             "symx/stubs.py, cross-checked by replaying a witness per path")
    note += " Assumes: " + "; ".join(a) + "."
    checks.append(dict(property=p, quick_cmd=f"{PY} {p}",
                       thorough_cmd=f"{PY} {p} --tier thorough",
                       evidence_file=f"evidence/{p}.json",
                       technique=TECH, level="model_checking",
                       level_note=note))
man = dict(version=1, setup_cmd=f"{PY} selftest", checks=checks,
           not_applicable=[],
           notes="No hooks: the checks run the unmodified sources of /repo "
                 "under a symbolic numpy/scipy shim. See DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
