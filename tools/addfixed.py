#!/opt/venv/bin/python
"""addfixed.py PROPERTY COMMIT TEXT: record a repaired defect."""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
line = f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"
if line not in d["fixed"]:
    d["fixed"].append(line)
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
