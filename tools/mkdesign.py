#!/opt/venv/bin/python
"""Write DESIGN.md from design_head.md, the property table, the checks' EXPLAIN texts, known_findings.json and seeded/."""
import ast
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(HERE + "/properties.jsonl")]
known = json.load(open(HERE + "/known_findings.json"))
man = json.load(open(HERE + "/MANIFEST.json"))
catch = {}
p = HERE + "/tools/seed_results.json"
if os.path.exists(p):
    catch = json.load(open(p))
seeds = {}
for m in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
costs = {}
for f in glob.glob(HERE + "/tools/costs.json"):
    costs = json.load(open(f))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("EXPLAIN", "ASSUMPTIONS", "BOUNDS", "ORACLE"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


out = [open(HERE + "/tools/design_head.md").read(), "## 2. Properties\n"]
for q in props:
    pid = q["id"]
    out.append(f"### {pid} {q['title']}\n\n{q['statement']}\n")
    path = f"{HERE}/checks/c_{pid.lower()}.py"
    if not os.path.exists(path):
        na = [x for x in man.get("not_applicable", []) if x.get("property") == pid or x.get("id") == pid]
        out.append("*Not applicable*: " + (na[0].get("reason", "") if na else "") + "\n")
        continue
    k = consts(path)
    out.append(f"*What is explored, and the oracle.* {' '.join(k.get('EXPLAIN', '').split())}\n")
    if k.get("ASSUMPTIONS"):
        out.append("*Assumptions.* " + "; ".join(k["ASSUMPTIONS"]) + ".\n")
    c = costs.get(pid)
    if c:
        out.append(f"*Cost.* quick {c.get('quick', '?')}; thorough {c.get('thorough', '?')}.\n")
    why = q.get("why_tests_cant")
    if why:
        out.append(f"*Why tests cannot reach it.* {why}\n")
    fx = [x for x in known["fixed"] if f"property={pid} " in x]
    if fx:
        out.append(f"*Defects repaired* ({len(fx)}): " + "; ".join(x.split(" ", 2)[2] for x in sorted(fx)) + ".\n")
    for f in known["findings"]:
        if f["property"] == pid:
            out.append(f"*Known finding* `{f['signature']}`: {f['what']}\n")
out.append("## 3. Planted bugs and which check catches them\n\nEach was written from the property and the code; `demo.sh` of each fails with it and passes without it, and the stable tests pass with it.\n")
out.append("| planted bug | property | what it needs | caught by (signatures) |\n|---|---|---|---|")
for q in props:
    for name, d in seeds.get(q["id"], []):
        needs = " ".join(str(d["needs"]).split()).replace("|", "/")
        out.append(f"| {name} | {q['id']} | {needs} | {catch.get(name, '')} |")
tail = HERE + "/tools/design_tail.md"
if os.path.exists(tail):
    out.append("\n" + open(tail).read())
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
