#!/opt/venv/bin/python
"""Single source for properties.jsonl and MANIFEST.json.  Run: tools/mkprops.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=None, na=None, technique=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    PROPS.append((d, note, na, technique))


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

TECH = "explicit-state model checking of the real code: exhaustive bounded enumeration against a reference model"
NOTE = ("Every state/sequence inside the stated bounds is executed on the code in /repo and compared with an "
        "independent reference model; nothing is claimed outside the bounds.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for d, *_ in PROPS:
            assert len(d["title"]) <= 80, d["title"]
            fp.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, note, reason, tech in PROPS:
        pid = d["id"]
        if os.path.exists(os.path.join(HERE, "checks", f"c_{pid.lower()}.py")) and not reason:
            checks.append({"property": pid, "quick_cmd": f"./check.py {pid} --tier quick",
                           "thorough_cmd": f"./check.py {pid} --tier thorough",
                           "evidence_file": f"evidence/{pid}.json",
                           "technique": tech or TECH, "level": "model_checking", "level_note": note or NOTE})
        else:
            na.append({"property": pid, "reason": reason or "check not built yet"})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: every check drives the public API of a scratch copy of /repo's "
                    "working tree (extensions recompiled whenever their sources differ from the built ones)."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(man, fp, indent=1)
        fp.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not claimed")


main()
