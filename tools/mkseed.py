#!/opt/venv/bin/python
"""mkseed.py SPEC.py : write /verif/seeded/<id>/ from a spec defining ID, PROPERTY, FILE, OLD, NEW (or EDITS), NEEDS, BREAKS, DEMO
(python source).  Works in the scratch copy /tmp/seedws, checks that the demo passes without and fails with the change, and runs
the tests named in TESTS there."""
import json
import os
import subprocess
import sys
ws = "/tmp/seedws"


def build():
    subprocess.run(f"cd {ws} && /opt/venv/bin/python setup.py -q build_ext --inplace >/tmp/seedbuild.log 2>&1", shell=True)


def failures():
    r = subprocess.run(f"cd {ws} && PYTHONPATH={ws} MPLBACKEND=agg timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -rfE --tb=no tests 2>&1", shell=True, capture_output=True, text=True).stdout
    subprocess.run(f"git -C {ws} clean -qfd tests doc", shell=True)
    if "passed" not in r:
        return ["everything"]
    return sorted(x.split(" - ")[0] for x in r.splitlines() if x.startswith(("FAILED", "ERROR")))


for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = f"/verif/seeded/{g['ID']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(g["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" MPLBACKEND=agg\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(f"git -C {ws} fetch -q /repo HEAD && git -C {ws} reset -q --hard FETCH_HEAD", shell=True, check=True)
    build()

    def demo():
        return subprocess.run([d + "/demo.sh"], cwd=ws, capture_output=True, text=True)
    r0 = demo()
    for f, old, new in g.get("EDITS") or [(g["FILE"], g["OLD"], g["NEW"])]:
        p = f"{ws}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    if any(f.endswith(".pyx") for f, _, _ in g.get("EDITS") or [(g["FILE"], 0, 0)]):
        build()
    diff = subprocess.run(["git", "-C", ws, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    r1 = demo()
    base, fails = "/tmp/seedbase.txt", None
    if g.get("TESTS", "tests"):
        if not os.path.exists(base):
            subprocess.run(f"git -C {ws} stash -q", shell=True, check=True)
            build()
            open(base, "w").write(json.dumps(failures()))
            subprocess.run(f"git -C {ws} stash pop -q", shell=True, check=True)
            build()
        if r0.returncode == 0 and r1.returncode:
            fails = [x for x in failures() if x not in json.load(open(base))]
    caught = None
    if r0.returncode == 0 and r1.returncode:
        out = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", g["PROPERTY"], "--all"], env=dict(os.environ, VERIF_REPO=ws), capture_output=True, text=True).stdout
        caught = [x.split("]")[0].strip(" [") for x in out.splitlines() if x.startswith("  [")]
        rp = "/verif/tools/seed_results.json"
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[g["ID"]] = caught
        json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
    subprocess.run(f"git -C {ws} checkout -q -- .", shell=True)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(("OK  " if ok else "BAD ") + g["ID"], r0.returncode, r1.returncode, (r0.stderr[-500:] if r0.returncode else ""), r1.stderr[-150:].replace("\n", " | "))
    if any(f.endswith(".pyx") for f, _, _ in g.get("EDITS") or [(g["FILE"], 0, 0)]):
        build()
    print("   caught:", caught)
    if fails is not None:
        print("   newly failing tests:", fails, flush=True)
