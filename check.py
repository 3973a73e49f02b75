#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--shard NAME] [--list]

Decides one property on /repo's current working tree.  Exit 0: it held on everything explored;
exit 1 with "VIOLATION property=<id> replay=<path>": it does not hold.
"""
import argparse
import atexit
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ["MPLBACKEND"] = "agg"
if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from vlib import build, core  # noqa: E402


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [f for f in data.get("findings", []) if f["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--shard", action="append")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="massmc_", dir=base)
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(cleanup)
    import signal

    def term(signum, frame):
        cleanup()
        os._exit(3)
    signal.signal(signal.SIGTERM, term)

    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["HOME"] = os.path.join(scratch, "home")
    os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
    for d in ("mpl", "home", "tmp"):
        os.makedirs(os.path.join(scratch, d))
    tempfile.tempdir = None

    tree = build.prepare(scratch)
    os.chdir(scratch)
    import warnings
    warnings.simplefilter("ignore")
    module = importlib.import_module("checks.c_" + a.property.lower())
    prop = module.PROPERTY
    known = load_known(prop)
    known_sigs = {f["signature"] for f in known}
    evdir = os.path.join(HERE, "evidence")
    repdir = os.path.join(HERE, "replays")
    os.makedirs(evdir, exist_ok=True)

    violations, merged, done, late = [], None, [], []
    try:
        if getattr(module, "IMPORT", True):
            import logging
            import mass
            import mass.off
            import mass.materials
            logging.getLogger("mass").setLevel(logging.CRITICAL)
            where = os.path.realpath(mass.__file__)
            if not where.startswith(os.path.realpath(tree) + "/"):
                print(f"internal error: mass was imported from {where}", file=sys.stderr)
                return 2
    except Exception as e:
        import traceback
        violations = [{"sig": "import", "message": f"the package cannot be imported: {e!r}\n{traceback.format_exc()[-2000:]}",
                       "detail": {}, "shard": None}]
    shards = []
    if not violations:
        shards = module.shards(a.tier)
        if a.list:
            for name, args in shards:
                print(name, repr(args)[:200])
            return 0
        only = set(a.shard or [])
        if a.replay:
            rep = json.load(open(a.replay))
            a.tier = rep.get("tier", a.tier)
            shards = module.shards(a.tier)
            only = {rep["shard"]}
        if only:
            shards = [s for s in shards if s[0] in only]
        merged, done, late = core.explore_shards(
            module, a.tier, seed, scratch, shards,
            stop_on=lambda name, v: not a.all and v["sig"] not in known_sigs)
        violations = merged["violations"]
    if merged is None:
        merged = {"states": set(), "trans": 0, "traces": 0, "samples": [], "outcomes": {}, "walls": {}}

    fresh = [v for v in violations if v["sig"] not in known_sigs]
    # A violation seen in several shards is one violation
    seen, uniq = set(), []
    for v in fresh:
        if v["sig"] not in seen:
            seen.add(v["sig"])
            uniq.append(v)
    hit = {v["sig"] for v in violations if v["sig"] in known_sigs}

    wall = time.time() - t0
    nsh = len(shards)
    cov = {
        "states": len(merged["states"]),
        "transitions": merged["trans"],
        "traces_validated_against_impl": merged["traces"],
        "samples": merged["samples"][:6],
        "exhaustive": not late and len(done) == nsh and not a.shard,
        "shards": nsh,
        "shards_completed": len(done),
        "distinct_outcomes": dict(sorted(merged["outcomes"].items())[:60]),
        "explanation": getattr(module, "EXPLAIN", "").strip(),
    }
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(module, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(uniq)}
    if not a.replay and not a.shard:
        tmp = os.path.join(evdir, f".{prop}.json.tmp")
        with open(tmp, "w") as fp:
            json.dump(ev, fp, indent=1, default=core._plain)
        os.replace(tmp, os.path.join(evdir, f"{prop}.json"))

    for f in known:
        if f["signature"] in hit:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for i, v in enumerate(uniq):
        os.makedirs(repdir, exist_ok=True)
        path = os.path.join(repdir, f"{prop}-{i}.json") if not a.replay else os.path.abspath(a.replay)
        if not a.replay:
            with open(path, "w") as fp:
                json.dump({"property": prop, "tier": a.tier, "seed": seed, "shard": v.get("shard"),
                           "signature": v["sig"], "message": v["message"], "detail": v["detail"],
                           "how": f"/verif/check.py {prop} --replay {path}"}, fp, indent=1, default=core._plain)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  [{v['sig']}] shard={v.get('shard')}")
        print("  " + v["message"].replace("\n", "\n  ")[:3000])
        if v["detail"]:
            print("  " + json.dumps(v["detail"], default=core._plain)[:2000])
    slow = sorted(merged["walls"].items(), key=lambda kv: -kv[1])[:4]
    print(f"{prop} [{a.tier}] states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} shards={len(done)}/{nsh} violations={len(uniq)} "
          f"known={len(hit)} wall={wall:.1f}s slowest={slow}")
    if uniq:
        return 1
    if late:
        print(f"ran out of time in shards {late}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
