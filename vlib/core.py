"""Exploration engine shared by all checks.

A check module provides
    PROPERTY          the property id
    shards(tier)      a list of (name, args): disjoint parts of the bounded space
    run_shard(c, *args)   explores one part exhaustively, on the real code, reporting to the Ctx `c`
    NOTES             (optional) dict merged into the evidence's coverage / assumptions

Each shard runs in its own forked process, with its own scratch directory, so a crash or a hang of
the code under test is itself observed and reported.
"""
import hashlib
import itertools
import os
import pickle
import resource
import shutil
import signal
import sys
import time
import traceback

CPU_LIMIT_S = int(os.environ.get("VERIF_SHARD_CPU", "600"))
WALL_LIMIT_S = int(os.environ.get("VERIF_WALL", "840"))


class StopShard(Exception):
    pass


class Ctx:
    """What a shard reports: states seen, transitions taken, traces compared, and violations."""

    MAX_VIOLATIONS = 25

    def __init__(self, tier, seed, tmp, shard="", args=None):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.tmp = tmp
        self.shard = shard
        self.args = args
        self.states = set()
        self.ntrans = 0
        self.ntraces = 0
        self.samples = []
        self.violations = []
        self.outcomes = {}
        self._n = 0

    # ---- counting
    def state(self, *key):
        """Record a (canonical) state; True when it had not been seen by this shard."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def trans(self, n=1):
        self.ntrans += n

    def trace(self, n=1):
        self.ntraces += n

    def outcome(self, key):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def newdir(self):
        self._n += 1
        d = os.path.join(self.tmp, f"d{self._n}")
        os.makedirs(d)
        return d

    # ---- reporting
    def violate(self, sig, message, **detail):
        """Report a violation. `sig` identifies what fails (used by the known-findings file)."""
        if any(v["sig"] == sig for v in self.violations):
            return
        self.violations.append({"sig": sig, "message": str(message)[:4000],
                                "detail": {k: _plain(v) for k, v in detail.items()}})
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise StopShard

    def check(self, cond, sig, message="", **detail):
        if not cond:
            self.violate(sig, message() if callable(message) else message, **detail)
        return bool(cond)

    def run(self, sig, fn, *a, **kw):
        """Call the code under test where the property says it must work; an exception violates."""
        try:
            return True, fn(*a, **kw)
        except StopShard:
            raise
        except Exception as e:
            self.violate(sig + ":" + type(e).__name__, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
            return False, None


def _plain(v):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            return v.tolist() if v.size <= 64 else {"shape": list(v.shape), "head": v.ravel()[:32].tolist()}
        if isinstance(v, np.generic):
            return v.item()
    except ImportError:
        pass
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [_plain(x) for x in v]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)[:500]


def _coverage():
    """For development (VERIF_COV=directory): the lines of the package that this shard executes."""
    lines = set()
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, "cov")

    def line(code, no):
        f = code.co_filename
        i = f.find("/src/mass/")
        if i >= 0:
            lines.add((f[i + 5:], no))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)
    return lines


def determinism(seed):
    """Make every run draw the same random numbers (a generator made without seed gets a counted one)."""
    import random
    import numpy as np
    orig = getattr(np.random.default_rng, "_orig", np.random.default_rng)
    count = itertools.count(seed * 1000 + 1)

    def default_rng(seed=None):
        return orig(next(count) if seed is None else seed)
    default_rng._orig = orig
    np.random.default_rng = default_rng
    np.random.seed(seed)
    random.seed(seed)
    for n, m in list(sys.modules.items()):
        if n == "mass" or n.startswith("mass."):
            for v in list(vars(m).values()):
                if isinstance(v, np.random.Generator):
                    v.bit_generator.state = orig(seed).bit_generator.state


def _child(module, tier, seed, name, args, root, outpath):
    tmp = os.path.join(root, "shard")
    os.makedirs(tmp)
    devnull = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        sys.stdout = open(os.devnull, "w")
        sys.stderr = open(os.devnull, "w")
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT_S, CPU_LIMIT_S + 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.chdir(tmp)
    c = Ctx(tier, seed, tmp, name, args)
    determinism(seed)
    t0 = time.time()
    cov = _coverage() if os.environ.get("VERIF_COV") else None
    try:
        module.run_shard(c, *args)
    except StopShard:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1].name if tb else "?"
        c.violations.append({"sig": f"exception:{type(e).__name__}:{where}",
                             "message": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}", "detail": {}})
    if cov is not None:
        with open(os.path.join(os.environ["VERIF_COV"], f"{module.PROPERTY}_{os.getpid()}.pickle"), "wb") as fp:
            pickle.dump(cov, fp)
    res = {"states": c.states, "trans": c.ntrans, "traces": c.ntraces, "samples": c.samples,
           "violations": c.violations, "outcomes": c.outcomes, "wall": time.time() - t0}
    with open(outpath + ".part", "wb") as fp:
        pickle.dump(res, fp)
    os.rename(outpath + ".part", outpath)


def explore_shards(module, tier, seed, scratch, shards, jobs=None, stop_on=lambda name, v: True):
    """Run every shard, `jobs` at a time. Returns (merged, finished_names, timed_out)."""
    jobs = jobs or int(os.environ.get("VERIF_JOBS", 0)) or os.cpu_count() or 4
    t_end = time.time() + (WALL_LIMIT_S if tier == "quick" else 6 * 3600)
    pending = list(enumerate(shards))[::-1]
    running = {}
    merged = {"states": set(), "trans": 0, "traces": 0, "samples": [], "violations": [], "outcomes": {},
              "walls": {}}
    done, stop = [], False
    while running or (pending and not stop):
        while pending and not stop and len(running) < jobs:
            i, (name, args) = pending.pop()
            root = os.path.join(scratch, f"s{i}")
            os.makedirs(root)
            out = os.path.join(root, "result.pkl")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    os.setpgid(0, 0)
                    _child(module, tier, seed, name, args, root, out)
                except BaseException:
                    rc = 97
                finally:
                    os._exit(rc)
            running[pid] = (name, root, out, args)
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > t_end:
                for p in running:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        os.kill(p, signal.SIGKILL)
                return merged, done, [r[0] for r in running.values()]
            time.sleep(0.01)
            continue
        if pid not in running:
            continue
        name, root, out, args = running.pop(pid)
        if os.path.exists(out):
            res = pickle.load(open(out, "rb"))
            merged["states"] |= res["states"]
            merged["trans"] += res["trans"]
            merged["traces"] += res["traces"]
            merged["samples"] += res["samples"]
            merged["walls"][name] = round(res["wall"], 2)
            for k, n in res["outcomes"].items():
                merged["outcomes"][k] = merged["outcomes"].get(k, 0) + n
            vs = res["violations"]
        else:
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            what = (f"did not terminate within {CPU_LIMIT_S} s of processor time" if sig == signal.SIGXCPU
                    else f"crashed (signal {sig}, status {status})")
            vs = [{"sig": f"process:{'hang' if sig == signal.SIGXCPU else 'crash'}:{name}",
                   "message": f"the code under test {what} in shard {name}", "detail": {}}]
        for v in vs:
            v["shard"] = name
            merged["violations"].append(v)
            if stop_on(name, v):
                stop = True
        shutil.rmtree(root, ignore_errors=True)
        done.append(name)
    return merged, done, []


def sequences(alphabet, depth):
    """All operation sequences of length 0..depth, shortest first."""
    for n in range(depth + 1):
        yield from itertools.product(alphabet, repeat=n)


def compositions(n, k):
    """All ways to write n as an ordered sum of k non-negative integers."""
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in compositions(n - i, k - 1):
            yield (i, *rest)


def chunks(seq, n):
    """Split a list in n interleaved parts (all non-empty)."""
    seq = list(seq)
    return [seq[i::n] for i in range(n) if seq[i::n]]
