"""P02: every sequence of LJH editing operations (up to a depth) vs a list-of-records model."""
import itertools
import os

import numpy as np

from vlib.core import chunks
from vlib.ljh import Spec, pattern

PROPERTY = "P02"
EXPLAIN = """States are the contents of the working file (records, record length, trigger position) after a history
of copy/append/truncate/modify/tear operations; every history up to the depth runs on real files, and after every
operation all files are read back and compared byte-for-byte / record-for-record with a list model.
File names that are the same file, sample callbacks over all 16-bit values, and the merge and truncate scripts (in all orders
of files and with all limits) are explored likewise."""
ASSUMPTIONS = ["record times do not decrease within a source file", "sample callbacks return whole numbers in the 16-bit range"]

SRC = {
    "new": dict(version="2.2.0", client="DASTARD 0.2", nsamp=3, npre=1, timebase="1.234567e-05"),
    "mat": dict(version="2.2.1", client="MATTER", nsamp=3, npre=0, timebase="9.600000e-06", rows=4, row=2, cols=2, col=1, newline="\r\n"),
    "old": dict(version="2.1.0", client="MATTER", nsamp=3, npre=0, timebase="1.000000e-05"),
    "oldd": dict(version="2.1.0", client="DASTARD", nsamp=2, npre=1, timebase="2.000000e-05"),
    "long": dict(version="2.2.0", client="DASTARD 0.2", nsamp=5, npre=2, timebase="7.680000e-06", source="Abaco",
                 extra=("Pixel Name: ", "no colon here", "Dummy: 0", "Dummy: 1")),
}
TIMES22 = [(100, 1510871067000000), (164, 1510871067000640), (164, 1510871067000640), (2**40, 1510871068891482)]
TIMES21 = [(0, 10), (50, 10), (0, 2000), (200, 4294960)]


def make(kind):
    kw = SRC[kind]
    s = Spec(**kw)
    t = TIMES21 if s.old else TIMES22
    p = pattern(s.nsamp, 4, salt=len(kind))
    s.records = [(t[i][0], t[i][1], p[i]) for i in range(4)]
    return s


def modelof(s):
    """(version-is-old, nsamp, npre, dt, records=[(sub, usec, samples)])"""
    n = len(s.records)
    sub = s.subframes(n)
    usec = [round(t * 1e6) for t in s.times(n)] if s.old else s.usec(n)
    return dict(old=s.old, nsamp=s.nsamp, npre=s.true_npre, dt=s.dt,
                recs=[(sub[i], usec[i], tuple(s.records[i][2])) for i in range(n)])


def compare(c, mass, path, m, what, hist):
    f = mass.LJHFile.open(path)
    ok = c.check(f.nPulses == len(m["recs"]), f"{what}:count", f"{f.nPulses} records, expected {len(m['recs'])}", history=hist)
    c.check(f.nSamples == m["nsamp"], f"{what}:length", f"{f.nSamples}", history=hist)
    c.check(f.nPresamples == m["npre"], f"{what}:presamples", f"{f.nPresamples} presamples, expected {m['npre']}", history=hist)
    c.check(abs(f.timebase - m["dt"]) <= 1e-9 * m["dt"], f"{what}:timebase", f"{f.timebase} vs {m['dt']}", history=hist)
    if not ok:
        return
    n = len(m["recs"])
    want = np.array([r[2] for r in m["recs"]], dtype=np.uint16).reshape(n, m["nsamp"])
    c.check(np.array_equal(f.alldata, want), f"{what}:samples", lambda: f"{f.alldata.tolist()} want {want.tolist()}", history=hist)
    c.check([int(x) for x in f.subframecount] == [r[0] for r in m["recs"]], f"{what}:subframes",
            lambda: f"{list(f.subframecount)} want {[r[0] for r in m['recs']]}", history=hist)
    c.check([int(x) for x in f.datatimes_raw] == [r[1] for r in m["recs"]], f"{what}:times",
            lambda: f"{list(f.datatimes_raw)} want {[r[1] for r in m['recs']]}", history=hist)


SHAPES = {
    "list": list, "tuple": tuple, "array": lambda x: np.array(x, dtype=int), "range": lambda x: range(x[0], x[-1] + 1) if len(x) and list(x) == list(range(x[0], x[-1] + 1)) else list(x),
}


def callbacks(mass):
    lm = mass.core.ljh_modify
    return {
        "same": (lm.dummy_callback, lambda v: v),
        "invert": (lm.callback_invert, lambda v: 65535 - v),
        "reverse": (lambda r: r[::-1], None),
        "third": (lambda r: r // 3, lambda v: v // 3),
        "float": (lambda r: 100.0 + np.floor(r / 4.0), lambda v: 100 + v // 4),
    }


def ops_for(kinds, thorough):
    """The alphabet of operations on the working file W."""
    out = []
    for k in kinds:
        for sel, shape in (((0, 1, 2, 3), "list"), ((3, 1), "array"), ((2, 2), "tuple"), ((), "list"), ((1, 2), "range")):
            out.append(("copy", k, sel, shape))
        out.append(("append", k, None, "list"))
        out.append(("append", k, (2, 0), "array"))
    out += [("truncate-n", n) for n in (0, 1, 3, 9)]
    out += [("truncate-t", j) for j in ("before", "first", "mid", "last", "after")]
    out += [("modify", cb) for cb in ("invert", "reverse", "float")]
    out += [("self-copy", (1, 0)), ("copy-noover",), ("copy-onto-self",), ("tear", 1), ("tear", 7), ("garbage", 3)]
    return out


def shards(tier):
    out = []
    deep = 3 if tier == "thorough" else 2
    # From a working file of each kind
    for start in SRC:
        for kinds in (("new", "old"), ("mat", "long"), ("oldd", "long")):
            if tier != "thorough" and start in {"oldd", "mat"} and kinds[0] != "new":
                continue
            alpha = ops_for(kinds, tier == "thorough")
            dd = max(deep, 3 if (start, kinds[1]) == ("new", "old") else 2)
            for i, first in enumerate(chunks(alpha, 8 if dd == 3 else 1)):
                out.append((f"{start}-{'+'.join(kinds)}-{i}", ("hist", start, kinds, first, alpha, dd)))
    # longer histories through files without a complete record, and torn ones
    for start in ("new", "long"):
        kinds = ("new", "mat") if start == "new" else ("long", "old")
        alpha = ops_for(kinds, tier == "thorough")
        firsts = [[("truncate-n", n), t] for n in (0, 1) for t in (("garbage", 3), ("garbage", 17))] + [[("truncate-n", 1), ("tear", n)] for n in (1, 7)]
        firsts += [[("copy", kinds[0], (), "list"), ("garbage", 9)]]
        for i, f in enumerate(firsts):
            out.append((f"torn-{start}-{i}", ("hist", start, kinds, [f], alpha, 3 if tier == "thorough" else 2)))
    for kind in SRC:
        out.append((f"subsets-{kind}", ("subsets", kind, tier == "thorough")))
    return out + [("alias", ("alias",)), ("values", ("values", tier == "thorough"))] + [(f"scripts{i}", ("scripts", i)) for i in range(2)]


class World:
    """Real files in a directory plus the model of each."""

    def __init__(self, c, mass, d, start, kinds):
        self.c, self.mass, self.d = c, mass, d
        self.model, self.paths, self.bytes = {}, {}, {}
        self.ctr = 0
        for k in set(kinds) | {start}:
            s = make(k)
            p = os.path.join(d, f"src{k}_chan7.ljh")
            s.write(p)
            self.paths[k], self.model[k] = p, modelof(s)
            self.bytes[k] = open(p, "rb").read()
        self.w = os.path.join(d, "w0_chan7.ljh")
        with open(self.w, "wb") as fp:
            fp.write(self.bytes[start])
        self.m = {**self.model[start], "recs": list(self.model[start]["recs"])}
        self.torn = 0

    def newpath(self):
        self.ctr += 1
        return os.path.join(self.d, f"w{self.ctr}_chan7.ljh")

    def apply(self, op, hist):
        """Apply one operation to the real files and to the model; returns False when it must be refused."""
        c, mass = self.c, self.mass
        lm = mass.core.ljh_modify
        name = op[0]
        wbytes = open(self.w, "rb").read()
        if name == "copy":
            _, k, sel, shape = op
            src = self.model[k]
            ow = len(hist) % 2 == 0
            if ow:
                dest = self.w
                lm.ljh_copy_traces(self.paths[k], dest, SHAPES[shape](sel), overwrite=True)
            else:
                dest = self.newpath()
                lm.ljh_copy_traces(self.paths[k], dest, SHAPES[shape](sel))
            self.w = dest
            self.m = {**src, "old": False, "recs": [src["recs"][i] for i in sel]}
            self.torn = 0
        elif name == "append":
            _, k, sel, shape = op
            src = self.model[k]
            legal = not self.m["old"] and src["nsamp"] == self.m["nsamp"] and src["npre"] == self.m["npre"]
            if not legal:
                # Appending records of another shape cannot preserve them: it must be refused, changing nothing.
                try:
                    lm.ljh_append_traces(self.paths[k], self.w, None if sel is None else SHAPES[shape](sel))
                except Exception:
                    pass
                else:
                    if self.m["old"] or src["nsamp"] != self.m["nsamp"]:
                        c.violate("append:mismatch-accepted", f"records of {k} appended to an incompatible file", history=hist)
                        return False
                    f = mass.LJHFile.open(self.w)
                    if f.nPresamples != src["npre"]:
                        c.violate("append:presamples-accepted", f"records of {k} appended to a file with another trigger position", history=hist)
                        return False
                c.check(open(self.w, "rb").read() == wbytes, "append:refused-but-changed", "", history=hist)
            else:
                lm.ljh_append_traces(self.paths[k], self.w, None if sel is None else SHAPES[shape](sel))
                self.m["recs"] = self.m["recs"] + [src["recs"][i] for i in (range(len(src["recs"])) if sel is None else sel)]
                self.torn = 0
        elif name in {"truncate-n", "truncate-t"}:
            dest = self.newpath()
            kw = {}
            n = len(self.m["recs"])
            ts = [r[1] / 1e6 for r in self.m["recs"]]
            if name == "truncate-n":
                kw["n_pulses"] = op[1]
                keep = self.m["recs"][:op[1]]
            else:
                j = op[1]
                if not ts or any(b < a for a, b in zip(ts, ts[1:])):
                    return True
                t = {"before": ts[0] - 1.0, "first": ts[0], "mid": 0.5 * (ts[0] + ts[-1]), "last": ts[-1], "after": ts[-1] + 100}[j]
                kw["timestamp"] = t
                keep = [r for r, x in zip(self.m["recs"], ts) if x <= t]
            if self.m["old"]:
                try:
                    lm.ljh_truncate(self.w, dest, **kw)
                except Exception:
                    pass
                else:
                    compare(c, mass, dest, {**self.m, "recs": keep}, "truncate-old", hist)
                c.check(open(self.w, "rb").read() == wbytes, "truncate:source-changed", "", history=hist)
                return True
            seg = None if n % 2 else 40
            lm.ljh_truncate(self.w, dest, segmentsize=seg, **kw)
            hs = len(wbytes) - self.torn - n * (16 + 2 * self.m["nsamp"])
            newb = open(dest, "rb").read()
            c.check(open(self.w, "rb").read() == wbytes, "truncate:source-changed", "", history=hist)
            c.check(newb[:hs] == wbytes[:hs] or header_equal(newb, wbytes), "truncate:header", "the header changed", history=hist)
            self.w, self.m = dest, {**self.m, "recs": keep}
            self.torn = 0
        elif name == "modify":
            dest = self.newpath()
            f, g = callbacks(mass)[op[1]]
            lm.LJHModify(self.w, dest, f)
            try:
                lm.LJHModify(self.w, dest, f)
                c.violate("modify:overwrote", "LJHModify overwrote an existing file unasked", history=hist)
            except ValueError:
                pass
            try:
                lm.LJHModify(self.w, self.w, f, overwrite=True)
                c.violate("modify:same-file", "LJHModify accepted one file as input and output", history=hist)
            except ValueError:
                pass
            c.check(open(self.w, "rb").read() == wbytes, "modify:source-changed", "", history=hist)
            new = []
            for s, u, d in self.m["recs"]:
                d = tuple(g(x) for x in d) if g else tuple(reversed(d))
                new.append((s, u, d))
            if len(hist) % 2:
                lm.LJHModify(self.w, dest, f, overwrite=True)
            self.w, self.m = dest, {**self.m, "recs": new}
            self.torn = 0
        elif name == "self-copy":
            dest = self.newpath()
            sel = [i for i in op[1] if i < len(self.m["recs"])]
            lm.ljh_copy_traces(self.w, dest, sel)
            c.check(open(self.w, "rb").read() == wbytes, "copy:source-changed", "", history=hist)
            self.w = dest
            self.m = {**self.m, "old": False, "recs": [self.m["recs"][i] for i in sel]}
            self.torn = 0
        elif name == "copy-noover":
            for k in self.paths:
                try:
                    lm.ljh_copy_traces(self.paths[k], self.w, [0])
                    c.violate("copy:overwrote", "ljh_copy_traces overwrote an existing file unasked", history=hist)
                except Exception:
                    pass
            c.check(open(self.w, "rb").read() == wbytes, "copy:refused-but-changed", "", history=hist)
        elif name == "copy-onto-self":
            # Either refused, or done right: the chosen record must not be lost.
            n = len(self.m["recs"])
            try:
                lm.ljh_copy_traces(self.w, self.w, list(range(n)), overwrite=True)
            except Exception:
                c.check(open(self.w, "rb").read() == wbytes, "copy:self-refused-but-changed", "", history=hist)
            else:
                self.m = {**self.m, "old": False}
                self.torn = 0
            try:
                lm.ljh_truncate(self.w, self.w, n_pulses=0)
                c.violate("truncate:same-file", "ljh_truncate accepted one file as input and output", history=hist)
            except Exception:
                pass
            compare(c, mass, self.w, self.m, "copy-onto-self", hist)
        elif name == "tear":
            # The writer died: the last `op[1]` bytes are missing.
            rec = (6 if self.m["old"] else 16) + 2 * self.m["nsamp"]
            if self.torn == 0 and self.m["recs"] and op[1] < rec:
                with open(self.w, "r+b") as fp:
                    fp.truncate(len(wbytes) - op[1])
                self.m = {**self.m, "recs": self.m["recs"][:-1]}
                self.torn = rec - op[1]
        elif name == "garbage":
            if self.torn == 0:
                with open(self.w, "ab") as fp:
                    fp.write(b"\x5a" * op[1])
                self.torn = op[1]
        for k, p in self.paths.items():
            c.check(open(p, "rb").read() == self.bytes[k], f"{name}:source-changed", f"source {k} changed", history=hist)
        compare(c, mass, self.w, self.m, name, hist)
        return True


def header_equal(a, b):
    """Same keys and values up to '#End of Header'."""
    def parse(x):
        h = x.split(b"#End of Header")[0].splitlines()
        return [ln.strip() for ln in h if b":" in ln]
    return parse(a) == parse(b)


def alias(c, mass):
    """Every kind of thing that may already be where the output should go."""
    lm = mass.core.ljh_modify
    ops = {"copy": lambda a, b, ow: lm.ljh_copy_traces(a, b, [2, 0], overwrite=ow), "modify": lambda a, b, ow: lm.LJHModify(a, b, lm.callback_invert, overwrite=ow),
           "truncate": lambda a, b, ow: lm.ljh_truncate(a, b, n_pulses=2)}
    for kind, op, what, ow in itertools.product(("new", "mat"), ops, ("same", "symlink", "hardlink", "relative", "dotted", "symlink-other", "empty", "other", "dir"), (False, True)):
        d = c.newdir()
        s = make(kind)
        m = modelof(s)
        src = s.write(os.path.join(d, "a_chan7.ljh"))
        dest = os.path.join(d, "b_chan7.ljh")
        third = make("long").write(os.path.join(d, "c_chan7.ljh"))
        if what == "same":
            dest = src
        elif what == "symlink":
            os.symlink(src, dest)
        elif what == "symlink-other":
            os.symlink(third, dest)
        elif what == "hardlink":
            os.link(src, dest)
        elif what == "relative":
            dest = os.path.relpath(src)
        elif what == "dotted":
            dest = os.path.join(d, ".", "a_chan7.ljh")
        elif what == "empty":
            open(dest, "wb").close()
        elif what == "other":
            make("long").write(dest)
        else:
            os.mkdir(dest)
        before = {x: open(x, "rb").read() for x in (src, third)}
        there = None if what == "dir" else open(dest, "rb").read()
        own = what in {"same", "symlink", "hardlink", "relative", "dotted"}
        dd = dict(kind=kind, operation=op, there=what, overwrite=ow)
        c.state(kind, op, what, ow)
        c.trans()
        try:
            ops[op](src, dest, ow)
            done = True
        except Exception:
            done = False
        c.check(open(src, "rb").read() == before[src], f"alias-{op}-source", "the source file changed", **dd)
        if own or what == "dir" or (op != "truncate" and not ow):
            c.check(not done, f"alias-{op}-accepted", "the operation was not refused", **dd)
            if there is not None:
                c.check(open(dest, "rb").read() == there, f"alias-{op}-changed", "a refused operation changed the file", **dd)
        elif c.check(done, f"alias-{op}-refused", "the operation was refused", **dd):
            recs = m["recs"]
            recs = [recs[2], recs[0]] if op == "copy" else recs[:2] if op == "truncate" else [(a, b, tuple(65535 - x for x in y)) for a, b, y in recs]
            compare(c, mass, dest, {**m, "recs": recs}, f"alias-{op}", dd)
        c.outcome(f"{op}-{done}")
    c.sample(dd)


def values(c, mass, thorough):
    """Times and counts with many digits must be copied exactly by every operation."""
    lm = mass.core.ljh_modify
    n = 4000 if thorough else 1200
    subs = [0, 1, 2**31, 2**32 + 1, 2**53 + 1, 2**62 + 12345, 2**48 + 3, 999999999999999]
    for client in ("DASTARD 0.2", "MATTER"):
        s = Spec(version="2.2.0", client=client, nsamp=3, npre=0, timebase="1.0e-05")
        s.records = [(subs[i % 8] + 8 * (i // 8), 1510871067000001 + i * 1013 + (i // 100) * 10**9, [i % 65536, 65535 - i, (7919 * i) % 65536]) for i in range(n)]
        m = modelof(s)
        d = c.newdir()
        src = s.write(os.path.join(d, "a_chan7.ljh"))
        b = os.path.join(d, "b_chan7.ljh")
        c.state(client)
        for op, f, keep in (("copy", lambda: lm.ljh_copy_traces(src, b, range(n), overwrite=True), range(n)),
                            ("append", lambda: lm.ljh_append_traces(src, b, range(n - 1, -1, -3)), [*range(n), *range(n - 1, -1, -3)]),
                            ("truncate", lambda: lm.ljh_truncate(src, os.path.join(d, "t_chan7.ljh"), n_pulses=n - 5), range(n - 5)),
                            ("modify", lambda: lm.LJHModify(src, os.path.join(d, "m_chan7.ljh"), lm.dummy_callback), range(n))):
            c.trans(len(keep))
            if c.run(f"values-{op}", f)[0]:
                compare(c, mass, {"truncate": os.path.join(d, "t_chan7.ljh"), "modify": os.path.join(d, "m_chan7.ljh")}.get(op, b), {**m, "recs": [m["recs"][i] for i in keep]}, f"values-{op}", [client, op])
        # the time limit is compared exactly with the times of records
        ts = [r[1] / 1e6 for r in m["recs"]]
        for i in range(0, n, 97):
            for t in (ts[i], ts[i] - 4e-4, ts[i] + 4e-4):
                out = os.path.join(d, "tt_chan7.ljh")
                lm.ljh_truncate(src, out, timestamp=t)
                c.trans()
                compare(c, mass, out, {**m, "recs": [r for r, x in zip(m["recs"], ts) if x <= t]}, "values-time", [client, i, t])
    # times of the old format, in steps of 4 microseconds
    s = Spec(version="2.1.0", client="MATTER", nsamp=2, npre=0, timebase="1.0e-05")
    s.records = [(4 * (i % 250) // 4, (i * 40031) % 4294967, [i % 65536, 7]) for i in range(n)]
    src = s.write(os.path.join(d, "old_chan7.ljh"))
    lm.ljh_copy_traces(src, os.path.join(d, "oldb_chan7.ljh"), range(n))
    compare(c, mass, os.path.join(d, "oldb_chan7.ljh"), {**modelof(s), "old": False}, "values-old", ["old", n])
    c.state("old")
    c.sample([client, n])


def script(name, *args):
    """Run one of the command-line programs; returns True unless it failed."""
    import contextlib
    import importlib.machinery
    import importlib.util
    import io
    import sys
    import mass
    path = os.path.join(os.path.dirname(os.path.dirname(mass.__file__)), "bin", name)
    loader = importlib.machinery.SourceFileLoader("script_" + name, path)
    mod = importlib.util.module_from_spec(importlib.util.spec_from_loader("script_" + name, loader))
    loader.exec_module(mod)
    old = sys.argv
    sys.argv = [name, *args]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            mod.main()
        return True
    except (Exception, SystemExit):
        return False
    finally:
        sys.argv = old


def scripts(c, mass, part):
    """The command-line programs: merging every ordered choice of files, truncating every group of channels."""
    kinds = ("new", "new2", "mat", "mat2", "old", "long")
    if part == 0:
        for n in (1, 2, 3):
            for pick in itertools.product(kinds, repeat=n):
                if n == 3 and (pick[0] != "new" and not c.thorough):
                    continue
                for extra, byglob in itertools.product(("", "exists", "force", "outdir", "dry", "chan"), (False, True)):
                    if n == 3 and extra not in {"", "force"}:
                        continue
                    d = c.newdir()
                    ms, names = [], []
                    for i, k in enumerate(pick):
                        s = make(k.rstrip("2"))
                        if k.endswith("2"):
                            s.records = s.records[1:3]
                        ms.append(modelof(s))
                        ch = 8 if extra == "chan" and i == n - 1 and n > 1 else 7
                        names.append(s.write(os.path.join(d, f"r{i}_{k}_chan{ch}.ljh")))
                    outd = d
                    args = []
                    if extra == "outdir":
                        outd = os.path.join(d, "o")
                        os.mkdir(outd)
                        args = ["-d", outd]
                    out = os.path.join(outd, "merged_chan7.ljh")
                    if extra in {"exists", "force"}:
                        make("long").write(out)
                        args = ["-F"] if extra == "force" else []
                    if extra == "dry":
                        args = ["-n"]
                    before = open(out, "rb").read() if os.path.exists(out) else None
                    src = [open(x, "rb").read() for x in names]
                    dd = dict(files=pick, case=extra, byglob=byglob)
                    c.state(pick, extra, byglob)
                    c.trans()
                    ok = script("ljh_merge", *args, *([os.path.join(d, "r*_chan*.ljh")] if byglob else names))
                    order = list(range(n))
                    if byglob:
                        # sorted by channel number, then by name
                        order = sorted(range(n), key=lambda i: (names[i].endswith("chan8.ljh"), names[i]))
                    mm = [ms[i] for i in order]
                    legal = extra != "exists" and all(x["nsamp"] == mm[0]["nsamp"] and x["npre"] == mm[0]["npre"] for x in mm) and (n == 1 or not mm[0]["old"]) and not (extra == "chan" and n > 1)
                    c.check([open(x, "rb").read() for x in names] == src, "merge-sources", "merging changed a source", **dd)
                    if extra == "dry":
                        c.check(ok and not os.path.exists(out), "merge-dry", "a dry run wrote a file or failed", **dd)
                    elif extra == "exists":
                        c.check(not ok and open(out, "rb").read() == before, "merge-overwrote", "an existing file was overwritten without being asked to", **dd)
                    elif legal:
                        if c.check(ok, "merge-failed", "files that fit together were not merged", **dd):
                            compare(c, mass, out, {**mm[0], "recs": [r for x in mm for r in x["recs"]]}, "merge", dd)
                    else:
                        c.check(not ok, "merge-accepted", "files that do not fit together were merged without complaint", **dd)
                    c.outcome(f"merge-{ok}")
        c.sample(dd)
        return
    for chans in ((7,), (1, 7), (2, 10, 33)):
        for kind, how in itertools.product(("new", "mat", "old"), [("n", k) for k in range(6)] + [("t", k) for k in range(5)] + [("both", 1), ("none", 1)]):
            d = c.newdir()
            s = make(kind)
            m = modelof(s)
            names = [s.write(os.path.join(d, f"20200101_run_chan{ch}.ljh")) for ch in chans]
            other = s.write(os.path.join(d, "20200102_run_chan1.ljh"))
            ts = [r[1] / 1e6 for r in m["recs"]]
            t = ([ts[0] - 1] + ts)[how[1]] if how[0] == "t" else None
            args = ["--npulses", str(how[1])] if how[0] == "n" else ["--timestamp", repr(t)] if how[0] == "t" else ["--npulses", "1", "--timestamp", "1"] if how[0] == "both" else []
            dd = dict(kind=kind, channels=chans, args=args)
            c.state(chans, kind, how)
            c.trans()
            ok = script("ljh_truncate", os.path.join(d, "20200101_run"), "cut", *args)
            made = sorted(x for x in os.listdir(d) if "_cut_" in x)
            c.check(len(os.listdir(d)) == len(chans) + 1 + len(made), "truncate-files", lambda: f"unexpected files {os.listdir(d)}", **dd)
            if how[0] in {"both", "none"} or kind == "old":
                c.check(not ok and not made, "truncate-accepted", lambda: f"not refused, wrote {made}", **dd)
                continue
            if c.check(ok and made == sorted(f"20200101_run_cut_chan{ch}.ljh" for ch in chans), "truncate-made", lambda: f"wrote {made}, success {ok}", **dd):
                keep = m["recs"][:how[1]] if how[0] == "n" else [r for r, x in zip(m["recs"], ts) if x <= t]
                for x in made:
                    compare(c, mass, os.path.join(d, x), {**m, "recs": keep}, "truncate-script", dd)
            c.check(all(open(x, "rb").read() == open(other, "rb").read() for x in names), "truncate-sources", "a source changed", **dd)
    c.sample(dd)


def run_shard(c, kind, *arg):
    import mass
    import mass.core.ljh_modify  # noqa: F401
    if kind in {"alias", "values", "scripts"}:
        {"alias": alias, "values": values, "scripts": scripts}[kind](c, mass, *arg)
    elif kind == "hist":
        start, kinds, first, alpha, deep = arg
        for op0 in first:
            for rest in itertools.product(alpha, repeat=deep - 1):
                ops = (*(op0 if isinstance(op0, list) else [op0]), *rest)
                d = c.newdir()
                w = World(c, mass, d, start, kinds)
                hist = [start]
                for op in ops:
                    hist = [*hist, op]
                    c.trans()
                    ok, go = c.run(f"exception:{op[0]}", w.apply, op, hist)
                    if not ok or not go:
                        break
                    c.state(kinds, w.m, w.torn)
                c.trace()
                c.outcome(("records", len(w.m["recs"])))
                c.sample(ops, 2)
                for fn in os.listdir(d):
                    os.unlink(os.path.join(d, fn))
                os.rmdir(d)
    else:
        sk, thorough = arg
        lm = mass.core.ljh_modify
        s = make(sk)
        m = modelof(s)
        d = c.newdir()
        src = s.write(os.path.join(d, "a_chan7.ljh"))
        dest = os.path.join(d, "b_chan8.ljh")
        n = len(m["recs"])
        # every ordered selection, in every container, into a fresh or an existing file, then appended again
        for k in range(0, 4):
            for sel in itertools.product(range(n), repeat=k):
                for shape in SHAPES if k < 3 else ("list",):
                    c.trans()
                    lm.ljh_copy_traces(src, dest, SHAPES[shape](sel), overwrite=True)
                    hist = ["copy", sk, sel, shape]
                    mm = {**m, "recs": [m["recs"][i] for i in sel]}
                    compare(c, mass, dest, mm, "copy", hist)
                    if k < 3:
                        lm.ljh_append_traces(src, dest, SHAPES[shape](sel[::-1]))
                        mm = {**m, "recs": mm["recs"] + [m["recs"][i] for i in sel[::-1]]}
                        compare(c, mass, dest, mm, "append", [*hist, "append reversed"])
                    c.state("sel", sk, sel, shape)
                    c.trace()
        for cb in callbacks(mass):
            f, g = callbacks(mass)[cb]
            out = os.path.join(d, f"m{cb}_chan7.ljh")
            lm.LJHModify(src, out, f)
            a, b = open(src, "rb").read(), open(out, "rb").read()
            c.check(len(a) == len(b), "modify:size", f"{len(a)} vs {len(b)}", callback=cb)
            hs = len(s.header())
            c.check(a[:hs] == b[:hs], "modify:header", "the header changed", callback=cb)
            recs = []
            for (x, y, dd) in m["recs"]:
                recs.append((x, y, tuple(g(v) for v in dd) if g else tuple(reversed(dd))))
            compare(c, mass, out, {**m, "recs": recs}, "modify", [sk, cb])
            # timing bytes unchanged
            th = 6 if s.old else 16
            for i in range(n):
                o = hs + i * s.recsize
                c.check(a[o:o + th] == b[o:o + th], "modify:timing", f"record {i}", callback=cb)
            c.trans()
            c.trace()
            c.state("modify", sk, cb)
