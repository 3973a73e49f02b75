"""P06: experiment states. All histories of appends and refreshes; all splits of the incremental API; LJH groups."""
import gc
import itertools
import os

import numpy as np

from vlib.core import chunks
from vlib.ljh import Spec, pattern
from vlib.offs import OffSpec

PROPERTY = "P06"
EXPLAIN = """A state is (state-file bytes, records on disk, what has been read so far); transitions are: append a state line (whole, torn
in two, or late, i.e. with a time before records already written), append a record to each file, refresh, query, mark a channel bad or
good.  Every sequence up to the depth runs on real OFF and state files through ChannelGroup; the reference assigns each record the
latest state that began at or before it.  The incremental calcStatesDict API is run over every split of every merged sequence of
labels and records; LJH groups over every placement of state starts among the records."""
ASSUMPTIONS = ["state times are in increasing (or equal) order in the state file, and record times in their file",
               "an unfinished last line of the state file may be read tentatively or not at all"]

T0 = 1_500_000_000_000_000_000
SPECIAL = ["START", "STOP", "END", "IGNORE"]


def model(labels, times, excludes, aliases=None):
    """labels: [(time, label)]. Returns (names in order, [state of each record or None])."""
    aliases = aliases or {}
    names = [b for _, b in labels]
    if excludes == "auto":
        ex = SPECIAL if set(names) - set(SPECIAL) else ["IGNORE"]
    else:
        ex = excludes
    order = []
    for n in names:
        if n not in ex:
            a = aliases.get(n, n)
            if a not in order:
                order.append(a)
    out = []
    for t in times:
        cur = None
        for lt, n in labels:
            if lt <= t:
                cur = n
        out.append(None if cur is None or cur in ex else aliases.get(cur, cur))
    return order, out


def shards(tier):
    th = tier == "thorough"
    out = []
    alpha = ["A", "B", "I", "R", "F", "T"]
    depth = 6 if th else 5
    for k, first in enumerate(itertools.product(alpha, repeat=1)):
        for ex in ("auto", "excB", "alias"):
            out.append((f"hist-{ex}-{''.join(first)}", ("hist", ex, first, alpha, depth)))
    alpha2 = ["A", "L", "S", "R", "F", "Q", "M"]
    for first in alpha2:
        out.append((f"hist2-{first}", ("hist", "auto2", (first,), alpha2, 6 if th else 5)))
    for first in "ABIS":
        out.append((f"incr-{first}", ("incr", first, 7 if th else 6)))
    for a, b in itertools.product("ABIS", repeat=2):
        out.append((f"ljh-{a}{b}", ("ljh", a, b, 4 if th else 3)))
    out.append(("reopen", ("reopen",)))
    return out


def run_shard(c, kind, *args):
    gc.freeze()
    globals()["do_" + kind](c, *args)


NAMES = {"A": "A", "B": "B", "I": "IGNORE", "S": "START"}


class World:
    def __init__(self, c, d, excl):
        self.c, self.d, self.excl = c, d, excl
        self.spec = OffSpec(nbasis=3, nsamp=2)
        self.tick = 0
        self.base = os.path.join(d, "20180101_run0001")
        self.state_path = self.base + "_experiment_state.txt"
        self.lines = b"# unixnano, state label\n"
        self.complete = []       # complete labels on disk
        self.torn = None         # (label written so far) when the last line is unfinished
        self.recs = []
        open(self.state_path, "wb").write(self.lines)
        self.chans = [1, 3]
        for ch in self.chans:
            self.spec.write(f"{self.base}_chan{ch}.off")
        self.add_label("S" if excl != "excB" else "B")
        self.add_rec()
        self.excludes = {"auto": "auto", "auto2": "auto", "excB": ["B", "IGNORE"], "alias": "auto"}[excl]
        self.aliases = {"A": "Z", "B": "Z"} if excl == "alias" else {}
        self.bad3 = False
        self.seen_recs = {ch: 1 for ch in self.chans}

    def open(self):
        import mass
        g = mass.off.ChannelGroup([f"{self.base}_chan{ch}.off" for ch in self.chans], verbose=False, excludeStates=self.excludes)
        if self.excl == "alias":
            g.experimentStateFile.aliasState(["A", "B"], "Z")
        return g

    def now(self):
        self.tick += 1
        return T0 + self.tick     # consecutive nanoseconds: nothing may be rounded

    def append_state(self, b):
        with open(self.state_path, "ab") as f:
            f.write(b)

    def add_label(self, k, late=False):
        t = self.now()
        if late:
            t = max(T0 + self.tick - 3, self.complete[-1][0])
        if self.torn is not None:
            self.finish()
        self.append_state(f"{t}, {NAMES[k]}\n".encode())
        self.complete.append((t, NAMES[k]))

    def tear(self):
        """first call: half a line (cut within the label); second call: the rest"""
        if self.torn is not None:
            self.finish()
            return
        t = self.now()
        self.append_state(f"{t}, C".encode())
        self.torn = (t, "C")

    def finish(self):
        self.append_state(b"D\n")
        self.complete.append((self.torn[0], "CD"))
        self.torn = None

    def add_rec(self):
        i = len(self.recs)
        t = self.now()
        self.recs.append(t)
        for ch in self.chans:
            with open(f"{self.base}_chan{ch}.off", "ab") as f:
                f.write(self.spec.pack(self.spec.rec(i, unixnano=t)))


def observe(g, ch, names):
    ds = g[ch]
    out = {}
    for n in names:
        try:
            out[n] = [int(x) - 1000 for x in ds.getAttr("framecount", n, "cutNone")]
        except KeyError:
            out[n] = "absent"
    return out


def compare(c, w, g, parsed, nrec, hist, where):
    """parsed: list of alternative label lists (more than one only when the last line is unfinished)"""
    allnames = ["A", "B", "Z", "C", "CD", "IGNORE", "START"]
    for ch in w.chans:
        if ch == 3 and w.bad3:
            continue
        obs = observe(g, ch, allnames)
        ok, wants = False, []
        for labels in parsed:
            order, st = model(labels, w.recs[:nrec[ch]], w.excludes, w.aliases)
            want = {n: ([i for i, s in enumerate(st) if s == n] if n in order else "absent") for n in allnames}
            wants.append(want)
            same = all(obs[n] == want[n] or (want[n] == "absent" and obs[n] == []) for n in allnames)
            ok = ok or (same and list(g.stateLabels) == order)
        c.check(ok, f"states-{where}", f"after {hist}: channel {ch} states {obs} labels {list(g.stateLabels)}, want {wants}",
                history=hist, excludes=w.excludes, aliases=w.aliases)


def do_hist(c, excl, first, alpha, depth):
    for rest in itertools.product(alpha, repeat=depth - len(first)):
        seq = first + rest
        if "A" not in seq and "B" not in seq and "T" not in seq:
            continue
        if any(a == b == "F" for a, b in zip(seq, seq[1:])):
            continue
        one(c, excl, seq)


def one(c, excl, seq):
    d = c.newdir()
    w = World(c, d, excl)
    g = w.open()
    alts = [list(w.complete)]
    nrec = dict.fromkeys(w.chans, 1)
    hist = excl + ":" + "".join(seq)
    for k, op in enumerate(list(seq) + ["F"]):
        c.trans()
        if op in "ABIS":
            w.add_label(op)
        elif op == "L":
            w.add_label("A", late=True)
        elif op == "T":
            w.tear()
        elif op == "R":
            w.add_rec()
        elif op == "M":
            if w.bad3:
                with g.includeBad():
                    g[3].markGood()
                w.bad3 = False
            else:
                g[3].markBad("x")
                w.bad3 = True
        elif op == "Q":
            compare(c, w, g, alts, nrec, hist[:len(excl) + 2 + k], "query")
            continue
        elif op == "F":
            ok, _ = c.run("refresh", g.refreshFromFiles)
            if not ok:
                break
            for ch in w.chans:
                if ch != 3 or not w.bad3:
                    nrec[ch] = len(w.recs)
            alts = [list(w.complete)] + ([w.complete + [w.torn]] if w.torn else [])
            compare(c, w, g, alts, nrec, hist[:len(excl) + 2 + k], "refresh")
        c.state(excl, [x for _, x in w.complete], len(w.recs), w.torn is None, [len(a) for a in alts], nrec, w.bad3)
    else:
        # the same files, read once at the end
        f = w.open()
        if w.bad3:
            f[3].markBad("x")
        compare(c, w, f, alts, dict.fromkeys(w.chans, len(w.recs)), hist, "fresh")
        c.trace()
        c.sample({"history": hist})
        del f
    del g
    import shutil
    shutil.rmtree(d)


def as_sets(d, n):
    out = {}
    for k, v in d.items():
        got = []
        for s in (v if isinstance(v, list) else [v]):
            got += list(range(n))[s]
        out[k] = got
    return out


def do_incr(c, first, depth):
    import mass
    esfpath = os.path.join(c.newdir(), "esf.txt")
    for n in range(2, depth + 1):
        for rest in itertools.product("ABIR" if first != "S" else "ASIR", repeat=n - 1):
            seq = (first,) + rest
            labels = [(T0 + i, NAMES[x]) for i, x in enumerate(seq) if x != "R"]
            recs = [T0 + i for i, x in enumerate(seq) if x == "R"]
            excludes = "auto" if "S" in seq or len(seq) % 2 else ["IGNORE", "B"]
            cuts = list(itertools.combinations(range(1, n), 1)) + list(itertools.combinations(range(1, n), 2))
            for cut in [()] + cuts:
                # a prefix of the merged sequence is read at each step
                with open(esfpath, "w") as f:
                    f.write("# h\n")
                esf, sd, nl, nr = None, None, 0, 0
                for upto in list(cut) + [n]:
                    seg = seq[:upto]
                    L = sum(x != "R" for x in seg)
                    R = sum(x == "R" for x in seg)
                    with open(esfpath, "a") as f:
                        f.writelines(f"{t}, {b}\n" for t, b in labels[nl:L])
                    if esf is None:
                        esf = mass.off.ExperimentStateFile(esfpath, excludeStates=excludes)
                    else:
                        esf.parse()
                    ok, sd = c.run("calcStatesDict", esf.calcStatesDict, np.array(recs[nr:R], dtype=np.int64), sd, nl, nr)
                    if not ok:
                        return
                    nl, nr = L, R
                    order, st = model(labels[:L], recs[:R], excludes)
                    got = as_sets(sd, R)
                    want = {o: [i for i, s in enumerate(st) if s == o] for o in order}
                    c.trans()
                    c.state(seg, cut[:1], sorted(want.items()))
                    c.check({k: v for k, v in got.items() if v} == {k: v for k, v in want.items() if v}
                            and list(esf.labels) == order, "incremental",
                            f"events {seg} read in steps {cut}: {sd} labels {esf.labels}, want {want}", events=seq, steps=cut)
                c.trace()


def do_ljh(c, a, b, nlab):
    import mass
    p = pattern(4, 4, 1)
    d = c.newdir()
    variants = []
    for k, (epoch, scale) in enumerate([(1_700_000_000_123_456, 1), (1_700_000_000_000_000, 10_000)]):
        # records 100 microseconds apart at an odd epoch, or one second apart at whole seconds
        recs = [(1000 + 100 * i) * scale for i in range(4)]
        s = Spec(nsamp=4, npre=2)
        s.records = [(i * 100, epoch + recs[i], p[i]) for i in range(4)]
        os.mkdir(os.path.join(d, str(k)))
        variants.append((epoch, scale, recs, s.write(os.path.join(d, str(k), "x_chan1.ljh")), os.path.join(d, str(k), "x_experiment_state.txt")))
    # start times: before all, exactly at a record, one microsecond after, one before
    times = [0, 1000, 1001, 1099, 1100, 1200, 1301]
    n = 0
    for rest in itertools.product("AB", repeat=nlab - 2):
        labs = (a, b) + rest
        for ts in itertools.combinations_with_replacement(times, nlab):
            n += 1
            epoch, scale, recs, path, esf = variants[1 if n % 8 < 4 else 0]
            ts = [t * scale for t in ts]
            labels = [((epoch + t) * 1000, NAMES[x]) for t, x in zip(ts, labs)]
            with open(esf, "w") as f:
                f.write("# h\n" + "".join(f"{t}, {x}\n" for t, x in labels))
            for ex in (["auto"] if n % 3 else ["auto", ["B"]]):
                g = mass.TESGroup([path], hdf5_filename=os.path.join(d, f"h{n}{ex != 'auto'}.hdf5"), overwrite_hdf5_file=True,
                                  excludeStates=ex)
                g.summarize_data()
                ds = g.channel[1]
                order, st = model(labels, [(epoch + r) * 1000 for r in recs], ex)
                got = {o: np.flatnonzero(ds.good(state=o)).tolist() for o in order}
                want = {o: [i for i, x in enumerate(st) if x == o] for o in order}
                c.check(got == want, "ljh", f"labels {labels}: good(state) gives {got}, want {want}", labels=labels)
                none = np.flatnonzero(ds.good(state="uncategorized")).tolist()
                c.check(none == [i for i, x in enumerate(st) if x is None], "ljh-none",
                        f"labels {labels}: uncategorized {none}", labels=labels)
                # the same group as an OFF-style group
                if n % 4 == 0 and all(t not in recs for t in ts):
                    o = g.toOffStyle()[1]
                    o2 = {k: [int(round((x - epoch * 1e-6) * 1e6)) for x in o.getAttr("p_timestamp", k, "cutNone")]
                          for k in order if k in o.statesDict}
                    w2 = {k: [recs[i] for i in want[k]] for k in o2}
                    # known: the OFF-style view's times are truncated to whole seconds (see known_findings.json)
                    _, st3 = model(labels, [(epoch + r) // 1_000_000 * 1_000_000_000 for r in recs], ex)
                    w3 = {k: [recs[i] for i, x in enumerate(st3) if x == k] for k in o2}
                    c.check(o2 == w2, "offstyle-whole-seconds" if o2 == w3 else "offstyle", f"{o2} want {w2}", labels=labels)
                c.trans()
                c.state(labs, ts, sorted(want.items()))
                c.trace()
                g.hdf5_file.close()
                os.remove(os.path.join(d, f"h{n}{ex != 'auto'}.hdf5"))


def do_reopen(c):
    """A group reopened after its state file grew: old records keep their states, no state gets another's records."""
    import mass
    n = 0
    for labs in itertools.product(["START", "A", "B", "IGNORE", "STOP"], repeat=3):
        d = c.newdir()
        s = Spec(nsamp=4, npre=2)
        p = pattern(4, 4, 1)
        s.records = [(i * 100, 1_700_000_000_000_000 + 100 * i, p[i]) for i in range(4)]
        path = s.write(os.path.join(d, "x_chan1.ljh"))
        esf = os.path.join(d, "x_experiment_state.txt")
        T = [(1_700_000_000_000_000 + 100 * i - 50) * 1000 for i in range(3)]
        h5 = os.path.join(d, "m.hdf5")
        seen = None
        for k in range(1, 4):
            labels = list(zip(T[:k], labs[:k]))
            with open(esf, "w") as f:
                f.write("# h\n" + "".join(f"{t}, {x}\n" for t, x in labels))
            g = mass.TESGroup([path], hdf5_filename=h5)
            g.summarize_data(forceNew=True)
            ds = g.channel[1]
            order, st = model(labels, [1_700_000_000_000_000_000 + 100_000 * i for i in range(4)], "auto")
            if seen is None:
                seen = order
            for o in set(order) | set(seen):
                want = [i for i, x in enumerate(st) if x == o] if o in order else []
                try:
                    got = np.flatnonzero(ds.good(state=o)).tolist()
                except (ValueError, KeyError):
                    c.check(o not in seen, "reopen-lost", f"state {o} unknown after reopening with {labels}", labels=labels)
                    continue
                c.check(got == want, "reopen", f"labels {labels} (first session knew {seen}): state {o} has {got}, want {want}",
                        labels=labels)
            c.trans()
            c.state(labs[:k])
            g.hdf5_file.close()
        c.trace()
