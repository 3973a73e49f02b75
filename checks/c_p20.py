"""P20: external trigger delays and flux-jump removal, against searching and counting directly."""
import itertools
import os

import numpy as np

from vlib.ljh import Spec
from vlib.mkoff import T0, state_file
from vlib.offs import OffSpec

PROPERTY = "P20"
EXPLAIN = """(1) every non-decreasing sequence of up to 4 (5) pulse times against every one of up to 4 (5) trigger times over a
small clock (coincidences, repeats, none at all), in the fast and plain implementations, also at large clock values;
(2) the same through data files: LJH groups (binary and HDF5 trigger files, row counts in the trigger header, several
channels, one marked bad, repeats with and without forcing, reopening) and OFF groups (with and without subframe
divisions, every choice of outputs); (3) every short sequence of baseline values (window narrower than a quarter quantum)
x whole-quantum jumps x good/bad masks, in the function, a channel and a group."""
ASSUMPTIONS = ["pulse and trigger times do not decrease", "no trigger: the largest int64 stands for infinity",
               "flux jumps are resolvable: the good baselines fit, up to whole quanta, in a window narrower than a quarter quantum, and the values span at least one quantum (otherwise nothing is done)"]
MAXI = 2**63 - 1
PMAX, TMAX = 5, 6


def expected(pulses, triggers):
    before = [min([p - t for t in triggers if t <= p], default=MAXI) for p in pulses]
    after = [min([t - p for t in triggers if t > p], default=MAXI) for p in pulses]
    return before, after


def seqs(values, n):
    for k in range(n + 1):
        yield from itertools.combinations_with_replacement(values, k)


def shards(tier):
    out = [(f"arrivals-{i}", ("arrivals", i)) for i in range(8)]
    out += [(f"ljh-{k}", ("ljh", k)) for k in ("binary", "nrow", "hdf5", "offsets")]
    out += [(f"off-{k}-{i}", ("off", k, i)) for k in ("plain", "div") for i in range(2)]
    out += [(f"jumps-{i}", ("jumps", i)) for i in range(6)] + [("jumps-files", ("jumpfiles",))]
    return out


def run_shard(c, kind, *args):
    {"arrivals": arrivals, "ljh": ljh, "off": off, "jumps": jumps, "jumpfiles": jumpfiles}[kind](c, *args)


def arrivals(c, part):
    from mass.core.analysis_algorithms import nearest_arrivals, python_nearest_arrivals
    n = 5 if c.thorough else 4
    ps = list(seqs(range(PMAX + 1), n))
    for ti, tr in enumerate(seqs(range(-1, TMAX), n)):
        if ti % 8 != part:
            continue
        for p in ps:
            offs = (0, 3_000_000_000_000_000) if len(p) == 2 else (0,)
            for off in offs:
                pa = np.array(p, dtype=np.int64) + off
                ta = np.array(tr, dtype=np.int64) + off
                want = expected(p, tr)
                c.state(p, tr, off)
                for name, fn in (("fast", nearest_arrivals), ("plain", python_nearest_arrivals)):
                    if name == "plain" and len(p) > 3 and not c.thorough:
                        continue
                    ok, got = c.run(name, fn, pa, ta)
                    c.trans()
                    if not ok:
                        continue
                    ok = isinstance(got, tuple) and len(got) == 2 and np.asarray(got[0]).tolist() == want[0] and np.asarray(got[1]).tolist() == want[1]
                    c.check(ok, name + "-delays", lambda: f"pulses {p}, triggers {tr}: {got}, expected {want}")
                c.check((pa - off).tolist() == list(p) and (ta - off).tolist() == list(tr), "inputs-changed", "")
                c.trace()


# ---------------------------------------------------------------------------------- data files
def ljh(c, kind):
    import h5py
    import mass
    nrow = 8 if kind == "nrow" else None
    div = 4
    cases = [((0, 1, 1, 3), tr) for tr in seqs(range(-1, 5), 3)] + [(p, (1, 3)) for p in seqs(range(0, 5), 4) if len(p) > 1]
    if not c.thorough:
        cases = cases[::2] if kind != "binary" else cases
    for p, tr in cases:
        d = c.newdir()
        files = []
        base = 4 * 250
        for chan, shift in ((1, 0), (2, 1), (7, 2)):
            recs = [(base + x + shift, 1_500_000_000_000_000 + i * 1000 + chan, [100 + i, 100, 900, 500 + i, 300, 200]) for i, x in enumerate(p)]
            files.append(Spec(nsamp=6, npre=2, subdiv=div, suboff=0, timebase="4.000000e-06", records=recs).write(os.path.join(d, f"r_chan{chan}.ljh")))
        ta = np.array(tr, dtype=np.int64) + base
        if kind in ("binary", "nrow"):
            with open(os.path.join(d, "r_external_trigger.bin"), "wb") as f:
                f.write(b"# external trigger subframe counts, 64 bit ints" + (b" (nrow=8)\n" if nrow else b"\n"))
                ta.tofile(f)
        else:
            with h5py.File(os.path.join(d, "r_external_trig.hdf5"), "w") as h5:
                h5["trig_times"] = ta if kind == "hdf5" else ta + 5
                if kind == "offsets":
                    h5["trig_times_w_offsets"] = ta
        out = os.path.join(d, "out.hdf5")
        ok, data = c.run("group", mass.TESGroup, files, hdf5_filename=out)
        if not ok:
            return
        data.summarize_data()
        data.set_chan_bad(2, "test")
        h = f"{kind}: pulses {p} triggers {tr}"
        c.state(h)
        for step in ("first", "again", "force", "good", "reopen"):
            if step == "good":     # a channel set aside until now
                data.set_chan_good(2)
                ok, _ = c.run("calc", data.calc_external_trigger_timing)
                want2 = expected([x + 1 for x in p], tr)
                got2 = [getattr(data.channel[2], f"subframes_{a}_external_trigger")[:].tolist() for a in ("after_last", "until_next")]
                c.check(got2 == [list(x) for x in want2], "good-again", lambda: f"channel 2: {got2}, expected {want2}", history=h)
                for f in ("after_last", "until_next", "from_nearest"):
                    del data.channel[2].hdf5_group[f"subframes_{f}_external_trigger"]
                data.set_chan_bad(2, "test")
                c.trans()
                continue
            if step == "reopen":
                del data
                ok, data = c.run("group", mass.TESGroup, files, hdf5_filename=out)
                if not ok:
                    return
            else:
                ok, _ = c.run("calc", data.calc_external_trigger_timing, **({"forceNew": True} if step == "force" else {}))
                if not ok:
                    return
            c.trans()
            c.check(sorted(data.good_channels) == [1, 7], "channel-failed", lambda: f"good channels {data.good_channels} {data.why_chan_bad}", history=h)
            for chan, shift in ((1, 0), (7, 2)):
                ds = data.channel[chan]
                sc = [x + shift for x in p]
                c.check((ds.p_subframecount[:] - base).tolist() == sc, "subframes", lambda: f"{ds.p_subframecount[:]}", history=h)
                before, after = expected(sc, tr)
                near = [min(a, b) for a, b in zip(before, after)]
                for a, want in (("after_last", before), ("until_next", after), ("from_nearest", near)):
                    ok, v = c.run("read", lambda: getattr(ds, f"subframes_{a}_external_trigger")[:])
                    if ok:
                        c.check(v.tolist() == want, "ljh-" + a, lambda: f"channel {chan}: {v.tolist()}, expected {want}", history=h + " " + step)
            try:
                x = data.channel[2].subframes_after_last_external_trigger
                c.violate("bad-channel", f"{x} computed for a bad channel")
            except ValueError:
                pass
            if step != "reopen":
                c.check((np.asarray(data.external_trigger_subframe_count[:]) - base).tolist() == list(tr), "triggers-read", "", history=h)
                sec = np.asarray(data.external_trigger_subframe_as_seconds)
                per = 4e-6 / (nrow or div)
                for chan in (1, 2, 7):
                    dsx = data.channel[chan]
                    c.check(dsx.subframe_divisions == (nrow or div) and abs(dsx.subframe_timebase - per) < 1e-15, "channel-timebase",
                            lambda: f"channel {chan}: {dsx.subframe_divisions} subframes per row, each {dsx.subframe_timebase}", history=h)
                c.check(np.allclose(sec, (np.array(tr) + base) * per, rtol=1e-12, atol=0), "trigger-seconds", lambda: f"{sec}", history=h)
            c.trace()


def off(c, kind, part):
    from mass.off import ChannelGroup
    div = 64 if kind == "div" else 24
    cases = [((0, 1, 1, 3), tr) for tr in seqs((-30, 0, 1, 24, 25, 64, 70, 128, 300), 3 if c.thorough else 2)]
    cases += [(p, (1, 24, 64)) for p in seqs(range(0, 4), 4) if p]
    for n, (p, tr) in enumerate(cases[part::2]):
        d = c.newdir()
        files = []
        for chan in (1, 4):
            s = OffSpec(nbasis=3, extra={"ReadoutInfo": {"ColumnNum": 0, "RowNum": 3, "NumberOfColumns": 8, "NumberOfRows": 24,
                                                         **({"SubframeDivisions": 64} if kind == "div" else {})}})
            files.append(s.write(os.path.join(d, f"o_chan{chan}.off"),
                                 [s.rec(i, framecount=1000 + x + chan, unixnano=T0 + i) for i, x in enumerate(p)]))
        state_file(d, [(0, "A")])
        with open(os.path.join(d, "o_external_trigger.bin"), "wb") as f:
            f.write(b"# external trigger subframe counts\n")
            (np.array(tr, dtype=np.int64) + 1000 * div).tofile(f)
        for flags in itertools.product((False, True), repeat=3):
            if n % 4 and sum(flags) < 3 and not c.thorough:
                continue
            ok, g = c.run("open", ChannelGroup, files, verbose=False)
            ok, _ = c.run("calc", g.calcExternalTriggerTiming, *flags)
            c.trans()
            if not ok:
                return
            h = f"{kind}: pulses {p} triggers {tr} outputs {flags}"
            c.state(h)
            for chan in (1, 4):
                ds = g[chan]
                sc = [(x + chan) * div for x in p]
                c.check((np.asarray(ds.subframecount) - 1000 * div).tolist() == sc, "off-subframes", lambda: f"{ds.subframecount}", history=h)
                before, after = expected(sc, tr)
                near = [min(a, b) for a, b in zip(before, after)]
                for a, on, want in zip(("after_last", "until_next", "from_nearest"), flags, (before, after, near)):
                    if not on:
                        c.check(not hasattr(ds, f"subframes_{a}_external_trigger"), "off-unwanted", "", history=h)
                        continue
                    v = getattr(ds, f"subframes_{a}_external_trigger", None)
                    c.check(v is not None and np.asarray(v).tolist() == want, "off-" + a, lambda: f"channel {chan}: {v}, expected {want}", history=h)
                    sec = getattr(ds, f"seconds_{a}_external_trigger", None)
                    c.check(sec is not None and np.allclose(sec, np.array(want, dtype=float) * 1e-5 / div, rtol=1e-9, atol=0), "off-seconds-" + a,
                            lambda: f"channel {chan}: {sec}", history=h)
            c.trace()


# ---------------------------------------------------------------------------------- flux jumps
def jumps(c, part):
    from mass.core.analysis_algorithms import correct_flux_jumps
    n = 5 if c.thorough else 4
    for qi, q in enumerate((1.0, 4096.0, 64)):
        # the true baselines, in quanta: a window narrower than 1/4, at several places including across a whole quantum
        for bi, base in enumerate((0.0, 0.3, 0.48, 0.9, -0.1, 2.85, 1.0, -1.2)):
            if (qi * 8 + bi) % 6 != part:
                continue
            offs = (0.0, 0.125, 0.234375)
            for true in itertools.product(offs, repeat=n):
                if min(true) != 0.0:
                    continue
                for jump in itertools.product((0, 1, -2), repeat=n):
                    vals = np.array([(base + t + j) * q for t, j in zip(true, jump)])
                    masks = [np.ones(n, dtype=bool)]
                    if true[1] == 0.125:
                        masks.append(np.array([True, False] + [True] * (n - 2)))
                    if true[0] == 0.125 and jump[0]:
                        masks.append(np.array([False] + [True] * (n - 1)))
                    for g in masks:
                        v = vals.copy()
                        bad = np.nonzero(~g)[0]
                        for extra in ((0.0,) if not len(bad) else (0.0, 0.4, 0.7)):
                            v[bad] = vals[bad] + extra * q
                            keep = v.copy()
                            c.state(q, base, true, jump, g.tolist(), extra)
                            c.trans()
                            ok, got = c.run("jumps", correct_flux_jumps, v, g, q)
                            if not ok:
                                continue
                            got = np.asarray(got, dtype=float)
                            h = f"values {keep.tolist()} quantum {q} good {g.tolist()}"
                            eps = 1e-9 * q
                            c.check(np.array_equal(v, keep), "jumps-input-changed", "", history=h)
                            if keep.max() - keep.min() < q * (1 - 1e-9):
                                c.check(np.array_equal(got, keep), "jumps-none", lambda: f"{got.tolist()}", history=h)
                                continue
                            if abs(keep.max() - keep.min() - q) < eps:
                                continue
                            k = (got - keep) / q
                            c.check(np.allclose(k, np.rint(k), atol=1e-7), "jumps-not-whole", lambda: f"{got.tolist()} differs by {k.tolist()} quanta", history=h)
                            c.check(abs(got[0] - keep[0]) < eps, "jumps-first", lambda: f"{got.tolist()}", history=h)
                            t = np.array(true) * q
                            x = got[g] - t[g]
                            c.check(np.allclose(x, x[0], atol=1e-7 * q), "jumps-left", lambda: f"{got.tolist()}, expected steps of {t.tolist()}", history=h)
                            c.check(got.max() - got.min() < 2 * q, "jumps-bad-pulses", lambda: f"{got.tolist()}", history=h)
                            c.trace()


def jumpfiles(c):
    import mass
    from vlib import mkdata
    d = c.newdir()
    ps, ns = [], []
    for chan in (1, 3):
        p, n = mkdata.pulse_files(d, chan, npulses=12, nnoise=12, salt=chan)
        ps.append(p)
        ns.append(n)
    data = mass.TESGroup(ps, ns)
    data.summarize_data()
    n = data.channel[1].nPulses
    q = 4096
    for who in ("channel", "group"):
        for jump in itertools.product((0, 1, -1), repeat=4):
            for base in (100.0, 4000.0, 6000.0):
                for bad in (None, 2):
                    true = base + 50.0 * (np.arange(n) % 9)
                    j = np.array([jump[i % 4] for i in range(n)])
                    for ds in data.datasets:
                        v = true + j * q
                        ds.cuts.clear_cut()
                        if bad is not None:
                            v[bad] += 1500
                            m = np.zeros(n, dtype=bool)
                            m[bad] = True
                            ds.cuts.cut(0, m)
                        ds.p_pretrig_mean[:] = v
                    orig = v
                    ok, _ = c.run("correct", data.correct_flux_jumps if who == "group" else data.channel[1].correct_flux_jumps, q)
                    c.trans()
                    c.state(who, jump, base, bad)
                    c.check(sorted(data.good_channels) == [1, 3], "jumps-channel-bad", lambda: f"{data.why_chan_bad}")
                    for ds in data.datasets if who == "group" else data.datasets[:1]:
                        got = ds.p_pretrig_mean[:].astype(float)
                        h = f"{who} jumps {jump} base {base} bad pulse {bad}"
                        k = (got - orig) / q
                        c.check(np.allclose(k, np.rint(k), atol=1e-5), "jumps-not-whole", lambda: f"{k.tolist()}", history=h)
                        if orig.max() - orig.min() > q:
                            g = np.arange(n) != bad
                            x = (got - true)[g]
                            c.check(np.allclose(x, x[0], atol=0.1), "jumps-left", lambda: f"{got.tolist()}", history=h)
                        else:
                            c.check(np.allclose(got, orig), "jumps-none", "", history=h)
                        c.trace()
