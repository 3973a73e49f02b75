"""P24: histograms and exported tables, against counting record by record."""
import itertools
import math
import os

import numpy as np

from vlib import mkdata
from vlib.mkoff import T0, state_file
from vlib.offs import OffSpec

PROPERTY = "P24"
EXPLAIN = """(1) every sequence of values over an alphabet of values on, between, below and above the bin edges, NaN and
infinite, binned by Channel.hist / MicrocalDataSet.hist for even and uneven edges, compared with counting value by value.
(2) groups: every subset of bad channels x states (repeated, aliased, late, none) x cut x inversion x calibration: hist,
hists, plotted histograms, histsToHDF5 and energyTimestampLabelToHDF5 (with every choice of external trigger columns)
against counting record by record. (3) LJH data: every cut/category/time window/selection function, for one channel and
for groups with every subset bad."""
ASSUMPTIONS = ["time limits (t0, tlast) of LJH histograms are not equal to any time stamp",
               "bin edges increase (several bins); a value on the last edge belongs to the last bin, on any other edge to the bin above"]

EDGES = {"even": [0.0, 1.0, 2.0, 3.0], "uneven": [-1.0, 0.0, 2.5, 4.0], "one": [0.0, 2.0], "list": [0, 1, 2, 3, 4, 5]}
VALS = [-1.5, -1.0, 0.0, 0.5, 1.0, 2.0, 2.5, 3.0, 4.0, 5.5, math.nan, math.inf, -math.inf]


def count(vals, edges):
    out = [0] * (len(edges) - 1)
    for v in vals:
        if v != v:
            continue
        for b in range(len(out)):
            if edges[b] <= v < edges[b + 1] or (b == len(out) - 1 and v == edges[-1]):
                out[b] += 1
    return out


def centers(edges):
    return [0.5 * (a + b) for a, b in zip(edges[:-1], edges[1:])]


def shards(tier):
    out = [(f"values-{e}-{k}", ("values", e, k)) for e in EDGES for k in ("off", "ljh")]
    out += [(f"group-{h}", ("group", h)) for h in HIST]
    out += [(f"export-{h}", ("export", h)) for h in HIST]
    out += [(f"ljh-{i}", ("ljh", i)) for i in range(3)]
    return out


def run_shard(c, kind, *args):
    import matplotlib
    matplotlib.use("Agg")
    {"values": values, "group": group, "export": export, "ljh": ljh}[kind](c, *args)


def same(c, got, vals, edges, sig, h):
    x, y = got
    want = count(vals, edges)
    ok = c.check(np.asarray(y).tolist() == want, sig, lambda: f"counts {np.asarray(y).tolist()} of {list(vals)[:20]} in edges {edges}, expected {want}",
                 history=h)
    c.check(np.allclose(x, centers(edges)), sig + "-centers", lambda: f"bin centres {list(x)} for edges {edges}", history=h)
    return ok


# ---------------------------------------------------------------------------------- every value sequence
def values(c, ename, kind):
    edges = EDGES[ename]
    seqs = [s for n in range(0, 4 if c.thorough else 3) for s in itertools.product(VALS, repeat=n)]
    if not c.thorough:
        seqs += list(itertools.combinations(VALS, 3))
    flat = [v for s in seqs for v in s] + [0.5]
    n = len(flat)
    if kind == "off":
        from mass.off import ChannelGroup
        d = c.newdir()
        s = OffSpec(nbasis=3)
        recs = [s.rec(i, unixnano=T0 + i, ptm=1.0, resid=1.0, coefs=[0.0, 0.0, float(v)]) for i, v in enumerate(flat)]
        f = s.write(os.path.join(d, "o_chan1.off"), recs)
        state_file(d, [(0, "A")])
        ds = ChannelGroup([f], verbose=False)[1]
        ds.recipes.add("twice", lambda filtValue: 2.0 * filtValue)
    else:
        import mass
        d = c.newdir()
        p, nn = mkdata.pulse_files(d, 1, npulses=60, nnoise=12)
        ds = mass.TESGroup([p], [nn]).channel[1]
        n = ds.nPulses
        ds.p_timestamp[:] = 100.0 + np.arange(n)
    pos = 0
    for sq in seqs:
        c.state(ename, kind, str(sq))
        c.trans()
        if kind == "off":
            sel = slice(pos, pos + len(sq))
            pos += len(sq)
            for cal in (None, lambda v: 0.5 * v):
                ok, got = c.run("hist", ds.hist, edges, "filtValue", sel, None, cal)
                if ok:
                    same(c, got, [v if cal is None else 0.5 * v for v in sq], edges, "values", f"values {sq} cal {cal is not None}")
            if len(sq) == 2:
                ok, got = c.run("hist", ds.hist, np.array(edges), "twice", [sel])
                if ok:
                    same(c, got, [2 * v for v in sq], edges, "values-recipe", f"twice {sq}")
        elif len(sq) != 2 or c.thorough or ename == "uneven":
            arr = np.full(n, np.nan)
            arr[7:7 + len(sq)] = sq
            ds.p_energy[:] = arr
            ok, got = c.run("hist", ds.hist, edges)
            if ok:
                same(c, got, sq, edges, "values-ljh", f"values {sq}")
        c.trace()
    c.sample({"edges": edges, "sequences": len(seqs)})


# ---------------------------------------------------------------------------------- groups of OFF channels
N = 7
HIST = {
    "plain": [(0, "A"), (3, "B")],
    "repeat": [(0, "A"), (2, "B"), (4, "A"), (5, "B"), (6, "A")],
    "late": [(2, "A"), (3, "IGNORE"), (5, "B")],
    "alias": [(0, "A"), (2, "B"), (4, "C")],
    "empty": [(0, "A"), (4, "B"), (4, "C"), (20, "D")],
    "none": [(0, "IGNORE")],
}
CH = (1, 3, 20)
VV = [0.5, 1.0, 2.0, 2.5, -1.0, 4.0, math.nan, 3.0, 9.0, 0.0]


def states_of(hist, chan):
    alias = {"A": "X", "C": "X"} if hist == "alias" else {}
    where = []
    for i in range(N):
        s = None
        for t, lab in HIST[hist]:
            if t * 1_000_000_000 - 1000 <= i * 1_000_000_000:
                s = lab
        where.append(None if s in (None, "IGNORE") else alias.get(s, s))
    return where, list(dict.fromkeys(alias.get(x, x) for _, x in HIST[hist] if x != "IGNORE"))


def make(c, hist):
    from mass.off import ChannelGroup
    d = c.newdir()
    files, vals = [], {}
    for chan in CH:
        s = OffSpec(nbasis=3)
        vals[chan] = [VV[(i * 3 + chan) % len(VV)] for i in range(N)]
        recs = [s.rec(i, unixnano=T0 + i * 1_000_000_000 + chan, ptm=float((i * 5 + chan) % 7), resid=1.0, coefs=[0.0, 0.0, vals[chan][i]])
                for i in range(N)]
        files.append(s.write(os.path.join(d, f"o_chan{chan}.off"), recs))
    state_file(d, HIST[hist])
    g = ChannelGroup(files, verbose=False, **({"excludeStates": ["IGNORE"]} if hist == "none" else {}))
    if hist == "alias":
        g.experimentStateFile.aliasState(["A", "C"], "X")
    for ds in g.values():
        ds.recipes.add("energy", lambda filtValue: filtValue + 0.5)
        ds.recipes.add("cutA", lambda pretriggerMean: pretriggerMean < 4)
    return d, g, vals


def requests(hist, where, labels):
    yield None, list(range(N))
    for r in range(1, min(2 if len(labels) > 3 else 3, len(labels)) + 1):
        for p in itertools.permutations(labels, r):
            idx = [i for x in p for i in range(N) if where[i] == x]
            yield list(p), idx
            if r == 1:
                yield p[0], idx


def group(c, hist):
    import matplotlib.pyplot as plt
    d, g, vals = make(c, hist)
    where, labels = states_of(hist, 1)
    ptm = {ch: [float((i * 5 + ch) % 7) for i in range(N)] for ch in CH}
    cuts = {"cutNone": lambda ch, i: True, "cutA": lambda ch, i: ptm[ch][i] < 4, "!cutA": lambda ch, i: ptm[ch][i] >= 4}
    if hist == "none":
        c.check(list(g.stateLabels) == [], "labels", str(g.stateLabels))
    for bad in itertools.product((False, True), repeat=len(CH)):
        if all(bad):
            continue
        for ch, b in zip(CH, bad):
            g[ch].markBad("test") if b else g[ch].markGood()
        good = [ch for ch, b in zip(CH, bad) if not b]
        for req, idx in requests(hist, where, labels):
            for cname, cf in cuts.items():
                for ename, attr, off in (("even", "filtValue", 0.0), ("uneven", "energy", 0.5), ("list", "filtValue", 0.0)):
                    edges = EDGES[ename]
                    h = f"{hist} bad {bad} states {req} cut {cname} attribute {attr} edges {edges}"
                    want = {ch: [vals[ch][i] + off for i in idx if cf(ch, i)] for ch in CH}
                    c.state(h)
                    c.trans(3)
                    ok, got = c.run("group-hist", g.hist, edges, attr, req, cname)
                    if ok:
                        same(c, got, [v for ch in good for v in want[ch]], edges, "coadded", h)
                    ok, got = c.run("group-hists", g.hists, edges, attr, req, cname)
                    if ok:
                        c.check(list(got[1]) == good, "hists-channels", lambda: f"{list(got[1])} instead of {good}", history=h)
                        for ch in good:
                            same(c, (got[0], got[1][ch]), want[ch], edges, "hists", h)
                    with g.includeBad():
                        ok, got = c.run("group-hist-bad", g.hist, edges, attr, req, cname)
                        if ok:
                            same(c, got, [v for ch in CH for v in want[ch]], edges, "coadded-includebad", h)
                    if c.thorough or bad in ((False, False, False), (True, False, False)):
                        for ch in CH:
                            ok, got = c.run("hist", g[ch].hist, edges, attr, req, cname)
                            if ok:
                                same(c, got, want[ch], edges, "channel", h)
                        ok, got = c.run("group-hists-some", g.hists, edges, attr, req, cname, [CH[0], CH[2]])
                        if ok:
                            c.check(list(got[1]) == [CH[0], CH[2]], "hists-chosen", lambda: f"{list(got[1])}", history=h)
                            for ch in (CH[0], CH[2]):
                                same(c, (got[0], got[1].get(ch, [])), want[ch], edges, "hists-some", h)
                    c.trace()
            # what is drawn
            if labels and req is not None and attr:
                edges = EDGES["even"]
                for coadd in (True, False):
                    fig, ax = plt.subplots()
                    ok, _ = c.run("plotHist", g.plotHist, edges, "filtValue", ax, [], req, "cutA", coadd)
                    if ok:
                        names = [req] if isinstance(req, str) else req
                        groups = [idx] if coadd else [[i for i in range(N) if where[i] == x] for x in names]
                        lines = ax.lines
                        c.check(len(lines) == len(groups), "plot-lines", lambda: f"{len(lines)} lines for {names} coadd={coadd}")
                        for ln, ii in zip(lines, groups):
                            same(c, (ln.get_xdata(), np.asarray(ln.get_ydata(), dtype=int)),
                                 [vals[ch][i] for ch in good for i in ii if cuts["cutA"](ch, i)], edges, "plotted", f"{hist} {bad} {req} coadd={coadd}")
                    plt.close(fig)
                fig, ax = plt.subplots()
                ok, _ = c.run("plotHists", g.plotHists, edges, "filtValue", ax, [], req, "!cutA")
                if ok:
                    c.check([ln.get_label() for ln in ax.lines] == [str(ch) for ch in good], "plotHists-channels",
                            lambda: str([ln.get_label() for ln in ax.lines]))
                    for ch, ln in zip(good, ax.lines):
                        same(c, (ln.get_xdata(), np.asarray(ln.get_ydata(), dtype=int)),
                             [vals[ch][i] for i in idx if cuts["!cutA"](ch, i)], edges, "plotted-each", f"{hist} {bad} {req}")
                plt.close(fig)


def read(h5, prefix=""):
    import h5py
    out = {}
    for k, v in h5.items():
        if isinstance(v, h5py.Group):
            out.update(read(v, prefix + k + "/"))
        else:
            out[prefix + k] = v[()]
    return out


def export(c, hist):
    import h5py
    where, labels = states_of(hist, 1)
    groups = [(f"{x}/", [i for i in range(N) if where[i] == x]) for x in labels]
    trigger = [3, 14, 15, 33, 70]
    TR = ("after_last", "until_next", "from_nearest")
    edges = EDGES["uneven"]
    n = 0
    for triggers in [None] + list(itertools.product((False, True), repeat=3)):
        d, g, vals = make(c, hist)
        rowper = g[CH[0]].subframePeriodSeconds
        if triggers:
            with open(os.path.join(d, "o_external_trigger.bin"), "wb") as f:
                f.write(b"# external trigger subframes\n")
                fc = [int(v) for v in g[CH[0]].subframecount]
                np.array([fc[1] - 1, fc[1], fc[2] + 5, fc[5] - 3], dtype="int64").tofile(f)
                trigger = [fc[1] - 1, fc[1], fc[2] + 5, fc[5] - 3]
            ok, _ = c.run("trigger", g.calcExternalTriggerTiming, *triggers)
            if not ok:
                return
        for bad in ((False, False, False), (False, True, False), (True, False, True)):
            for ch, b in zip(CH, bad):
                g[ch].markBad("test") if b else g[ch].markGood()
            good = [ch for ch, b in zip(CH, bad) if not b]
            for cname in (None, "cutA", "!cutA"):
                n += 1
                h = f"{hist} triggers {triggers} bad {bad} cut {cname}"
                c.state(h)

                def keep(ch, i):
                    return cname in (None,) or ((float((i * 5 + ch) % 7) < 4) == (cname == "cutA"))

                with h5py.File(os.path.join(d, f"x{n}.hdf5"), "w") as h5:
                    ok, _ = c.run("energyTimestampLabelToHDF5", g.energyTimestampLabelToHDF5, h5, cname)
                    c.trans()
                    got = read(h5)
                c.check([ch for ch in CH if g[ch].markedBadBool] == [ch for ch in CH if ch not in good], "export-failed",
                        lambda: f"channels failed: {[g[ch].markedBadReason for ch in CH if g[ch].markedBadBool]}", history=h)
                c.check(sorted({k.split("/")[0] for k in got}) == sorted(str(ch) for ch in good), "export-channels",
                        lambda: f"{sorted({k.split('/')[0] for k in got})} instead of {good}", history=h)
                for ch in good:
                    for prefix, idx in groups or [("", list(range(N)))]:
                        ii = [i for i in idx if keep(ch, i)]
                        want = {"energy": [vals[ch][i] + 0.5 for i in ii],
                                "unixnano": [T0 + i * 1_000_000_000 + ch for i in ii]}
                        if triggers:
                            sc = [int(v) for v in g[ch].subframecount]
                            after = [min([sc[i] - t for t in trigger if t <= sc[i]], default=2**63 - 1) for i in ii]
                            until = [min([t - sc[i] for t in trigger if t > sc[i]], default=2**63 - 1) for i in ii]
                            for name, on, v in zip(("after_last", "until_next", "from_nearest"), triggers,
                                                   (after, until, [min(a, b) for a, b in zip(after, until)])):
                                key = f"seconds_{name}_external_trigger"
                                if on:
                                    want[key] = [x * rowper for x in v]
                                else:
                                    c.check(f"{ch}/{prefix}{key}" not in got, "export-extra", f"{key} was not asked for", history=h)
                        for k, v in want.items():
                            x = got.get(f"{ch}/{prefix}{k}")
                            if x is None:
                                c.violate("export-missing", f"no {k} exported for channel {ch} {prefix}: {sorted(got)}", history=h)
                                continue
                            c.check(np.shape(x) == (len(v),) and (np.array_equal(x, v) if k == "unixnano" else np.allclose(x, v, rtol=1e-9, equal_nan=True)),
                                    "export-" + k, lambda: f"channel {ch} {prefix}{k}: {x} instead of {v}", history=h)
                    want = {f"{ch}/{p}{k}" for p, _ in groups or [("", 0)] for k in ("energy", "unixnano")}
                    extra = {k for k in got if k.startswith(f"{ch}/") and "trigger" not in k and k.split("/")[-1] in ("energy", "unixnano")} - want
                    c.check(not extra, "export-states", lambda: f"unexpected tables {extra}", history=h)
                c.trace()
                if triggers in (None, (False, False, False)):
                    with h5py.File(os.path.join(d, f"h{n}.hdf5"), "w") as h5:
                        ok, _ = c.run("histsToHDF5", g.histsToHDF5, h5, edges, "energy", cname)
                        c.trans()
                        got = read(h5)
                    if not ok:
                        continue
                    for who, chans in [(str(ch), [ch]) for ch in good] + [("all_channels", good)]:
                        for prefix, idx, xname in [(p, i, "bin_centers") for p, i in groups] + [("", list(range(N)), "bin_centers_ev")]:
                            if f"{who}/{prefix}counts" not in got or f"{who}/{prefix}{xname}" not in got:
                                c.violate("hists-missing", f"{who}/{prefix} is missing: {sorted(got)}", history=h)
                                continue
                            same(c, (got[f"{who}/{prefix}{xname}"], got[f"{who}/{prefix}counts"]),
                                 [vals[ch][i] + 0.5 for ch in chans for i in idx if keep(ch, i)], edges, "hists-saved", h + f" {who} {prefix}")
                    c.check({k.split("/")[0] for k in got} == {str(ch) for ch in good} | {"all_channels"}, "hists-channels-saved",
                            lambda: str(sorted(got)), history=h)


# ---------------------------------------------------------------------------------- LJH data
def ljh(c, part):
    import mass
    import matplotlib.pyplot as plt
    d = c.newdir()
    ps, ns = [], []
    for chan in (1, 3):
        p, n = mkdata.pulse_files(d, chan, npulses=12, nnoise=12, salt=chan)
        ps.append(p)
        ns.append(n)
    data = mass.TESGroup(ps, ns)
    data.register_categorical_cut_field("side", ["A", "B"])
    data.register_categorical_cut_field("half", ["early", "late"])
    data.register_boolean_cut_fields("odd")
    vals, times, side, odd = {}, {}, {}, {}
    for ds in data:
        n = ds.nPulses
        vals[ds.channum] = [VV[(i * 3 + ds.channum) % len(VV)] for i in range(n)]
        times[ds.channum] = [100.0 + i for i in range(n)]
        side[ds.channum] = [i % 3 for i in range(n)]
        odd[ds.channum] = [(i + ds.channum) % 4 == 1 for i in range(n)]
        ds.p_timestamp[:] = times[ds.channum]
        ds.p_energy[:] = vals[ds.channum]
        ds.p_filt_value[:] = [2 * v for v in vals[ds.channum]]
        ds.cuts.cut("odd", np.array(odd[ds.channum]))
        ds.cuts.cut_categorical("side", {"A": np.array(side[ds.channum]) == 1, "B": np.array(side[ds.channum]) == 2})
        ds.cuts.cut_categorical("half", {"early": np.arange(n) < 5, "late": np.arange(n) >= 7})
    names = ["uncategorized", "A", "B"]

    def member(ch, i, field, label):
        return label == (names[side[ch][i]] if field == "side" else "early" if i < 5 else "late" if i >= 7 else "uncategorized")
    windows = [(0, 1e20), (102.5, 1e20), (0, 106.5), (101.5, 108.5), (108.5, 101.5), (103.5, 104.5)]
    bads = [(), (1,), (3,)]
    for bad in bads[part:part + 1]:
        for b in bad:
            data.set_chan_bad(b, "test")
        good = [ch for ch in (1, 3) if ch not in bad]
        for (t0, t1), cat, gf, attr, ename in itertools.product(windows, [{}, {"side": "A"}, {"side": "B"}, {"side": "uncategorized"}, {"half": "late"},
                                                                           {"side": "A", "half": "early"}, {"half": "late", "side": "B"}],
                                                                [None, "f"], ["p_energy", "p_filt_value"], list(EDGES)):
            edges = EDGES[ename]
            m = 1 if attr == "p_energy" else 2

            def sel(ch):
                return [m * v for i, v in enumerate(vals[ch]) if t0 < times[ch][i] < t1 and not odd[ch][i]
                        and all(member(ch, i, f, lab) for f, lab in cat.items()) and (gf is None or i % 2 == 0)]
            func = None if gf is None else (lambda ds: np.arange(ds.nPulses) % 2 == 0)
            h = f"bad {bad} window {(t0, t1)} category {cat} function {gf} {attr} {edges}"
            c.state(h)
            c.trans(3)
            c.trace()
            ok, got = c.run("ljh-hist", data.hist, edges, attr, t0, t1, cat, func)
            if ok:
                same(c, got, [v for ch in good for v in sel(ch)], edges, "ljh-coadded", h)
            ok, got = c.run("ljh-hists", data.hists, edges, attr, t0, t1, cat, func)
            if ok:
                c.check(list(got[1]) == good, "ljh-hists-channels", lambda: f"{list(got[1])}", history=h)
                for ch in good:
                    same(c, (got[0], got[1].get(ch, [])), sel(ch), edges, "ljh-hists", h)
            for ch in (1, 3):
                ok, got = c.run("ljh-chan", data.channel[ch].hist, edges, attr, t0, t1, cat, func)
                if ok:
                    same(c, got, sel(ch), edges, "ljh-channel", h)
            if (t0, t1) == windows[0] and ename == "even":
                fig, ax = plt.subplots()
                ok, _ = c.run("plot_hist", data.channel[1].plot_hist, np.array(edges), attr, ax, [], cat, func)
                if ok:
                    ln = ax.lines[0]
                    same(c, (ln.get_xdata(), np.asarray(ln.get_ydata(), dtype=int)), sel(1), edges, "ljh-plotted", h)
                plt.close(fig)
        for ch in (1, 3):
            c.check(np.array_equal(data.channel[ch].p_energy[:], np.array(vals[ch], dtype=np.float32), equal_nan=True), "data-changed",
                    "making histograms changed the data")
