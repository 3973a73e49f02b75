"""P03: the same file analysed with every segment size (and its records in other orders), with both implementations."""
import itertools
import os

import numpy as np

from vlib import mkdata
from vlib.ljh import Spec

PROPERTY = "P03"
EXPLAIN = """One channel of N records is analysed (summaries, average pulse, filter, filtered values, noise) with every
permitted segment size from one record to beyond the whole file, given exactly or rounded up in bytes, set for the channel
or for the group, before or between steps, for both implementations of each step and every kind of filter; all results
must be identical.  Then the same records in every rotation, reversed, with every neighbouring pair swapped, in every
prefix, and alone must give the same per-record values.  One shard has a single segment of more than 65535 records."""
ASSUMPTIONS = ["locality is compared with the peak time and the filter given, since both are estimated from the whole file otherwise"]

P_SUM = ("p_pretrig_mean", "p_pretrig_rms", "p_pulse_average", "p_pulse_rms", "p_promptness", "p_rise_time", "p_postpeak_deriv",
         "p_peak_index", "p_peak_value", "p_min_value", "p_shift1", "p_timestamp", "p_subframecount")
P_FILT = ("p_filt_value", "p_filt_phase")


def double(x):
    return x * 2.0 - 0.0001 * x * x


KINDS = ("5lag", "5lag-plain", "5lag-transform", "ats", "ats-noshift", "ats-transform")


def pipeline(ds, cython, kind, hook=lambda step: None):
    kw = dict(use_cython=cython)
    hook(0)
    ds.summarize_data(**kw)
    hook(1)
    ds.compute_noise()
    ds.avg_pulses_auto_masks()
    hook(2)
    tr = double if kind.endswith("transform") else None
    if kind.startswith("5lag"):
        ds.compute_5lag_filter()
    else:
        ds.compute_ats_filter(shift1=kind != "ats-noshift", transform=tr, minimum_n_pulses=3)
    hook(3)
    ds.filter_data(transform=tr, **(dict(use_cython=False) if kind == "5lag-plain" else {}))


def results(ds, extra=True):
    r = {k: np.array(getattr(ds, k)[:]) for k in P_SUM + P_FILT}
    if extra:
        r["average_pulse"] = np.array(ds.average_pulse[:])
        r["noise_autocorr"] = np.array(ds.noise_autocorr[:])
        r["noise_psd"] = np.array(ds.noise_psd[:])
        r["filter"] = np.array(ds.filter.values)
    return r


def same(c, a, b, sig, what):
    for k in a:
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        ok = x.shape == y.shape and np.allclose(x, y, rtol=3e-6, atol=1e-7, equal_nan=True)
        if not ok:
            bad = np.flatnonzero(~np.isclose(x, y, rtol=3e-6, atol=1e-7, equal_nan=True).ravel()) if x.shape == y.shape else []
            c.violate(f"{sig}:{k}", f"{what}: {k} has {len(bad)} different values (shapes {x.shape}, {y.shape}); first at {list(bad[:3])}: "
                      f"{x.ravel()[bad[:3]] if len(bad) else x[:3]} not {y.ravel()[bad[:3]] if len(bad) else y[:3]}")


class World:
    def __init__(self, c, pulse, noise):
        import mass
        d = c.newdir()
        self.g = mass.TESGroup([pulse], [noise], hdf5_filename=os.path.join(d, "o.hdf5"), hdf5_noisefilename=os.path.join(d, "n.hdf5"),
                               overwrite_hdf5_file=True)
        self.ds = self.g.channel[1]

    def close(self):
        self.g.hdf5_file.close()
        self.g.hdf5_noisefile.close()


def shards(tier):
    out = [("big-fast", ("big", True)), ("big-plain", ("big", False))]
    for cython in (True, False):
        for kind in KINDS:
            out.append((f"seg-{kind}-{'fast' if cython else 'plain'}", ("seg", cython, kind)))
            out.append((f"local-{kind}-{'fast' if cython else 'plain'}", ("local", cython, kind)))
    out.append(("group", ("group",)))
    out += [(f"odd-{k}", ("odd", k)) for k in range(4)]
    return out


def run_shard(c, kind, *args):
    globals()["shard_" + kind](c, *args)


NREC = 12


def shard_seg(c, cython, kind):
    d = c.newdir()
    pulse, noise = mkdata.pulse_files(d, 1, NREC, 40, ns=40, npre=12, early=(1, 4, 5, 8, 10))
    w = World(c, pulse, noise)
    recsize = 16 + 2 * 40
    ok, _ = c.run(f"{kind}:default", pipeline, w.ds, cython, kind)
    if not ok:
        return
    base = results(w.ds)
    c.check(np.isfinite(base["p_filt_value"]).all() and (base["p_filt_value"] != 0).all(), f"{kind}:base", f"{base['p_filt_value']}")
    c.check(base["p_shift1"].any() and not base["p_shift1"].all(), f"{kind}:shift", f"records that rise one sample early are {base['p_shift1']}")
    w.close()
    sizes = list(range(1, NREC + 3)) if c.thorough else [1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13]
    for k in sizes:
        for when, byte in ((0, 0), (1, recsize - 1), (2, 1), (3, 0)) if c.thorough else ((0, k % 3), (3, recsize - 1)):
            w = World(c, pulse, noise)

            def hook(step):
                if step == when:
                    if k % 2:
                        w.ds.pulse_records.set_segment_size(k * recsize + byte)
                    else:
                        w.g.set_segment_size(k * recsize + byte)
                    want = -(-NREC // k)
                    c.check(w.ds.pulse_records.n_segments == want and w.ds.pulse_records.pulses_per_seg == k, "n_segments",
                            f"{NREC} records, {k} per segment: {w.ds.pulse_records.n_segments} segments of {w.ds.pulse_records.pulses_per_seg}")
            ok, _ = c.run(f"{kind}:segments", pipeline, w.ds, cython, kind, hook)
            if ok:
                same(c, results(w.ds), base, f"{kind}:segments", f"{k} records per segment (set before step {when}) instead of one segment")
                # summaries of the whole file again, in these segments
                ok, _ = c.run(f"{kind}:again", w.ds.summarize_data, forceNew=True, use_cython=cython)
                if ok:
                    same(c, {x: np.array(getattr(w.ds, x)[:]) for x in P_SUM}, {x: base[x] for x in P_SUM}, f"{kind}:again",
                         f"{k} records per segment, summarized again")
            w.close()
            c.state(kind, cython, k, when)
            c.trans(4)
            c.trace()
    c.outcome(kind)


def shard_local(c, cython, kind):
    d = c.newdir()
    pulse, noise = mkdata.pulse_files(d, 1, NREC, 40, ns=40, npre=12, early=(1, 4, 5, 8, 10))
    w = World(c, pulse, noise)
    ok, _ = c.run(f"{kind}:default", pipeline, w.ds, cython, kind)
    if not ok:
        return
    # the base: with a stated peak time
    peak_us = 60.5
    w.ds.summarize_data(forceNew=True, use_cython=cython, peak_time_microsec=peak_us)
    flt, ftype = w.ds.filter, getattr(w.ds, "_filter_type", None)
    tr = double if kind.endswith("transform") else None
    fkw = dict(transform=tr, forceNew=True, **(dict(use_cython=False) if kind == "5lag-plain" else {}))
    w.ds.filter_data(**fkw)
    base = results(w.ds, False)
    samples = np.array(w.ds.data[:])
    times = [(int(a), int(round(b * 1e6))) for a, b in zip(w.ds.p_subframecount[:], w.ds.times[:])]
    w.close()
    orders = [tuple(range(NREC))[i:] + tuple(range(NREC))[:i] for i in range(1, NREC)]
    orders += [tuple(range(NREC))[::-1], tuple(range(0, NREC, 2)), tuple(range(1, NREC, 2)), (3, 3, 3, 4), (0, 0)]
    orders += [tuple(range(n)) for n in range(1, NREC)]
    orders += [(i,) for i in range(NREC)]
    for i in range(NREC - 1):
        o = list(range(NREC))
        o[i], o[i + 1] = o[i + 1], o[i]
        orders.append(tuple(o))
    if c.thorough:
        orders += list(itertools.permutations(range(5))) + list(itertools.combinations(range(NREC), 2))
    else:
        orders = orders[::2]
    for j, o in enumerate(orders):
        dd = c.newdir()
        p = Spec(nsamp=40, npre=12, rows=1, row=0, records=[(times[i][0], times[i][1], samples[i].tolist()) for i in o]).write(
            os.path.join(dd, "a_chan1.ljh"))
        w = World(c, p, noise)
        seg = 1 + j % 5
        w.ds.pulse_records.set_segment_size(seg * (16 + 80))
        ok, _ = c.run(f"{kind}:local-summary", w.ds.summarize_data, use_cython=cython, peak_time_microsec=peak_us)
        w.ds.filter, w.ds._filter_type = flt, ftype
        ok2, _ = c.run(f"{kind}:local-filter", w.ds.filter_data, **fkw)
        if ok and ok2:
            same(c, results(w.ds, False), {k: v[list(o)] for k, v in base.items()}, f"{kind}:local",
                 f"records {o} of the file, {seg} per segment")
        w.close()
        c.state(kind, cython, o)
        c.trans(2)
        c.trace()
    c.outcome("local")


def shard_big(c, cython):
    """One segment of more than 65535 records; a pulse of a different height in each."""
    n, ns, npre = 65535 + 70, 16, 6
    d = c.newdir()
    i = np.arange(n)
    h = 500 + (i * 37) % 50000
    t = np.arange(ns)
    shape = np.where(t < npre, 0, np.exp(-(t - npre) / 5.0))
    D = (1000 + (i[:, None] % 5 + t[None, :]) % 3 + np.round(h[:, None] * shape[None, :])).astype("<u2")
    rec = np.zeros(n, dtype=[("a", "<u8"), ("b", "<u8"), ("d", "<u2", ns)])
    rec["a"], rec["b"], rec["d"] = i * 3, 1_600_000_000_000_000 + i * 1000, D
    spec = Spec(nsamp=ns, npre=npre, rows=1, row=0, records=[])
    p = os.path.join(d, "a_chan1.ljh")
    with open(p, "wb") as fp:
        fp.write(spec.header() + rec.tobytes())
    import mass
    g = mass.TESGroup([p], hdf5_filename=os.path.join(d, "o.hdf5"), overwrite_hdf5_file=True)
    ds = g.channel[1]
    c.check(ds.nPulses == n and ds.pulse_records.n_segments == 1, "big:one-segment", f"{ds.nPulses} records in {ds.pulse_records.n_segments} segments")
    ok, _ = c.run("big:summarize", ds.summarize_data, use_cython=cython)
    if not ok:
        return
    one = {k: np.array(getattr(ds, k)[:]) for k in P_SUM}
    c.check(np.all(np.abs(one["p_peak_value"].astype(int) - h) <= 3), "big:peak", "a peak value is not the record's own")
    c.check(np.array_equal(one["p_subframecount"], i * 3), "big:time", "subframe counts")
    values = np.cos(np.arange(ns - 4)) - np.cos(np.arange(ns - 4)).mean()
    ds.filter = type("F", (), {"values": values, "dt_values": None})()
    ds._filter_type = "5lag"
    ok, _ = c.run("big:filter", ds.filter_data, use_cython=cython, forceNew=True)
    fv = ds.p_filt_value[:].copy()
    for per in (7777, 65535, 65536, n - 1, 40000):
        ds.pulse_records.set_segment_size(per * (16 + 2 * ns))
        ok, _ = c.run("big:again", ds.summarize_data, use_cython=cython, forceNew=True)
        if ok:
            same(c, {k: np.array(getattr(ds, k)[:]) for k in P_SUM}, one, "big", f"{per} records per segment instead of {n}")
        ok, _ = c.run("big:filter", ds.filter_data, use_cython=False, forceNew=True)
        if ok:
            c.check(np.allclose(ds.p_filt_value[:], fv, rtol=1e-5, atol=1e-2), "big:filtered", f"{per} records per segment: other filtered values")
        c.state("big", cython, per)
        c.trans(2)
        c.trace()
    g.hdf5_file.close()
    c.outcome("big")


def shard_group(c):
    """Two channels with different numbers of records: every segment size for the group."""
    import mass
    d = c.newdir()
    files = [mkdata.pulse_files(d, ch, n, 12, ns=40, npre=12, early=(1, 4, 5, 8, 10)) for ch, n in ((1, 5), (2, 9))]
    base = None
    for k in range(1, 12):
        for cython in (True, False):
            dd = c.newdir()
            g = mass.TESGroup([f[0] for f in files], [f[1] for f in files], hdf5_filename=os.path.join(dd, "o.hdf5"),
                              hdf5_noisefilename=os.path.join(dd, "n.hdf5"), overwrite_hdf5_file=True)
            ok, _ = c.run("group:set_segment_size", g.set_segment_size, k * 96)
            if not ok:
                return
            c.check(g.n_segments == -(-9 // k), "group:n_segments", f"9 records, {k} per segment: the group has {g.n_segments} segments")
            for i in range(9):
                a, b = g.segnum2sample_range(g.sample2segnum(i))
                c.check(a <= i < b, "group:segnum", f"record {i} is not in its segment {a}:{b}")
            c.run("group:summarize", g.summarize_data, use_cython=cython)
            c.check(len(g.why_chan_bad) == 0, "group:bad", f"{dict(g.why_chan_bad)}")
            res = {f"{ch}:{k2}": np.array(getattr(g.channel[ch], k2)[:]) for ch in (1, 2) for k2 in P_SUM}
            if cython:
                if base is None:
                    base = res
                same(c, res, base, "group", f"{k} records per segment")
            elif k > 1:
                same(c, res, plain, "group-plain", f"{k} records per segment")
            else:
                plain = res
            g.hdf5_file.close()
            g.hdf5_noisefile.close()
            c.state("group", k, cython)
            c.trans()
    c.outcome("group")


def shard_odd(c, k):
    """Summaries of records of every shape class (flat, spikes, late, early, saturated, decaying): alone, in pairs, in other orders."""
    import mass
    from checks.c_p04 import shapes, NS, NPRE
    S = shapes()[k::4]
    n = len(S)

    def summary(order, cython, seg, twice):
        d = c.newdir()
        p = Spec(nsamp=NS, npre=NPRE, rows=1, row=0, records=[(i * 7, 1_600_000_000_000_000 + i * 999, S[i].tolist()) for i in order]).write(
            os.path.join(d, "a_chan1.ljh"))
        g = mass.TESGroup([p], hdf5_filename=os.path.join(d, "o.hdf5"), overwrite_hdf5_file=True)
        ds = g.channel[1]
        ds.pulse_records.set_segment_size(seg * (16 + 2 * NS))
        ok, _ = c.run("odd:summarize", ds.summarize_data, use_cython=cython, peak_time_microsec=30.5)
        if twice:
            c.run("odd:summarize-again", ds.summarize_data, use_cython=not cython, peak_time_microsec=30.5, forceNew=True)
            c.run("odd:summarize-again", ds.summarize_data, use_cython=cython, peak_time_microsec=30.5, forceNew=True)
        r = {x: np.array(getattr(ds, x)[:]) for x in P_SUM}
        g.hdf5_file.close()
        return r
    orders = [(i,) for i in range(n)] + [tuple(range(n))[i:] + tuple(range(n))[:i] for i in range(1, n)] + [tuple(range(n))[::-1]]
    pairs = list(itertools.permutations(range(n), 2))
    orders += pairs if c.thorough else pairs[::3]
    for cython in (True, False):
        base = summary(range(n), cython, n, False)
        for j, o in enumerate(orders):
            r = summary(o, cython, 1 + j % 4, j % 5 == 0)
            same(c, r, {x: v[list(o)] for x, v in base.items()}, f"odd:{'fast' if cython else 'plain'}", f"records {o}")
            c.state("odd", k, cython, o)
            c.trans()
            c.trace()
    c.outcome("odd")
