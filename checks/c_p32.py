"""P32: pulse cuts are exactly the stated criteria."""
import contextlib
import io
import itertools
import os
import re
import shutil
import warnings

import numpy as np

from vlib.core import chunks
from vlib.ljh import Spec

PROPERTY = "P32"
EXPLAIN = """(1) cut_parameter: every pair of limits (also none) over values below, at, between and above them, infinite and NaN; every list of up to two (thorough: three) ranges with 'invert' at each
position; malformed criteria, which must be refused and change nothing; each by cut name and number, on pulses with and without that cut before.  (2) a data-set state is (cut flags, saved automatic cuts,
pulse quantities); transitions apply one or two criteria (each quantity of AnalysisControl, also of time differences and departure from the median), with and without clear and forceNew, clear, cut by
hand, compute automatic and smart cuts with their options, and reopen the HDF5 file.  All sequences to a depth run against a reference that evaluates each criterion per pulse.
(3) automatic cuts: a grid of noise files and pulses against their definition (medians and median absolute deviations over all noise records), and that ordinary pulses are kept.
(4) smart cuts: outliers planted in every quantity and position are cut, ordinary pulses kept, in any order of pulses."""
ASSUMPTIONS = ["limits are numbers or None; for smart cuts the ordinary pulses are one cluster and outliers are fewer than a quarter of the pulses",
               "the pulse-number limit of smart cuts' training is not below the number of pulses, except where outliers come later"]
CHAN = 3


def shards(tier):
    out = [(f"param{i}", (param, i)) for i in range(2)]
    out += [(f"seq{i}", (seq, i)) for i in range(8)]
    out += [(f"auto{i}", (auto, i)) for i in range(2)]
    out += [(f"smart{i}", (smart, i)) for i in range(2)]
    return out


def run_shard(c, fn, *a):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    fn(c, *a)


def pulses(d, n, chan=CHAN, name="a", ns=16, npre=8, level=1000, amp=600, wiggle=3):
    recs = []
    for i in range(n):
        base = [level + (7 * i + 3 * k * k + i * k) % wiggle for k in range(ns)]
        for k in range(npre, ns):
            base[k] += max(0, int(amp * (1.0 if k == npre + 1 else 0.8 ** abs(k - npre - 1)))) if amp else 0
        recs.append((1000 * i * i + 500 * i, 1_600_000_000_000_000 + 20_000 * i * (i + 1), base))
    return Spec(nsamp=ns, npre=npre, rows=1, row=0, timebase="1e-5", records=recs).write(os.path.join(d, f"{name}_chan{chan}.ljh"))


# ---------------------------------------------------------------- single criteria
def param(c, part):
    import mass
    d = c.newdir()
    data = np.array([-2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, np.inf, -np.inf, np.nan])
    n = data.size
    g = mass.TESGroup([pulses(d, n)], hdf5_filename=os.path.join(d, "o.hdf5"))
    cuts = g.channel[CHAN].cuts
    names = [x.decode() for x in g.boolean_cut_desc["name"] if x]
    lim = [None, -1, 0, 0.0, 0.5, 1, 2.0, np.inf, -np.inf]
    pairs = list(itertools.product(lim, repeat=2))
    rng = list(itertools.product([None, -1, 0.0, 0.5, 1], [None, 0, 0.5, 2.0]))
    specs = [("pair", p) for p in pairs] + [("pair", list(p)) for p in pairs[::5]]
    for k in (1, 2, 3) if c.thorough else (1, 2):
        for rs in itertools.product(rng if k < 3 else rng[::3], repeat=k):
            specs.append(("ranges", rs))
            for pos in range(k + 1):
                specs.append(("invert", (*rs[:pos], "invert", *rs[pos:])))
    for idx, (kind, spec) in enumerate(specs):
        if idx % 2 != part:
            continue
        dd = dict(allowed=spec)
        if kind == "pair":
            a, b = spec
            keep = np.array([(a is None or x > a) and (b is None or x < b) for x in data])
        else:
            rs = [r for r in spec if r != "invert"]
            keep = np.array([any((a is None or x >= a) and (b is None or x <= b) for a, b in rs) for x in data])
            if kind == "invert":
                keep = ~keep
        cid = "energy" if (idx // 2) % 3 else names.index("energy")
        before = (np.arange(n) % 3 == 0) if (idx // 2) % 2 else np.zeros(n, bool)
        cuts.clear_cut()
        cuts.cut("timing", np.arange(n) % 2 == 1)
        cuts.cut("energy", before)
        order = np.roll(np.arange(n), idx)
        ok, _ = c.run(f"param-{kind}", cuts.cut_parameter, data[order], spec, cid)
        if not ok:
            continue
        want = keep[order] & ~before
        got = cuts.good("energy")
        c.check(np.array_equal(got, want), f"param-{kind}", lambda: f"values {data[order]}: kept {data[order][got]}, expected {data[order][want]}", **dd)
        c.check(np.array_equal(cuts.good("timing"), np.arange(n) % 2 == 0), "param-others", "another cut changed", **dd)
        c.state((kind, spec))
        c.trans()
    if part:
        return
    # refused criteria change nothing
    for spec in [(1,), (1, 2, 3), ((0, 1), (1,)), ((0, 1), (1, 2, 3)), ((0, 1), "inverted"), ((0, 1), 7), ((0, 1), None)]:
        cuts.clear_cut()
        try:
            cuts.cut_parameter(data, spec, "energy")
        except (ValueError, TypeError, IndexError):
            pass
        else:
            c.violate("param-accepts", f"cut_parameter accepts {spec}", allowed=spec)
        c.check(cuts.good().all(), "param-refused", "a refused criterion cut pulses", allowed=spec)
        c.state(("refuse", spec))
    for cid in ("nonsense", 32, -1, 31):
        try:
            cuts.cut_parameter(data, (0, 1), cid)
        except ValueError:
            pass
        else:
            c.violate("param-cut-id", f"cut_parameter accepts the cut {cid!r}", cut=cid)
        c.check(cuts.good().all(), "param-refused", "a refused cut changed pulses", cut=cid)
    cuts.cut_parameter(data, None, "energy")
    c.check(cuts.good().all(), "param-none", "no criterion cuts pulses")
    c.sample({"allowed": specs[-1][1]})
    g.hdf5_file.close()


# ---------------------------------------------------------------- sequences on a data set
N = 12
KEYS = {  # cut name -> limits to use
    "energy": (None, 50.0), "pretrigger_rms": (None, 7.5), "pretrigger_mean": (1001.5, 1008.5), "peak_time_ms": (0, 0.55), "rise_time_ms": (0.05, None),
    "postpeak_deriv": (None, 8), "pulse_average": ((100.0, 300.0), (500.0, None)), "peak_value": ("invert", (300, 310)), "min_value": (-30.0, 5.0),
    "timestamp_sec": (None, 1.6e9 + 2.0), "timestamp_diff_sec": (0.1, None), "subframecount_diff_sec": (0.05, 0.16), "pretrigger_mean_departure_from_median": (-3.5, 2.5)}


def q(i, mult, m):
    return (np.arange(N) * mult + i) % m


def fill(ds):
    """Known pulse quantities."""
    v = {"p_energy": 20.0 + 3.3 * q(1, 5, 12), "p_pretrig_rms": 2.0 + 0.7 * q(2, 7, 12), "p_pretrig_mean": 1000.0 + q(0, 5, 12), "p_peak_time": 1e-4 * (1 + 0.5 * q(3, 7, 12)),
         "p_rise_time": 1e-5 * (3 + q(4, 5, 12)), "p_postpeak_deriv": q(5, 7, 11), "p_pulse_average": 100.0 * q(1, 7, 8), "p_peak_value": 295 + 2 * q(6, 5, 12), "p_min_value": 990.0 + q(7, 11, 12)}
    for k, x in v.items():
        getattr(ds, k)[:] = x
    v["p_energy"][4] = np.nan
    ds.p_energy[4] = np.nan
    return {k: getattr(ds, k)[:].astype(float) if k not in ("p_peak_value", "p_postpeak_deriv") else getattr(ds, k)[:] for k in v}


def inside(x, spec):
    if isinstance(spec[0], tuple) or spec[0] == "invert":
        rs = [r for r in spec if r != "invert"]
        k = np.array([any((a is None or y >= a) and (b is None or y <= b) for a, b in rs) for y in x])
        return ~k if "invert" in spec else k
    a, b = spec
    return np.array([(a is None or y > a) and (b is None or y < b) for y in x])


class Ref:
    def __init__(self, ds, v, names):
        self.v = v
        self.t = ds.p_timestamp[:].astype(float)
        self.sub = np.array([int(x) for x in ds.p_subframecount[:]], object)
        self.cut = {k: np.zeros(N, bool) for k in names}
        self.saved = None

    def good(self):
        return ~np.any(list(self.cut.values()), axis=0)

    def quantity(self, key):
        v = self.v
        if key == "min_value":
            return v["p_min_value"] - v["p_pretrig_mean"]
        if key in ("peak_time_ms", "rise_time_ms"):
            return 1000 * v["p_" + key[:-3]]
        if key == "timestamp_sec":
            return self.t
        if key == "timestamp_diff_sec":
            return np.array([np.inf] + [b - a for a, b in zip(self.t[:-1], self.t[1:])])
        if key == "subframecount_diff_sec":
            return np.array([np.inf] + [float(b - a) * 1e-5 for a, b in zip(self.sub[:-1], self.sub[1:])])
        names = {"energy": "p_energy", "pretrigger_rms": "p_pretrig_rms", "pretrigger_mean": "p_pretrig_mean"}
        return v[names.get(key, "p_" + key)]

    def apply(self, prm):
        for k, spec in prm.items():
            if k != "pretrigger_mean_departure_from_median":
                self.cut[k] |= ~inside(self.quantity(k), spec)
        k = "pretrigger_mean_departure_from_median"
        if k in prm and self.good().any():
            p = self.v["p_pretrig_mean"]
            s = np.sort(p[self.good()])
            med = (s[(s.size - 1) // 2] + s[s.size // 2]) / 2
            self.cut[k] |= ~inside(p - med, prm[k])


def auto_limits(noise, npre, peak, tb, nrms, nder, pct=None, rms=None):
    """The limits auto_cuts should choose."""
    def rob(x):
        s = np.median(x)
        return s, 1.4826 * np.median(np.abs(np.asarray(x) - s))
    r = [float(np.sqrt(np.mean((np.array(y[:npre], float) - np.mean(y[:npre]))**2))) for y in noise]
    m = []
    for y in noise:
        y = [float(z) for z in y]
        conv = [0.2 * y[k + 4] + 0.1 * y[k + 3] - 0.1 * y[k + 1] - 0.2 * y[k] for k in range(len(y) - 4)]
        m.append(max(min(conv[k], conv[k + 2]) for k in range(len(conv) - 2)))
    (rm, rs), (mm, ms) = rob(r), rob(m)
    top = max(0.0, rm + nrms * rs)
    if pct is not None:
        top = max(top, np.percentile(rms, pct))
    ms_peak = (3 + peak - npre) * tb * 1000
    return {"peak_time_ms": (0, 1.25 * ms_peak), "rise_time_ms": (0, 1.1 * ms_peak), "pretrigger_rms": (None, top), "postpeak_deriv": (None, mm + nder * ms)}, (rm, rs)


def seq(c, part):
    import mass
    d = c.newdir()
    fn, nf = pulses(d, N), noisefile(d, "n", 9, 0)
    base = os.path.join(d, "base.hdf5")
    g = mass.TESGroup([fn], [nf], hdf5_filename=base, hdf5_noisefilename=os.path.join(d, "nb.hdf5"))
    g.summarize_data()
    fill(g.channel[CHAN])
    names = [x.decode() for x in g.boolean_cut_desc["name"] if x]
    g.hdf5_file.close()
    g.hdf5_noisefile.close()
    keys = list(KEYS)
    single = [("apply", (k,), cl, True) for k in keys for cl in (False,)]
    pairs = [("apply", (keys[i], keys[(i + 1 + i % 5) % len(keys)]), i % 2 == 0, i % 3 != 0) for i in range(len(keys))]
    pairs += [("apply", (k, "pretrigger_mean_departure_from_median"), False, True) for k in keys[:-1:2]]
    other = [("apply", tuple(keys), False, True), ("apply", (keys[3],), True, False), ("apply", (keys[-1],), False, False), ("clear",), ("hand", "timing"), ("hand", "pretrigger_mean"), ("hand", "all"),
             ("auto", {}), ("auto", {"forceNew": True, "nsigma_pt_rms": 3.0}), ("auto", {"clearCuts": False, "nsigma_max_deriv": 1.0}),
             ("auto", {"pretrig_rms_percentile": 70, "forceNew": True}), ("auto", {"pretrig_rms_percentile": 95, "forceNew": True, "clearCuts": False}), ("reopen",), ("summary",)]
    acts = single + pairs + other
    if c.thorough:
        seqs = list(itertools.product(acts, repeat=2)) + list(itertools.product(acts[::2], acts, acts[1::2])) + list(itertools.product(other, repeat=3))
    else:
        seqs = list(itertools.product(acts, repeat=2)) + list(itertools.product(acts[::5], other[2:], acts[2::6]))
    seqs = chunks(seqs, 8)[part]
    noise = noise_records(9, 0)
    for s in seqs:
        out, nout = os.path.join(d, "o.hdf5"), os.path.join(d, "no.hdf5")
        shutil.copy(base, out)
        shutil.copy(os.path.join(d, "nb.hdf5"), nout)

        def opened():
            return mass.TESGroup([fn], [nf], hdf5_filename=out, hdf5_noisefilename=nout)
        g = opened()
        ds = g.channel[CHAN]
        R = Ref(ds, {k: getattr(ds, k)[:].astype(float) for k in ("p_energy", "p_pretrig_rms", "p_pretrig_mean", "p_peak_time", "p_rise_time", "p_postpeak_deriv", "p_pulse_average", "p_peak_value", "p_min_value")}, names)
        for i, a in enumerate(s):
            dd = dict(steps=s[:i + 1])
            c.state(s[:i + 1])
            sig = a[0]
            if a[0] == "apply":
                prm = {k: KEYS[k] for k in a[1]}
                ok, _ = c.run("seq-apply", ds.apply_cuts, mass.AnalysisControl(**prm), clear=a[2], forceNew=a[3])
                if not ok:
                    break
                if a[3] or R.good().all():
                    if a[2]:
                        R.cut = {k: np.zeros(N, bool) for k in names}
                        R.saved = None
                    R.apply(prm)
            elif a[0] == "clear":
                ds.clear_cuts()
                R.cut = {k: np.zeros(N, bool) for k in names}
                R.saved = None
            elif a[0] == "hand":
                m = np.ones(N, bool) if a[1] == "all" else q(2, 5, 12) < 3
                k = "timing" if a[1] == "all" else a[1]
                ds.cuts.cut(k, m)
                R.cut[k] |= m
            elif a[0] == "auto":
                ok, got = c.run("seq-auto", ds.auto_cuts, **a[1])
                if not ok:
                    break
                if R.saved is None or a[1].get("forceNew"):
                    if a[1].get("clearCuts", True):
                        R.cut = {k: np.zeros(N, bool) for k in names}
                    R.saved, R.med = auto_limits(noise, 8, 9, 1e-5, a[1].get("nsigma_pt_rms", 8.0), a[1].get("nsigma_max_deriv", 8.0), a[1].get("pretrig_rms_percentile"), R.v["p_pretrig_rms"])
                    R.apply(R.saved)
            elif a[0] == "reopen":
                g.hdf5_file.close()
                g.hdf5_noisefile.close()
                g = opened()
                ds = g.channel[CHAN]
            elif a[0] == "summary":
                summary(c, ds, R, dd)
            cm = ds.cuts.cut_mask(*names)
            for k in names:
                c.check(np.array_equal(cm[k], ~R.cut[k]), f"seq-{sig}", lambda: f"cut {k} keeps pulses {np.flatnonzero(cm[k])}, expected {np.flatnonzero(~R.cut[k])}", **dd)
            c.check(np.array_equal(ds.good(), R.good()) and np.array_equal(ds.bad(), ~R.good()), "seq-good", lambda: f"good() is {ds.good()}", **dd)
            sv = ds.saved_auto_cuts
            if R.saved is None:
                c.check(sv is None, f"saved-{sig}", "automatic cuts are said to exist", **dd)
            elif c.check(sv is not None, f"saved-{sig}", "automatic cuts are lost", **dd):
                want = dict(R.saved, **{k: None for k in sv.cuts_prm if k not in R.saved})
                same = all((sv.cuts_prm[k] is None) == (w is None) and (w is None or (sv.cuts_prm[k][0] == w[0] and abs(sv.cuts_prm[k][1] - w[1]) < 1e-5 * (1 + abs(w[1])))) for k, w in want.items())
                c.check(same, f"saved-{sig}", lambda: f"saved cuts are {sv.cuts_prm}, expected {want}", **dd)
                c.check(abs(sv._pretrig_rms_median - R.med[0]) < 1e-6 and abs(sv._pretrig_rms_sigma - R.med[1]) < 1e-6, "saved-noise", "saved noise level differs", **dd)
            c.trans()
        g.hdf5_file.close()
        g.hdf5_noisefile.close()
        c.trace()
    c.sample({"steps": seqs[-1]})


def summary(c, ds, R, dd):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ok, _ = c.run("summary", ds.cut_summary)
    if not ok:
        return
    text = out.getvalue()
    pair = {(m[2], m[3]): (int(m[0]), int(m[1])) for m in re.findall(r"^ *(\d+) \(and\) *%? *(\d+) \(or\) pulses cut by \[(\S+) and/or (\S+)\]", text, re.M)}
    one = {m[1]: int(m[0]) for m in re.findall(r"^ *(\d+) pulses cut by (\S+)$", text, re.M)}
    for k, v in R.cut.items():
        c.check(one.get(k.upper()) == v.sum(), "summary-one", lambda: f"{k}: says {one.get(k.upper())} pulses, {v.sum()} are cut", **dd)
        for k2, v2 in R.cut.items():
            if k2 != k:
                c.check(pair.get((k.upper(), k2.upper())) == ((v & v2).sum(), (v | v2).sum()), "summary-pair", lambda: f"{k}, {k2}: {pair.get((k.upper(), k2.upper()))}", **dd)
    c.check(re.search(rf"^ *{N} pulses total", text, re.M), "summary-total", "number of pulses is wrong", **dd)


# ---------------------------------------------------------------- automatic cuts
def noise_records(n, kind, ns=16):
    recs = []
    for i in range(n):
        k = np.arange(ns)
        amp = {0: 4 + (3 * i) % 5, 1: 6, 2: 2 if i % 4 else 40, 3: 0, 4: 3 + i}[kind]
        y = 1000 + np.rint(amp * np.sin(1.7 * k * (1 + 0.13 * i) + i)).astype(int) + (np.rint(0.9 * i * k).astype(int) if kind == 4 else 0)
        recs.append([int(v) for v in y])
    return recs


def noisefile(d, name, n, kind, chan=CHAN):
    recs = [(100 * i, 1_599_000_000_000_000 + 1000 * i, y) for i, y in enumerate(noise_records(n, kind))]
    return Spec(nsamp=16, npre=(8, 5)[(n + kind) % 2], rows=1, row=0, timebase="1e-5", records=recs).write(os.path.join(d, f"{name}_chan{chan}.ljh"))


def auto(c, part):
    import mass
    grid = list(itertools.product(range(5), (1, 2, 5, 8), (0.0, 3.0, 8.0), (0.0, 8.0), (None, 0, 50, 100)))
    for i, (kind, nn, s1, s2, pct) in enumerate(grid):
        if i % 2 != part:
            continue
        dd = dict(noise=kind, records=nn, nsigma_pt_rms=s1, nsigma_max_deriv=s2, percentile=pct)
        d = c.newdir()
        fn, nf = pulses(d, 10), noisefile(d, "n", nn, kind)
        g = mass.TESGroup([fn], [nf], hdf5_filename=os.path.join(d, "o.hdf5"), hdf5_noisefilename=os.path.join(d, "no.hdf5"))
        g.summarize_data()
        ds = g.channel[CHAN]
        rms = ds.p_pretrig_rms[:].astype(float)
        lim, med = auto_limits(noise_records(nn, kind), 8, 9, 1e-5, s1, s2, pct, rms)
        ok, got = c.run("auto", ds.auto_cuts, nsigma_pt_rms=s1, nsigma_max_deriv=s2, pretrig_rms_percentile=pct)
        c.state((kind, nn, s1, s2, pct))
        if ok:
            for k, w in lim.items():
                c.check(abs(got.cuts_prm[k][1] - w[1]) < 1e-5 * (1 + abs(w[1])), f"auto-{k}", lambda: f"limits {got.cuts_prm[k]}, expected {w}", **dd)
            for k, x in {"peak_time_ms": 1e3 * ds.p_peak_time[:], "rise_time_ms": 1e3 * ds.p_rise_time[:], "pretrigger_rms": rms, "postpeak_deriv": ds.p_postpeak_deriv[:]}.items():
                c.check(np.array_equal(ds.good(k), inside(x, got.cuts_prm[k])), f"auto-cut-{k}", lambda: f"kept {ds.good(k)} of {x} with {got.cuts_prm[k]}", **dd)
            c.check(ds.good("peak_time_ms").all() and ds.good("rise_time_ms").all(), "auto-ordinary", "ordinary pulses were cut", **dd)
        g.hdf5_file.close()
        g.hdf5_noisefile.close()
        shutil.rmtree(d)
        c.trans()
    c.sample(dd)


# ---------------------------------------------------------------- smart cuts
def smart(c, part):
    import mass
    n = 60
    d = c.newdir()
    fn = pulses(d, n)
    base = os.path.join(d, "b.hdf5")
    g = mass.TESGroup([fn], hdf5_filename=base)
    g.summarize_data()
    g.hdf5_file.close()
    attrs = ["p_pretrig_mean", "p_pretrig_rms", "p_min_value", "p_postpeak_deriv"]

    def u(i):
        return 2 * ((np.arange(n) + 1) * (0.61803398875, 0.7548776662, 0.5698402910, 0.3247179572)[i] % 1) - 1
    centre, size = [1000.0, 30.0, 900.0, 50.0], [10.0, 8.0, 10.0, 40.0]
    outliers = [()] + [((p, j, s),) for p in (0, 17, 59) for j in range(4) for s in (30, -30)] + [((3, 0, 40), (40, 1, 40), (55, 3, 40)), ((58, 2, 40), (59, 2, 40), (0, 3, 40)), ((1, 0, 25), (2, 1, -25), (3, 2, 25), (4, 3, 25))]
    for i, (out, perm) in enumerate(itertools.product(outliers, (0, 23, 41) if c.thorough else (0, 23))):
        if i % 2 != part:
            continue
        dd = dict(outliers=out, roll=perm)
        o = os.path.join(d, "o.hdf5")
        shutil.copy(base, o)
        g = mass.TESGroup([fn], hdf5_filename=o)
        ds = g.channel[CHAN]
        v = [centre[j] + size[j] * u(j) for j in range(4)]
        for p, j, s in out:
            v[j][p] = centre[j] + s * size[j]
        for j, at in enumerate(attrs):
            x = np.roll(v[j], perm)
            if at == "p_postpeak_deriv":
                x = np.clip(x + 2000, 0, 65535)
            getattr(ds, at)[:] = x
        want = np.ones(n, bool)
        want[[(p + perm) % n for p, _, _ in out]] = False
        np.random.seed(3)
        kw = {} if perm else {"n_trainings": 40}
        ok, _ = c.run("smart", ds.smart_cuts, **kw)
        c.state((out, perm))
        if ok:
            got = ds.cuts.good("smart_cuts")
            c.check(np.array_equal(got, want), "smart", lambda: f"cut pulses {np.flatnonzero(~got)}, expected {np.flatnonzero(~want)}", **dd)
            c.check(np.array_equal(ds.good(), got), "smart-others", "other cuts changed", **dd)
            # done once, it is not done again unless asked
            ds.p_pretrig_mean[30] = 5e5
            ds.smart_cuts()
            again = ds.cuts.good("smart_cuts")
            if out:
                c.check(np.array_equal(again, got), "smart-again", "smart cuts were done again", **dd)
            ds.smart_cuts(forceNew=True)
            got[30] = False
            c.check(np.array_equal(ds.cuts.good("smart_cuts"), got), "smart-force", "forced smart cuts are wrong", **dd)
        g.hdf5_file.close()
        c.trans()
    c.sample(dd)
