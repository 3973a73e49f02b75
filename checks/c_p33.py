"""P33: averages, rates, calibrations and line fits of LJH data use exactly the selected pulses."""
import itertools
import os
import shutil
import warnings

import numpy as np

from vlib.core import chunks
from vlib.ljh import Spec

PROPERTY = "P33"
EXPLAIN = """(1) averages: every subset of six records as a mask (booleans or zeros and ones), with and without subtracted baseline, of normal and inverted data, in a channel and in the group, against the mean
of exactly those records; every range of pulse sizes over boundary values with gains; (2) a data-set state is (cuts, categories, average pulse, bad channels); transitions cut, average by mask, by
range, automatically (with each limit on the number), forced or not, invert, mark a channel bad, and reopen: all sequences to a depth, comparing the average, the first good records for each number
and category, and single records, each time.  (3) counting rates for every placement of a few pulses on a grid of bins.  (4) calibration and line fits: planted spectra of lines, every selection (cuts, categories, times, function), with
excluded pulses moved, which must not matter; results must go through the lines, apply to every pulse, and be found again after reopening; failing channels are marked alone.
(5) filters and filtered values: pulses of one exact shape in every order of sizes, filter kinds, cuts and repeated, forced or reopened steps."""
ASSUMPTIONS = ["the pretrigger period is longer than the samples ignored in it; a mask selects at least one record", "gains are positive; spectra for calibration have thousands of counts in each line and few elsewhere"]
CH = (1, 4)
NP, NS, NPRE = 6, 12, 6


def shards(tier):
    out = [(f"avg{i}", (avg, i)) for i in range(2)] + [("masks", (masks,)), ("rate", (rate,))]
    out += [(f"seq{i}", (seq, i)) for i in range(6)]
    out += [(f"cal{i}", (cal, i)) for i in range(4)] + [(f"fit{i}", (fit, i)) for i in range(2)]
    out += [(f"filt{i}", (filt, i)) for i in range(4)] + [("filtseq", (filtseq,)), ("small", (small,))]
    return out


def run_shard(c, fn, *a):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    fn(c, *a)


def records(ch):
    out = []
    for i in range(NP):
        amp = (400, 410, 390, 800, 405, 1600)[(i + ch) % NP]
        out.append([1000 + (i * i + 3 * k * (i + ch)) % 11 + (int(amp * 0.9 ** (k - NPRE)) if k >= NPRE else 0) for k in range(NS)])
    return out


def group(c, d, **kw):
    import mass
    files = []
    for ch in CH:
        recs = [(1000 * i, 1_600_000_000_000_000 + 1_000_000 * i, y) for i, y in enumerate(records(ch))]
        files.append(Spec(nsamp=NS, npre=NPRE, rows=1, row=0, timebase="1e-5", records=recs).write(os.path.join(d, f"a_chan{ch}.ljh")))
    g = mass.TESGroup(files, hdf5_filename=os.path.join(d, "o.hdf5"), **kw)
    return g, files


def mean(recs, mask, sub, inv, ignore=3):
    sel = [r for r, m in zip(recs, mask) if m]
    if inv:
        sel = [[65535 - x for x in r] for r in sel]
    m = np.array([sum(r[k] for r in sel) / len(sel) for k in range(NS)])
    if sub:
        m = m - sum(m[:NPRE - ignore]) / (NPRE - ignore)
    return m


def same(a, b, scale=65536):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - b) <= 1e-6 * scale))


def avg(c, part):
    d = c.newdir()
    g, _ = group(c, d)
    ignore = (3, 2)[part]
    g.summarize_data(**({} if part == 0 else dict(pretrigger_ignore_microsec=20)))
    for inv, sub in itertools.product((False, True), repeat=2):
        for ds in g:
            ds.invert_data = inv
        for m in range(1, 2 ** NP):
            if m % 2 != part:
                continue
            mask = np.array([(m >> k) & 1 for k in range(NP)], bool)
            other = np.roll(mask, 1 + m % 3)
            dd = dict(mask=mask.tolist(), subtract=sub, inverted=inv)
            c.state(m, inv, sub)
            ds = g.channel[1]
            ok, _ = c.run("average", ds.compute_average_pulse, mask, subtract_mean=sub, forceNew=True)
            if ok:
                w = mean(records(1), mask, sub, inv, ignore)
                c.check(same(ds.average_pulse[:], w), "average", lambda: f"average {ds.average_pulse[:]}, expected {w}", **dd)
            # in the group, with each kind of mask
            kinds = [[mask, other], [mask.astype(int), other.astype(np.uint8)], [mask.astype(float), other]]
            ok, _ = c.run("group-average", g.compute_average_pulse, kinds[m % 3], subtract_mean=sub, forceNew=True)
            if ok:
                for ch, mm in zip(CH, (mask, other)):
                    w = mean(records(ch), mm, sub, inv, ignore)
                    c.check(same(g.channel[ch].average_pulse[:], w), "group-average", lambda: f"channel {ch}: average {g.channel[ch].average_pulse[:]}, expected {w}", **dd)
            before = [g.channel[ch].average_pulse[:] for ch in CH]
            # not again, unless forced
            g.compute_average_pulse([other, mask], subtract_mean=sub)
            c.check(all(np.array_equal(b, g.channel[ch].average_pulse[:]) for b, ch in zip(before, CH)), "average-again", "an average that exists was replaced", **dd)
            for bad in ([mask], [mask, other, mask], [mask.tolist(), other]):
                try:
                    g.compute_average_pulse(bad, forceNew=True)
                    c.violate("average-accepts", "masks that do not fit the channels were accepted", **dd)
                except ValueError:
                    pass
            c.check(all(np.array_equal(b, g.channel[ch].average_pulse[:]) for b, ch in zip(before, CH)), "average-refused", "refused masks changed an average", **dd)
            c.trans()
    c.sample(dd)
    g.hdf5_file.close()


def masks(c):
    d = c.newdir()
    g, _ = group(c, d)
    g.summarize_data()
    vals = {"pulse_avg_range": "p_pulse_average", "pulse_peak_range": "p_peak_value", "pulse_rms_range": "p_pulse_rms"}
    cutsets = [np.zeros(NP, bool), np.arange(NP) % 2 == 0, np.ones(NP, bool)]
    for (kw, attr), cutset, gains in itertools.product(vals.items(), cutsets, (None, (1.0, 1.0), (1.0, 2.0), (0.5, 4.0))):
        gg = gains or (1.0, 1.0)
        for ch in CH:
            g.channel[ch].cuts.clear_cut()
            g.channel[ch].cuts.cut("timing", cutset)
        v = {ch: getattr(g.channel[ch], attr)[:].astype(float) / gn for ch, gn in zip(CH, gg)}
        s = np.unique(np.concatenate(list(v.values())))
        edges = [s[0] - 1, *(0.5 * (s[1:] + s[:-1]))[::2], s[-1] + 1]
        exact = kw == "pulse_peak_range"
        if exact:
            edges += list(s[::3])
        for a, b in itertools.product(edges, repeat=2):
            if a > b:
                continue
            dd = dict(range=kw, limits=(a, b), gains=gains, cut=cutset.tolist())
            ok, got = c.run("masks", g.make_masks, gains=gains, **{kw: (a, b)})
            c.state(kw, a, b, gains, cutset.sum())
            if not ok:
                return
            for ch, m in zip(CH, got):
                w = np.array([(a <= x <= b) for x in v[ch]]) & ~cutset
                c.check(np.array_equal(m, w), "masks", lambda: f"channel {ch}: mask {m}, expected {w} of {v[ch]}", **dd)
            c.trans()
    try:
        g.make_masks()
        c.violate("masks-none", "make_masks without range does not fail")
    except ValueError:
        pass
    c.sample(dd)
    g.hdf5_file.close()


# ---------------------------------------------------------------- sequences
class Ref:
    def __init__(self):
        self.cut = {ch: np.zeros(NP, bool) for ch in CH}
        self.lab = {ch: np.zeros(NP, int) for ch in CH}
        self.avg = {ch: np.zeros(NS) for ch in CH}
        self.bad = set()
        self.inv = False


def seq(c, part):
    import mass
    d = c.newdir()
    g, files = group(c, d)
    g.register_categorical_cut_field("beam", ["off", "on"], "off")
    g.summarize_data()
    size = {ch: g.channel[ch].p_pulse_average[:].astype(float) for ch in CH}
    peak = {ch: g.channel[ch].p_peak_value[:].astype(float) for ch in CH}
    g.hdf5_file.close()
    shutil.copy(os.path.join(d, "o.hdf5"), os.path.join(d, "base.hdf5"))
    acts = [("cut", 1), ("cut", 2), ("cut", 5), ("uncut",), ("label", 3), ("label", 4), ("mask", 5, True, False), ("mask", 6, False, True), ("range", (300, 1000), True), ("auto", 7000, False), ("auto", 2, True),
            ("auto", 1, True), ("invert",), ("bad", CH[1]), ("good", CH[1]), ("reopen",), ("subtract-auto", False)]
    depth = 3 if c.thorough else 2
    seqs = list(itertools.product(acts, repeat=depth))
    if not c.thorough:
        seqs += [(a, b, e) for a, b, e in itertools.product(acts[:4:2], acts[4:], acts[8:12])]
    for s in chunks(seqs, 6)[part]:
        shutil.copy(os.path.join(d, "base.hdf5"), os.path.join(d, "o.hdf5"))
        g = mass.TESGroup(files, hdf5_filename=os.path.join(d, "o.hdf5"))
        R = Ref()
        for i, a in enumerate(s):
            dd = dict(steps=s[:i + 1])
            c.state(s[:i + 1])
            g, ok = step(c, g, files, R, a, size, peak, dd, d)
            if not ok:
                break
            look(c, g, R, a, dd)
            c.trans()
        g.hdf5_file.close()
        c.trace()
    c.sample({"steps": s})


def step(c, g, files, R, a, size, peak, dd, d):
    import mass
    k = a[0]
    live = [ch for ch in CH if ch not in R.bad]
    if k == "cut":
        m = np.arange(NP) % (a[1] + 1) == 0
        for ch in CH:
            g.channel[ch].cuts.cut("timing", m)
            R.cut[ch] |= m
    elif k == "uncut":
        for ch in CH:
            g.channel[ch].cuts.clear_cut()
            R.cut[ch][:] = False
    elif k == "label":
        for ch in CH:
            R.lab[ch] = np.where(np.arange(NP) >= a[1], 1, 0)
            g.channel[ch].cuts.cut_categorical("beam", {"off": R.lab[ch] == 0, "on": R.lab[ch] == 1})
    elif k == "mask":
        m = np.array([(x * a[1]) % 4 < 2 for x in range(NP)])
        ok, _ = c.run("seq-mask", g.compute_average_pulse, [m, ~m], subtract_mean=a[2], forceNew=a[3])
        if not ok:
            return g, False
        for ch, mm in zip(CH, (m, ~m)):
            if ch in live and (a[3] or not R.avg[ch].any()):
                R.avg[ch] = mean(records(ch), mm, a[2], R.inv)
    elif k == "range":
        ok, ms = c.run("seq-range", g.make_masks, pulse_peak_range=a[1])
        if not ok:
            return g, False
        want = [(peak[ch] >= a[1][0]) & (peak[ch] <= a[1][1]) & ~R.cut[ch] for ch in CH]
        for ch, m, w in zip(CH, ms, want):
            c.check(np.array_equal(m, w), "seq-masks", lambda: f"channel {ch}: {m}, expected {w}", **dd)
        if all(w.any() for w in want):
            g.compute_average_pulse(ms, forceNew=a[2])
            for ch, w in zip(CH, want):
                if ch in live:
                    R.avg[ch] = mean(records(ch), w, True, R.inv)
    elif k in ("auto", "subtract-auto"):
        kw = dict(max_pulses_to_use=a[1], forceNew=a[2]) if k == "auto" else dict(subtract_mean=a[1], forceNew=True)
        force = kw["forceNew"]
        g.avg_pulses_auto_masks(**kw)
        for ch in live:
            use = ~R.cut[ch]
            if not use.any():
                R.bad.add(ch)
                continue
            med = np.median(size[ch][use])
            use &= np.abs(size[ch] / med - 1) < 0.05
            if not use.any():
                R.bad.add(ch)
                continue
            use[np.flatnonzero(use)[kw.get("max_pulses_to_use", 7000):]] = False
            if force or not R.avg[ch].any():
                R.avg[ch] = mean(records(ch), use, kw.get("subtract_mean", True), R.inv)
    elif k == "invert":
        R.inv = not R.inv
        for ch in CH:
            g.channel[ch].invert_data = R.inv
    elif k == "bad":
        g.set_chan_bad(a[1], "test")
        R.bad.add(a[1])
    elif k == "good":
        if a[1] in R.bad:
            g.set_chan_good(a[1])
            R.bad.discard(a[1])
    elif k == "reopen":
        g.hdf5_file.close()
        g = mass.TESGroup(files, hdf5_filename=os.path.join(d, "o.hdf5"))
        for ch in CH:
            g.channel[ch].invert_data = R.inv
    return g, True


def look(c, g, R, a, dd):
    sig = a[0]
    c.check(sorted(g.good_channels) == [ch for ch in CH if ch not in R.bad], f"{sig}-channels", lambda: f"good channels {g.good_channels}, expected all but {R.bad}", **dd)
    for ci, ch in enumerate(CH):
        ds = g.channel[ch]
        got = ds.average_pulse[:]
        c.check(same(got, R.avg[ch]), f"{sig}-average", lambda: f"channel {ch}: average {got}, expected {R.avg[ch]}", **dd)
        recs = np.array(records(ch))
        if R.inv:
            recs = 65535 - recs
        for n in range(1, NP + 2):
            for cat, sel in ((None, np.ones(NP, bool)), ("off", R.lab[ch] == 0), ("on", R.lab[ch] == 1)):
                idx = np.flatnonzero(sel & ~R.cut[ch])[:n]
                ok, r = c.run(f"{sig}-first", ds.first_n_good_pulses, n, category={} if cat is None else {"beam": cat})
                if ok:
                    c.check(np.array_equal(r[1], idx) and np.array_equal(r[0], recs[idx]), f"{sig}-first", lambda: f"channel {ch}: first {n} good pulses are {r[1]}, expected {idx}", category=cat, **dd)
        for i in range(NP):
            for got in (ds.read_trace(i), g.read_trace(i, channum=ch), g.read_trace(i, dataset_num=ci)):
                c.check(np.array_equal(got, recs[i]), f"{sig}-trace", lambda: f"channel {ch}, record {i}: {got}, expected {recs[i]}", **dd)


# ---------------------------------------------------------------- rates
def rate(c):
    d = c.newdir()
    g, _ = group(c, d)
    g.summarize_data()
    ds = g.channel[1]
    T = 1.6e9
    slots = (0.5, 1.5, 2.5, 6.0, 11.5, 19.0)
    edges = [np.array(e, float) + T for e in ([0, 1, 2, 3], [0, 2, 12, 20], [1, 2, 10, 11], [5, 6.5], [0, 20], [0, 0.25, 20])]
    for times in itertools.combinations_with_replacement(slots, NP):
        if not c.thorough and (sum(times) * 2) % 3 != 0:
            continue
        t = np.array(times)
        ds.p_timestamp[:] = T + t
        for cutno, cut in enumerate((np.zeros(NP, bool), np.arange(NP) % 3 == 1)):
            ds.cuts.clear_cut()
            ds.cuts.cut("timing", cut)
            for goodonly in (False, True):
                use = t[~cut] if goodonly else t
                dd = dict(times=times, cut=cut.tolist(), goodonly=goodonly)
                c.state(times, cutno, goodonly)
                for e in edges:
                    ok, r = c.run("rate", ds.count_rate, goodonly, e)
                    if not ok:
                        return
                    x = e - T
                    n = [sum(1 for u in use if x[k] <= u < x[k + 1] or (k == len(x) - 2 and u == x[-1])) for k in range(len(x) - 1)]
                    c.check(np.allclose(r[0] - T, 0.5 * (x[1:] + x[:-1]), atol=1e-5), "rate-centers", lambda: f"bin centers {r[0] - T} for edges {x}", **dd)
                    c.check(np.allclose(r[1], np.array(n) / np.diff(x), rtol=1e-5), "rate", lambda: f"rates {r[1]}, expected {np.array(n) / np.diff(x)} for edges {x}", **dd)
                for b in (1, 4.0):
                    ok, r = c.run("rate-width", ds.count_rate, goodonly, b)
                    if not ok:
                        return
                    k = max(0, int(np.ceil((use[-1] - use[0]) / b - 1e-6)) - 1)
                    n = [sum(1 for u in use if use[0] + j * b <= u < use[0] + (j + 1) * b or (j == k - 1 and u == use[0] + k * b)) for j in range(k)]
                    c.check(len(r[0]) == len(r[1]) == k, "rate-bins", lambda: f"{len(r[1])} bins of {b} s, expected {k}", **dd)
                    if len(r[1]) == k:
                        c.check(np.allclose(r[1], np.array(n) / b) and np.allclose(r[0] - T, use[0] + b * (0.5 + np.arange(k)), atol=1e-5), "rate-width", lambda: f"rates {r}, expected {np.array(n) / b}", **dd)
                c.trans()
    c.sample(dd)
    g.hdf5_file.close()


# ---------------------------------------------------------------- calibration and line fits
LINES = ["MnKAlpha", "CuKAlpha"]
NCAL = 6000


def spectrum():
    """Energies: two lines and a Gaussian; labels, in a fixed pseudorandom order."""
    import mass
    rng = np.random.default_rng(5)
    e = np.concatenate([mass.spectra[ln].rvs(NCAL // 2, 5.0, rng=rng) for ln in LINES])
    order = np.argsort((np.arange(NCAL) * 0.61803398875) % 1)
    return e[order]


def calgroup(d, e, gain, nbad=0):
    import mass
    files = []
    for ch in CH:
        recs = [(1000 * i, 1_600_000_000_000_000 + 1_000_000 * i, [1000] * 4) for i in range(NCAL)]
        files.append(Spec(nsamp=4, npre=2, rows=1, row=0, timebase="1e-5", records=recs).write(os.path.join(d, f"a_chan{ch}.ljh")))
    g = mass.TESGroup(files, hdf5_filename=os.path.join(d, "o.hdf5"))
    g.register_categorical_cut_field("beam", ["off", "on"], "off")
    for k, ch in enumerate(CH):
        ds = g.channel[ch]
        ds.p_timestamp[:] = 1.6e9 + np.arange(NCAL)
        ds.p_filt_value_dc[:] = e * gain * (1 + 0.1 * k)
        ds.p_filt_value[:] = -1
    return g, files


def selections(n):
    i = np.arange(n)
    return {"all": (np.zeros(n, bool), np.zeros(n, bool)), "cut": (i % 4 == 1, np.zeros(n, bool)), "category": (np.zeros(n, bool), i % 3 == 0), "both": (i % 5 == 1, i % 3 == 0)}


def cal(c, part):
    import mass
    e = spectrum()
    name, (cut, lab) = list(selections(NCAL).items())[part]
    sel = ~cut & ~lab
    cat = {"beam": "off"} if lab.any() else {}
    results = []
    d = c.newdir()
    for variant in ("plain", "moved"):
        sub = os.path.join(d, variant)
        os.makedirs(sub)
        y = e.copy()
        if variant == "moved":
            y[~sel] = 3000 + 0.3 * np.arange((~sel).sum())
        g, files = calgroup(sub, y, 0.7)
        for ch in CH:
            g.channel[ch].cuts.cut("timing", cut)
            g.channel[ch].cuts.cut("beam", lab.astype(np.uint32))
        dd = dict(selection=name, variant=variant)
        c.state(name, variant)
        g.channel[CH[1]].cuts.cut("timing", np.zeros(NCAL, bool))
        ok, _ = c.run("calibrate", g.calibrate, "p_filt_value_dc", LINES, category=cat, fit_range_ev=60, bin_size_ev=1.0, size_related_to_energy_resolution=4.0)
        if not ok:
            return
        c.check(sorted(g.good_channels) == list(CH), "calibrate-bad", lambda: f"calibration failed: {g.why_chan_bad}", **dd)
        for k, ch in enumerate(CH):
            ds = g.channel[ch]
            if not c.check(list(ds.calibration) == ["p_filt_value_dc"], "calibrate-name", lambda: f"calibrations {list(ds.calibration)}", **dd):
                continue
            cl = ds.calibration["p_filt_value_dc"]
            ph = ds.p_filt_value_dc[:].astype(float)
            en = ds.p_energy[:].astype(float)
            c.check(np.allclose(en, cl(ph), atol=2e-3), "calibrate-energies", "energies are not those of the calibration", **dd)
            for ln in LINES:
                pk = mass.spectra[ln].peak_energy
                got = cl(pk * 0.7 * (1 + 0.1 * k))
                c.check(abs(got - pk) < 1.0, "calibrate-line", lambda: f"line {ln} ({pk} eV) is put at {got} eV", channel=ch, **dd)
            c.check(np.abs(en[sel] - y[sel]).max() < 30, "calibrate-selected", lambda: f"energies are up to {np.abs(en[sel] - y[sel]).max()} eV off", **dd)
            results.append((variant, ch, [float(cl(x)) for x in (3000.0, 4000.0, 5000.0, 6000.0)]))
        # again: the calibration that exists is kept, another name is another calibration
        before = {ch: g.channel[ch].p_energy[:] for ch in CH}
        g.calibrate("p_filt_value_dc", ["NiKAlpha", "ZnKAlpha"], category=cat, fit_range_ev=60, bin_size_ev=1.0)
        for ch in CH:
            c.check(np.array_equal(g.channel[ch].p_energy[:], before[ch]), "calibrate-again", "an existing calibration was replaced without being forced", **dd)
        ds = g.channel[CH[0]]
        ds.p_filt_value_phc[:] = 2 * ds.p_filt_value_dc[:]
        ds.calibrate("p_filt_value_phc", LINES[::-1], name_ext="_x", category=cat, fit_range_ev=60, bin_size_ev=1.0, size_related_to_energy_resolution=8.0)
        c.check(sorted(ds.calibration) == ["p_filt_value_dc", "p_filt_value_phc_x"], "calibrate-name-ext", lambda: f"calibrations {list(ds.calibration)}", **dd)
        c.check(np.abs(ds.p_energy[:] - before[CH[0]])[sel].max() < 4, "calibrate-line-order", lambda: f"with lines in the other order energies change by {np.abs(ds.p_energy[:] - before[CH[0]])[sel].max()} eV", **dd)
        ds.convert_to_energy("p_filt_value_dc")
        c.check(np.array_equal(ds.p_energy[:], before[CH[0]]), "convert", "conversion with the first calibration gives other energies", **dd)
        ds.convert_to_energy("p_filt_value_dc", "p_filt_value_phc_x")
        c.check(np.allclose(ds.p_energy[:], ds.calibration["p_filt_value_phc_x"](ds.p_filt_value_dc[:].astype(float)), atol=2e-3), "convert-name", "the calibration named was not used", **dd)
        try:
            ds.convert_to_energy("p_pulse_rms")
            c.violate("convert-unknown", "conversion by a calibration that does not exist", **dd)
        except ValueError:
            pass
        # reopening
        g.hdf5_file.close()
        g = mass.TESGroup(files, hdf5_filename=os.path.join(sub, "o.hdf5"))
        ds = g.channel[CH[0]]
        ok, _ = c.run("reopen-convert", ds.convert_to_energy, "p_filt_value_dc")
        if ok:
            c.check(np.allclose(ds.p_energy[:], before[CH[0]], atol=1e-3), "reopen-convert", "calibration differs after reopening", **dd)
        # a channel without pulses to fit is marked bad, alone, and keeps its energies
        g.channel[CH[0]].cuts.cut("pretrigger_mean", np.ones(NCAL, bool))
        e0 = g.channel[CH[0]].p_energy[:]
        g.channel[CH[1]].p_filt_value_dc[:] = 1.5 * g.channel[CH[1]].p_filt_value_dc[:]
        g.calibrate("p_filt_value_dc", LINES, name_ext="_again", category=cat, fit_range_ev=60, bin_size_ev=1.0, size_related_to_energy_resolution=4.0)
        c.check(g.good_channels == [CH[1]], "calibrate-fails", lambda: f"good channels {g.good_channels}, expected {CH[1]}", **dd)
        c.check("p_filt_value_dc_again" not in g.channel[CH[0]].calibration and np.array_equal(g.channel[CH[0]].p_energy[:], e0), "calibrate-failed-changes", "a failed calibration changed results", **dd)
        c.check("p_filt_value_dc_again" in g.channel[CH[1]].calibration, "calibrate-others", "another channel's calibration is missing", **dd)
        if "p_filt_value_dc_again" in g.channel[CH[1]].calibration:
            d2 = g.channel[CH[1]]
            c.check(np.allclose(d2.p_energy[:], d2.calibration["p_filt_value_dc_again"](d2.p_filt_value_dc[:].astype(float)), atol=2e-3), "calibrate-newest", "energies are not those of the calibration just made", **dd)
        g.hdf5_file.close()
        shutil.rmtree(sub)
        c.trans()
        c.trace()
    if len(results) == 4:
        for (v1, ch1, a), (v2, ch2, b) in zip(results[:2], results[2:]):
            c.check(np.allclose(a, b, rtol=1e-9), "calibrate-excluded", lambda: f"channel {ch1}: excluded pulses change the calibration from {a} to {b}", selection=name)
    c.sample({"selection": name})


def fit(c, part):
    """linefit of channels and groups."""
    import mass
    e = spectrum()
    d = c.newdir()
    g, files = calgroup(d, e, 1.0)
    model = mass.getmodel("MnKAlpha")
    n = NCAL
    i = np.arange(n)
    pk = mass.spectra["MnKAlpha"].nominal_peak_energy
    opts = [dict(), dict(t0=1.6e9 + 1500.5), dict(tlast=1.6e9 + 3000.5), dict(t0=1.6e9 + 1000.5, tlast=1.6e9 + 5000.5), dict(category={"beam": "off"}), dict(g_func=lambda ds: i % 3 != 1), dict(category={"beam": "on"}, t0=1.6e9 + 500.5)]
    bins = [dict(), dict(dlo=30, dhi=40, binsize=0.8), dict(bin_edges=np.arange(pk - 45, pk + 30, 0.9))]
    for k, (o, b) in enumerate(itertools.product(opts, bins)):
        if k % 2 != part:
            continue
        cut = (i % 7 == k % 5)
        lab = (i // 2) % 2
        use = ~cut & (i >= 0)
        if "t0" in o:
            use &= i + 1.6e9 > o["t0"]
        if "tlast" in o:
            use &= i + 1.6e9 < o["tlast"]
        if "category" in o:
            use &= lab == (1 if o["category"]["beam"] == "on" else 0)
        if "g_func" in o:
            use &= i % 3 != 1
        edges = b.get("bin_edges", np.arange(pk - b.get("dlo", 50), pk + b.get("dhi", 50), b.get("binsize", 1)))
        dd = dict(selection={a: str(x) for a, x in o.items()}, bins={a: str(x)[:20] for a, x in b.items()})
        c.state(k)
        for ch in CH:
            ds = g.channel[ch]
            ds.p_energy[:] = e
            x = ds.p_energy[:]
            x[i % 11 == 3] = np.nan
            ds.p_energy[:] = x
            ds.cuts.clear_cut()
            ds.cuts.cut("timing", cut)
            ds.cuts.cut("beam", lab.astype(np.uint32))
        x = g.channel[CH[0]].p_energy[:]
        want, _ = np.histogram(x[use & (i % 11 != 3)], edges)
        for who, obj, mult in (("channel", g.channel[CH[0]], 1), ("group", g, 2)):
            ok, r = c.run(f"fit-{who}", obj.linefit, "MnKAlpha", plot=False, **o, **b)
            if not ok:
                continue
            c.check(np.array_equal(r.data, want * mult), f"fit-data-{who}", lambda: f"fitted {r.data.sum()} counts, expected {mult * want.sum()}", **dd)
            c.check(np.allclose(r.userkws["bin_centers"], 0.5 * (edges[1:] + edges[:-1])), f"fit-bins-{who}", "bins differ", **dd)
            c.check(not r.params["dph_de"].vary and r.params["dph_de"].value == 1, f"fit-scale-{who}", "energies are fitted with a scale other than 1", **dd)
            if "t0" not in o or "tlast" in o:
                c.check(abs(r.params["peak_ph"].value - pk) < 1.0 and abs(r.params["fwhm"].value - 5) < 1.5, f"fit-quality-{who}", lambda: f"peak at {r.params['peak_ph'].value} eV, resolution {r.params['fwhm'].value} eV", **dd)
            # parameters to start from
            p = model.make_params()
            p["dph_de"].set(1.0, vary=False)
            p["peak_ph"].set(pk, vary=False)
            p["fwhm"].set(4.5, vary=False)
            p["integral"].set(float(want.sum() * mult))
            p["background"].set(1.0)
            keep = {q: (v.value, v.vary) for q, v in p.items()}
            ok, r = c.run(f"fit-guess-{who}", obj.linefit, "MnKAlpha", plot=False, guess_params=p, **o, **b)
            if ok:
                c.check(r.params["fwhm"].value == 4.5 and r.params["peak_ph"].value == pk, f"fit-guess-{who}", "parameters to start from were not used", **dd)
                c.check({q: (v.value, v.vary) for q, v in p.items()} == keep, f"fit-guess-changed-{who}", "parameters given were changed", **dd)
                c.check(np.array_equal(r.data, want * mult), f"fit-guess-data-{who}", "other counts were fitted", **dd)
            c.trans()
    c.sample(dd)
    g.hdf5_file.close()


# ---------------------------------------------------------------- filters
NF, FS, FP = 64, 40, 12


def frecords(ch, garble=()):
    out = []
    for i in range(NF):
        t0 = FP + ((7 * i + ch) % 10 - 4.5) / 10
        amp = 2000 + 90 * ((5 * i) % 13) + 37 * ch
        x = np.arange(FS) - t0
        y = 1000 + 11 * ((i * 3) % 7) + amp * np.where(x > 0, np.exp(-x / 15.) - np.exp(-x / 2.), 0) + np.array([(i * i * (k + 1) + k * k) % 5 - 2 for k in range(FS)])
        if i in garble:
            y = 3000 + 1500 * np.sin(np.arange(FS) * (1 + i % 5)) + 50 * i
        out.append(y.round().astype(int).tolist())
    return out


def fgroup(c, garble=(), chans=CH):
    import mass
    d = c.newdir()
    files = [Spec(nsamp=FS, npre=FP, rows=1, row=0, timebase="1e-5", records=[(1000 * i, 1_600_000_000_000_000 + 1_000_000 * i, y) for i, y in enumerate(frecords(ch, garble))]).write(os.path.join(d, f"a_chan{ch}.ljh")) for ch in chans]
    g = mass.TESGroup(files, hdf5_filename=os.path.join(d, "o.hdf5"))
    g.register_categorical_cut_field("beam", ["off", "on"], "off")
    g.summarize_data()
    for ds in g:
        # the excluded records must not matter through their summaries either
        ds.noise_autocorr[:] = 4.0 * 0.5 ** np.arange(FS)
        ds.noise_psd[:] = 8e-5 / (1 + np.arange(len(ds.noise_psd[:])) / 5.)
        ds.cuts.cut_categorical("beam", {"on": np.arange(NF) % 2 == 0, "off": np.arange(NF) % 2 == 1})
    return g


def xform(r):
    return r * 1.5 + 0.0001 * r ** 2


def wanted(ds, recs, idx, shift1, transform, cut_pre, cut_post, fmax, f_3db):
    """The filter that the selected records should give (without optimized dp/dt)."""
    from mass.core.optimal_filtering import FilterMaker
    recs = np.array(recs, float)[idx]
    prms, prompt, ptm = ds.p_pulse_rms[:][idx].astype(float), ds.p_promptness[:][idx].astype(float), ds.p_pretrig_mean[:][idx].astype(float)
    if shift1:
        late = ds.p_shift1[:][idx].astype(bool)
        rows = np.array([r[:-1] if s else r[1:] for r, s in zip(recs, late)])
    else:
        rows = recs
    near = np.abs(prms / np.median(prms) - 1) < 0.3
    pr = prompt - np.polyval(np.polyfit(prms[near], prompt[near], 1), prms)
    q = np.percentile(pr[near], [10, 50, 90])
    at = np.polyval(np.linalg.solve(np.vander(q, 3), [-.4, 0, .4]), pr)
    near &= np.abs(at) < 0.45
    rows = (rows - ptm[:, None])[near]
    if transform is not None:
        rows = transform(rows)
    big = rows.max(axis=1)
    m = (rows / big[:, None]).mean(axis=0)
    m = m / m.max()
    dt = np.zeros_like(m)
    dt[1:-1] = (m[2:] - m[:-2]) / 2
    dt[-1] = m[-1] - m[-2]
    m[:FP - 1] = 0
    dt[:FP - 1] = 0
    fm = FilterMaker(m, FP, ds.noise_autocorr, dt_model=dt, sample_time_sec=ds.timebase, peak=np.median(big))
    return fm.compute_ats(fmax=fmax, f_3db=f_3db, cut_pre=cut_pre, cut_post=cut_post)


CUTS = [np.zeros(NF, bool), np.arange(NF) % 5 == 1, np.arange(NF) < 20, np.arange(NF) % 8 >= 6]
FCATS = [{}, {"beam": "on"}, {"beam": "off"}]
FOPTS = [dict(), dict(cut_pre=2, cut_post=5), dict(fmax=20000.), dict(f_3db=9000.), dict(cut_pre=3, fmax=30000., f_3db=20000.)]


def fclose(a, b, rtol=2e-4):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * np.max(np.abs(b))))


def filt(c, part):
    for cutno, cut in enumerate(CUTS):
        if cutno != part:
            continue
        plain = fgroup(c)
        for catno, cat in enumerate(FCATS):
            for nmax in (25, 4000) + ((33,) if c.thorough else ()):
                sel = ~cut & {0: np.ones(NF, bool), 1: np.arange(NF) % 2 == 0, 2: np.arange(NF) % 2 == 1}[catno]
                idx = np.flatnonzero(sel)[:nmax]
                out = sorted(set(range(NF)) - set(idx.tolist()))
                few = len(idx) < 20
                dd0 = dict(cut=np.flatnonzero(cut).tolist(), category=cat, nmax=nmax)
                # every excluded record is garbage in the second group
                g2 = fgroup(c, garble=out) if out and not few else None
                for g in [plain] + ([g2] if g2 else []):
                    for ds in g:
                        # where the rising edge ends is a property of all records
                        if plain.channel[ds.channum].peak_samplenumber is None:
                            plain.channel[ds.channum]._compute_peak_samplenumber()
                        ds.peak_samplenumber = plain.channel[ds.channum].peak_samplenumber
                        ds.cuts.clear_cut()
                        ds.cuts.cut("timing", cut)
                for shift1, tr, (oi, opt), dpdt in itertools.product((True, False), (None, xform), enumerate(FOPTS), (False, True)):
                    if dpdt and (oi not in {0, 1} or (tr is not None and not c.thorough)):
                        continue
                    dd = dict(shift1=shift1, transform=tr is not None, optimize=dpdt, **opt, **dd0)
                    c.state(cutno, catno, nmax, shift1, tr is None, oi, dpdt)
                    kw = dict(category=cat, shift1=shift1, transform=tr, maximum_n_pulses=nmax, optimize_dp_dt=dpdt, forceNew=True, **opt)
                    res = []
                    for g in [plain] + ([g2] if g2 else []):
                        if few:
                            old = None if plain.channel[1].filter is None else plain.channel[1].filter.values.copy()
                            try:
                                plain.channel[1].compute_ats_filter(**kw)
                                c.violate("filter-few", f"a filter was computed from {len(idx)} records, fewer than 20", **dd)
                            except Exception:
                                pass
                            now = plain.channel[1].filter
                            c.check((now is None) == (old is None) and (now is None or np.array_equal(now.values, old)), "filter-few-kept", "a refused filter replaced the one there was", **dd)
                            continue
                        if not c.run("filter", g.compute_ats_filter, **kw)[0]:
                            return
                        c.trans()
                        c.check(sorted(g.good_channels) == list(CH), "filter-channels", lambda: f"good channels {g.good_channels} {g.why_chan_bad}", **dd)
                        res.append([(g.channel[ch].filter, g.channel[ch]) for ch in CH])
                    for pairs in zip(*res):
                        f, ds = pairs[0]
                        n = FS - 1 if shift1 else FS
                        c.check(f.values.shape == f.dt_values.shape == (n,), "filter-length", lambda: f"filter has {f.values.shape} values, records {FS} samples", **dd)
                        pre, post = opt.get("cut_pre", 0), opt.get("cut_post", 0)
                        c.check(not f.values[:pre].any() and not f.values[n - post:].any(), "filter-ends", lambda: f"samples outside the window have weight: {f.values}", **dd)
                        h = ds.hdf5_group["filters"]
                        c.check(np.allclose(h["values"][:], f.values) and np.allclose(h["dt_values"][:], f.dt_values) and h.attrs["filter_type"] == "ats" and h.attrs["cut_pre"] == pre and h.attrs["cut_post"] == post, "filter-stored", "the stored filter is not the one computed", **dd)
                        if not dpdt:
                            want = wanted(ds, frecords(ds.channum), idx, shift1, tr, opt.get("cut_pre", 0), opt.get("cut_post", 0), opt.get("fmax"), opt.get("f_3db"))
                            for nm in ("values", "dt_values", "variance", "predicted_v_over_dv", "nominal_peak"):
                                c.check(fclose(getattr(f, nm), getattr(want, nm)), "filter-" + nm, lambda: f"channel {ds.channum}: {nm} = {getattr(f, nm)}, expected {getattr(want, nm)} from records {idx.tolist()}", **dd)
                        if len(pairs) == 2:
                            b = pairs[1][0]
                            c.check(all(fclose(getattr(b, nm), getattr(f, nm)) for nm in ("values", "dt_values", "variance")), "filter-excluded", lambda: f"channel {ds.channum}: excluded records change the filter: {f.values} became {b.values}", **dd)
                if few:
                    # only the channel without enough pulses fails
                    plain.channel[4].cuts.clear_cut()
                    bad = len(np.flatnonzero({0: np.ones(NF, bool), 1: np.arange(NF) % 2 == 0, 2: np.arange(NF) % 2 == 1}[catno])[:nmax]) < 20
                    c.run("filter-few-group", plain.compute_ats_filter, category=cat, maximum_n_pulses=nmax, forceNew=True)
                    want = [] if bad else [4]
                    c.check(sorted(plain.good_channels) == want, "filter-few-channels", lambda: f"good channels {plain.good_channels}, expected {want}", **dd0)
                    for ch in CH:
                        plain.set_chan_good(ch)
                        plain.channel[ch].cuts.clear_cut()
                        plain.channel[ch].cuts.cut("timing", cut)
                if g2:
                    g2.hdf5_file.close()
        c.sample(dict(dd0, filters="compared"))
        plain.hdf5_file.close()


def filtseq(c):
    """Sequences of computing filters of either kind, forced or not, after changes of what they are learned from, and reopening."""
    import mass
    from mass.core.optimal_filtering import FilterMaker
    ACTS = [("ats", False), ("ats", True), ("5lag", False), ("5lag", True), ("group-ats", True), ("group-5lag", False), ("avg", 0), ("avg", 1), ("cut",), ("noise",), ("reopen",)]
    depth = 4 if c.thorough else 3
    memo = {}
    base = fgroup(c)
    name = base.hdf5_file.filename
    files = [ds.filename for ds in base]
    base.hdf5_file.close()
    for seqn, acts in enumerate(itertools.product(ACTS, repeat=depth)):
        kinds = [a[0] for a in acts]
        if not any("ats" in k or "5lag" in k for k in kinds) or any(a == b for a, b in zip(acts, acts[1:])) or kinds[-1] in {"avg", "cut", "noise"}:
            continue
        if not c.thorough and seqn % 2:
            continue
        d = c.newdir()
        h5 = os.path.join(d, "o.hdf5")
        shutil.copy(name, h5)
        g = mass.TESGroup(files, hdf5_filename=h5)
        ds = g.channel[1]
        R = dict(avg=None, cut=np.zeros(NF, bool), noise=1.0, filt=None, kind=None)
        c.state(*acts)
        for k, a in enumerate(acts):
            dd = dict(history=acts[:k + 1])
            c.trans()
            recs = np.array(frecords(1), float)
            if a[0].endswith(("ats", "5lag")):
                kind = a[0].split("-")[-1]
                bygroup = a[0].startswith("group")
                able = kind == "ats" or R["avg"] is not None
                fn = (g.compute_filters if bygroup else ds.compute_ats_filter if kind == "ats" else ds.compute_5lag_filter)
                kw = dict(forceNew=a[1], **(dict(filter_type=kind) if bygroup else dict(optimize_dp_dt=False) if kind == "ats" else {}))
                if R["filt"] is None or a[1]:
                    if able:
                        if not c.run("seq-" + a[0], fn, **kw)[0]:
                            break
                        R["kind"] = kind
                        if kind == "ats":
                            R["filt"] = twin(c, memo, R["cut"], R["noise"]) if bygroup else wanted(ds, recs, np.flatnonzero(~R["cut"]), True, None, 0, 0, None, None).values
                        else:
                            R["filt"] = FilterMaker(R["avg"], FP - 3, R["noise"] * 4.0 * 0.5 ** np.arange(FS), R["noise"] * 8e-5 / (1 + np.arange(FS // 2 + 1) / 5.), sample_time_sec=1e-5).compute_5lag().values
                    else:
                        try:
                            ds.compute_5lag_filter(forceNew=a[1])
                            c.violate("seq-no-average", "a filter was computed without an average pulse", **dd)
                        except Exception:
                            pass
                elif not c.run("seq-skip", fn, **kw)[0]:
                    break
            elif a[0] == "avg":
                m = np.arange(NF) % 2 == a[1]
                if not c.run("seq-avg", ds.compute_average_pulse, m, forceNew=True)[0]:
                    break
                R["avg"] = recs[m].mean(axis=0) - recs[m][:, :FP - 3].mean()
            elif a[0] == "cut":
                R["cut"] = np.arange(NF) % 3 == 2
                ds.cuts.cut("timing", R["cut"])
            elif a[0] == "noise":
                R["noise"] = 3.0 - R["noise"]
                ds.noise_autocorr[:] = R["noise"] * 4.0 * 0.5 ** np.arange(FS)
                ds.noise_psd[:] = R["noise"] * 8e-5 / (1 + np.arange(FS // 2 + 1) / 5.)
            else:
                g.hdf5_file.close()
                g = mass.TESGroup(files, hdf5_filename=h5)
                ds = g.channel[1]
            if R["filt"] is None:
                c.check(ds.filter is None and "filters" not in ds.hdf5_group, "seq-nofilter", "a filter exists that nobody computed", **dd)
                continue
            got = ds.filter.values if ds.filter is not None else None
            c.check(got is not None and fclose(got, R["filt"], 1e-3), "seq-filter", lambda: f"filter {got}, expected {R['filt']}", **dd)
            c.check(fclose(ds.hdf5_group["filters/values"][:], R["filt"], 1e-3), "seq-stored", lambda: f"stored filter {ds.hdf5_group['filters/values'][:]}, expected {R['filt']}", **dd)
            c.check(ds._filter_type == R["kind"], "seq-kind", lambda: f"filter type {ds._filter_type}, expected {R['kind']}", **dd)
        else:
            c.outcome(f"seq-{R['kind']}")
            c.sample(dd)
        g.hdf5_file.close()
        shutil.rmtree(d)


def twin(c, memo, cut, noise):
    """The default filter learned in a new data set with these cuts and this noise."""
    key = (cut.tobytes(), noise)
    if key not in memo:
        g = fgroup(c)
        ds = g.channel[1]
        ds.cuts.cut("timing", cut)
        ds.noise_autocorr[:] = noise * 4.0 * 0.5 ** np.arange(FS)
        ds.compute_ats_filter()
        memo[key] = ds.filter.values.copy()
        g.hdf5_file.close()
    return memo[key]


# ---------------------------------------------------------------- small operations
def small(c):
    """White noise, the cut on filtered phase, and energies saved as text."""
    for pat in range(1 << 6):
        g = fgroup(c) if pat == 0 else g
        keep = np.array([(pat >> (i % 6)) & 1 for i in range(NF)], bool)
        for ci, ds in enumerate(g):
            ds.cuts.clear_cut()
            ds.cuts.cut("timing", np.roll(keep, ci))
            ds.p_energy[:] = 1000.25 * (ci + 1) + np.arange(NF)
            ds.p_filt_phase[:] = (np.arange(NF) % 9 - 4) * 0.5 + 0.01 * ci
        c.state("energies", pat)
        c.trans()
        out = os.path.join(c.newdir(), "e")
        want = np.concatenate([(1000.25 * (ci + 1) + np.arange(NF))[~np.roll(keep, ci)] for ci in range(len(CH))])
        if c.run("energies", g.save_pulse_energies_ascii, out)[0]:
            with open(out + ".energies") as fp:
                got = [float(x) for x in fp.read().split()]
            c.check(len(got) == len(want) and np.allclose(got, want), "energies", lambda: f"saved {len(got)} energies {got[:5]}..., expected {len(want)} {want[:5]}...", cut=keep.tolist())
        if pat == 0:
            c.run("phase", g.sanitize_p_filt_phase)
            first = {ds.channum: ds.cuts.good().copy() for ds in g}
            for ci, ds in enumerate(g):
                w = np.abs((np.arange(NF) % 9 - 4) * 0.5 + 0.01 * ci) <= 2
                c.check(np.array_equal(first[ds.channum], w), "phase", lambda: f"good pulses {first[ds.channum]}, expected those with small phase {w}")
    for v, force, set_before in itertools.product((1.0, 9.0, 0.25), (False, True), (False, True)):
        c.state("white", v, force, set_before)
        c.trans()
        for ds in g:
            ds.noise_autocorr[:] = 2.0 * 0.5 ** np.arange(FS) if set_before else 0.0
            ds.noise_psd[:] = 7.0 if set_before else 0.0
        c.run("white", g.assume_white_noise, noise_variance=v, forceNew=force)
        for ds in g:
            if set_before and not force:
                wa, wp = 2.0 * 0.5 ** np.arange(FS), 7.0
            else:
                wa = np.zeros(FS)
                wa[0] = v
                # the power integrates to the variance over frequencies to the highest
                wp = v / (0.5 / 1e-5)
            dd = dict(variance=v, force=force, already=set_before)
            c.check(np.allclose(ds.noise_autocorr[:], wa), "white-autocorr", lambda: f"noise autocorrelation {ds.noise_autocorr[:]}, expected {wa}", **dd)
            c.check(np.allclose(ds.noise_psd[:], wp), "white-psd", lambda: f"noise power {ds.noise_psd[:]}, expected {wp}", **dd)
    c.sample(dd)
    g.hdf5_file.close()
