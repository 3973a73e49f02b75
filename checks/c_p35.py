"""P35: plots and reports show exactly the data asked for, on the axes asked for."""
import contextlib
import io
import itertools
import logging
import os
import re

import numpy as np

from vlib.ljh import Spec

PROPERTY = "P35"
EXPLAIN = """A state is a small LJH data group (channels, cut pulses, bad channels), OFF channel, calibration, filter, spectrum or filter stack with a
request to draw or report it; a transition draws it on given axes (while others are current), or on new ones.  What Matplotlib then holds (the
lines with their labels, histogram outlines, texts, limits, saved pages) is read back from the figure and compared with the data computed from the
records by the definitions; axes that were not given must stay empty.  Printed and logged reports are parsed and compared alike."""
ASSUMPTIONS = ["colours, styles, fonts and titles are not compared", "files of pages are looked at as the figure is saved; ImageMagick's conversion is not run"]
CH = (1, 3, 4)
NP, NS, NPRE = 5, 24, 8
DT = 1e-5


def close(a, b, tol=1e-5, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1e-9 + np.abs(b)) + atol + 1e-9 * (1 + np.abs(b))) | ((a == b))
                                              | (np.isnan(a) & np.isnan(b))))


def drawn(ax):
    return [(ln.get_label(), np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)) for ln in ax.lines]


def is_empty(ax):
    return not (ax.lines or ax.patches or ax.collections or ax.texts or ax.containers or ax.images or ax.get_xlabel() or ax.get_ylabel() or ax.get_legend())


def same_lines(c, sig, ax, want, labels=True, tol=1e-5, atol=0.0, **d):
    got = drawn(ax)
    ok = len(got) == len(want) and all((not labels or g[0] == w[0]) and close(g[1], w[1], tol) and close(g[2], w[2], tol, atol) for g, w in zip(got, want))
    return c.check(ok, sig, lambda: f"drawn {[(a, x.tolist()[:8], y.tolist()[:8]) for a, x, y in got]}, expected {[(a, np.asarray(x).tolist()[:8], np.asarray(y).tolist()[:8]) for a, x, y in want]}", **d)


class Stage:
    """A figure with the axes to draw on, and others that are current."""

    def __init__(self):
        import matplotlib
        matplotlib.use("agg")
        import matplotlib.pyplot as plt
        self.plt = plt
        self.fig, self.ax = plt.subplots()
        self.fig2, self.decoy = plt.subplots()

    def set(self, given=True):
        self.plt.close("all")
        self.fig, self.ax = self.plt.subplots(figsize=(3, 2))
        self.fig2, self.decoy = self.plt.subplots(figsize=(3, 2))
        self.plt.sca(self.decoy if given else self.ax)
        return self.ax

    def untouched(self, c, sig, **d):
        c.check(is_empty(self.decoy), sig + "-axes", "drew on the current axes, not (only) on those given", **d)


def records(ch, n=NP):
    out = []
    for i in range(n):
        amp = (400, 810, 390, 800, 405)[(i + ch) % 5] + 3 * ch
        out.append([1000 + (i * i + 3 * k * (i + ch)) % 11 + (int(amp * 0.9 ** (k - NPRE)) if k >= NPRE else 0) for k in range(NS)])
    return out


def group(c, chans=CH, n=NP):
    import mass
    d = c.newdir()
    files = []
    for ch in chans:
        recs = [(1000 * i, 1_600_000_000_000_000 + 2_000_000 * i + 10 * ch, y) for i, y in enumerate(records(ch, n))]
        files.append(Spec(nsamp=NS, npre=NPRE, rows=1, row=0, timebase="1e-5", records=recs).write(os.path.join(d, f"a_chan{ch}.ljh")))
    g = mass.TESGroup(files, hdf5_filename=os.path.join(d, "o.hdf5"))
    g.summarize_data()
    return g


def setcut(ds, cut):
    ds.cuts.clear_cut()
    ds.cuts.cut("timing", np.array(cut, bool))


# ---------------------------------------------------------------- traces
def smooth_difference(y):
    n = len(y)
    d = [0.0] + [float(y[i] - y[i - 1]) for i in range(1, n)]
    out = [d[i] + d[(i - 1) % n] + d[(i + 1) % n] for i in range(n)]
    out[0] = 0.0
    return np.array(out)


def traces(c, part, nparts):
    st = Stage()
    g = group(c)
    ds = g.channel[3]
    R = np.array(records(3), float)
    ds.average_pulse[:] = np.exp(-np.arange(NS) / 7.0) * 3
    ds.p_filt_value[:] = 100.0 + 10 * np.arange(NP)
    ds.p_shift1[:] = np.arange(NP) % 2 == 1
    t = (np.arange(NS) - NPRE) * DT * 1e3
    cuts = [x for x in itertools.product((False, True), repeat=NP) if c.thorough or x[4] == x[0]]
    reqs = [3, np.int64(2), np.int32(0), 0, [1], (4, 0), [2, 2, 1], np.array([0, 1, 2, 3, 4]), range(3), np.array(4), [-1, 1]]
    modes = [(d, r, s, b) for d, r, s, b in itertools.product((False, True), repeat=4) if not (d and r)]
    k = 0
    for cut in cuts:
        setcut(ds, cut)
        for (i, q), status, (diff, resid, shift, base), summary in itertools.product(enumerate(reqs), (None, "valid", "cut"), modes, (False, True)):
            k += 1
            if k % nparts != part or (not c.thorough and (k // nparts) % 3):
                continue
            if shift and base:
                pass
            h = dict(cut=cut, pulsenums=str(q), valid_status=status, difference=diff, residual=resid, shift1=shift, subtract_baseline=base, pulse_summary=summary)
            c.state(cut, i, status, diff, resid, shift, base, summary)
            nums = [int(x) for x in np.atleast_1d(q)] if not isinstance(q, range) else list(q)
            show = [n for n in nums if status is None or (status == "cut") == cut[n]]
            want = []
            for n in show:
                y = R[n]
                if diff:
                    y = smooth_difference(y)
                elif resid:
                    y = y - ds.p_filt_value[n % NP] * ds.average_pulse[:] / ds.average_pulse[:].max()
                if shift and n % NP % 2 == 1:
                    y = np.hstack([y[0], y[:-1]])
                if base:
                    y = y - np.mean(y[:NPRE - ds.pretrigger_ignore_samples])
                want.append(("", t, y))
            ax = st.set()
            if base:
                ok, _ = c.run("traces", ds.plot_traces, q, summary, ax, diff, resid, status, shift, base)
            else:
                ok, _ = c.run("traces", g.plot_traces, q, 0, 3, summary, ax, diff, resid, status, shift)
            if not ok:
                return
            same_lines(c, "traces", ax, want, labels=False, tol=1e-5, atol=1e-2 if resid else 0.0, **h)
            st.untouched(c, "traces", **h)
            texts = [m for m in (re.match(r"^([X ])\s*(-?\d+):\s*([\d.-]+)", s.get_text()) for s in ax.texts) if m]
            if summary:
                want = [("X" if status is None and cut[n] else " ", n) for n in show]
                got = [(m.group(1), int(m.group(2))) for m in texts]
                c.check(got == want, "traces-summary", lambda: f"lists {got}, expected {want}", **h)
            else:
                c.check(not texts, "traces-summary", "summaries although not asked for", **h)
            dashed = [ln.get_linestyle() == "--" for ln in ax.lines]
            c.check(dashed == [status is None and cut[n] for n in show], "traces-dashed", lambda: f"dashed: {dashed}", **h)
            c.trans()
            c.trace()
    for bad, kw in (("status", dict(valid_status="good")), ("both", dict(residual=True, difference=True))):
        st.set()
        try:
            ds.plot_traces([0], axis=st.ax, **kw)
            c.violate("traces-" + bad, "was not refused", request=str(kw))
        except ValueError:
            pass
    st.plt.close("all")
    g.hdf5_file.close()


# ---------------------------------------------------------------- summaries
def outline(ax):
    """[(number of entries, lowest edge, highest edge)] of the filled histograms."""
    out = []
    for p in ax.patches:
        v = np.asarray(p.get_xy())
        x, y = v[:, 0], v[:, 1]
        area = abs(np.sum(x[:-1] * y[1:] - x[1:] * y[:-1]) + x[-1] * y[0] - x[0] * y[-1]) / 2
        lo, hi = x.min(), x.max()
        out.append((area * 200 / (hi - lo), lo, hi))
    return out


def same_hist(c, sig, ax, vals, **d):
    got = outline(ax)
    vals = np.asarray(vals, float)
    if len(vals) == 0:
        return c.check(all(n < 1e-6 for n, _, _ in got), sig, lambda: f"histogram {got} of nothing", **d)
    ok = len(got) == 1 and abs(got[0][0] - len(vals)) < 0.4  # (bins of single-precision values are not quite equal)
    if ok and vals.min() < vals.max():
        ok = close(got[0][1], vals.min(), 1e-4) and close(got[0][2], vals.max(), 1e-4)
    return c.check(ok, sig, lambda: f"histogram (entries, from, to) {got}, expected {len(vals)} from {vals.min()} to {vals.max()}", **d)


def summaries(c, part, nparts):
    st = Stage()
    g = group(c)
    # values near the documented limits of the histograms, to see them
    for ds in g:
        ds.p_postpeak_deriv[:] = np.array([-5., 100, 650, 750, 300]) + ds.channum
        ds.p_rise_time[:] = np.array([1, 11.9, 12.5, 3, -1]) * 1e-3
        ds.p_peak_index[:] = np.arange(NP) + ds.channum + 9
        ds.p_pretrig_rms[:] = np.array([10., 5000, 3, 4, 5])
        ds.p_pulse_average[:] = np.array([10., 5000, 4999, 4, -5])
    names = [("p_pulse_rms", 1, None), ("p_pulse_average", 1, None), ("p_peak_value", 1, None), ("p_pretrig_rms", 1, (0, 4000)),
             ("p_pretrig_mean", 1, None), ("p_postpeak_deriv", 1, (0, 700)), ("p_rise_time", 1e3, (0, 12)), ("p_peak_time", 1e3, (-3, 9))]
    gnames = [("Pulse RMS", None), ("Pulse Avg", (0, 5000)), ("Peak value", None), ("Pretrig RMS", (0, 4000)), ("Pretrig Mean", None),
              ("Max PostPk deriv", (0, 700)), ("Rise time (ms)", (0, 12)), ("Peak time (ms)", (-3, 9)), ("Peak index", (600, 800))]
    quant = names + [("p_peak_index", 1, None)]
    cuts = [x for x in itertools.product((False, True), repeat=NP)]
    k = 0

    def selected(ds, valid, cut, explicit):
        cut = np.array(cut)
        if explicit is not None:
            return np.nonzero(explicit)[0]
        if valid is None or "all" in valid.lower():
            return np.arange(NP)
        return np.nonzero(~cut if "uncut" in valid.lower() else cut)[0]

    def hours(ds, idx, others):
        last = max(float(o.p_timestamp[:].max() if others is None else o.p_timestamp[-1]) for o in ([ds] if others is None else others))
        return ds.p_timestamp[:][idx] / 3600.0 - (last - last % 86400) / 3600.0

    for cut in cuts:
        k += 1
        if k % nparts != part:
            continue
        for ds in g:
            setcut(ds, np.roll(cut, ds.channum))
        ds = g.channel[3]
        mycut = np.roll(cut, 3)
        for j, (valid, down) in enumerate(itertools.product(("uncut", "cut", "All", None, "mask"), (None, 2))):
            if not c.thorough and (j + j // 2 + sum(cut)) % 2:
                continue
            explicit = np.array([1, 0, 1, 1, 0], bool) if valid == "mask" else None
            idx = selected(ds, valid, mycut, explicit)
            h = dict(cut=cut, valid=valid, downsample=down)
            c.state("one", cut, valid, down)
            st.set(False)
            ok, _ = c.run("summaries", ds.plot_summaries, explicit if explicit is not None else valid, down)
            c.trans()
            if not ok:
                return
            axes = st.plt.gcf().axes
            if not c.check(len(axes) == 2 * len(names), "summaries-panels", lambda: f"{len(axes)} panels", **h):
                continue
            for (attr, scale, lim), a1, a2 in zip(names, axes[0::2], axes[1::2]):
                v = np.asarray(getattr(ds, attr)[:], float)[idx] * scale
                same_lines(c, "summaries", a1, [("", hours(ds, idx, None)[::down or 1], v[::down or 1])], labels=False, quantity=attr, **h)
                same_hist(c, "summaries-hist", a2, v if lim is None else v[(v > lim[0]) & (v < lim[1])], quantity=attr, **h)
            c.trace()
        for (qi, (qname, lim)), valid in itertools.product(enumerate(gnames), ("uncut", "cut", "all", None)):
            k2 = qi + len(str(valid)) + sum(cut)
            if not c.thorough and (qi + len(str(valid)) // 2 + sum(cut) + cut[0]) % 3:
                continue
            chans = (None, [4, 1], None)[k2 % 3]
            dnum = (None, None, [2, 0])[k2 % 3]
            down = (None, 2)[k2 % 2]
            limits = (None, (-1e9, 420.0))[(k2 // 2) % 2]
            q = (qi, qname.upper().replace(" ", ""), qname, "  " + qname)[k2 % 4]
            sel = [g.channel[x] for x in chans] if chans else [g.datasets[x] for x in dnum] if dnum else list(g)
            h = dict(cut=cut, quantity=q, valid=valid, channel_numbers=chans, dataset_numbers=dnum, downsample=down, hist_limits=limits)
            c.state("group", cut, qi, valid)
            st.set(False)
            ok, _ = c.run("group-summaries", g.plot_summaries, q, valid, down, False, limits, chans, dnum)
            c.trans()
            if not ok:
                return
            axes = st.plt.gcf().axes
            if not c.check(len(axes) == 2 * len(sel), "group-summaries-panels", lambda: f"{len(axes)} panels for {len(sel)} channels", **h):
                continue
            attr, scale, _ = quant[qi]
            lim = limits or lim
            for d2, a1, a2 in zip(sel, axes[0::2], axes[1::2]):
                idx = selected(d2, valid, np.roll(cut, d2.channum), None)
                v = np.asarray(getattr(d2, attr)[:], float)[idx] * scale
                want = [("", hours(d2, idx, list(g))[::down or 1], v[::down or 1])] if len(idx) else []
                same_lines(c, "group-summaries", a1, want, labels=False, channel=d2.channum, **h)
                same_hist(c, "group-summaries-hist", a2, v if lim is None else v[(v > lim[0]) & (v < lim[1])], channel=d2.channum, **h)
            c.trace()
    st.set(False)
    for who, fn in (("channel", lambda: g.channel[1].plot_summaries("good")), ("group", lambda: g.plot_summaries(0, "good"))):
        try:
            fn()
            c.violate("summaries-word", f"an unknown word for the pulses was accepted by the {who}")
        except ValueError:
            pass
    st.plt.close("all")
    g.hdf5_file.close()


# ---------------------------------------------------------------- group plots
class Filt:
    def __init__(self, v, vdv):
        self.values, self.predicted_v_over_dv, self.variance = np.array(v, float), vdv, 7.0


class Noise:
    def __init__(self, ac, dt):
        self.autocorrelation, self.timebase = np.array(ac, float), dt


def lines_of(c, g, fn, *a, **kw):
    """What is logged or printed."""
    buf = io.StringIO()
    hd = logging.StreamHandler(buf)
    lg = logging.getLogger("mass")
    old = lg.level
    lg.addHandler(hd)
    lg.setLevel(logging.INFO)
    try:
        with contextlib.redirect_stdout(buf):
            ok, _ = c.run(getattr(fn, "__name__", "report"), fn, *a, **kw)
    finally:
        lg.removeHandler(hd)
        lg.setLevel(old)
    return ok, buf.getvalue().splitlines()


def groups(c, part, nparts):
    from mass.core.channel import NoiseRecords
    st = Stage()
    g = group(c)
    for ds in g:
        i = ds.channum
        ds.average_pulse[:] = np.sin(np.arange(NS) / 3.0) * i
        ds.filter = Filt(np.cos(np.arange(NS - 1)) + i, 1000.0 * i)
        ds.noise_psd[:] = 1.0 / (1 + np.arange(NS // 2 + 1)) * i
        ds.noise_psd.attrs["delta_f"] = 100.0 * (2 if i == 3 else 5 if i == 1 else 1)
        n = NoiseRecords.__new__(NoiseRecords)
        n.autocorrelation, n.timebase = np.array(0.5 ** np.arange(NS) * i), DT
        ds.noise_records = n
    t = (np.arange(NS) - NPRE) * DT * 1e3
    lag = np.arange(NS) * DT * 1e3

    def ds_of(ch):
        return g._channels[ch] if hasattr(g, "_channels") else {d.channum: d for d in g.datasets}[ch]
    for ib, bad in enumerate(itertools.chain.from_iterable(itertools.combinations(CH, r) for r in range(len(CH)))):
        if ib % nparts != part:
            continue
        for ch in CH:
            g.set_chan_good(ch)
        for ch in bad:
            g.set_chan_bad(ch, "test")
        for nofilter in (None, 1, 4):
            filters = {ch: None if ch == nofilter else ds_of(ch).filter for ch in CH}
            saved = ds_of(nofilter).filter if nofilter else None
            if nofilter:
                ds_of(nofilter).filter = None
            for chans in (None, [3], [4, 1], [1, 4, 3], [9, 3]):
                if chans and any(ch in bad for ch in chans):
                    pass
                for legend in (True, False):
                    h = dict(bad=bad, channels=chans, nofilter=nofilter, legend=legend)
                    c.state(bad, str(chans), nofilter, legend)
                    present = [ch for ch in (chans or CH) if ch in g.channel]
                    ax = st.set()
                    ok, _ = c.run("plot_filters", g.plot_filters, ax, chans, None, legend)
                    if ok:
                        want = [(f"Chan {ch}", np.arange(NS - 1), filters[ch].values) for ch in present if filters[ch] is not None]
                        same_lines(c, "plot_filters", ax, want, **h)
                        st.untouched(c, "plot_filters", **h)
                    ax = st.set()
                    ok, _ = c.run("plot_noise_ac", g.plot_noise_autocorrelation, ax, chans, None, legend)
                    if ok:
                        want = [x for ch in present for x in ((f"Chan {ch}", lag, 0.5 ** np.arange(NS) * ch), (None, [0], [float(ch)]))]
                        got = drawn(ax)
                        same = len(got) == len(want) and all((w[0] is None or w[0] == a[0]) and close(a[1], w[1]) and close(a[2], w[2]) for a, w in zip(got, want))
                        c.check(same, "plot_noise_ac", lambda: f"drawn {got}", **h)
                        st.untouched(c, "plot_noise_ac", **h)
                    if chans and 9 in chans:
                        continue
                    for incl, fcut in itertools.product((False, True), (None, 20000.0)):
                        if chans is not None:
                            who = chans
                            if any(ch not in g.channel for ch in chans):
                                continue
                        else:
                            who = [ch for ch in CH if incl or ch not in bad]
                        ax = st.set()
                        ok, _ = c.run("plot_average", g.plot_average_pulses, ax, chans, None, legend, fcut, incl)
                        if ok:
                            want = []
                            for ch in who:
                                y = np.sin(np.arange(NS) / 3.0) * ch
                                if fcut:
                                    fs = 1 / DT
                                    F = np.fft.rfft(y.astype(np.float32))
                                    F[np.fft.rfftfreq(NS, d=1 / fs) > fcut] = 0
                                    y = np.fft.irfft(F, NS)
                                want.append((f"Chan {ch}", t, y))
                            if fcut is None:
                                same_lines(c, "plot_average", ax, want, fcut=fcut, include_badchan=incl, **h)
                            else:
                                c.check([x[0] for x in drawn(ax)] == [x[0] for x in want], "plot_average-names", lambda: f"{[x[0] for x in drawn(ax)]}", fcut=fcut, include_badchan=incl, **h)
                            st.untouched(c, "plot_average", **h)
                            before = [x.average_pulse[:].copy() for x in g.datasets]
                            c.check(all(close(x, np.sin(np.arange(NS) / 3.0) * ch) for x, ch in zip(before, CH)), "plot_average-changed", "average pulses were changed", **h)
                        for scale, root, dc in itertools.product((1.0, 3.0), (False, True), (False, True)):
                            if fcut or not who:
                                continue
                            ax = st.set()
                            hh = dict(h, scale=scale, sqrt=root, dc=dc, include_badchan=incl)
                            ok, _ = c.run("plot_noise", g.plot_noise, ax, chans, None, scale, root, legend, incl, dc)
                            if not ok:
                                continue
                            want, lo, hi = [], 1e99, 0
                            for ch in who:
                                y = scale ** 2 * ch / (1.0 + np.arange(NS // 2 + 1))
                                y = np.sqrt(y) if root else y
                                f = np.arange(NS // 2 + 1) * 100.0 * (2 if ch == 3 else 5 if ch == 1 else 1)
                                if dc:
                                    f[0] = 0.1 * f[1]
                                else:
                                    f, y = f[1:], y[1:]
                                lo, hi = min(lo, f[0]), max(hi, f[-1])
                                want.append((f"Chan {ch}", f, y))
                            same_lines(c, "plot_noise", ax, want, **hh)
                            a, b = ax.get_xlim()
                            c.check(a <= lo and b >= hi, "plot_noise-range", lambda: f"shows {a} to {b} Hz, data are {lo} to {hi}", **hh)
                            st.untouched(c, "plot_noise", **hh)
                            c.trans()
                    c.trace()
            if len(bad) < len(CH):
                ok, text = lines_of(c, g, g.summarize_filters, std_energy=1000.0)
                got = {int(m.group(1)): (float(m.group(2)), float(m.group(3))) for m in (re.search(r"Chan\s+(\d+) filter.*V/dV\s+([\d.]+)\s+Predicted res at 1000.0 eV:\s+([\d.]+)", x) for x in text) if m}
                want = {ch: (1000.0 * ch, round(1.0 / ch, 1)) for ch in CH if ch not in bad and filters[ch] is not None}
                c.check(set(got) == set(want) and all(abs(got[k][0] - want[k][0]) < 0.2 and abs(got[k][1] - want[k][1]) < 0.06 for k in want), "summarize_filters",
                        lambda: f"reported {got}, expected {want}", bad=bad, nofilter=nofilter)
            if nofilter:
                ds_of(nofilter).filter = saved
    st.plt.close("all")
    g.hdf5_file.close()


def reports(c, part, nparts):
    """Counts and rates: report, plot_count_rate, the energies of good pulses."""
    st = Stage()
    g = group(c)
    dsets = {d.channum: d for d in g.datasets}
    E = {ch: np.float32(1000.0 * ch + np.arange(NP)) for ch in CH}
    for ch in CH:
        dsets[ch].p_energy[:] = E[ch]
    T = 1.6e9
    times = {1: [0, 1, 3, 6, 12], 3: [0.5, 1.5, 1.75, 9, 11], 4: [2, 3, 4, 5, 6.5]}
    for ch in CH:
        dsets[ch].p_timestamp[:] = T + np.array(times[ch])
    d = c.newdir()
    k = 0
    for cut in itertools.product((False, True), repeat=NP):
        k += 1
        if k % nparts != part:
            continue
        for bad in ((), (1,), (4,), (3, 4)):
            for ch in CH:
                g.set_chan_good(ch)
                setcut(dsets[ch], np.roll(cut, ch) if ch != 3 else cut)
            for ch in bad:
                g.set_chan_bad(ch, "test")
            good = {ch: ~np.array(np.roll(cut, ch) if ch != 3 else cut) for ch in CH}
            who = [ch for ch in CH if ch not in bad]
            h = dict(cut=cut, bad=bad)
            c.state("report", cut, bad)
            ok, text = lines_of(c, g, g.report)
            got = {int(m.group(1)): m.group(2) for m in (re.match(r"chan\s+(\d+)\s+(.*)", x) for x in text) if m}
            c.check(sorted(got) == list(CH), "report-channels", lambda: f"reports channels {sorted(got)}", **h)
            for ch in CH:
                idx = np.nonzero(good[ch])[0]
                if ch in got and len(idx) < 2:
                    m = re.match(r"(\d+) ", got[ch])
                    c.check(m is not None and int(m.group(1)) == len(idx), "report-few", lambda: f"channel {ch}: {got[ch]}, expected {len(idx)} pulses", **h)
                if len(idx) < 2 or ch not in got:
                    continue
                n = idx[-1] - idx[0] + 1
                dt = times[ch][idx[-1]] - times[ch][idx[0]]
                m = re.match(r"(\d+) pulses \(\s*([\d.]+) Hz\s+over ([\d.]+) hr\)\s+([\d.]+)% good", got[ch])
                want = (n, (n - 1) / dt, dt / 3600., 100. * len(idx) / n)
                c.check(m is not None and int(m.group(1)) == n and all(abs(float(x) - w) < t for x, w, t in zip(m.groups()[1:], want[1:], (6e-4, 6e-5, 6e-4))),
                        "report", lambda: f"channel {ch}: {got[ch]}, expected {want}", **h)
            for b in (1, 2.5, 5):
                st.set(False)
                st.plt.close("all")
                ok, _ = c.run("plot_count_rate", g.plot_count_rate, b)
                if not ok:
                    break
                first = times[who[0]]
                nb = max(0, int(np.ceil((max(first) - first[0]) / b - 1e-9)) - 1)
                e = first[0] + b * np.arange(nb + 1)

                def rate(ch, sel):
                    ts = np.array(times[ch])[sel]
                    return np.array([np.sum((ts >= e[j]) & ((ts < e[j + 1]) | ((j == nb - 1) & (ts == e[j + 1])))) / b for j in range(nb)])
                ra = {ch: rate(ch, np.ones(NP, bool)) for ch in who}
                rg = {ch: rate(ch, good[ch]) for ch in who}
                x = T + e[:-1] + b / 2
                figs = [st.plt.figure(i) for i in st.plt.get_fignums()]
                if not c.check(len(figs) == 2 and len(figs[0].axes) == 3 and len(figs[1].axes) == 1, "count_rate-figures", lambda: f"{len(figs)} figures", bin=b, **h):
                    continue
                a1, a2, a3 = figs[0].axes
                same_lines(c, "count_rate-all", a1, [("", x, ra[ch]) for ch in who], labels=False, bin=b, tol=1e-9, **h)
                same_lines(c, "count_rate-good", a2, [("", x, rg[ch]) for ch in who], labels=False, bin=b, tol=1e-9, **h)
                same_lines(c, "count_rate-sum", a3, [("", x, sum(ra.values()))], labels=False, bin=b, tol=1e-9, **h)
                same_lines(c, "count_rate-mean", figs[1].axes[0], [("all", who, [ra[ch].mean() for ch in who]), ("good", who, [rg[ch].mean() for ch in who])], bin=b, **h)
            c.trans()
            f = os.path.join(d, "e")
            ok, _ = c.run("save_ascii", g.save_pulse_energies_ascii, f)
            if ok:
                got = np.atleast_1d(np.loadtxt(f + ".energies")) if os.path.getsize(f + ".energies") else np.zeros(0)
                want = np.hstack([E[ch][good[ch]] for ch in who])
                c.check(close(got, want, 1e-9), "save_ascii", lambda: f"saved {got}, expected {want}", **h)
            edges = np.array([999., 1001., 1003., 2999., 3001.5, 4003., 4010.])
            for gf in (None, lambda ds: np.arange(NP) % 2 == 0):
                for ch in who:
                    ax = st.set()
                    ok, _ = c.run("plot_hist", dsets[ch].plot_hist, edges, "p_energy", ax, [], {}, gf)
                    if ok:
                        v = E[ch][good[ch] & (gf(None) if gf else True)]
                        cnt = [np.sum((v >= edges[j]) & ((v < edges[j + 1]) | ((j == len(edges) - 2) & (v == edges[j + 1])))) for j in range(len(edges) - 1)]
                        same_lines(c, "plot_hist", ax, [("", 0.5 * (edges[1:] + edges[:-1]), cnt)], labels=False, channel=ch, g_func=gf is not None, **h)
                        st.untouched(c, "plot_hist", **h)
            c.trace()
    st.plt.close("all")
    g.hdf5_file.close()


# ---------------------------------------------------------------- pages
def pages(c, part, nparts):
    import matplotlib.figure
    st = Stage()
    chans = (1, 2, 3, 5, 7)
    g = group(c, chans)
    dsets = {d.channum: d for d in g.datasets}
    d = c.newdir()
    here = os.getcwd()
    saved = []

    def savefig(self, fname, *a, **kw):
        axes = [(re.sub(r"\D", "", ax.get_title()), drawn(ax), [(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches], ax.get_xlim(), ax.get_ylim()) for ax in self.axes]
        saved.append((fname if isinstance(fname, str) else "pdf", axes))
    original = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = savefig
    os.chdir(d)
    try:
        todo = list(itertools.product(((), (2,), (1, 5, 7)), ((1, 1), (2, 2), (1, 5), (3, 4)), ((1, "x"), (2, None), (3, "y")), (False, True), (False, True)))
        if not c.thorough:
            todo = [t for i, t in enumerate(todo) if (i + i // 4 + i // 16) % 2 == 0]
        for bad, shape, (down, suffix), lines, one in todo[part::nparts]:
            fmt = "pdf" if one else "png"
            who = [ch for ch in chans if ch not in bad]
            for ch in chans:
                g.set_chan_good(ch)
                setcut(dsets[ch], (np.arange(NP) + ch) % 3 == 0 if ch != 3 else np.zeros(NP, bool))
            for ch in bad:
                g.set_chan_bad(ch, "test")
            h = dict(bad=bad, subplots=shape, down=down, suffix=suffix, lines=lines, one_file=one)
            c.state(bad, shape, down, lines, one)
            lv = {ch: [100.0 * ch, 200.0] for ch in chans} if lines else None
            per = shape[0] * shape[1]
            suf = suffix or "a_chan1.ljh"[:15]
            for kind in ("xy", "time", "hist"):
                saved.clear()
                if kind == "hist":
                    ok, _ = c.run("pages", g.plot_histogram_pages, "p_pulse_rms", (100.0, 500.0), 8, (0.5, 20), shape, suffix, lv, fmt, one)
                    base = f"p_pulse_rms-hist-{suf}-"
                else:
                    xa = "p_pretrig_mean" if kind == "xy" else "p_timestamp"
                    ok, _ = c.run("pages", g.plot_summary_pages, xa, "p_pulse_rms", None, (0.0, 1000.0), shape, suffix, lv, down, fmt, one)
                    base = f"p_pulse_rms.vs.{xa}-{suf}-"
                c.trans()
                if not ok:
                    return
                npage = -(-len(who) // per)
                names = ["pdf"] * npage if one else [f"{base}{i + 1:03d}.{fmt}" for i in range(npage)]
                c.check([x[0] for x in saved] == names, "pages-files", lambda: f"saved {[x[0] for x in saved]}, expected {names}", kind=kind, **h)
                panels = [a for _, axes in saved for a in axes]
                if not c.check([a[0] for a in panels] == [str(ch) for ch in who], "pages-channels", lambda: f"panels {[a[0] for a in panels]}, expected {who}", kind=kind, **h):
                    continue
                for ch, (_, lns, patches, xl, yl) in zip(who, panels):
                    ds = dsets[ch]
                    good = ds.good()
                    y = ds.p_pulse_rms[:]
                    if kind == "hist":
                        v = y[good]
                        e = np.linspace(100, 500, 9)
                        cnt = [np.sum((v >= e[j]) & ((v < e[j + 1]) | ((j == 7) & (v == 500)))) for j in range(8)]
                        c.check(len(patches) == 8 and close([p[2] for p in patches], cnt) and close(patches[0][0], 100.0), "pages-hist", lambda: f"channel {ch}: bars {patches}, expected {cnt}", **h)
                        want = [(None, [v.min(), v.max()], [q, q]) for q in (lv[ch] if lv else [])]
                    else:
                        x = np.asarray(getattr(ds, xa)[:], float)
                        if kind == "time":
                            x = (x - x[0]) / 3600.0
                        want = [(None, x[~good][::down], y[~good][::down]), (None, x[good][::down], y[good][::down])]
                        allx = np.hstack([want[0][1], want[1][1]])
                        want += [(None, [allx.min(), allx.max()], [q, q]) for q in (lv[ch] if lv else [])]
                        c.check(close(yl, (0, 1000)), "pages-range", lambda: f"y range {yl}", kind=kind, **h)
                    ok = len(lns) == len(want) and all(close(a[1], w[1], 1e-4) and close(a[2], w[2], 1e-4) for a, w in zip(lns, want))
                    c.check(ok, "pages-lines", lambda: f"channel {ch}: {lns}, expected {want}", kind=kind, **h)
            c.trace()
    finally:
        os.chdir(here)
        matplotlib.figure.Figure.savefig = original
    st.plt.close("all")
    g.hdf5_file.close()


# ---------------------------------------------------------------- OFF channels
def off(c):
    import mass
    from vlib.mkoff import off_file, state_file
    st = Stage()
    d = c.newdir()
    n = 24
    f = [off_file(d, ch, n) for ch in (1, 2)]
    state_file(d, [(0, "START"), (5, "AB"), (11, "C"), (16, "AB"), (20, "STOP")])
    data = mass.off.ChannelGroup(f)
    recs = {}
    for ch, ds in data.items():
        ds.recipes.add("cutFew", lambda framecount: np.asarray(framecount) % 3 != 1)
        recs[ch] = {a: np.array(ds.offFile[a], float) for a in ("filtValue", "pretriggerMean", "framecount")}
    with data.includeBad():
        sel = {"AB": list(range(5, 11)) + list(range(16, 20)), "C": list(range(11, 16)), None: list(range(5, 20))}
    edges = np.array([900.0, 1005, 1020, 1900, 2040, 2100])
    edgesp = np.array([94.0, 98, 100.5, 107])
    ctr, ctrp = 0.5 * (edges[1:] + edges[:-1]), 0.5 * (edgesp[1:] + edgesp[:-1])
    for ch, req, cut, deflt in itertools.product((1, 2), (None, "AB", ["C"], ["C", "AB"], ["AB"]), (None, "cutFew", "!cutFew"), (False, True)):
        ds = data[ch]
        ds.cutSetDefault("cutFew" if deflt else "cutNone")
        labels = ["AB", "C"] if req is None else [req] if isinstance(req, str) else req
        use = cut or ("cutFew" if deflt else "cutNone")
        keep = [i for i in range(n) if use == "cutNone" or ((int(recs[ch]["framecount"][i]) % 3 != 1) != use.startswith("!"))]
        idx = [i for x in labels for i in sel[x] if i in keep]
        h = dict(channel=ch, states=req, cut=cut, default_cut=deflt)
        c.state(ch, str(req), cut, deflt)
        A, B = recs[ch]["filtValue"], recs[ch]["pretriggerMean"]
        counts = np.array([[sum(1 for i in idx if edges[j] <= A[i] < edges[j + 1] and edgesp[k] <= B[i] < edgesp[k + 1]) for k in range(3)] for j in range(5)])
        for given in (True, False):
            st.set()
            ok, ax = c.run("plotAvsB2d", ds.plotAvsB2d, "filtValue", "pretriggerMean", [edges, edgesp], st.ax if given else None, req, cut)
            if ok:
                if given:
                    c.check(ax is st.ax, "plotAvsB2d-returns", "does not return the axes given", **h)
                    st.untouched(c, "plotAvsB2d", **h)
                else:
                    c.check(is_empty(st.ax) and is_empty(st.decoy), "plotAvsB2d-axes", "drew on older axes though none were given", **h)
                col = ax.collections
                if c.check(len(col) >= 1, "plotAvsB2d", "drew nothing", **h):
                    cs = col[0]
                    if hasattr(cs, "zmax"):
                        c.check(cs.zmax == counts.max() and cs.zmin == counts.min(), "plotAvsB2d-counts", lambda: f"contours from {cs.zmin} to {cs.zmax}, counts {counts.tolist()}", **h)
                    lim = ax.dataLim
                    c.check(close([lim.x0, lim.x1, lim.y0, lim.y1], [ctr[0], ctr[-1], ctrp[0], ctrp[-1]]), "plotAvsB2d-extent", lambda: f"extent {lim}", **h)
                c.check(ax.get_xlabel() == "filtValue" and ax.get_ylabel() == "pretriggerMean", "plotAvsB2d-labels", lambda: f"{ax.get_xlabel()}, {ax.get_ylabel()}", **h)
            c.trans()
            for add in (True, False):
                st.set()
                ok, ax = c.run("plotHist", ds.plotHist, edges, "filtValue", st.ax if given else None, [], req, cut, add)
                if ok:
                    def cnt(ii):
                        return [sum(1 for i in ii if edges[j] <= A[i] < edges[j + 1]) for j in range(5)]
                    want = [(", ".join(labels), ctr, cnt(idx))] if add else [(x, ctr, cnt([i for i in sel[x] if i in keep])) for x in labels]
                    same_lines(c, "plotHist", ax, want, add=add, **h)
                    if given:
                        st.untouched(c, "plotHist", **h)
                c.trans()
        c.trace()
    st.plt.close("all")


# ---------------------------------------------------------------- curves
def curves(c, part):
    import mass
    from mass.calibration.energy_calibration import EnergyCalibration
    st = Stage()
    sets = [[(1000., 2000., "2000"), (1900., 4000., "4000"), (2700., 6000., "6000")], [(0.2, 0.5, "0.5"), (0.7, 3., "3"), (0.9, 4., "4"), (1.5, 7., "7")], [(500., 5000., "5000")]]
    for pts, curve, approx, err in itertools.product(sets, ("loglog", "linear", "gain", "invgain", "loggain"), (False, True), (False, True)):
        if (len(pts) == 1 and (approx or curve != "loglog")) or {3: 0, 4: 1, 1: 2}[len(pts)] != part:
            continue
        cal = EnergyCalibration(curvetype=curve, approximate=approx)
        for p, e, nm in pts:
            cal.add_cal_point(p, e, nm, pht_error=p * 1e-3, e_error=e * 1e-3 * (2 if err else 1))
        ph, en = np.array([p for p, _, _ in pts]), np.array([e for _, e, _ in pts])
        dph, de = ph * 1e-3, en * 1e-3 * (2 if err else 1)
        rel = np.sqrt((dph / ph) ** 2 + (de / en) ** 2)
        for kind, power, slope, ex, showerr, lim in itertools.product(("linear", "gain", "invgain", "loggain", "loglog"), (0.0, 0.9), (False, True), (False, True), (True, False), (None, "lim")):
            if (power and kind != "linear") or (slope and len(pts) < 2) or (ex and kind == "loglog") or (lim and not c.thorough and slope):
                continue
            h = dict(points=pts, curve=curve, approximate=approx, plottype=kind, ph_rescale_power=power, removeslope=slope, energy_x=ex, showerrors=showerr, limits=lim)
            c.state(len(pts), pts[0][0], curve, approx, err, kind, power, slope, ex, showerr, lim)
            kw = dict(plottype=kind, ph_rescale_power=power)
            fn = cal.plot
            if kind in ("gain", "invgain", "loggain") and not lim:
                fn, kw = getattr(cal, "plot" + kind), {}
            if lim:
                kw.update(min_energy=en[0] * 1.1, max_energy=en[-1] * 0.9)
            ax = st.set()
            ok, _ = c.run("calplot", fn, axis=ax, removeslope=slope, energy_x=ex, showerrors=showerr, **kw)
            c.trans()
            if not ok:
                continue
            st.untouched(c, "calplot", **h)

            def value(p, e):
                return {"linear": lambda: e / p ** power, "gain": lambda: p / e, "invgain": lambda: e / p, "loggain": lambda: np.log(p / e), "loglog": lambda: np.log(e)}[kind]()
            x0 = en if ex else np.log(ph) if kind == "loglog" else ph
            y0 = value(ph, en)
            k = (y0[-1] - y0[0]) / (x0[-1] - x0[0]) if slope else 0.0
            # the points and their error bars
            eb = ax.containers
            if not c.check(len(eb) == 1, "calplot-points", lambda: f"{len(eb)} sets of points", **h):
                continue
            data, _, bars = eb[0]
            c.check(close(data.get_xdata(), x0, 1e-9) and close(np.asarray(data.get_ydata(), float) + 1e-12, y0 - k * x0 + 1e-12, 1e-6) or np.allclose(data.get_ydata(), y0 - k * x0, atol=1e-9 * np.abs(y0).max()),
                    "calplot-points", lambda: f"points {data.get_xdata()}, {data.get_ydata()}; expected {x0}, {y0 - k * x0}", **h)
            half = [np.array([np.ptp(s, axis=0).max() / 2 for s in b.get_segments()]) for b in bars]
            wx = de if ex else dph / ph if kind == "loglog" else dph
            wy = rel if kind in ("loggain", "loglog") else rel * np.abs(y0)
            c.check(len(half) == 2 and np.allclose(half[0], wx, rtol=1e-6) and np.allclose(half[1], wy, rtol=1e-6), "calplot-errorbars", lambda: f"half error bars {half}, expected {wx}, {wy}", **h)
            # the curve
            lns = [x for x in drawn(ax) if len(x[1]) > 50]
            wantn = 3 if approx and showerr else 1
            if not c.check(len(lns) == wantn, "calplot-curves", lambda: f"{len(lns)} curves", **h):
                continue
            _, X, Y = lns[0]
            if ex:
                p = np.asarray(cal.e2ph(X), float)
            else:
                p = np.exp(X) if kind == "loglog" else X
            e = np.asarray(cal(p), float)
            inner = np.ones(len(p), bool) if not ex else (X > en[0] * 0.5) & (X < en[-1])
            want = value(p, e) - k * X
            tol = 1e-6 if not ex else 2e-3
            inner &= np.isfinite(want) & (e > 0)
            c.check(np.allclose(Y[inner], want[inner], rtol=tol, atol=tol * np.abs(y0).max()), "calplot-curve", lambda: f"curve {Y[inner][:5]}, expected {want[inner][:5]}", **h)
            if lim:
                q = p if not ex else np.asarray(cal.e2ph(X), float)
                c.check(np.allclose([q.min(), q.max()], cal.e2ph(np.array([en[0] * 1.1, en[-1] * 0.9])), rtol=1e-3) or len(pts) == 1, "calplot-limits", lambda: f"drawn from {q.min()} to {q.max()}", **h)
            elif not ex:
                c.check(p.min() <= ph.min() and p.max() >= ph.max(), "calplot-extent", lambda: f"drawn from {p.min()} to {p.max()}", **h)
            if wantn == 3:
                up, dn = lns[1][2] - Y, Y - lns[2][2]
                u = np.asarray(cal.ph2uncertainty(p), float)
                wu = {"linear": u / p ** power, "gain": u / e * p / e, "invgain": u / p, "loggain": u / e, "loglog": u / e}[kind]
                if not ex:
                    c.check(np.allclose(up[inner], wu[inner], rtol=1e-4, atol=1e-9 * np.abs(y0).max()) and np.allclose(dn[inner], wu[inner], rtol=1e-4, atol=1e-9 * np.abs(y0).max()), "calplot-band", lambda: f"band {up[::300]} {dn[::300]}, expected {wu[::300]}", **h)
            names = sorted(t.get_text().strip() for t in ax.texts)
            c.check(names == sorted(nm for _, _, nm in pts), "calplot-names", lambda: f"names {names}", **h)
            c.trace()
        try:
            cal.plot(axis=st.ax, plottype="cubic")
            c.violate("calplot-type", "an unknown type of plot was accepted")
        except ValueError:
            pass
    st.plt.close("all")


def others(c):
    import mass
    st = Stage()
    # power spectra
    for seg, dt, scale, root in itertools.product((4, 8), (1.0, 1e-3), (1, 3.0), (True, False)):
        ps = mass.mathstat.power_spectrum.PowerSpectrum(seg, dt=dt)
        x = np.array([(i * i * 7 + 3 * i) % 13 for i in range(2 * seg)], float)
        ps.addDataSegment(x)
        ax = st.set()
        ok, _ = c.run("psplot", ps.plot, ax, (scale, "V"), root)
        if ok:
            y = ps.spectrum()[1:] * scale ** 2
            same_lines(c, "psplot", ax, [("", np.arange(1, seg + 1) / (2 * dt * seg), np.sqrt(y) if root else y)], labels=False, segment=seg, dt=dt, scale=scale, sqrt=root)
            st.decoy.set_xscale("linear")
        c.state("ps", seg, dt, scale, root)
        c.trans()
    # efficiencies
    import mass.materials as mat
    fs = mat.FilterStack(name="stack")
    fs.add_Film(name="a", material="Al", thickness_nm=500)
    fs.add_Film(name="b", material="Si", thickness_nm=1000)
    fs.add_Film(name="c", material="Bi", thickness_nm=3000, absorber=True)
    for e in (np.array([1000., 3000, 6000]), np.linspace(500, 9000, 7)):
        ax = st.set()
        ok, _ = c.run("effplot", fs.plot_efficiency, e, ax)
        if ok:
            want = [("total", e, 100 * fs.get_efficiency(e))] + [(k, e, 100 * v.get_efficiency(e)) for k, v in fs.components.items()]
            same_lines(c, "effplot", ax, want, energies=e)
            st.untouched(c, "effplot")
        c.state("eff", len(e))
        c.trans()
    # lines
    for name, fwhm, comp in itertools.product(("MnKAlpha", "CuKBeta", "AlKAlpha"), (0, 2.0, 8.0), (True, False)):
        sp = mass.spectra[name]
        x = np.linspace(sp.peak_energy - 20, sp.peak_energy + 25, 60)
        for xs in (x, None):
            ax = st.set()
            ok, got = c.run("lineplot", sp.plot, xs, fwhm, ax, comp, "L")
            if ok:
                c.check(got is ax, "lineplot-returns", "does not return the axes given")
                X = xs if xs is not None else drawn(ax)[-1][1]
                parts = sp.components(X, fwhm)
                same_lines(c, "lineplot", ax, [("", X, y) for y in parts] * comp + [("L", X, sp.pdf(X, fwhm))] if not comp else
                           [(drawn(ax)[i][0], X, y) for i, y in enumerate(parts) if i < len(drawn(ax))] + [("L", X, sp.pdf(X, fwhm))], line=name, fwhm=fwhm, components=comp)
                c.check(X[0] < sp.peak_energy < X[-1], "lineplot-range", lambda: f"drawn from {X[0]} to {X[-1]}", line=name)
                st.untouched(c, "lineplot", line=name)
            c.state("line", name, fwhm, comp, xs is None)
            c.trans()
        c.trace()
    st.plt.close("all")


def shards(tier):
    out = [(f"traces{i}", (traces, (i, 4))) for i in range(4)]
    out += [(f"summaries{i}", (summaries, (i, 8))) for i in range(8)]
    out += [(f"groups{i}", (groups, (i, 3))) for i in range(3)] + [(f"pages{i}", (pages, (i, 4))) for i in range(4)] + [(f"curves{i}", (curves, (i,))) for i in range(3)] + [("off", (off, ())), ("others", (others, ()))]
    out += [(f"reports{i}", (reports, (i, 4))) for i in range(4)]
    return out


def run_shard(c, fn, args):
    import matplotlib
    matplotlib.use("agg")
    c.sample(dict(shard=fn.__name__, args=list(args)))
    fn(c, *args)
