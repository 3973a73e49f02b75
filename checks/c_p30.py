"""P30: drift, arrival-phase and time-drift corrections."""
import itertools
import os
import warnings

import numpy as np

from vlib.core import chunks
from vlib.ljh import Spec

PROPERTY = "P30"
EXPLAIN = """(1) every multiset of up to three values at, between and beyond the bins of small histograms, each width and pair of limits: smoothed histograms against a directly
evaluated circular Gaussian convolution.  (2) PhaseCorrector: all small spline sets against natural splines and the linear interpolation between lines, evaluated independently on a grid of phases
and pulse heights, also reordered, one at a time, and reread from HDF5.  (3) learning: a grid of planted effects (size, number and position of lines, arrival phases, order of the pulses, method);
the corrected widths must be near those planted, entropies must not grow, inputs stay unchanged, and the order of pulses must not matter.
(4) a data-set state is (cuts, category labels, pulse values, stored results); transitions are cuts, changed values of excluded pulses, correcting (forced or not, by attribute and category), reopening.
All sequences to a depth are run with a reference that corrects every pulse with the learned constants, and constants must depend on selected pulses only."""
ASSUMPTIONS = ["the planted effects are smooth and larger than the planted noise; learned corrections are compared by the widths left, not by exact constants",
               "pulse heights are positive, and phases lie within one sample, as the algorithms assume"]
CHAN = 5


def shards(tier):
    out = [(f"smooth{i}", (smooth, i)) for i in range(2)]
    out += [(f"apply{i}", (apply_phase, i)) for i in range(3)]
    out += [(f"drift{i}", (drift, i)) for i in range(3)]
    out += [(f"phase{i}", (phase, i)) for i in range(6)]
    out += [(f"time{i}", (timedrift, i)) for i in range(4)]
    out += [(f"ljh{i}", (ljh, i)) for i in range(6)]
    out += [(f"off{i}", (off, i)) for i in range(3)]
    return out


def run_shard(c, fn, *a):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    fn(c, *a)


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# ---------------------------------------------------------------- smoothed histograms
def smooth(c, part):
    from mass.core.analysis_algorithms import HistogramSmoother, make_smooth_histogram
    for sigma, lo, hi in [(1.0, 0.0, 400.0), (0.5, 0.0, 300.0), (3.0, -50.0, 1500.0), (0.05, 2.0, 60.0), (2.0, 100.0, 4000.0)][part::2]:
        s = HistogramSmoother(sigma, [lo, hi])
        nb = s(np.array([])).size
        c.check(nb >= 1024 and nb & (nb - 1) == 0 and (hi - lo) / nb <= 0.4 * sigma * 1.001, "bins", f"{nb} bins", sigma=sigma, limits=[lo, hi])
        step = (hi - lo) / nb
        k = np.arange(nb)
        kern = np.exp(-0.5 * (k * step / sigma)**2)
        kern = kern + np.where(k > 0, np.exp(-0.5 * ((nb - k) * step / sigma)**2), 0)
        kern /= kern.sum()
        values = [lo, lo + 0.4 * step, lo + 7.5 * step, (lo + hi) / 2 + 0.3 * step, hi - 0.5 * step, hi, lo - step, hi + 3 * step]
        for n in range(4):
            for v in itertools.combinations_with_replacement(values, n):
                v = np.array(v, float)
                want = np.zeros(nb)
                for x in v:
                    if lo <= x <= hi:
                        want += np.roll(kern, min(int((x - lo) / step), nb - 1))
                got = s(v)
                c.state(sigma, lo, hi, v.tolist())
                c.check(np.allclose(got, want, atol=1e-9), "smooth-histogram", lambda: f"largest error {np.abs(got - want).max()}", values=v, sigma=sigma, limits=[lo, hi])
                c.check(got.min() >= 0, "smooth-negative", "", values=v)
                again = make_smooth_histogram(v, sigma, lo, hi)
                c.check(np.array_equal(again, got), "make-smooth", "make_smooth_histogram differs from HistogramSmoother", values=v)
                if lo == 0:
                    c.check(np.array_equal(make_smooth_histogram(v, sigma, hi), got), "one-limit", "one limit means [0, limit]", values=v)
                c.trans(3)
        c.trace()
    c.sample({"histogram": {"values": values, "sigma": sigma}})


# ---------------------------------------------------------------- applying phase corrections
def natural(x, y):
    """Natural cubic spline, linear outside."""
    from scipy.interpolate import CubicSpline as CS
    x, y = np.asarray(x, float), np.asarray(y, float)
    sp = CS(x, y, bc_type="natural")
    a, b = sp(x[0], 1), sp(x[-1], 1)

    def f(t):
        t = np.asarray(t, float)
        return np.where(t < x[0], y[0] + a * (t - x[0]), np.where(t > x[-1], y[-1] + b * (t - x[-1]), sp(t)))
    return f


def phase_reference(ux, uy, curves, ph, value):
    p = np.clip(ph - natural(ux, uy)(value), -0.6, 0.6)
    lines = [0.0] + [float(f(0)) for f in curves]
    out = []
    for pi, vi in zip(p, value):
        shifts = [0.0] + [float(f(0) - f(pi)) for f in curves]
        if vi < 0:
            out.append(vi)
            continue
        b = 0
        while b + 2 < len(lines) and vi >= lines[b + 1]:
            b += 1
        frac = (vi - lines[b]) / (lines[b + 1] - lines[b])
        out.append(vi + frac * shifts[b + 1] + (1 - frac) * shifts[b])
    return np.array(out)


def apply_phase(c, part):
    import h5py
    from mass.core.phase_correct import PhaseCorrector
    from mass.mathstat.interpolate import CubicSpline
    knots = [-0.5, -0.1, 0.2, 0.55]
    shapes = [(0, 0, 0, 0), (3, 1, -2, -5), (-4, 5, 1, 2), (0, 10, 0, -10)]
    uni = [((0, 1, 2, 3), (0, 0, 0, 0)), ((1000, 2000, 4000, 7000), (0.1, -0.1, 0.05, 0.2)), ((500, 5000), (0.3, -0.3)), ((900, 1100, 5000), (-1, 0.5, 0.9))]
    lines = (1000.0, 2500.0, 6000.0)
    phs = np.array([-1.7, -0.6, -0.45, -0.2, 0.0, 0.03, 0.31, 0.6, 0.7, 1.3])
    vals = np.array([-30.0, 0.0, 400.0, 999.0, 1000.5, 1800.0, 2499.0, 2510.0, 4000.0, 6020.0, 9000.0])
    P, V = [a.ravel() for a in np.meshgrid(phs, vals)]
    todo = [(u, n, s) for u in uni for n in (1, 2, 3) for s in itertools.product(shapes, repeat=n)]
    d = c.newdir()
    h5 = h5py.File(os.path.join(d, "p.h5"), "w")
    for k, (u, n, ss) in enumerate(chunks(todo, 3)[part]):
        if not c.thorough and n == 3 and k % 3:
            continue
        ys = [np.array(s, float) + ln for s, ln in zip(ss, lines)]
        pc = PhaseCorrector(u[0], u[1], [CubicSpline(knots, y) for y in ys], "filtPhase", "filtValue")
        want = phase_reference(*u, [natural(knots, y) for y in ys], P, V)
        p0, v0 = P.copy(), V.copy()
        ok, got = c.run("correct", pc, p0, v0)
        dd = dict(uniformifier=u, curves=ss)
        c.state(u, ss)
        if not ok:
            return
        c.check(same(got, want), "phase-formula", lambda: f"{[(float(p), float(v), float(g), float(w)) for p, v, g, w in zip(P, V, got, want) if abs(g - w) > 1e-8][:4]} (phase, value, got, expected)", **dd)
        c.check(np.array_equal(p0, P) and np.array_equal(v0, V), "phase-inputs", "inputs were changed", **dd)
        c.check(same(pc(P[::-1], V[::-1]), got[::-1], 1e-12), "phase-order", "depends on the order of the pulses", **dd)
        for i in (3, 47, 101):
            c.check(same(pc.correct(P[i:i + 1], V[i:i + 1]), got[i:i + 1], 1e-12), "phase-alone", "depends on the other pulses", **dd)
        pc.toHDF5(h5, "pc", overwrite=True)
        back = PhaseCorrector.fromHDF5(h5, "pc")
        c.check(np.array_equal(back(P, V), got), "phase-reread", "differs when reread from HDF5", **dd)
        c.check((back.indicatorName, back.uncorrectedName) == ("filtPhase", "filtValue"), "phase-names", "names lost in HDF5", **dd)
        c.trans(7)
        c.trace()
    c.sample({"uniformifier": u, "curves": ss})


# ---------------------------------------------------------------- learning
def quasi(n, a):
    """An equidistributed sequence in (0,1)."""
    return ((np.arange(1, n + 1) * a) % 1.0)


def gauss(n, a):
    from scipy.special import ndtri
    return ndtri(np.clip(quasi(n, a), 1e-4, 1 - 1e-4))


def width(x):
    q = np.percentile(x, [10, 90])
    return q[1] - q[0]


def drift(c, part):
    from mass.core.analysis_algorithms import drift_correct
    todo = list(itertools.product([0.0, 2e-4, -5e-4, 1.5e-3], [(2000.0,), (1000.0, 3000.0), (1500.0, 1700.0, 5000.0)], [3.0, 8.0], [600, 2000], [0.0, 12000.0]))
    for slope, lines, spread, n, offset in chunks(todo, 3)[part]:
        x = offset + spread * (2 * quasi(n, 0.61803398875) - 1)
        med = np.median(x)
        true = np.array([lines[i % len(lines)] for i in range(n)]) * (1 + 2e-4 * gauss(n, 0.7548776662))
        y = true / (1 + slope * (x - med))
        x0, y0 = x.copy(), y.copy()
        dd = dict(slope=slope, lines=lines, spread=spread, n=n, offset=offset)
        c.state(slope, lines, spread, n, offset)
        for limit in (None, 1.1 * lines[-1]):
            ok, r = c.run("drift", drift_correct, x0, y0, *([] if limit is None else [limit]))
            if not ok:
                return
            par, info = r
            c.check(np.array_equal(x0, x) and np.array_equal(y0, y), "drift-inputs", "inputs were changed", **dd)
            c.check(info["type"] == "ptmean_gain" and info["slope"] == par and info["median_pretrig_mean"] == med, "drift-info", lambda: f"{info}, slope {par}", **dd)
            z = y * (1 + par * (x - med))
            for i in range(len(lines)):
                w0, w1, wt = [width(v[i::len(lines)]) for v in (y, z, true)]
                c.check(w1 <= max(1.35 * wt, 1.0), "drift-quality", lambda: f"line {lines[i]}: width {w0} became {w1}; planted {wt}; slope found {par}", limit=limit, **dd)
            c.trans()
        order = np.argsort(quasi(n, 0.7320508))
        par2, _ = drift_correct(x[order], y[order])
        par1, _ = drift_correct(list(x), y)
        z1, z2 = [y * (1 + p * (x - med)) for p in (par1, par2)]
        c.check(np.abs(z1 - z2).max() < 1e-3 * lines[-1] * 2e-4 * 10, "drift-order", lambda: f"slope {par1} or {par2} by the order of the pulses", **dd)
        c.trans(2)
        c.trace()
    c.sample({"drift": dd})


PHCURVES = {"linear": lambda p: 1e-3 * p, "steep": lambda p: -3e-3 * p, "curved": lambda p: 2e-3 * (p * p - 0.08) + 1e-3 * p, "none": lambda p: 0 * p}


def phase(c, part):
    from mass.core.phase_correct import phase_correct
    sets = [(5000.0,), (3000.0, 8000.0), (2000.0, 4000.0, 9000.0), (2000.0, 4000.0, 6000.0, 9000.0), (1500.0, 3000.0, 4500.0, 6500.0, 9500.0)]
    todo = [(lines, cv, off, m) for lines in sets for cv in PHCURVES for off in (0.0, 0.12, -0.2) for m in (True, False)]
    for k, (lines, cv, off, m2017) in enumerate(chunks(todo, 6)[part]):
        if m2017 is False and len(lines) == 5 and not c.thorough:
            continue
        n = (1400 if c.thorough else 900) * len(lines)
        which = np.arange(n) % len(lines)
        rel = quasi(n, 0.61803398875) - 0.5
        # the phases depend slightly on the pulse height
        ph = rel + off + 0.02 * which
        ideal = np.array(lines)[which] * (1 + 2e-4 * gauss(n, 0.7548776662))
        y = ideal * (1 + PHCURVES[cv](rel))
        dd = dict(lines=lines, curve=cv, offset=off, method2017=m2017)
        c.state(lines, cv, off, m2017)
        ph0, y0 = ph.copy(), y.copy()
        peaks = list(lines[::-1]) if k % 2 else np.array(lines)
        pk0 = list(peaks)
        ok, pc = c.run("phase_correct", phase_correct, ph0, y0, peaks, method2017=m2017, kernel_width=1e-4 * np.mean(lines),
                       indicatorName="filtPhase", uncorrectedName="filtValue")
        if not ok:
            continue
        z = pc(ph, y)
        c.check(np.array_equal(ph0, ph) and np.array_equal(y0, y) and list(peaks) == pk0, "phase_correct-inputs", "inputs were changed", **dd)
        c.check(len(pc.corrections) == len(lines) and (pc.indicatorName, pc.uncorrectedName) == ("filtPhase", "filtValue"), "phase_correct-fields", "", **dd)
        if not c.check(np.isfinite(z).all(), "phase-nan", lambda: f"{(~np.isfinite(z)).sum()} of {n} corrected values are not finite", **dd):
            continue
        for i, ln in enumerate(lines):
            w0, w1, wt = [width(v[which == i]) for v in (y, z, ideal)]
            lim = 1.35 * wt if m2017 else max(3 * wt, 0.7 * w0)
            c.check(w1 <= max(lim, 1e-4 * ln), "phase-quality", lambda: f"line {ln}: width {w0} became {w1}; planted {wt}", **dd)
            sh = np.median(z[which == i]) - ln
            c.check(abs(sh) < 1.2e-3 * ln, "phase-shift", lambda: f"line {ln} moved by {sh}", **dd)
        order = np.argsort(quasi(n, 0.7320508))
        if m2017:
            pc2 = phase_correct(ph[order], y[order], list(lines), method2017=m2017, kernel_width=1e-4 * np.mean(lines))
            e = np.abs(pc2(ph, y) - z).max() / lines[-1]
            c.check(e < 1e-5, "phase-learn-order", lambda: f"corrections differ by {e} with the order of the pulses", **dd)
            c.trans()
        c.trans(2)
        c.trace()
    c.sample({"phase": dd})


def entropy(y, w):
    """Entropy of a histogram as a stand-in for sharpness."""
    h, _ = np.histogram(y, np.arange(y.min() - w, y.max() + 2 * w, w))
    p = h[h > 0] / h.sum()
    return float(-(p * np.log(p)).sum())


def timedrift(c, part):
    from mass.core.channel import time_drift_correct
    drifts = {"none": lambda t: 0 * t, "linear": lambda t: 2e-3 * t, "parabola": lambda t: 1e-3 * (t * t - 0.3) - 1e-3 * t, "cubic": lambda t: 2e-3 * t**3 - 5e-4 * t}
    todo = list(itertools.product(drifts, [(4000.0,), (2000.0, 5000.0)], [1000, 6000], [0.0, 1.6e9], [3000.0, 30000.0]))
    for name, lines, n, t0, dur in chunks(todo, 4)[part]:
        u = (np.arange(n) + 0.5 * quasi(n, 0.3819)) / n
        u[0], u[-1] = 0, 1
        t = t0 + dur * u
        ideal = np.array([lines[i % len(lines)] for i in range(n)]) * (1 + 2e-4 * gauss(n, 0.7548776662))
        y = ideal / (1 + drifts[name](2 * u - 1))
        y[7::97] *= 9      # outside the limits
        lim = [0.5 * lines[0], 1.15 * lines[-1]]
        inlim = (y > lim[0]) & (y < lim[1])
        N = int(inlim.sum())
        ti = t[inlim]
        dtime = ti.max() - ti.min()
        w = 1.5e-4 * lines[-1]
        for kw in ({"ndeg": 4}, {"sec_per_degree": dur / 5, "pulses_per_degree": n / 5}, {"sec_per_degree": dur / 9, "pulses_per_degree": n / 30, "max_degrees": 3},
                   {"sec_per_degree": dur / 5, "pulses_per_degree": n / 40}, {}):
            t1, y1 = t.copy(), y.copy()
            dd = dict(drift=name, lines=lines, n=n, t0=t0, duration=dur, options=kw)
            c.state(*[str(v) for v in dd.values()])
            ok, info = c.run("time-drift", time_drift_correct, t1, y1, w, limit=lim, **kw)
            if not ok:
                continue
            c.check(np.array_equal(t, t1) and np.array_equal(y, y1), "time-inputs", "inputs were changed", **dd)
            if "ndeg" in kw:
                want = 4
            else:
                want = int(min(dtime / kw.get("sec_per_degree", 2000), N / kw.get("pulses_per_degree", 2000)))
                want = max(1, min(want, kw.get("max_degrees", 20)))
            c.check(len(info["coefficients"]) == want, "time-degree", lambda: f"{len(info['coefficients'])} degrees, expected {want}", **dd)
            c.check((info["tmin"], info["tmax"]) == (ti.min(), ti.max()), "time-range", "tmin, tmax", **dd)
            tn = info["normalize"](t)
            c.check(same(tn, 2 * (t - ti.min()) / dtime - 1, 1e-12), "time-normalize", "normalized times", **dd)
            H1, H2, _ = info["entropies"]
            f = info["model"](tn)
            z = y * (1 + f)
            if H2 > H1 or H2 <= 0:
                c.check(np.all(f == 0), "time-worse-model", lambda: f"the entropy grew from {H1} to {H2}, but the correction is not zero", **dd)
            else:
                from scipy.special import eval_legendre
                wf = sum(a * eval_legendre(i + 1, tn) for i, a in enumerate(info["coefficients"]))
                c.check(np.allclose(f, wf, atol=1e-9), "time-model", "the model is not the Legendre series with the coefficients given", **dd)
            for i, ln in enumerate(lines):
                s = inlim & (np.arange(n) % len(lines) == i)
                w0, w1, wt = [width(v[s]) for v in (y, z, ideal)]
                enough = want >= {"none": 1, "linear": 1, "parabola": 2, "cubic": 3}[name]
                c.check(w1 <= (1.5 * wt if enough else 1.25 * w0), "time-quality", lambda: f"line {ln}: width {w0} became {w1}; planted {wt}", **dd)
            c.trans()
        # pulses outside the limits do not matter
        y2 = y.copy()
        y2[7::97] *= 1.5
        a, b = [time_drift_correct(t, v, w, limit=lim, ndeg=2)["coefficients"] for v in (y, y2)]
        c.check(np.array_equal(a, b), "time-limits", "pulses outside the limits change the correction", **dd)
        c.trace()
    c.sample({"time": dd})


# ---------------------------------------------------------------- LJH data sets
NP = 420


def world():
    n = NP
    line = np.where(np.arange(n) % 3 == 0, 2000.0, 4000.0)
    ptm = 1000 + 10 * quasi(n, 0.61803398875)
    ph = quasi(n, 0.3247) - 0.5
    t = 1.6e9 + np.arange(n) * 30.0
    base = line * (1 + 2e-4 * gauss(n, 0.7548776662))
    y = base * (1 - 3e-4 * (ptm - 1005)) * (1 + 2e-3 * ph) * (1 + 1e-6 * (t - t[0]) / 10)
    return ptm, ph, t, y


def ljhfile(d):
    recs = [(1000 * i, 1_600_000_000_000_000 + 30_000_000 * i, [100] * 4 + [500, 400, 300, 200]) for i in range(NP)]
    return Spec(nsamp=8, npre=4, rows=1, row=0, timebase="1e-6", records=recs).write(os.path.join(d, f"a_chan{CHAN}.ljh"))


class Ref:
    """The pulses selected, as the reference sees them."""

    def __init__(self, ptm, ph, t, y):
        self.ptm, self.ph, self.t = ptm, ph, t
        self.v = {"p_filt_value": y.copy(), "p_filt_value_dc": np.zeros(NP), "p_filt_value_phc": np.zeros(NP), "p_filt_value_tdc": np.zeros(NP)}
        self.cut = np.zeros(NP, bool)
        self.label = np.arange(NP) % 2      # state 1 or 2
        self.have_pc = False


def ljh(c, part):
    """Sequences of steps."""
    import mass
    acts = ["cut-even", "uncut", "spoil-cut", "drift", "drift-force", "drift-cat", "phase", "phase-force", "phase-cat", "time", "time-force", "time-args", "reopen"]
    first = acts[:2]
    depth = 4 if c.thorough else 3
    seqs = [s for s in itertools.product(acts, repeat=depth) if any("drift" in a or "phase" in a or "time" in a for a in s)
            and not (s[0] == "uncut" or s[0] == "reopen" or s[0].endswith("force"))]
    # fixed order first, then every further path, thinned in the quick tier
    step = 1 if c.thorough else 9
    seqs = [("cut-even", "drift-cat", "spoil-cut", "phase-cat", "time-args"), ("spoil-cut", "cut-even", "spoil-cut", "drift", "phase", "time", "reopen", "uncut", "drift-force", "phase-force", "time-force")] + seqs[::step]
    del first
    seqs = chunks(seqs, 6)[part]
    d = c.newdir()
    fn = ljhfile(d)
    import shutil
    base = os.path.join(d, "base.hdf5")
    g = mass.TESGroup([fn], hdf5_filename=base)
    g.summarize_data()
    g.hdf5_file.close()
    for seq in seqs:
        out = os.path.join(d, "o.hdf5")
        shutil.copy(base, out)
        g = mass.TESGroup([fn], hdf5_filename=out)
        g.register_categorical_cut_field("state", ["A", "B"])
        w = world()
        ds = g.channel[CHAN]
        R = Ref(*w)
        ds.p_pretrig_mean[:], ds.p_filt_phase[:], ds.p_timestamp[:], ds.p_filt_value[:] = w
        R.ptm = ds.p_pretrig_mean[:].astype(float)
        R.ph = ds.p_filt_phase[:].astype(float)
        R.v["p_filt_value"] = ds.p_filt_value[:].copy()
        ds.cuts.cut("state", R.label + 1)
        for i, a in enumerate(seq):
            dd = dict(steps=seq[:i + 1])
            c.state(seq[:i + 1])
            g, ds, R, ok = one(c, g, ds, R, a, dd, fn, out)
            if not ok:
                break
            for k, want in R.v.items():
                got = getattr(ds, k)[:]
                if not c.check(same(got, want, 3e-6), f"{a.split('-')[0]}-{k}", lambda: f"{k} differs in {(np.abs(got - want) > 3e-6 * (1 + abs(want))).sum()} pulses: {got[:4]}, expected {want[:4]}", **dd):
                    ok = False
            c.trans()
            if not ok:
                break
        g.hdf5_file.close()
        c.trace()
    c.sample({"ljh": seq})


def one(c, g, ds, R, a, dd, fn, out):
    import mass
    from mass.core.analysis_algorithms import drift_correct
    from mass.core.phase_correct import phase_correct
    from mass.core.channel import time_drift_correct
    kind, _, how = a.partition("-")
    cat = {"state": "A"} if how == "cat" else {}
    good = ~R.cut & ((R.label == 0) if how == "cat" else True)
    if a == "cut-even":
        R.cut = np.arange(NP) % 4 == 0
        ds.cuts.clear_cut("pretrigger_rms")
        ds.cuts.cut("pretrigger_rms", R.cut)
    elif a == "uncut":
        R.cut = np.zeros(NP, bool)
        ds.cuts.clear_cut("pretrigger_rms")
    elif a == "spoil-cut":
        # values of excluded pulses are wild; they must not matter
        bad = R.cut
        y = R.v["p_filt_value"].copy()
        y[bad] = y[bad] * 1.3 + 77
        ds.p_filt_value[:] = y
        R.v["p_filt_value"] = ds.p_filt_value[:].copy()
    elif a == "reopen":
        g.hdf5_file.close()
        g = mass.TESGroup([fn], hdf5_filename=out)
        ds = g.channel[CHAN]
        for k in R.v:
            c.check(np.array_equal(ds.__dict__[k][:], getattr(ds, k)[:]), "reopened", "")
    elif kind == "drift":
        was = R.v["p_filt_value_dc"]
        done = not (np.all(was == 0) or np.all(was == R.v["p_filt_value"]))
        force = how in ("force", "cat")
        if not done or force:
            par, info = drift_correct(ds.p_pretrig_mean[:][good], ds.p_filt_value[:][good])
            R.v["p_filt_value_dc"] = R.v["p_filt_value"] * (1 + par * (R.ptm - info["median_pretrig_mean"]))
        ok, _ = c.run("ds.drift", ds.drift_correct, forceNew=force, category=cat)
        if not ok:
            return g, ds, R, False
        at = ds.p_filt_value_dc.attrs
        if not done or force:
            c.check(at["type"] == "ptmean_gain" and abs(at["slope"] - par) < 1e-9 and at["median_pretrig_mean"] == np.median(ds.p_pretrig_mean[:][good]), "drift-attrs",
                    lambda: f"{dict(at)}, expected slope {par}", **dd)
    elif kind == "phase":
        attr = "p_filt_value" if np.all(R.v["p_filt_value_dc"] == 0) else "p_filt_value_dc"
        force = how in ("force", "cat")
        had = hasattr(ds, "phaseCorrector")
        y = getattr(ds, attr)[:]
        if not had or force:
            pc = phase_correct(ds.p_filt_phase[:][good], y[good], ph_peaks=[2000.0, 4000.0], kernel_width=2.0)
            R.v["p_filt_value_phc"] = pc(ds.p_filt_phase[:], y)
            pcorr = R.ph - natural(pc.phase_uniformifier_x, pc.phase_uniformifier_y)(y)
        ok, _ = c.run("ds.phase", ds.phase_correct, attr=attr, forceNew=force, category=cat, ph_peaks=[2000.0, 4000.0], kernel_width=2.0)
        if not ok:
            return g, ds, R, False
        if not had or force:
            c.check(same(ds.p_filt_phase_corr[:], pcorr, 1e-4), "phase-corrected-phase", lambda: f"p_filt_phase_corr {ds.p_filt_phase_corr[:3]}, expected {pcorr[:3]}", **dd)
            p = ds.phaseCorrector
            c.check((p.indicatorName, p.uncorrectedName) == ("p_filt_phase", attr), "phase-attr-names", "", **dd)
    elif kind == "time":
        was = R.v["p_filt_value_tdc"]
        src = next((k for k in ("p_filt_value_phc", "p_filt_value_dc") if not np.all(R.v[k] == 0)), "p_filt_value")
        force = how in ("force", "args")
        kw = dict(sec_per_degree=1000, pulses_per_degree=50, max_degrees=3) if how == "args" else {}
        y = getattr(ds, src)[:]
        if np.all(was == 0) or force:
            pk = np.median(y[good])
            use = good & (np.abs(y / pk - 1) < 0.5)
            info = time_drift_correct(R.t[use], y[use], max(pk / 3000., 1.0), limit=[0.5 * pk, 2 * pk], **kw)
            R.v["p_filt_value_tdc"] = y * (1 + info["model"](info["normalize"](R.t)))
        ok, _ = c.run("ds.time", ds.time_drift_correct, attr=src, forceNew=force, **kw)
        if not ok:
            return g, ds, R, False
        if how == "args":
            c.check(len(ds.time_drift_correct_info["coefficients"]) == len(info["coefficients"]), "time-args",
                    lambda: f"{len(ds.time_drift_correct_info['coefficients'])} degrees, expected {len(info['coefficients'])}", **dd)
    return g, ds, R, True


# ---------------------------------------------------------------- OFF channels
def off(c, part):
    import h5py
    import mass
    from mass.off.channels import DriftCorrection
    from vlib import mkoff
    if part == 0:
        d = c.newdir()
        h5 = h5py.File(os.path.join(d, "d.h5"), "w")
        names = ["pretriggerMean", "filtValue"]
        x = np.array([-3.0, 0.0, 5.0, 99.5, 1e4])
        y = np.array([0.0, 1000.0, 2000.0, -5.0, 7e4])
        made = []
        for k, (med, slope) in enumerate(itertools.product([0.0, 100.0, -7.5, 1234.56789], [0.0, 1e-3, -2e-5])):
            dc = DriftCorrection(*names, med, slope)
            c.check(same(dc(x, y), [v * (1 + (i - med) * slope) for i, v in zip(x, y)], 1e-12), "drift-apply", "", med=med, slope=slope)
            c.check(np.array_equal(dc.apply(x, y), dc(x, y)), "drift-call", "")
            dc.toHDF5(h5, name=f"dc{k}")
            back = DriftCorrection.fromHDF5(h5, name=f"dc{k}")
            c.check(back == dc and hash(back) == hash(dc) and np.array_equal(back(x, y), dc(x, y)), "drift-reread", "", med=med, slope=slope)
            c.check(all(dc != m for m in made) and dc != 3, "drift-equal", "different corrections compare equal", med=med, slope=slope)
            made.append(dc)
            c.check(DriftCorrection("x", "filtValue", med, slope) != dc and DriftCorrection("pretriggerMean", "y", med, slope) != dc, "drift-equal-names", "")
            c.state(med, slope)
            c.trans()
    from mass.core.analysis_algorithms import drift_correct
    from mass.core.phase_correct import phase_correct
    from mass.core.channel import time_drift_correct
    n = 900
    states = [(0, "A"), (300, "B"), (700, "C")]
    sel = [None, "A", ["A", "C"], ["B"]]
    cuts = [None, "cutHalf", "cutNone"]
    todo = list(itertools.product(sel, cuts, [1, 4]))
    d = c.newdir()
    fns = [mkoff.off_file(d, ch, n) for ch in (1, 4)]
    mkoff.state_file(d, states)
    data = mass.off.ChannelGroup(fns, verbose=False)
    for st, cut, ch in chunks(todo, 3)[part]:
        ds = data[ch]
        ds.cutAdd("cutHalf", lambda relTimeSec: (relTimeSec.astype(int) % 3) > 0, ["relTimeSec"], overwrite=True)
        idx = np.arange(n)
        keep = np.ones(n, bool) if cut != "cutHalf" else (idx % 3) > 0
        if st is not None:
            lab = np.array(["A"] * 300 + ["B"] * 400 + ["C"] * 200)
            keep &= np.isin(lab, [st] if isinstance(st, str) else st)
        raw = {k: np.array(ds.getAttr(k, slice(0, n), "cutNone")) for k in ("pretriggerMean", "filtValue", "filtPhase", "relTimeSec")}
        dd = dict(states=st, cut=cut, channel=ch)
        c.state(str(st), cut, ch)
        ptm, fv, fp, tt = raw["pretriggerMean"], raw["filtValue"], raw["filtPhase"], raw["relTimeSec"]
        if not c.check(np.array_equal(tt.astype(int), idx), "rel-time", "", **dd):
            return
        ok, dc = c.run("learnDrift", ds.learnDriftCorrection, states=st, cutRecipeName=cut, overwriteRecipe=True)
        par, info = drift_correct(ptm[keep], fv[keep])
        if ok:
            got = ds.getAttr("filtValueDC", slice(0, n), "cutNone")
            c.check(same(got, fv * (1 + par * (ptm - np.median(ptm[keep]))), 1e-6), "off-drift", "filtValueDC", **dd)
            lab = ds.getAttr("filtValueDC", st, cut)
            c.check(same(lab, np.asarray(got)[keep], 1e-12), "off-drift-selected", "", **dd)
        peaks = [1000.0 * (1 + 0.01 * ch), 2000.0 * (1 + 0.01 * ch)]
        ok, _ = c.run("learnPhase", ds.learnPhaseCorrection, uncorrectedName="filtValueDC", correctedName="fvPC", states=st, cutRecipeName=cut,
                      linePositionsFunc=lambda ds: peaks, overwriteRecipe=True)
        dcv = np.array(ds.getAttr("filtValueDC", slice(0, n), "cutNone"))
        if ok:
            pc = phase_correct(fp[keep], dcv[keep], peaks)
            c.check(same(ds.getAttr("fvPC", slice(0, n), "cutNone"), pc(fp, dcv), 1e-9), "off-phase", "filtValueDCPC", **dd)
        for kw in ({}, {"ndeg": 2}, {"sec_per_degree": 100, "pulses_per_degree": 60, "max_degrees": 2, "limit": [500, 1500]}):
            ok, _ = c.run("learnTime", ds.learnTimeDriftCorrection, uncorrectedName="filtValueDC", states=st, cutRecipeName=cut, kernel_width=3,
                          overwriteRecipe=True, **kw)
            if ok:
                info = time_drift_correct(tt[keep], dcv[keep], 3, **kw)
                c.check(same(ds.getAttr("filtValueDCTC", slice(0, n), "cutNone"), dcv * (1 + info["model"](info["normalize"](tt))), 1e-9), "off-time", "filtValueDCTC", options=kw, **dd)
            c.trans()
        c.trans(2)
        c.trace()
    c.sample({"off": dd})
