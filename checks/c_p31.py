"""P31: line fits, calibration plans and channel alignment of OFF data."""
import itertools
import os
import warnings

import numpy as np

from vlib import mkoff
from vlib.core import chunks
from vlib.offs import OffSpec

PROPERTY = "P31"
EXPLAIN = """Pulses are placed at exact quantiles of known line shapes, in several channels with different nonlinear gains, with states (one of them full of misplaced lines) and
cut pulses.  (1) all ordered plans of up to three (four) points from an alphabet of known, standard, and custom lines: a plan is the list of its points, and the rough calibration goes through them whatever their order, with its inverse; refused points change nothing.
(2) plans x number of iterations x curve types x cuts x attributes: every fit sees exactly the histogram of the selected pulses, the new calibration has exactly the plan's lines, gives their known energies, and is the attribute's recipe with its inverse; channels with bad plans are marked bad, alone.
(3) line fits by attribute, states, cuts, bins and fixed or updated parameters: the histogram, fixed values and labels.  (4) alignments of every pair of gains, bin width and set of peaks: peaks are paired within two bins (exactly with itself), and the plan is
transferred.  (5) quality checks
for all combinations of tolerances, limits, states and held parameters, with channels off in both directions.  (6) residual cuts for all small arrangements of populated bins."""
ASSUMPTIONS = ["fits of exactly planted spectra reach the planted energy within 0.5 eV", "rough calibrations are right within the fit range"]
SPECTRA = ("TiKAlpha", "MnKAlpha", "CuKAlpha")
NL = 700


def shards(tier):
    out = [(f"plans{i}", (plans, i)) for i in range(3)]
    out += [(f"calibrate{i}", (calibrate, i)) for i in range(8)]
    out += [(f"fits{i}", (fits, i)) for i in range(3)]
    out += [(f"align{i}", (align, i)) for i in range(6)]
    out += [(f"learn{i}", (learn, i)) for i in range(2)]
    out += [("resid", (resid,))]
    out += [(f"quality{i}", (quality, i)) for i in range(3)]
    return out


def run_shard(c, fn, *a):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    fn(c, *a)


_shapes = {}


def shape(name, n, fwhm=4.0):
    """Energies at the quantiles of a line."""
    import mass
    if (name, n) not in _shapes:
        sp = mass.spectra[name]
        x = np.linspace(sp.peak_energy - 150, sp.peak_energy + 150, 30001)
        q = np.cumsum(sp.pdf(x, fwhm))
        _shapes[name, n] = np.interp((np.arange(n) + .5) / n, q / q[-1], x)
    return _shapes[name, n]


def gain(ch, e):
    e = np.asarray(e, float)
    return {1: 2.0 * e**0.93, 4: 2.2 * e**0.93, 7: 3.1 * e**0.9, 9: 1.7 * e**0.94}[ch]


def world(d, channels, n=NL, lines=SPECTRA):
    """State A: all lines; B: the lines misplaced by 11 eV; C: all lines. A fifth of the pulses has a large residual and misplaced energies."""
    fns = []
    truth = {}
    for ch in channels:
        e = np.hstack([shape(x, n) for x in lines])
        state = np.array(list("ABC"))[np.arange(e.size * 3) % 3]
        e = np.repeat(e, 3)
        e = np.where(state == "B", e + 11.0, e)
        bad = (np.arange(e.size) // 3) % 5 == 2
        e = np.where(bad, e - 17.0, e)
        order = np.argsort((np.arange(e.size) * 0.61803398875) % 1 + 10 * (np.searchsorted(["A", "B", "C"], state)))
        e, state, bad = e[order], state[order], bad[order]
        s = OffSpec(nbasis=3)
        fv = gain(ch, e).astype(np.float32)
        recs = [s.rec(i, unixnano=mkoff.T0 + i * 10**9, ptm=100.0, resid=9.0 if bad[i] else 1.0, coefs=[0., 0., float(fv[i])]) for i in range(e.size)]
        fns.append(s.write(os.path.join(d, f"o_chan{ch}.off"), recs))
        truth[ch] = dict(e=e, state=state, bad=bad, fv=fv)
    third = e.size // 3
    mkoff.state_file(d, [(0, "A"), (third, "B"), (2 * third, "C")])
    return fns, truth


def peak(name):
    import mass
    return mass.spectra[name].peak_energy


def select(t, states, cut):
    keep = np.ones(t["e"].size, bool)
    if states is not None:
        keep &= np.isin(t["state"], [states] if isinstance(states, str) else list(states))
    if cut == "cutResid":
        keep &= ~t["bad"]
    return keep


# ---------------------------------------------------------------- plans
def plans(c, part):
    import mass
    d = c.newdir()
    fns = [mkoff.off_file(d, ch, 30) for ch in (1, 4)]
    mkoff.state_file(d, [(0, "A"), (10, "B")])
    data = mass.off.ChannelGroup(fns, verbose=False)
    std = next(k for k in mass.STANDARD_FEATURES if k not in mass.spectra and 2000 < mass.STANDARD_FEATURES[k] < 4500)
    alphabet = [("MnKAlpha", None, "A", peak("MnKAlpha")), ("CuKAlpha", None, ["A", "B"], peak("CuKAlpha")), (std, None, None, mass.STANDARD_FEATURES[std]),
                ("mine", 1250.0, "B", 1250.0), ("TiKAlpha", None, None, peak("TiKAlpha")), (std + "x", 9999.5, None, 9999.5)]
    todo = [p for k in (1, 2, 3, 4) for p in itertools.permutations(range(len(alphabet)), k) if k < 4 or c.thorough or p[0] < 2]
    for p in chunks(todo, 3)[part]:
        ch = (1, 4)[len(p) % 2]
        ds = data[ch]
        attr = ("filtValue", "pretriggerMean")[p[0] % 2]
        ds.calibrationPlanInit(attr)
        pts = []
        for i in p:
            name, e, st, want = alphabet[i]
            x = float(gain(ch, want))
            kw = {} if e is None else {"energy": e}
            ok, plan = c.run("add-point", ds.calibrationPlanAddPoint, x, name, states=st, **kw)
            if not ok:
                return
            pts.append((x, want, name, st))
            c.state(p[:len(pts)], attr, ch)
            dd = dict(points=pts, attribute=attr)
            c.check(plan is ds.calibrationPlan, "plan-object", "", **dd)
            c.check(np.array_equal(plan.uncalibratedVals, [q[0] for q in pts]), "plan-values", lambda: f"{plan.uncalibratedVals}", **dd)
            c.check(np.allclose(plan.energies, [q[1] for q in pts], rtol=1e-12), "plan-energies", lambda: f"{plan.energies}", **dd)
            c.check([a == b or a == b + 'quick_line' for a, b in zip(plan.names, [q[2] for q in pts])] == [True] * len(pts) and plan.states == [q[3] for q in pts], "plan-names", lambda: f"{plan.names} {plan.states}", **dd)
            xs, es = np.array([q[0] for q in pts]), np.array([q[1] for q in pts])
            r = ds.recipes["energyRough"]
            c.check(np.allclose(r.f(xs), es, rtol=1e-9), "rough-points", lambda: f"energyRough gives {r.f(xs)} at the plan's points {es}", **dd)
            c.check(np.allclose(r.inverse(es), xs, rtol=1e-6), "rough-inverse", lambda: f"inverse {r.inverse(es)}, expected {xs}", **dd)
            got, raw = ds.getAttr(["energyRough", attr], slice(None), "cutNone")
            c.check(np.allclose(got, r.f(np.asarray(raw)), rtol=1e-9), "rough-attribute", "the channel's energyRough is not the calibration of its attribute", **dd)
            c.trans()
        # other orders give the same rough calibration
        grid = np.linspace(500, 20000, 23)
        cal = plan.getRoughCalibration()
        again = mass.off.channels.CalibrationPlan()
        for k in np.argsort([q[1] for q in pts]):
            again.addCalPoint(plan.uncalibratedVals[k], plan.states[k], plan.lines[k])
        c.check(np.allclose(again.getRoughCalibration()(grid), cal(grid), rtol=1e-9), "plan-order", "the rough calibration depends on the order of points", **dd)
        # refused points
        try:
            ds.calibrationPlanAddPoint(777.0, "no such line")
            c.violate("unknown-line", "an unknown line without energy was accepted")
        except Exception:
            c.check(len(plan.lines) == len(pts) == len(plan.states) == len(plan.uncalibratedVals), "refused-point", "a refused point changed the plan", **dd)
        c.check("calibrationPlan" not in vars(data[5 - ch]) or data[5 - ch].calibrationPlan is not plan, "plan-shared", "channels share a plan", **dd)
        c.trace()
    c.sample({"plan": pts})


# ---------------------------------------------------------------- calibration
def setup(c, channels, n=NL):
    import mass
    d = c.newdir()
    fns, truth = world(d, channels, n)
    data = mass.off.ChannelGroup(fns, verbose=False)
    data.cutAdd("cutResid", lambda residualStdDev: residualStdDev < 5, ["residualStdDev"])
    data.cutSetDefault("cutResid")
    return d, fns, truth, data


def add_plan(ds, ch, lines, states, err=3e-4):
    ds.calibrationPlanInit("filtValue")
    for k, x in enumerate(lines):
        ds.calibrationPlanAddPoint(float(gain(ch, peak(x))) * (1 + err * (-1)**k), x, states=states[k % len(states)])


def calibrate(c, part):
    channels = (1, 4, 7)
    d, fns, truth, data = setup(c, channels)
    orders = [p for k in (2, 3) for p in itertools.permutations(SPECTRA, k)]
    todo = list(itertools.product(orders, [("A",), ("A", "C"), (["A", "C"],)], [1, 2, 3], ["gain", "loglog", "linear+0"], [None, "cutResid"]))
    if not c.thorough:
        todo = [t for i, t in enumerate(todo) if i % 4 == 0]
    for k, (lines, states, nit, curve, cut) in enumerate(chunks(todo, 8)[part]):
        name = "energy" if k % 3 else "energyNew"
        dlo, dhi, bs = [(50, 50, None), (40, 60, 0.5)][k % 2]
        dd = dict(lines=lines, states=states, iterations=nit, curve=curve, cut=cut)
        c.state(lines, str(states), nit, curve, cut, name)
        data.markAllGood()
        for ch in channels:
            add_plan(data[ch], ch, lines, states)
        roughs = {ch: data[ch].calibrationPlan.getRoughCalibration() for ch in channels}
        ok, res = c.run("calibrate", data.calibrateFollowingPlan, "filtValue", calibratedName=name, curvetype=curve, n_iter=nit, dlo=dlo, dhi=dhi, binsize=bs,
                        cutRecipeName=cut, overwriteRecipe=True)
        if not ok:
            return
        if not c.check(sorted(data.keys()) == list(channels), "channel-failed", lambda: f"{data.whyChanBad()}", **dd):
            return
        for ch in channels:
            ds, t = data[ch], truth[ch]
            cal = ds.recipes[name].f
            rs = cal.results
            c.check(len(rs) == len(lines) and res[ch] is rs or len(res[ch]) == len(rs), "results", "one result per line", **dd)
            want = sorted((peak(x), x) for x in lines)
            ens = sorted((float(e), str(x)) for e, x in zip(cal.cal_point_energies, cal.cal_point_names))
            es, ns = [v[0] for v in ens], [v[1] for v in ens]
            c.check(np.allclose(es, [w[0] for w in want]) and ns == [w[1] for w in want], "calibration-points", lambda: f"{es} {ns}", channel=ch, **dd)
            c.check(len(cal.intermediate_calibrations) == nit - 1 and cal.plan is ds.calibrationPlan and cal.uncalibratedName == "filtValue" and cal.curvename() == curve,
                    "calibration-fields", lambda: f"{len(cal.intermediate_calibrations)} intermediate calibrations; {cal.curvename()}", channel=ch, **dd)
            for x in lines:
                e = peak(x)
                got = float(cal(gain(ch, e)))
                c.check(abs(got - e) < 0.5, "calibrated-energy", lambda: f"{x} is put at {got}, not {e}", channel=ch, **dd)
                c.check(abs(float(ds.recipes[name].inverse(e)) / float(gain(ch, e)) - 1) < 5e-5 if ds.recipes[name].inverse is not None else True, "calibrated-inverse", "", channel=ch, **dd)
            # the fits' histograms
            steps = [roughs[ch], *cal.intermediate_calibrations]
            for line, st, r in zip(lines, itertools.cycle(states), rs):
                keep = select(t, st, "cutResid")
                edges = np.arange(peak(line) - dlo, peak(line) + dhi, 1.0 if bs is None else bs)
                h, _ = np.histogram(steps[-1](t["fv"][keep]), edges)
                c.check(np.array_equal(h, r.data), "fit-histogram", lambda: f"{line}: the fit sees {r.data.sum()} counts, expected {h.sum()}", channel=ch, **dd)
                c.check(abs(r.params["fwhm"].value - 4) < 0.6, "fit-resolution", lambda: f"{line}: {r.params['fwhm'].value}", channel=ch, **dd)
                c.trans()
            vals = ds.getAttr(name, slice(None), "cutNone")
            c.check(np.allclose(vals, cal(t["fv"]), rtol=1e-6), "calibrated-attribute", "the attribute is not the calibration of filtValue", channel=ch, **dd)
            phs = np.sort(cal.cal_point_phs)
            c.check(np.allclose(phs, gain(ch, [w[0] for w in want]), rtol=1e-4), "calibration-ph", lambda: f"{phs}", channel=ch, **dd)
        if name == "energy" and len(lines) == 3:
            drop_one(c, data, channels, dd)
        # an explicit plan, of other lines, leaves the channel's own alone
        if k % 5 == 0:
            ds = data[4]
            import mass
            p = mass.off.channels.CalibrationPlan()
            for x in SPECTRA:
                p.addCalPoint(float(gain(4, peak(x))), "C", mass.spectra[x])
            ok, rs = c.run("own-plan", ds.calibrateFollowingPlan, "filtValue", calibratedName="energyOwn", plan=p, overwriteRecipe=True)
            if ok:
                cal = ds.recipes["energyOwn"].f
                c.check(len(rs) == 3 and cal.plan is p and len(ds.calibrationPlan.lines) == len(lines), "own-plan-used", "", **dd)
                c.check(np.allclose(cal(gain(4, [peak(x) for x in SPECTRA])), [peak(x) for x in SPECTRA], atol=0.2), "own-plan-energy", "", **dd)
            # a line that is not there: only that channel is marked bad
            ds.calibrationPlanAddPoint(float(gain(4, 7000.0)), "nothing", energy=7000.0)
            c.run("calibrate-failing", data.calibrateFollowingPlan, "filtValue", calibratedName=name, overwriteRecipe=True)
            c.check(sorted(data.keys()) == [1, 7], "failing-line", lambda: f"good channels {sorted(data.keys())} when channel 4's plan has a line without pulses", **dd)
        c.trace()
    c.sample({"calibrate": dd})


def drop_one(c, data, channels, dd):
    """Channels whose calibration predicts some left-out point badly are marked, exactly."""
    import mass
    worst, median = {}, {}
    for ch in channels:
        cal = data[ch].recipes["energy"].f
        ph, e = np.array(cal.cal_point_phs), np.array(cal.cal_point_energies)
        errs = []
        for i in range(len(ph)):
            other = mass.EnergyCalibration(curvetype=cal.curvename())
            for j in range(len(ph)):
                if j != i:
                    other.add_cal_point(ph[j], e[j])
            errs.append(abs(float(other(ph[i])) - e[i]))
        worst[ch], median[ch] = max(errs), np.median(errs)
    limits = [(None, None)]
    for ch in channels:
        for f in (0.97, 1.03):
            limits += [(worst[ch] * f, None), (None, worst[ch] / median[ch] / 1.4826 * f)]
    limits += [(limits[1][0], limits[4][1]), (limits[6][0], limits[7][1])]
    for ab, sig in limits:
        data.markAllGood()
        want = {ch for ch in channels if (ab is not None and worst[ch] > ab) or (sig is not None and worst[ch] > sig * 1.4826 * median[ch])}
        ok, _ = c.run("drop-one", data.qualityCheckDropOneErrors, ab, sig)
        bad = set(channels) - set(data.keys())
        c.check(not ok or bad == want, "drop-one-marks", lambda: f"channels {bad} are marked bad, expected {want} (errors up to {worst}, medians {median})", absolute=ab, sigma=sig, **dd)
        c.trans()
    data.markAllGood()


# ---------------------------------------------------------------- line fits
def fits(c, part):
    import lmfit
    d, fns, truth, data = setup(c, (1, 4))
    for ch in (1, 4):
        add_plan(data[ch], ch, SPECTRA, ("A",))
    data.calibrateFollowingPlan("filtValue", n_iter=2)
    cals = {ch: data[ch].recipes["energy"].f for ch in (1, 4)}
    c.run("default-bins", data.setDefaultBinsize, 0.75)
    todo = list(itertools.product([1, 4, "group"], ["energy", "filtValue", "cal"], [None, "A", ["A", "C"], "B"], [None, "cutNone", "!cutResid"], SPECTRA[:2]))
    for k, (ch, attr, st, cut, line) in enumerate(chunks(todo, 3)[part]):
        if ch == "group" and (attr == "filtValue" or cut == "!cutResid"):
            continue
        obj = data if ch == "group" else data[ch]
        chans = (1, 4) if ch == "group" else (ch,)
        e = peak(line)
        dd = dict(channel=ch, attribute=attr, states=st, cut=cut, line=line)
        c.state(*[str(v) for v in dd.values()])
        kw = {}
        if attr == "filtValue":
            g0 = float(gain(ch, e))
            kw["binEdges"] = np.arange(g0 * 0.99, g0 * 1.01, 0.6)
            edges = kw["binEdges"]
        elif k % 4 == 1:
            kw.update(dlo=35, dhi=45, binsize=0.5)
            edges = np.arange(e - 35, e + 45, 0.5)
        elif k % 4 == 3:
            kw.update(binsize=1.0)
            edges = np.arange(e - 50, e + 50, 1.0)
        else:
            edges = np.arange(e - 50, e + 50, 0.75)
        want = 0
        for x in chans:
            t = truth[x]
            keep = select(t, st, "cutResid" if cut is None else cut)
            if cut == "!cutResid":
                keep &= t["bad"]
            v = t["fv"][keep] if attr == "filtValue" else cals[x](t["fv"][keep])
            want = want + np.histogram(v, edges)[0]
        if attr == "cal":
            if ch == "group":
                continue
            kw["calibration"] = cals[ch]
        a = "filtValue" if attr == "cal" else attr
        ok, r = c.run("linefit", obj.linefit, line, a, states=st, cutRecipeName=cut, plot=False, minimum_bins_per_fwhm=0.5, **kw)
        if not ok:
            return
        c.check(np.array_equal(r.data, want), "linefit-histogram", lambda: f"the fit sees {r.data.sum()} counts, expected {want.sum()}", **dd)
        off = 11.0 if st == "B" else 0.0
        if cut is None and attr != "filtValue" and st is not None:
            c.check(abs(r.params["peak_ph"].value - e - off) < 0.3 and abs(r.params["fwhm"].value - 4) < 0.5, "linefit-line", lambda: f"{r.params['peak_ph'].value}, FWHM {r.params['fwhm'].value}", **dd)
        elif cut is None and st is not None:
            g1 = float(gain(ch, e + off))
            c.check(abs(r.params["peak_ph"].value / g1 - 1) < 2e-4, "linefit-raw-line", lambda: f"{r.params['peak_ph'].value}, expected {g1}", **dd)
        if attr != "filtValue":
            c.check(r.params["dph_de"].value == 1 and not r.params["dph_de"].vary, "linefit-unit-gain", "", **dd)
        if ch != "group" and cut is None and st is not None:
            # fixed and updated parameters
            ok, r2 = c.run("linefit-fixed", obj.linefit, line, a, states=st, plot=False, minimum_bins_per_fwhm=0.5, params_fixed={"fwhm": 4.75, "background": 0.5}, **kw)
            if ok:
                p = r2.params
                c.check(p["fwhm"].value == 4.75 and p["background"].value == 0.5 and not p["fwhm"].vary, "linefit-fixed-values", lambda: f"{p['fwhm']}, {p['background']}", **dd)
            up = lmfit.Parameters()
            up.add("fwhm", value=3.75, vary=False)
            ok, r3 = c.run("linefit-update", obj.linefit, line, a, states=st, plot=False, minimum_bins_per_fwhm=0.5, params_update=up, **kw)
            if ok:
                c.check(r3.params["fwhm"].value == 3.75, "linefit-updated", "", **dd)
            up["fwhm"].set(vary=True)
            ok, r5 = c.run("linefit-fixed-updated", obj.linefit, line, a, states=st, plot=False, minimum_bins_per_fwhm=0.5, params_update=up, params_fixed={"fwhm": 4.75}, **kw)
            if ok:
                c.check(r5.params["fwhm"].value == 4.75 and not r5.params["fwhm"].vary, "linefit-fixed-and-updated", lambda: f"{r5.params['fwhm']}", **dd)
            ok, r4 = c.run("linefit-again", obj.linefit, line, a, states=st, plot=False, minimum_bins_per_fwhm=0.5, **kw)
            if ok:
                c.check(abs(r4.params["fwhm"].value - r.params["fwhm"].value) < 1e-6, "linefit-remembers", "a fit depends on the fits before", **dd)
            c.trans(3)
        c.trans()
        c.trace()
    for x in ("pretriggerMean", "filtValue"):
        try:
            data[1].linefit("MnKAlpha", x, plot=False)
            c.violate("linefit-no-bins", f"no error without bins for {x}")
        except Exception:
            pass
    c.sample({"fit": dd})


# ---------------------------------------------------------------- alignment
def align(c, part):
    channels = (1, 4, 7, 9)
    d, fns, truth, data = setup(c, channels, 500 if c.thorough else 300)
    todo = list(itertools.product(channels, [2.0, 5.0, 12.5, 0.0], [("A",), ("C",), ("A", "C"), ("C", "A")], itertools.permutations(SPECTRA)))
    if not c.thorough:
        todo = [t for i, t in enumerate(todo) if i % 9 == 0]
    for k, (ref, width, states, lines) in enumerate(chunks(todo, 6)[part]):
        if width:
            edges = np.arange(500, 16000, width)
        else:
            # widths that binary fractions do not hold
            edges = 100.3 + np.arange(1, 2400) * 7.1
            width = 7.1
        dd = dict(reference=ref, width=width, states=states, lines=lines)
        c.state(ref, width, states, lines)
        data.markAllGood()
        for ch in channels:
            vars(data[ch]).pop("calibrationPlan", None)
        R = data[ref]
        add_plan(R, ref, lines, states, err=0)
        plan0 = [list(R.calibrationPlan.uncalibratedVals), list(R.calibrationPlan.names)]
        ok, _ = c.run("align", data.alignToReferenceChannel, R, "filtValue", edges, states=states[0])
        if not ok:
            return
        if not c.check(sorted(data.keys()) == list(channels), "align-failed", lambda: f"{data.whyChanBad()}", **dd):
            return
        c.check(plan0 == [list(R.calibrationPlan.uncalibratedVals), list(R.calibrationPlan.names)], "reference-plan", "the reference channel's plan was changed", **dd)
        for ch in channels:
            ds = data[ch]
            al = ds.aligner
            xa = np.array([float(gain(ref, peak(x))) for x in lines])
            xb = np.array([float(gain(ch, peak(x))) for x in lines])
            ia = np.searchsorted(edges, xa) - 1
            c.check(np.array_equal(al.peak_inds_a, ia), "reference-bins", lambda: f"{al.peak_inds_a}, expected {ia}", channel=ch, **dd)
            ib = np.asarray(al.peak_inds_b)
            wb = np.searchsorted(edges, xb) - 1
            if ch == ref:
                c.check(np.array_equal(ib, ia), "self-alignment", lambda: f"bins {ib} of itself, expected {ia}", **dd)
            tol = max(2.5, 16 / width)
            c.check(np.abs(ib - wb).max() <= tol, "paired-peaks", lambda: f"bins {ib}, expected {wb}", channel=ch, **dd)
            cal = ds.calibrationArbsInRefChannelUnits
            ctr = 0.5 * (edges[1:] + edges[:-1])
            c.check(np.allclose(cal(ctr[ib]), ctr[ia], rtol=1e-9), "alignment-map", lambda: f"{cal(ctr[ib])}, expected {ctr[ia]}", channel=ch, **dd)
            fv = truth[ch]["fv"]
            c.check(np.allclose(ds.getAttr("arbsInRefChannelUnits", slice(None), "cutNone"), cal(fv), rtol=1e-6), "arbs-attribute", "", channel=ch, **dd)
            p = ds.calibrationPlan
            c.check(list(p.names) == list(lines) and p.states == [states[i % len(states)] for i in range(3)] and np.allclose(p.energies, [peak(x) for x in lines]),
                    "aligned-plan", lambda: f"{p}", channel=ch, **dd)
            c.check(np.abs(p.uncalibratedVals - (xa if ch == ref else xb)).max() <= (1e-9 if ch == ref else (tol + 1) * width), "aligned-values", lambda: f"{p.uncalibratedVals}, true {xb}", channel=ch, **dd)
            c.check(np.allclose(ds.recipes["energyRough"].f(p.uncalibratedVals), p.energies, rtol=1e-9), "aligned-rough", "energyRough misses the plan's points", channel=ch, **dd)
            for frac in (0.02, 0.5):
                q = al.testForGoodnessBasedOnCalCurvature(frac)
                c.check(bool(q) or (frac < 0.1 or ref in (7, 9) or ch in (7, 9)), "alignment-goodness", "a straight alignment is called bad", channel=ch, **dd)
            c.trans()
        if k % 2 == 0:
            ok, _ = c.run("align-calibrate", data.calibrateFollowingPlan, "filtValue", n_iter=3, dlo=60, dhi=60, overwriteRecipe=True)
            for ch in data.keys():
                cal = data[ch].recipes["energy"].f
                err = np.abs(cal(gain(ch, [peak(x) for x in lines])) - [peak(x) for x in lines])
                c.check(err.max() < 0.3, "aligned-energies", lambda: f"calibrated line energies are wrong by {err}", channel=ch, **dd)
            c.check(ok and len(data.keys()) == 4, "align-calibrate-failed", lambda: f"{data.whyChanBad()}", **dd)
        c.trace()
    c.sample({"align": dd})


def learn(c, part):
    """The plan found from peaks (whose choice is another property)."""
    import mass
    d, fns, truth, data = setup(c, (1, 4, 9))
    for lines, st, fwhm in list(itertools.product(itertools.permutations(SPECTRA), ["A", ["A", "C"], "C"], [15, 30]))[part::2]:
        data.markAllGood()
        ok, _ = c.run("learn-plan", data.learnCalibrationPlanFromEnergiesAndPeaks, "filtValue", states=st, ph_fwhm=fwhm, line_names=list(lines), maxacc=0.1)
        dd = dict(lines=lines, states=st, fwhm=fwhm)
        c.state(lines, str(st), fwhm)
        if not ok or not c.check(sorted(data.keys()) == [1, 4, 9], "learn-failed", lambda: f"{data.whyChanBad()}", **dd):
            return
        for ch in (1, 4, 9):
            p = data[ch].calibrationPlan
            want = sorted(lines, key=peak)
            c.check(list(p.names) == want and all(s == st for s in p.states), "learned-names", lambda: f"{p}", **dd)
            v = truth[ch]["fv"][select(truth[ch], st, "cutResid")]
            w = mass.algorithms.find_opt_assignment(mass.algorithms.find_local_maxima(v, fwhm)[0], list(lines), maxacc=0.1)[2]
            c.check(np.allclose(p.uncalibratedVals, w, rtol=1e-9), "learned-peaks", lambda: f"{p.uncalibratedVals}, expected {w}", channel=ch, **dd)
            c.check(np.allclose(data[ch].recipes["energyRough"].f(p.uncalibratedVals), p.energies), "learned-rough", "", **dd)
            c.trans()
        c.trace()
    c.sample({"learn": dd})


OFFSETS = {1: -3.0, 4: 0.25, 7: 2.0}


def inverse_gain(ch, offset):
    grid = np.linspace(3000, 9500, 26001)
    g = gain(ch, grid)
    return lambda filtValue: np.interp(filtValue, g, grid) + offset


def quality(c, part):
    """Quality checks of fits mark exactly the channels whose fits are off, in either direction."""
    import h5py
    import pylab as plt
    channels = tuple(OFFSETS)
    d, fns, truth, data = setup(c, channels, 300)
    for ch, off in OFFSETS.items():
        data[ch].recipes.add("energyQ", inverse_gain(ch, off), ["filtValue"])
    todo = list(itertools.product(SPECTRA[:2], ["A", ["A", "C"]], [(None, None), (1.0, None), (2.5, None), (5.0, None), (None, 2.0), (None, 1e4), (1.0, 3.0)], [None, 3.0, 4.5], [None, {"fwhm": 4.25}], [False, True]))
    fitted = {}
    for line, st, (ab, sig), worst, hold, group in todo[part::3]:
        dd = dict(line=line, states=st, absolute=ab, sigma=sig, worst=worst, hold=hold, group=group)
        c.state(*[str(v) for v in dd.values()])
        data.markAllGood()
        want = set()
        for ch in channels:
            key = ch, line, str(st), str(hold)
            if key not in fitted:
                ok, r = c.run("quality-reference", data[ch].linefit, line, "energyQ", st, plot=False, dlo=40, dhi=45, binsize=0.75, params_fixed=hold, cutRecipeName=None, minimum_bins_per_fwhm=0.5)
                if not ok:
                    return
                fitted[key] = r
            r = fitted[key]
            pos, err, fw = r.params["peak_ph"].value, r.params["peak_ph"].stderr, r.params["fwhm"].value
            tol = ab if ab is not None else sig * err if sig is not None else np.inf
            miss = abs(pos - peak(line))
            c.check(abs(pos - peak(line) - OFFSETS[ch]) < 0.3, "quality-fit", lambda: f"fit at {pos}", channel=ch, **dd)
            if (ab is not None and sig is not None) or miss > tol or (worst is not None and fw > worst):
                want.add(ch)
        kw = dict(positionToleranceFitSigma=sig, positionToleranceAbsolute=ab, worstAllowedFWHM=worst, attr="energyQ", states=st, dlo=40, dhi=45, binsize=0.75, holdvals=hold)
        if group:
            with h5py.File(f"q{part}.h5", "w", driver="core", backing_store=False) as h5:
                ok, got = c.run("quality-group", data.qualityCheckLinefit, line, resolutionPlot=hold is None, hdf5Group=h5, **kw)
                plt.close("all")
                if not ok:
                    return
                for ch in channels:
                    g = h5.get(f"{ch}/fits/{line}")
                    if not c.check(g is not None, "quality-stored", f"nothing is stored for channel {ch}", **dd):
                        return
                    if ch in want:
                        c.check(set(g) == {"markedBadReason"}, "quality-stored-bad", lambda: f"{list(g)} stored for a bad channel", **dd)
                        continue
                    for k, v in got[ch].params.items():
                        e = np.nan if v.stderr is None else v.stderr
                        c.check(k in g and g[k][()] == v.value and np.array_equal(g[k + "_err"][()], e, equal_nan=True), "quality-stored-values", lambda: f"{k}", **dd)
        else:
            got = {}
            for ch in channels:
                try:
                    got[ch] = data[ch].qualityCheckLinefit(line, **kw)
                    c.check(ab is None or sig is None, "quality-both", "two tolerances were accepted", **dd)
                except Exception as e:
                    if not c.check(ab is not None and sig is not None, "quality-raised", lambda: f"{e!r}", **dd):
                        return
                    want.discard(ch)
        bad = set(channels) - set(data.keys())
        c.check(bad == want, "quality-marks", lambda: f"channels {bad} are marked bad, expected {want}: {data.whyChanBad()}", **dd)
        for ch in set(got) - (set() if ab is None or sig is None else set(channels)):
            c.check(abs(got[ch].params["peak_ph"].value - fitted[ch, line, str(st), str(hold)].params["peak_ph"].value) < 0.02, "quality-result", "", channel=ch, **dd)
            c.check(hold is None or (got[ch].params["fwhm"].value == 4.25 and not got[ch].params["fwhm"].vary), "quality-held", "", channel=ch, **dd)
        c.trans()
        c.trace()
    c.sample({"quality": dd})


def resid(c):
    """Residual cuts, for every set of populated bins."""
    import mass
    for pop in itertools.product([0, 3, 12], repeat=4):
        for size in (2000, 500):
            if sum(1 for p in pop if p > 4) < 1:
                continue
            d = c.newdir()
            s = OffSpec(nbasis=3)
            recs, want = [], []
            for b, m in enumerate(pop):
                for i in range(m):
                    fv = size * (b + (i + 1) / (m + 2))
                    r = 1 + b + 0.1 * (i % 5)
                    big = m == 12 and i == 7
                    if big:
                        r = 100.0
                    if fv > 150:
                        want.append((len(recs), big, m))
                    recs.append(s.rec(len(recs), unixnano=mkoff.T0 + len(recs) * 10**9, ptm=100.0, resid=r, coefs=[0., 0., fv]))
            fn = s.write(os.path.join(d, "o_chan1.off"), recs)
            mkoff.state_file(d, [(0, "A")])
            ds = mass.off.ChannelGroup([fn], verbose=False)[1]
            dd = dict(populations=pop, size=size)
            c.state(pop, size)
            ok, _ = c.run("learn-resid", ds.learnResidualStdDevCut, binSizeFv=size, setDefault=True, overwriteRecipe=True)
            if not ok:
                return
            g = ds.getAttr("cutResidualStdDev", slice(None), "cutNone")
            for i, big, m in want:
                if m < 5:
                    continue     # too few in the bin to have their own threshold
                c.check(bool(g[i]) == (not big), "residual-cut", lambda: f"pulse {i} with residual {recs[i]} is {'kept' if g[i] else 'cut'}", **dd)
            kept = ds.getAttr("residualStdDev", None)
            c.check(np.max(kept, initial=0) < 50, "residual-default", "the new cut is not used by default", **dd)
            c.trans()
            c.trace()
