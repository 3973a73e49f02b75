"""P21: peak finding, peak-to-line assignment and fit ranges. Every small list of pulse heights, peaks and lines, against exhaustive definitions."""
import itertools

import numpy as np

PROPERTY = "P21"
EXPLAIN = """A state is a list of pulse heights (with a smoothing width), a list of peaks and lines (with the search settings), or a set of lines and excluded
lines (with a width and a calibration).  All such lists over small alphabets are enumerated, in every order; the transition is the real function call.  Peaks are compared with the local maxima
of the exact sum of Gaussians; assignments with a brute-force search over all increasing choices, widened exactly as documented; fit ranges with their definition."""
ASSUMPTIONS = ["peaks that merge or split within 0.1% of a tilt in log-density are not compared (the estimate is binned)",
               "peaks below 1e-6 of the largest are not compared (rounding noise of the Fourier smoothing)", "peak positions and line energies are distinct"]


# ---- local maxima
def kde(x, ph, sigma):
    z = (x[:, None] - np.asarray(ph, float)[None, :]) / sigma
    e = np.exp(-0.5 * z**2)
    y = e.sum(axis=1)
    dy = -(z * e).sum(axis=1) / sigma
    return y, dy


def maxima(ph, sigma):
    """exact maxima of the smoothed density and whether their number is robust"""
    lo, hi = min(ph) - 4 * sigma, max(ph) + 4 * sigma
    x = np.arange(lo, hi + sigma / 50, sigma / 50)
    y, dy = kde(x, ph, sigma)
    with np.errstate(divide="ignore", invalid="ignore"):
        g = dy / y
    nums = []
    for tilt in (-2e-3 / sigma, 0.0, 2e-3 / sigma):
        s = g + tilt > 0
        up = np.nonzero(s[:-1] & ~s[1:])[0]
        nums.append(len(up))
        if tilt == 0.0:
            base = up
    robust = nums[0] == nums[1] == nums[2]
    out = []
    for i in base:
        a, b = x[i], x[i + 1]
        for _ in range(60):
            m = (a + b) / 2
            if kde(np.array([m]), ph, sigma)[1][0] > 0:
                a = m
            else:
                b = m
        out.append((a + b) / 2)
    out = np.array(out)
    if len(out) > 1:
        v = kde(out, ph, sigma)[0]
        robust = robust and v.min() > 3e-6 * v.max()
    return out, robust


def local_maxima(c, grid, k, fwhms, part, nparts):
    from mass.calibration.algorithms import find_local_maxima
    cases = list(itertools.combinations_with_replacement(grid, k))
    for ph in cases[part::nparts]:
        for f in fwhms:
            sigma = f / (2 * np.sqrt(2 * np.log(2)))
            want, robust = maxima(ph, sigma)
            if not robust:
                continue
            for scale, off, typ in ((1, 0, float), (1, 50, int), (37.5, 1000, float)):
                vals = [v * scale + off for v in ph]
                if typ is int and any(v != int(v) for v in vals):
                    continue
                arr = np.array(vals[::-1] if scale != 1 else vals, dtype=typ)
                keep = arr.copy()
                ok, r = c.run("find_local_maxima", find_local_maxima, arr, f * scale)
                if not ok:
                    continue
                c.trans()
                x, y = r
                n = 128 * 1024
                binw = (max(vals) - min(vals) + 6 * f * scale) / n
                w = want * scale + off
                if len(x):
                    dn = kde((x - off) / scale, ph, sigma)[0]
                    c.check(np.all(dn > 1e-13 * dn.max()), "maxima-noise", "a peak is reported where there are no pulses", ph=vals, fwhm=f * scale, got=x[dn <= 1e-13 * dn.max()][:5])
                big = y > 1e-6 * (y.max() if len(y) else 1)
                gx, gy = x[big], y[big]
                d = dict(ph=vals, fwhm=f * scale, got=gx, want=w)
                c.check(np.array_equal(arr, keep), "input-changed", "input changed", **d)
                c.check(np.all(np.diff(y) <= 0), "maxima-order", "peaks sorted by intensity", **d)
                if not c.check(len(gx) == len(w), "maxima-count", "each local maximum is reported exactly once", **d):
                    continue
                tol = 3 * binw + 0.02 * sigma * scale
                order = np.argsort(gx)
                c.check(np.all(np.abs(gx[order] - w) <= tol), "maxima-place", "peak locations", **d)
                # intensity: smoothed counts per bin
                dens = kde((w - off) / scale, ph, sigma)[0] / (np.sqrt(2 * np.pi) * sigma * scale) * binw
                c.check(np.all(np.abs(gy[order] - dens) <= 2e-3 * dens), "maxima-height", "peak intensities are the smoothed counts", goty=gy[order], wanty=dens, **d)
            c.state("lm", ph, f)
    c.sample({"what": "local maxima", "ph": list(cases[part]), "fwhms": list(fwhms)})


# ---- assignment
def brute(peaks, energies):
    """(best accuracy, {assignments reaching it})"""
    e = [float(v) for v in energies]
    best, who = None, []
    for combo in itertools.combinations(peaks, len(e)):
        p = sorted(float(v) for v in combo)
        s = 0.0
        for i in range(len(e) - 2):
            f = (e[i + 1] - e[i]) / (e[i + 2] - e[i])
            est = p[i] * (1 - f) + p[i + 2] * f
            s += ((est - p[i + 1]) / (p[i + 2] - p[i]))**2
        acc = s**0.5
        if best is None or acc < best - 1e-12:
            best, who = acc, [p]
        elif abs(acc - best) <= 1e-12:
            who.append(p)
    return best, who


def assign_one(c, peaks, lines, want_names, energies, nextra, ninc, nmaxx, maxacc):
    from mass.calibration.algorithms import find_opt_assignment
    n = len(energies)
    sel, nmax = n + nextra, n + nmaxx
    thr = maxacc * n**0.5
    expected = None
    while True:
        best, who = brute(peaks[:sel], energies)
        if best is None:
            return        # fewer peaks than lines: nothing promised
        if abs(best - thr) < 1e-9:
            return
        if best <= thr:
            expected = who
            break
        sel += ninc
        if sel > nmax:
            break
    pin, lin = list(peaks), list(lines)
    d = dict(peaks=pin, lines=[str(v) for v in lin], nextra=nextra, nincrement=ninc, nextramax=nmaxx, maxacc=maxacc)
    c.trans()
    try:
        names, es, got = find_opt_assignment(peaks, lines, nextra=nextra, nincrement=ninc, nextramax=nmaxx, maxacc=maxacc)
    except ValueError as ex:
        c.check(expected is None, "assign-failed", f"an acceptable assignment exists but none was found ({ex})", want=expected, **d)
        return
    except Exception as ex:
        c.violate("assign-error", f"{type(ex).__name__}: {ex}", **d)
        return
    if not c.check(expected is not None, "assign-accepted", "an assignment worse than the limit was returned", got=list(got), **d):
        return
    g = [float(v) for v in got]
    c.check(any(np.allclose(g, w, rtol=1e-12, atol=0) for w in expected), "assign-best", "assignment is increasing and minimises the figure of merit", got=g, want=expected, **d)
    c.check(list(names) == want_names and np.array_equal(es, energies), "assign-lines", "lines sorted by energy with their names", got=list(names), **d)
    c.check(list(peaks) == pin and list(lines) == lin, "input-changed", "inputs changed", **d)


def assignment(c, klines, kpeaks, part, nparts):
    es = (1, 2, 4, 7, 11)
    ps = (1, 2, 3, 5, 8, 13)
    settings = [(0, 1, 2, 0.015), (1, 2, 3, 0.05), (2, 3, 8, 0.015), (0, 2, 3, 0.2), (2, 3, 8, 1e-9)]
    perms = list(itertools.permutations(ps, kpeaks))[part::nparts]
    for lines in itertools.combinations(es, klines):
        for j, peaks in enumerate(perms):
            for st in settings:
                li = list(lines[::-1]) if j % 2 else list(lines)
                assign_one(c, [float(v) for v in peaks] if j % 3 else np.array(peaks), li, list(lines), lines, *st)
            c.state("as", lines, peaks)
    c.sample({"what": "assignment", "lines": list(lines), "peaks": list(peaks), "settings": settings})


def assignment_physics(c, nlines):
    """named lines with a smooth gain and spurious peaks, at every place in the peak list"""
    import mass
    names = ["MgKAlpha", "AlKAlpha", "ClKAlpha", "TiKAlpha", "MnKAlpha", "MnKBeta", "CuKAlpha"]
    for sel in itertools.combinations(names, nlines):
        en = sorted((mass.STANDARD_FEATURES[n], n) for n in sel)
        energies = [e for e, _ in en]
        for pw in (0.9, 1.0):
            true = [e**pw for e in energies]
            for nextra in (0, 2, 3):
                extras = [true[0] * 0.83, (true[0] + true[-1]) / 2 * 1.013, true[-1] * 1.07][:nextra]
                for rot in range(nlines + nextra):
                    pk = (true + extras)
                    pk = pk[rot:] + pk[:rot]
                    for li in (list(sel), list(sel)[::-1], [*energies[:1], *[n for _, n in en[1:]]]):
                        wn = [n for _, n in en] if li[0] != energies[0] else li
                        assign_one(c, pk, li, wn, tuple(energies), 1, 1, 8, 0.015)
                    c.state("asp", sel, pw, nextra, rot)


# ---- fit ranges
def fit_ranges(c, klines, kexcl):
    from mass.calibration.algorithms import build_fit_ranges, build_fit_ranges_ph, line_names_and_energies
    import mass
    alphabet = [1000.0, 1040.0, 1100, 2000.0, 2011.0, 5000, "MnKAlpha", "MnKBeta"]
    val = {n: float(mass.STANDARD_FEATURES.get(n, n) if isinstance(n, str) else n) for n in alphabet}
    cals = []
    for f in (lambda e: 0.1 * e, lambda e: e**0.9):
        cal = mass.EnergyCalibration(1, approximate=False)
        for e in (500., 1500., 3000., 6000., 9000.):
            cal.add_cal_point(f(e), e)
        cals.append(cal)
    for lines in itertools.permutations(alphabet, klines):
        nm, en = line_names_and_energies(list(lines)) if lines else ([], [])
        order = sorted(lines, key=lambda n: val[n])
        c.check(list(nm) == order and [float(v) for v in en] == [val[n] for n in order], "names", "line names and energies sorted together", got=list(nm), want=order)
        if list(lines) != order and hash_skip(lines, val):
            continue
        for excl in itertools.combinations([n for n in alphabet if n not in lines], kexcl):
            for width in (10.0, 60.0, 500.0, 1e5):
                for ci, cal in enumerate(cals):
                    ex = list(excl)[::-1] if ci else list(excl)
                    d = dict(lines=lines, excluded=excl, width=width)
                    ok, r = c.run("build_fit_ranges", build_fit_ranges, list(lines), ex, cal, width)
                    ok2, rp = c.run("build_fit_ranges_ph", build_fit_ranges_ph, list(lines), ex, cal, width)
                    if not (ok and ok2):
                        return
                    c.trans(2)
                    es, rng, slopes = r
                    es2, rngp, slopes2 = rp
                    allv = [val[n] for n in lines] + [val[n] for n in excl]
                    want = []
                    for n in order:
                        e = val[n]
                        below = [v for v in allv if v < e]
                        above = [v for v in allv if v > e]
                        lo = max([e - width / 2] + [(e + v) / 2 for v in below])
                        hi = min([e + width / 2] + [(e + v) / 2 for v in above])
                        want.append((lo, hi))
                    c.check([float(v) for v in es] == [val[n] for n in order] and list(es2) == list(es), "range-lines", "energies sorted", got=list(es), **d)
                    c.check(len(rng) == len(want) and np.allclose(np.reshape(rng, (-1, 2)), np.reshape(want, (-1, 2)), rtol=1e-12), "range", "fit ranges reach halfway to the neighbours at most", got=rng, want=want, **d)
                    for (lo, hi), e, s, s2, (plo, phi) in zip(want, es, slopes, slopes2, rngp):
                        c.check(np.isclose(s, cal.energy2dedph(e), rtol=1e-9) and s == s2, "range-slope", "slope of the calibration at the line", got=s, **d)
                        for p, v in ((plo, lo), (phi, hi)):
                            if 500 <= v <= 9000:
                                c.check(abs(cal.ph2energy(p) - v) < 1e-6 * v, "range-ph", "ranges converted to pulse heights", got=p, energy=v, **d)
                c.state("fr", lines, excl, width)
    c.sample({"what": "fit ranges", "lines": [str(v) for v in lines]})


def hash_skip(lines, val):
    """keep one unsorted order (the reversed one)"""
    return list(lines) != sorted(lines, key=lambda n: -val[n])


def autocal(c, shift):
    """the steps together on deterministic spectra"""
    import mass
    from mass.calibration.algorithms import EnergyCalibrationAutocal
    names = ["MnKAlpha", "CuKAlpha", "TiKAlpha", "FeKAlpha"]
    from scipy.special import ndtri
    for sel in itertools.chain(itertools.permutations(names, 3), itertools.permutations(names, 4)):
        for pw in (0.92, 1.0):
            ph = np.concatenate([((mass.STANDARD_FEATURES[n] + 3 * ndtri(0.05 + 0.9 * (np.arange(n0) + 0.5) / n0))**pw) for n, n0 in zip(sel, (400, 340, 280, 220))])
            ph = np.roll(ph, shift)
            cal = mass.EnergyCalibration()
            ac = EnergyCalibrationAutocal(cal, ph.copy(), list(sel))
            ok, _ = c.run("guess", ac.guess_fit_params, smoothing_res_ph=5, fit_range_ev=120.0, binsize_ev=1.0)
            if not ok:
                continue
            c.trans()
            order = sorted(sel, key=lambda n: mass.STANDARD_FEATURES[n])
            d = dict(lines=sel, pw=pw)
            c.check(list(ac.line_names) == order, "autocal-lines", "lines sorted", got=list(ac.line_names), **d)
            true = [mass.STANDARD_FEATURES[n]**pw for n in order]
            c.check(np.allclose(ac.ph_opt, true, rtol=2e-3), "autocal-assign", "peaks assigned to their lines", got=ac.ph_opt, want=true, **d)
            for (lo, hi), p, s in zip(ac.fit_lo_hi, ac.ph_opt, ac.slopes_de_dph):
                c.check(lo < p < hi and abs((hi - lo) * s - 120) < 3, "autocal-range", "fit range contains its line with the requested width", got=(lo, hi), ph=p, **d)
            c.check(list(ac.binsize_ev) == [1.0] * len(sel), "autocal-bins", "bin sizes", **d)
            c.state("auto", sel, pw)
            c.trace()


def autocal_fit(c, part, nparts):
    """the whole automatic calibration on spectra drawn from the lines themselves: what is fitted, and where the calibration goes"""
    import mass
    from mass.calibration.algorithms import EnergyCalibrationAutocal
    names = ["MnKAlpha", "CuKAlpha", "FeKAlpha"]
    combos = [(s, pw, b) for s in itertools.permutations(names) for pw in (0.95, 1.0) for b in (1.0, [0.8, 1.0, 1.3])]
    for idx, (sel, pw, binsize) in enumerate(combos):
        if idx % nparts != part:
            continue
        es = np.concatenate([mass.spectra[n].rvs(size=m, instrument_gaussian_fwhm=4.0, rng=np.random.default_rng(10 + k))
                             for k, (n, m) in enumerate(zip(names, (1500, 1200, 900)))])
        ph = np.clip(es, 100, 2e4)**pw
        d = dict(lines=sel, pw=pw, binsize=binsize)
        c.state("autocal-fit", sel, pw, binsize)
        arg = ph.copy()
        cal = mass.EnergyCalibration()
        ac = EnergyCalibrationAutocal(cal, arg, list(sel))
        ok, got = c.run("autocal-fit", ac.autocal, smoothing_res_ph=6, fit_range_ev=90.0, binsize_ev=binsize)
        if not ok:
            continue
        c.trans(4)
        order = sorted(names, key=lambda n: mass.STANDARD_FEATURES[n])
        c.check(got is cal and np.array_equal(arg, ph), "autocal-return", "autocal changed the pulse heights or gave another calibration", **d)
        c.check(list(ac.line_names) == order and list(cal.cal_point_names) == order, "autocal-names",
                "the calibration has one point per line", got=list(cal.cal_point_names), **d)
        c.check(np.array_equal(cal.cal_point_energies, [mass.STANDARD_FEATURES[n] for n in order]), "autocal-energies",
                "the calibration's points are at the lines' energies", got=cal.cal_point_energies, **d)
        bs = [binsize] * 3 if np.isscalar(binsize) else binsize
        for n, r, (lo, hi), s, b, p, eres in zip(order, ac.results, ac.fit_lo_hi, ac.slopes_de_dph, bs, cal.cal_point_phs, ac.energy_resolutions):
            edges = np.arange(lo, hi, b / s)
            want = np.histogram(ph, edges)[0]
            c.check(len(r.data) == len(want) and np.array_equal(r.data, want), "autocal-hist", "the fitted histogram is that of the line's range", line=n, got=r.data, want=want, **d)
            c.check(np.array_equal(r.energies, edges[:-1] + 0.5 * (edges[1] - edges[0])), "autocal-binctrs", "bin centers of the fitted histogram", line=n, **d)
            c.check(p == r.best_values["peak_ph"] and eres == r.best_values["fwhm"], "autocal-point", "the calibration goes through the fitted peak", line=n, got=p, want=r.best_values["peak_ph"], **d)
            c.check(r.model.spect is mass.spectra[n] or r.model.spect.shortname == n, "autocal-model", "the model fitted is the line's", line=n, **d)
            c.check(abs(p - mass.spectra[n].peak_energy**pw) < 0.6 * pw and 2.0 < eres < 6.5, "autocal-value", "fitted peak far from the truth", line=n, got=(p, eres), **d)
        c.check(not ac.anyfailed, "autocal-failed", "anyfailed after successful fits", **d)
        c.trace()


def models(c):
    """the model of a line, by any way of naming it"""
    import mass
    from mass.calibration import algorithms as al
    line = mass.spectra["MnKAlpha"]
    for bg in (True, False):
        for tails in (True, False):
            kw = dict(has_linear_background=bg, has_tails=tails)
            for what, arg, want in (("name", "MnKAlpha", line), ("line", line, line), ("model", line.model(), line)):
                c.state("get_model", what, bg, tails)
                ok, m = c.run("get-model", al.get_model, arg, **kw)
                if ok:
                    c.trans()
                    c.check(m.spect is want, "get-model-line", "model of another line", what=what, got=m.spect.shortname)
                    c.check(("bg_slope" in m.param_names) == bg and ("tail_frac" in m.param_names) == tails, "get-model-parts", "model has other parts than asked", what=what, kw=kw, got=m.param_names)
            for arg, e in (("CdKA", None), (4321.0, 4321.0), (4321, 4321.0), (np.float64(4321.5), 4321.5), *((n, v) for n, v in mass.STANDARD_FEATURES.items() if n not in mass.spectra)):
                if e is None:
                    continue
                c.state("get_model", str(arg), bg, tails)
                ok, m = c.run("get-model", al.get_model, arg, **kw)
                if ok:
                    c.trans()
                    c.check(m.spect.nominal_peak_energy == e and m.spect.peak_energy == e and len(m.spect.energies) == 1, "get-model-energy", "a line known by energy only", arg=str(arg), got=m.spect.nominal_peak_energy)
    for bad in ("no such line", None, [1, 2], {}):
        try:
            m = al.get_model(bad)
            c.violate("get-model-bad", f"an unknown line {bad!r} gave a model", got=str(m))
        except al.FailedToGetModelException:
            c.trace()


def shards(tier):
    th = tier == "thorough"
    out = []
    grid = (0, 1, 2, 3, 5, 9, 14)
    for k, npt in ((1, 1), (2, 1), (3, 4), (4, 8 if not th else 16)):
        if k == 4 and not th:
            grid = (0, 1, 2, 5, 9)
        fw = (1.0, 2.5, 4.5, 10.0) if not th else (1.0, 1.7, 2.5, 4.5, 6.0, 10.0)
        for i in range(npt):
            out.append((f"maxima{k}-{i}", (local_maxima, (grid, k, fw, i, npt))))
    if th:
        for i in range(16):
            out.append((f"maxima5-{i}", (local_maxima, ((0, 1, 2, 5, 9, 14), 5, (1.0, 2.5, 4.5), i, 16))))
    for kl in (1, 2, 3, 4):
        for kp in range(kl, 6 if not th else 7):
            npt = 1 if kp < 5 else (4 if kp == 5 else 8)
            for i in range(npt):
                out.append((f"assign{kl}{kp}-{i}", (assignment, (kl, kp, i, npt))))
    for n in (3, 4, 5):
        out.append((f"assignphys{n}", (assignment_physics, (n,))))
    for kl in (0, 1, 2, 3):
        for kx in (0, 1, 2):
            if kl == 0 and kx:
                continue
            out.append((f"ranges{kl}{kx}", (fit_ranges, (kl, kx))))
    for s in (0, 137):
        out.append((f"autocal{s}", (autocal, (s,))))
    for i in range(6):
        out.append((f"autofit{i}", (autocal_fit, (i, 6))))
    out.append(("models", (models, ())))
    return out


def run_shard(c, fn, args):
    fn(c, *args)
