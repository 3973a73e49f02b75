"""P22: fluorescence lines, line models, maximum-likelihood residuals, the X-ray line database."""
import itertools
import math
import os
import signal
import warnings

import numpy as np

from vlib.core import sequences

PROPERTY = "P22"
EXPLAIN = """Every line in the tables (fluorescence and highly charged ions) at every resolution of an alphabet is compared with its sum of Voigt profiles, integrated numerically,
and searched for its highest point.  Sampling is driven by scripted random draws covering both sides of every component boundary and negative energies, so each draw's outcome is known exactly.
Line models are evaluated for all combinations of tails, background, prefix, efficiency, resolution, gain, bin width, integral and tails against direct sums and quadrature of the stated
convolution; residuals for all pairs of predictions and counts in an alphabet against the Poisson deviance, for single and nested composite models; fits start from perturbed parameters of exact spectra.
A state of the line-registration machine is the table of lines under one name; all sequences of registrations (with and without replacement, default material or not, invalid ones) up to a depth are run.
Database files are written with all orders of headers, good, short and foreign lines and looked up by every spelling of every nickname."""
ASSUMPTIONS = ["the line's density with zero resolution is that of its own Lorentzians and intrinsic Gaussian", "tails are compared away from the ends of the histogram (the code's padding wraps)",
               "every component has a positive width (natural or intrinsic)", "predicted counts per bin approximate the integral over a bin by density times width"]

_m = {}


def fl():
    if "fl" not in _m:
        warnings.simplefilter("ignore")
        import matplotlib
        matplotlib.use("Agg")
        import mass
        from mass.calibration import fluorescence_lines, line_models, _highly_charged_ion_lines, nist_xray_database
        _m.update(fl=fluorescence_lines, lm=line_models, hci=_highly_charged_ion_lines, db=nist_xray_database, mass=mass)
    return _m["fl"]


S = math.sqrt(8 * math.log(2))


def gaussvoigt(x, e, fwhm, sigma):
    """density by direct definition"""
    from scipy.special import voigt_profile
    return voigt_profile(np.asarray(x, float) - e, sigma, fwhm / 2)


def sigma_of(line, r):
    return math.sqrt((r / S)**2 + line.intrinsic_sigma**2)


def ref_pdf(line, x, r):
    s = sigma_of(line, r)
    return sum(a * gaussvoigt(x, e, f, s) for a, e, f in zip(weights(line), line.energies, line.lorentzian_fwhm))


def weights(line):
    """relative intensities from the tabulated amplitudes"""
    F = fl()
    a = np.asarray(line.reference_amplitude, float) if not isinstance(line.reference_amplitude, str) else np.ones(1)
    w = np.asarray(line.lorentzian_fwhm, float)
    if line.reference_amplitude_type == F.LORENTZIAN_PEAK_HEIGHT:
        a = a * w
    elif line.reference_amplitude_type == F.VOIGT_PEAK_HEIGHT:
        a = a / np.array([gaussvoigt(0.0, 0.0, f, line.reference_plot_instrument_gaussian_fwhm / S) for f in w])
    return a / a.sum()


# ------------------------------------------------------------------ the tables
def sh_lines(c, part, nparts, thorough):
    F = fl()
    names = sorted(F.spectra)
    res = [0.0, 0.3, 3.0, 40.0] + ([0.05, 1.0, 10.0, 200.0] if thorough else [])
    for ni, name in enumerate(names):
        if ni % nparts != part:
            continue
        line = F.spectra[name]
        hci = line.material == "Highly Charged Ion"
        if ni % 2:     # the peak may be asked for first or last
            line.peak_energy
        for r in res:
            c.trace()
            c.state((name, r))
            s = sigma_of(line, r)
            if not c.check(len(line.energies) == len(line.lorentzian_fwhm) == len(weights(line)), "table", "energies, widths and amplitudes differ in number", line=name):
                break
            c.check(np.allclose(line.normalized_lorentzian_integral_intensity, weights(line), rtol=1e-9, atol=0) and bool(np.all(weights(line) >= 0)), "intensities",
                    "component intensities are not the tabulated amplitudes scaled to one", line=name, got=line.normalized_lorentzian_integral_intensity, want=weights(line))
            pts = []
            for e, f in zip(line.energies, line.lorentzian_fwhm):
                w = f + s
                t = np.concatenate([np.linspace(-8, 8, 161 if not thorough else 641), np.sinh(np.linspace(2.8, 13, 160)), -np.sinh(np.linspace(2.8, 13, 160))])
                pts.append(e + w * t)
            x = np.unique(np.concatenate(pts))
            keep = x.copy()
            ok, p = c.run("pdf-exception", line.pdf, x, instrument_gaussian_fwhm=r)
            if not ok:
                continue
            want = ref_pdf(line, x, r)
            c.check(p.shape == x.shape and bool(np.all(np.abs(p - want) <= 1e-7 * want + 1e-14)), "pdf", "density is not the sum of its Voigt profiles", line=name, resolution=r)
            c.check(np.array_equal(x, keep), "argument-changed", "energies were changed", line=name)
            c.check(bool(np.all(p >= 0)) and bool(np.all(np.isfinite(p))), "pdf-negative", "density negative or not finite", line=name, resolution=r)
            area = float(np.sum(0.5 * (p[1:] + p[:-1]) * np.diff(x)))
            c.check(abs(area - 1) < 3e-3, "area", "density does not have unit area", line=name, resolution=r, area=area)
            c.check(np.array_equal(line(x, r), p), "call", "calling a line is not its density", line=name)
            comp = line.components(x, r)
            c.check(len(comp) == len(line.energies) and np.allclose(sum(comp), p, rtol=1e-10, atol=0), "components", "components do not add up to the density", line=name)
            x5 = x[::max(1, len(x) // 5)]
            for arg, w in ((x5.tolist(), line.pdf(x5, r)), (np.round(x5).astype(int), line.pdf(np.round(x5), r)), (float(x5[1]), line.pdf(x5, r)[1]), (x5[::-1], line.pdf(x5, r)[::-1])):
                ok, q = c.run("pdf-exception", line.pdf, arg, r)
                c.check(not ok or np.array_equal(np.asarray(q), np.asarray(w)), "pdf-argument", "density depends on how the energies are passed", line=name, kind=type(arg).__name__)
            fw = math.sqrt(np.min(line.lorentzian_fwhm)**2 + r * r + (line.intrinsic_sigma * S)**2)
            c.check(abs(line.minimum_fwhm(r) - fw) <= 1e-12 * fw, "minimum_fwhm", "minimum width is not that of the narrowest component", line=name, resolution=r, got=line.minimum_fwhm(r), want=fw)
        # highest point
        best = 0.0
        for e, f in zip(line.energies, line.lorentzian_fwhm):
            w = 3 * f + 3 * line.intrinsic_sigma
            best = max(best, float(np.max(line.pdf(np.linspace(e - w, e + w, 6001), 0))))
        pk = line.peak_energy
        c.check(float(line.pdf(pk, 0)) >= best * (1 - 1e-5), "peak", "the line's density is higher elsewhere than at its peak energy", line=name, peak=pk, density=line.pdf(pk, 0), best=best)
        c.check(line.peak_energy == pk, "peak-changes", "peak energy changes when asked for again", line=name)
        if hci:
            c.check(min(line.energies) - 0.2 <= line.nominal_peak_energy <= max(line.energies) + 0.2, "nominal", "the stated energy is not among the line's components", line=name, stated=line.nominal_peak_energy)
        else:
            c.check(abs(pk - line.nominal_peak_energy) <= 0.5 * line.minimum_fwhm(0), "nominal", "the line does not peak at its stated energy", line=name, stated=line.nominal_peak_energy, peak=pk)
        c.check(line.shortname == name and F.spectrum_classes[name]() is line and getattr(F, name) is line, "names", "a line is not found under its own name", line=name)
        c.check(line.element + line.linetype == name or name == f"{line.element}{line.linetype}_{line.material}", "names", "a line's name is not its element and transition", line=name)
        c.run("reference", lambda: line.reference)
        # plots show the density
        import pylab as plt
        fig = plt.figure()
        ax = fig.add_subplot(111)
        ok, _ = c.run("plot-exception", line.plot, None, 2.0, ax)
        if ok:
            ln = ax.get_lines()
            c.check(len(ln) == len(line.energies) + 1 and np.allclose(ln[-1].get_ydata(), line.pdf(ln[-1].get_xdata(), 2.0), rtol=1e-12, atol=0), "plot", "plot is not the density", line=name)
            # ... also far from other lines, each component
            c.check(np.allclose(sum(q.get_ydata() for q in ln[:-1]), ln[-1].get_ydata(), rtol=1e-9, atol=0), "plot", "plotted components do not add up", line=name)
        plt.close(fig)
        c.outcome("hci" if hci else "fluorescence")
    if part == 0:
        import pylab as plt
        c.run("plot_all", F.plot_all_spectra, 2)
        plt.close("all")
        c.run("plot_like_reference", F.spectra["MnKAlpha"].plot_like_reference)
        plt.close("all")
        bad = F.spectra["MnKAlpha"]
        try:
            bad.pdf(np.array([5890.0]), -1.0)
            c.violate("negative-resolution", "a negative resolution is accepted")
        except AssertionError:
            c.outcome("rejected")
    c.sample({"lines": names[part::nparts][:5], "resolutions": res})


# ------------------------------------------------------------------ quick lines: all small parameter choices
def sh_quick(c, thorough):
    F = fl()
    for e, w, s in itertools.product([100, 100.0, 5898.8, 1.5], [0, 0.0, 0.2, 3], [0, 0.5, 2.0]):
        c.trace()
        c.state((e, w, s))
        ok, line = c.run("quick-exception", F.SpectralLine.quick_monochromatic_line, "q", e, w, s)
        if not ok:
            continue
        es = 1e-4 if w <= 0 and s <= 0 else s
        for r in (0.0, 1.0, 5.0):
            sg = math.sqrt((r / S)**2 + es**2)
            x = e + np.linspace(-5, 5, 101) * (w + sg)
            c.check(np.allclose(line.pdf(x, r), gaussvoigt(x, e, w, sg), rtol=1e-8, atol=1e-15), "quick-pdf", "a quick line's density is wrong", args=(e, w, s), resolution=r)
            fw = math.sqrt(line.lorentzian_fwhm[0]**2 + r * r + (es * S)**2)
            c.check(abs(line.minimum_fwhm(r) - fw) <= 1e-9 * fw, "quick-minimum-fwhm", "minimum width of a quick line", args=(e, w, s), resolution=r, got=line.minimum_fwhm(r), want=fw)
        c.check(abs(line.peak_energy - e) <= 1e-3 * max(w, es, 1e-3) + 1e-6 * e, "quick-peak", "a quick line does not peak at its energy", args=(e, w, s), got=line.peak_energy)
        c.check(line.nominal_peak_energy == float(e), "quick-nominal", "nominal energy changed", args=(e, w, s))
        ok, v = c.run("quick-rvs", line.rvs, 5, 1.0, np.random.default_rng(3))
        c.check(not ok or (v.shape == (5,) and bool(np.all(v > 0))), "quick-rvs-value", "variates wrong", args=(e, w, s))
    # the two models made from one line, in any order, do not disturb it
    c.sample({"energies": [100, 5898.8, 1.5]})


# ------------------------------------------------------------------ sampling with scripted draws
class Scripted:
    """answers draws from a script; keeps count of what was asked"""

    def __init__(self, u, cauchy, normal):
        self.u, self.cau, self.nor = list(u), list(cauchy), list(normal)
        self.asked = []

    def _take(self, what, lst, size):
        n = int(np.prod(size)) if size is not None else 1
        if len(lst) < n:
            raise RuntimeError(f"script of {what} ran out")
        v = np.array([lst.pop(0) for _ in range(n)], float)
        self.asked.append((what, n))
        return v.reshape(size) if size is not None else v[0]

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._take("u", self.u, size)

    def random(self, size=None):
        return self._take("u", self.u, size)

    def standard_cauchy(self, size=None):
        return self._take("c", self.cau, size)

    def standard_normal(self, size=None):
        return self._take("n", self.nor, size)


def sh_rvs(c, thorough):
    F = fl()
    names = sorted(F.spectra) if thorough else ["MnKAlpha", "MgKAlpha", "FeLAlpha", "WLBeta2", "GdKBeta"] + sorted(F.spectra)[::9]
    for name in names:
        if name not in F.spectra:
            continue
        line = F.spectra[name]
        cum = np.cumsum(weights(line))
        us, comps = [], []
        lo = 0.0
        for i, hi in enumerate(cum):
            if hi - lo > 1e-9:
                for f in (1e-6, 0.5, 1 - 1e-6):
                    us.append(lo + (hi - lo) * f)
                    comps.append(i)
            lo = hi
        draws = [(-1.7, 0.3), (0.0, 0.0), (2.5, -1.2), (0.4, 3.0)]
        for r in (0.0, 4.0):
            sg = sigma_of(line, r)
            for d, g in draws:
                c.trace()
                n = len(us)
                rng = Scripted(us, [d] * n, [g] * n)
                ok, v = c.run("rvs-exception", line.rvs, n, r, rng)
                if not ok:
                    continue
                want = np.array([line.energies[i] + d * line.lorentzian_fwhm[i] / 2 + (g * sg if sg > 0 else 0) for i in comps])
                c.state((name, r, d))
                c.check(v.shape == (n,) and np.allclose(v, want, rtol=1e-12, atol=1e-9), "rvs-value", "variates are not centre + Lorentzian + Gaussian of the component drawn", line=name, resolution=r,
                        got=v[:6], want=want[:6])
        # real generators: reproducible and the module's own left alone
        for seed in range(3):
            for size in (0, 1, 7, (2, 3)):
                before = str(F._rng.bit_generator.state)
                a = line.rvs(size, 2.0, rng=np.random.default_rng(seed))
                line.rvs(3, 1.0, rng=np.random.default_rng(99))
                b = line.rvs(size, 2.0, rng=np.random.default_rng(seed))
                c.trans()
                c.check(np.array_equal(a, b) and np.shape(a) == (size if isinstance(size, tuple) else (size,)), "rvs-reproducible", "sampling with the same random state differs", line=name, size=size)
                c.check(str(F._rng.bit_generator.state) == before, "rvs-own", "sampling with a given random state used another generator", line=name)
    # replacements of energies below zero
    for e, w in ((2.0, 3.0), (10.0, 4.0)):
        line = F.SpectralLine.quick_monochromatic_line("q", e, w, 0)
        for pat in itertools.product([0, 1], repeat=5 if thorough else 4):
            for pat2 in itertools.product([0, 1], repeat=sum(pat)):
                c.trace()
                n = len(pat)
                bad = -(e / (w / 2)) - 0.25
                first = [bad if p else 0.1 * (i + 1) for i, p in enumerate(pat)]
                second = [bad - 1 if p else -0.1 * (i + 1) for i, p in enumerate(pat2)]
                third = [0.05 * (i + 1) for i in range(sum(pat2))]
                script = first + second + third
                rng = Scripted([0.5] * 40, script, [0.0] * 40)
                before = str(F._rng.bit_generator.state)
                ok, v = c.run("rvs-negative-exception", line.rvs, n, 0.0, rng)
                if not ok:
                    continue
                t3 = iter(third)
                sec = [next(t3) if p else s for p, s in zip(pat2, second)]
                it = iter(sec)
                want = [e + (next(it) if p else f) * w / 2 for p, f in zip(pat, first)]
                c.state((e, pat, pat2))
                first_ok = all(abs(v[i] - want[i]) <= 1e-12 * e for i in range(n) if not pat[i])
                c.check(v.shape == (n,) and first_ok, "rvs-kept", "energies above zero were changed", pattern=pat, got=v, want=want)
                c.check(np.allclose(v, want, rtol=1e-12, atol=1e-12), "rvs-replacement-generator", "energies below zero are not replaced by further draws from the given random state", pattern=pat, second=pat2, got=v, want=want)
                c.check(str(F._rng.bit_generator.state) == before, "rvs-replacement-generator", "replacements came from the module's own generator", pattern=pat)
                c.check(bool(np.all(v > 0)), "rvs-positive", "an energy of zero or less was returned", pattern=pat)
    c.sample({"lines": names[:5], "draws": "both ends of each component's share"})


# ------------------------------------------------------------------ registering lines
def sh_register(c, depth):
    F = fl()
    # operation: (material, default?, replace?, variant)
    ops = [("m1", True, False, 0), ("m1", True, True, 1), ("m1", False, False, 2), ("m2", False, False, 0), ("m2", False, True, 1), ("m2", True, False, 1), ("bad-ref", True, True, 0), ("bad-type", True, True, 0)]
    variants = [dict(energies=np.array([100.0, 103.0]), lorentzian_fwhm=np.array([1.0, 2.0]), reference_amplitude=np.array([2, 1]), reference_amplitude_type=F.LORENTZIAN_INTEGRAL_INTENSITY),
                dict(energies=[100.0, 103.0], lorentzian_fwhm=np.array([1.0, 2.0]), reference_amplitude=[2, 1], reference_amplitude_type=F.LORENTZIAN_PEAK_HEIGHT),
                dict(energies=(100.0,), lorentzian_fwhm=np.array([1.5]), reference_amplitude=np.array([7.0]), reference_amplitude_type=F.VOIGT_PEAK_HEIGHT)]
    before = set(F.spectra)
    others = {n: F.spectra[n] for n in list(F.spectra)[:5]}
    for prog in sequences(ops, depth):
        if not prog:
            continue
        c.trace()
        model = {}
        try:
            for mat, default, replace, var in prog:
                c.trans()
                kw = dict(variants[var])
                name = "QqTest" if default else f"QqTest_{mat}"
                bad = mat.startswith("bad")
                if mat == "bad-ref":
                    kw["reference_short"] = "no such reference"
                else:
                    kw["reference_short"] = "Zschornack"
                if mat == "bad-type":
                    kw["reference_amplitude_type"] = 5
                expect_ok = not bad and (name not in model or replace)
                try:
                    line = F.addline(element="Qq", linetype="Test", material=mat, nominal_peak_energy=100, reference_plot_instrument_gaussian_fwhm=0.5,
                                     is_default_material=default, allow_replacement=replace, **kw)
                    got_ok = True
                except Exception:
                    got_ok = False
                c.check(got_ok == expect_ok, "register-outcome", "registering a line succeeded or failed wrongly", program=prog, name=name, succeeded=got_ok)
                if expect_ok and got_ok:
                    model[name] = (line, mat, var)
                if set(F.spectra) - before != set(model):
                    c.violate("register-table", "the table of lines is not what was registered", program=prog, got=sorted(set(F.spectra) - before), want=sorted(model))
                for n, (ln, m, v) in model.items():
                    c.check(F.spectra[n] is ln and getattr(F, n) is ln and F.spectrum_classes[n]() is ln and ln.material == m and ln.shortname == n, "register-lookup",
                            "a registered line is not what is found under its name", program=prog, name=n)
                    x = np.linspace(95, 108, 27)
                    w = {0: [2 / 3, 1 / 3], 1: [0.5, 0.5], 2: [1.0]}[v]
                    want = sum(a * gaussvoigt(x, e, f, 0.4) for a, e, f in zip(w, variants[v]["energies"], variants[v]["lorentzian_fwhm"]))
                    c.check(np.allclose(ln.pdf(x, 0.4 * S), want, rtol=1e-8, atol=0), "register-pdf", "a registered line's density is not the one given", program=prog, name=n)
                    ok, f = c.run("register-fitter", getattr(F, n + "Fitter"))
                    c.check(not ok or f.spect is ln, "register-fitter-line", "the fitter under a line's name fits another line", program=prog, name=n)
                c.state(tuple(sorted((n, m[1], m[2]) for n, m in model.items())))
                c.outcome("added" if got_ok else "refused")
            c.check(all(F.spectra[n] is q for n, q in others.items()), "register-others", "registering a line changed others", program=prog)
        finally:
            for n in set(F.spectra) - before:
                F.spectra.pop(n, None)
                F.spectrum_classes.pop(n, None)
                for k in (n, n + "Fitter"):
                    F.__dict__.pop(k, None)
    c.sample({"operations": ops, "depth": depth})


# ------------------------------------------------------------------ models
def tail_conv(pdf, x, tau, low, n=4000):
    """integral over u>0 of pdf(x +- u) exp(-u/tau)/tau, by Gauss-Laguerre-like substitution on v=1-exp(-u/tau)"""
    v = (np.arange(n) + 0.5) / n
    u = -tau * np.log1p(-v)
    out = np.empty(len(x))
    for i, q in enumerate(x):
        out[i] = np.mean(pdf(q + u if low else q - u))
    return out


def sh_model(c, part, nparts, thorough):
    F = fl()
    mk = F.SpectralLine.quick_monochromatic_line
    lines = {"quick": mk("quick", 1000.0, 1.0, 0.0), "gauss": mk("gauss", 1000.0, 0.0, 1.5), "MnKAlpha": F.spectra["MnKAlpha"], "AlKAlpha": F.spectra["AlKAlpha"]}
    qes = {"none": None, "half": lambda e: 0.5 + 0 * e, "slope": lambda e: 1e-4 * np.asarray(e)}
    cases = list(itertools.product(lines, [False, True], [True, False], ["", "p_"], qes, [3.0, 8.0], [1.0, 0.5, 3.0], [0, 1.0, 2500.0]))
    for ci, (ln, tails, bgq, prefix, qn, fwhm, dph, integral) in enumerate(cases):
        if ci % nparts != part:
            continue
        line = lines[ln]
        pk = line.peak_energy
        half = 60.0
        ok, m = c.run("model-exception", line.model, has_linear_background=bgq, has_tails=tails, prefix=prefix, qemodel=qes[qn])
        if not ok:
            continue
        names = {"fwhm", "peak_ph", "dph_de", "integral"} | ({"background", "bg_slope"} if bgq else set()) | ({"tail_frac", "tail_tau", "tail_share_hi", "tail_tau_hi"} if tails else set())
        c.check(set(m.param_names) == {prefix + n for n in names}, "model-params", "parameters are not those asked for", case=(ln, tails, bgq, prefix), got=sorted(m.param_names))
        if tails:
            tl = [(0.0, 5.0, 0.0, 8.0), (0.3, 5.0, 0.0, 8.0), (0.4, 4.0, 0.5, 6.0), (0.2, 3.0, 1.0, 7.0), (1.0, 6.0, 0.25, 2.0)]
            if not thorough:
                tl = [tl[0], tl[1 + ci % 4]]
        else:
            tl = [None]
        bgl = [(0.0, 0.0), (3.0, 0.0), (3.0, -0.05), (0.5, 0.02)] if bgq else [(0.0, 0.0)]
        if not thorough:
            bgl = bgl[:1] + bgl[1 + ci % 3:2 + ci % 3]
        for step, peak_ph, (bg, slope), tail in itertools.product([0.5, 1.0] if fwhm < 5 else [1.0], [pk * dph, pk * dph + 7.3], bgl, tl):
            c.trans()
            bw = step * dph
            n = int(2 * half / step) + 1
            bc = peak_ph + (np.arange(n) - n // 2) * bw + 0.21 * bw
            pars = dict(fwhm=fwhm, peak_ph=peak_ph, dph_de=dph, integral=integral)
            if bgq:
                pars.update(background=bg, bg_slope=slope)
            if tails:
                pars.update(tail_frac=tail[0], tail_tau=tail[1], tail_share_hi=tail[2], tail_tau_hi=tail[3])
            case = dict(line=ln, tails=tail, background=(bg, slope) if bgq else None, prefix=prefix, qe=qn, fwhm=fwhm, dph_de=dph, integral=integral, bin=bw, peak_ph=peak_ph)
            P = m.make_params(**pars)
            keep = bc.copy()
            ok, y = c.run("eval-exception", m.eval, P, bin_centers=bc)
            if not ok:
                continue
            c.trace()
            c.state((ln, tails, bgq, qn, fwhm, dph, integral, tail))
            en = (bc - peak_ph) / dph + pk
            pdf = lambda q: ref_pdf(line, q, fwhm)   # noqa
            dens = pdf(en)
            tol = 1e-7
            if tails and tail[0] > 0:
                fhi = tail[0] * tail[2]
                flo = tail[0] - fhi
                base = dens
                dens = (1 - tail[0]) * base
                if ci % 5 == 0 or thorough:
                    sel = np.arange(0, n, max(1, n // 40))
                else:
                    sel = np.arange(0, n, max(1, n // 15))
                d2 = dens[sel].copy()
                if flo > 0:
                    d2 += flo * tail_conv(pdf, en[sel], tail[1], True, 1500)
                if fhi > 0:
                    d2 += fhi * tail_conv(pdf, en[sel], tail[3], False, 1500)
                tol = None
            bgv = np.maximum(bg + slope * np.arange(n), 0.0)
            q = 1.0 if qes[qn] is None else np.asarray(qes[qn](en))
            if tol is not None:
                want = (integral * bw / dph * dens + bgv) * q
                c.check(y.shape == bc.shape and np.allclose(y, want, rtol=1e-6, atol=1e-9), "model-value" if not tails else "model-value-zero-tails",
                        "predicted counts are not integral x density x bin width + background", case=case, got=y[::20], want=want[::20])
                frac = float(np.sum(dens) * step)
                if qn == "none" and integral > 0:
                    tot = float(np.sum(y - bgv))
                    c.check(abs(tot - integral * frac) <= 1e-6 * integral and abs(frac - 1) < 0.05, "model-total", "predicted counts do not add up to the integral", case=case, total=tot, fraction=frac)
            else:
                want = (integral * bw / dph * d2 + bgv[sel]) * (q if np.isscalar(q) else q[sel])
                scale = integral * bw / dph * float(np.max(base))
                err = np.abs(y[sel] - want) / (scale + 1e-9)
                mid = np.abs(en[sel] - pk) < 30
                c.check(bool(np.all(err[mid] < 6e-3)), "model-tails", "the tails are not exponentials of the stated fractions and lengths", case=case, energies=(en[sel] - pk)[mid][::5], got=y[sel][mid][::5], want=want[mid][::5])
                if qn == "none" and integral > 0:
                    tot = float(np.sum(y - bgv))
                    c.check(abs(tot / integral - 1) < 0.06, "model-total-tails", "predicted counts with tails do not add up to the integral", case=case, total=tot)
            c.check(bool(np.all(y >= 0)), "model-negative", "predicted counts are negative", case=case)
            c.check(np.array_equal(bc, keep), "argument-changed", "bin centres were changed", case=case)
            ok, y2 = c.run("eval-exception", m.eval, P, bin_centers=bc)
            c.check(not ok or np.array_equal(y, y2), "model-repeat", "evaluating again gives other counts", case=case)
            ok, y3 = c.run("eval-list-exception", m.eval, P, bin_centers=bc.tolist())
            c.check(not ok or np.array_equal(y, y3), "model-list", "bin centres in a list give other counts", case=case)
            c.outcome("tails" if tails and tail[0] > 0 else "zero-tails" if tails else "plain")
    c.sample({"case": str(cases[part])})


WRAP_TOL = 2e-4


def sh_wrap(c, thorough):
    """tails longer than the fitted range: nothing may come round from the other end"""
    from scipy.special import log_ndtr
    F = fl()
    line = F.SpectralLine.quick_monochromatic_line("gauss", 1000.0, 0.0, 1.0)
    pk = line.peak_energy

    def emg(t, sg, tau):
        """Gaussian convolved with an exponential towards higher t"""
        return np.exp(sg * sg / (2 * tau * tau) - t / tau + log_ndtr(t / sg - sg / tau)) / tau
    taus = (5.0, 15.0, 40.0)
    for fwhm, (a, b), step, tlo, thi, share, frac in itertools.product((4.0, 6.0), ((-20, 20), (-60, 10), (-10, 60), (-25, 6), (-6, 25)), (0.5, 1.0), taus, taus, (0.0, 0.5, 1.0), (0.3, 1.0)):
        if not thorough and frac == 1.0 and (step == 1.0 or fwhm == 6.0):
            continue
        c.state((fwhm, a, b, step, tlo, thi, share, frac))
        m = line.model(has_linear_background=False, has_tails=True)
        P = m.make_params(fwhm=fwhm, peak_ph=pk, dph_de=1.0, integral=1.0, tail_frac=frac, tail_tau=tlo, tail_share_hi=share, tail_tau_hi=thi)
        bc = pk + np.arange(a, b + step / 2, step)
        ok, y = c.run("wrap-exception", m.eval, P, bin_centers=bc)
        if not ok:
            continue
        c.trans()
        t = bc - pk
        sg = math.sqrt((fwhm / S)**2 + 1.0)
        core = np.exp(-0.5 * (t / sg)**2) / sg / math.sqrt(2 * math.pi)
        want = step * ((1 - frac) * core + frac * share * emg(t, sg, thi) + frac * (1 - share) * emg(-t, sg, tlo))
        top = step / sg / math.sqrt(2 * math.pi)
        err = np.abs(y - want) / top
        c.check(bool(np.all(err < WRAP_TOL)), "model-tails-wrap", "tails reaching beyond the fitted range change the counts within it",
                case=dict(fwhm=fwhm, range=(a, b), step=step, tau=tlo, tau_hi=thi, share_hi=share, frac=frac), worst=float(err.max()), at=float(t[err.argmax()]))
        c.trace()


# ------------------------------------------------------------------ residuals
def deviance(y, d):
    """Poisson deviance of one bin"""
    return 2 * (y - d + (d * math.log(d / y) if d > 0 else 0.0))


def sh_residual(c, thorough):
    fl()
    lm = _m["lm"]

    def f1(x, a):
        return np.asarray(YS)[x.astype(int)] * a

    def f2(x, b):
        return np.full(len(x), 0.25) * b

    ys = [1e-9, 0.1, 0.3, 1.0, 1.0 + 1e-12, 2.0, 7.0, 100.0, 0.1 + 0.2, 1e6]
    ds = [0, 1, 2, 3, 7, 100, 1000000]
    pairs = list(itertools.product(ys, ds)) + [(float(np.nextafter(d, 0)), d) for d in ds if d] + [(float(np.nextafter(d, np.inf)), d) for d in ds if d] + [(float(d), d) for d in ds if d] + \
        [(k / 3.0, k / 3.0) for k in range(1, 200)] + [(k * 0.1, k * 0.1) for k in range(1, 400)]
    YS = [p[0] for p in pairs]
    D = [p[1] for p in pairs]
    x = np.arange(len(pairs), dtype=float)
    models = {}
    m1 = lm.MLEModel(f1)
    m2 = lm.MLEModel(f2)
    models["single"] = (m1, lambda y: y)
    models["sum"] = (m1 + m2, lambda y: y + 0.25)
    models["sum-right"] = (m2 + m1, lambda y: y + 0.25)
    models["product"] = (m1 * m2, lambda y: y * 0.25)
    models["quotient"] = (m1 / m2, lambda y: y / 0.25)
    models["nested"] = ((m1 + m2) * lm.MLEModel(f2, prefix="q_"), lambda y: (y + 0.25) * 0.25)
    models["nested2"] = ((m1 + m2) - lm.MLEModel(f2, prefix="q_"), lambda y: (y + 0.25) - 0.25)
    models["same"] = (m1 * lm.MLEModel(f2, prefix="q_") / m2, lambda y: (y * 0.25) / 0.25)
    for mn, (m, fy) in models.items():
        P = m.make_params(**{n: 1.0 for n in m.param_names})
        for dtype in (float, int, np.int32, np.uint16, np.float32):
            for shift in (False, True):
                y = fy(np.asarray(YS))
                # counts equal to the prediction itself too
                data = np.array(y if shift else D)
                if shift and dtype is not float:
                    continue
                if dtype is np.uint16:
                    data = np.minimum(data, 60000)
                data = data.astype(dtype)
                keep = data.copy()
                c.trace()
                ok, r = c.run("residual-exception", m._residual, P, data, None, x=x)
                if not ok:
                    continue
                c.state((mn, str(dtype), shift))
                yy = np.asarray(m.eval(P, x=x), float)
                c.check(np.allclose(yy, y, rtol=1e-12, atol=0), "composite-eval", "a composite model is not its parts combined", model=mn)
                c.check(bool(np.all(np.isfinite(r))), "residual-nan", "a residual is not a number", model=mn, where=[(yy[i], float(data[i])) for i in np.flatnonzero(~np.isfinite(r))[:3]])
                for i in range(len(r)):
                    dv = float(data[i])
                    w = deviance(yy[i], dv)
                    c.trans()
                    if dtype is np.float32:
                        tol = 1e-5 * (yy[i] + dv)
                    else:
                        tol = 1e-13 * (yy[i] + dv) * 10
                    if np.isfinite(r[i]) and abs(r[i]**2 - max(w, 0)) > tol + 1e-9 * abs(w):
                        c.violate("residual-value", "squared residual is not the Poisson deviance", model=mn, y=yy[i], data=dv, got=float(r[i])**2, want=w)
                        break
                    if np.isfinite(r[i]) and abs(w) > tol and (r[i] < 0) != (yy[i] < dv):
                        c.violate("residual-sign", "residual has the wrong sign", model=mn, y=yy[i], data=dv, got=float(r[i]))
                        break
                c.check(np.array_equal(keep, data), "residual-data-changed", "the data were changed", model=mn)
                ok, r0 = c.run("residual-none", m._residual, P, None, None, x=x)
                c.check(not ok or np.array_equal(np.asarray(r0), yy), "residual-none-value", "without data the residual is not the model", model=mn)
        for w in (np.ones(len(x)), [1.0], 1.0):
            try:
                m.fit(np.asarray(D, float), P, x=x, weights=w)
                c.violate("weights", "a fit with weights was accepted", model=mn)
            except Exception as ex:
                c.check("weights" in str(ex), "weights", "a fit with weights failed for another reason", model=mn, text=str(ex)[:200])
        c.outcome(mn)
    c.sample({"predictions": ys, "counts": ds, "models": sorted(models)})


# ------------------------------------------------------------------ the default method: fit again when there are no uncertainties
def sh_refit(c, thorough):
    F = fl()
    mk = F.SpectralLine.quick_monochromatic_line
    lines = {"quick": mk("quick", 1000.0, 1.0, 0.0), "MnKAlpha": F.spectra["MnKAlpha"], "AlKAlpha": F.spectra["AlKAlpha"]}
    for ln, n1, off, prefix in itertools.product(lines, (0, 1, 2, 40), (-3.0, 1.0), ("", "p_")):
        if not thorough and (prefix == "") == (off < 0) and n1 != 2:
            continue
        m = lines[ln].model(prefix=prefix)
        pk = lines[ln].peak_energy
        bc = pk + np.arange(-60, 60, 0.5)
        P = m.make_params()
        for k, v in dict(fwhm=4.0, peak_ph=pk + off, dph_de=1.0, integral=500.0, background=1.0).items():
            P[prefix + k].set(value=v)
        P[prefix + "dph_de"].set(vary=False)
        y = np.zeros(len(bc))
        y[[5, 77][:n1]] = 1
        if n1 == 40:
            y += np.round(m.eval(P, bin_centers=bc))
        keep, P0 = y.copy(), P.copy()
        try:
            first = m.fit(y, P, bin_centers=bc, method="leastsq", minimum_bins_per_fwhm=0)
        except Exception:
            continue
        for how in ("position", "keyword"):
            for meth in (None, "leastsq_refit"):
                if meth is None and n1 == 2:
                    continue
                kw = dict(bin_centers=bc, minimum_bins_per_fwhm=0, **({} if meth is None else dict(method=meth)))
                ok, r = c.run("refit-exception", *((m.fit, y, P) if how == "position" else (m.fit, y)), **kw, **({} if how == "position" else dict(params=P)))
                if not ok:
                    continue
                c.trans()
                case = dict(line=ln, counts=n1, start=off, how=how, prefix=prefix, first=(first.success, first.errorbars))
                c.check(np.array_equal(r.data, keep) and np.array_equal(y, keep) and P == P0, "refit-data", "the fit is of other data, or changed its arguments", case=case)
                if meth is None:
                    c.check(r.method == "least_squares" and r.init_values == {k: v.value for k, v in P0.items()}, "fit-default", "the default fit is not one by least_squares", case=case, got=r.method)
                elif first.success and first.errorbars:
                    c.check(r.method == "leastsq" and r.best_values == first.best_values, "refit-needless", "fit again though there were uncertainties", case=case)
                    c.outcome("once")
                else:
                    c.check(r.method == "least_squares", "refit-missing", "not fit again though there were no uncertainties", case=case, got=r.method)
                    c.check(r.init_values == first.best_values, "refit-start", "the second fit does not start where the first ended", case=case, got=r.init_values, want=first.best_values)
                    c.outcome("again")
        c.state("refit", ln, n1, off, prefix)
        c.trace()


# ------------------------------------------------------------------ fits of exact spectra, guesses, bin-size validation
def sh_fit(c, part, nparts, thorough):
    F = fl()
    lm = _m["lm"]
    mk = F.SpectralLine.quick_monochromatic_line
    lines = {"quick": mk("quick", 1000.0, 1.0, 0.0), "MnKAlpha": F.spectra["MnKAlpha"]}
    cases = list(itertools.product(["quick", "MnKAlpha", "two"], [False, True], [1.0, 0.4, 2.5], ["least_squares", "leastsq", "leastsq_refit", None], [0.0, 5.0], [0, 1, 2]))
    for ci, (ln, tails, dph, method, bg, start) in enumerate(cases):
        if ci % nparts != part or (not thorough and start == 2) or (tails and ln == "two"):
            continue
        c.trace()
        if ln == "two":
            a, b = F.spectra["MnKAlpha"].model(prefix="a_"), F.spectra["MnKAlpha"].model(prefix="b_", has_linear_background=False)
            m = a + b
            bc = np.arange(5840 * dph, 5990 * dph, 0.5 * dph)
            pars = dict(a_fwhm=4.0, a_peak_ph=5880.0 * dph, a_dph_de=dph, a_integral=5000.0, a_background=bg + 1, a_bg_slope=0.0, b_fwhm=4.0, b_peak_ph=5935.0 * dph, b_dph_de=dph, b_integral=9000.0)
            fixed = ["a_dph_de", "b_dph_de", "a_bg_slope"]
            move = {"a_peak_ph": 2 * dph, "b_peak_ph": -2 * dph, "a_integral": 1000.0, "b_integral": -1000.0, "a_fwhm": 1.0}
        else:
            line = lines[ln]
            m = line.model(has_tails=tails)
            pk = line.peak_energy
            bc = np.arange((pk - 60) * dph, (pk + 60) * dph, 0.5 * dph)
            pars = dict(fwhm=4.0, peak_ph=pk * dph + 1.7, dph_de=dph, integral=8000.0, background=bg + 1, bg_slope=0.0)
            fixed = ["bg_slope", "dph_de"]
            move = {"peak_ph": 2 * dph, "fwhm": 1.0, "integral": -1500.0, "background": 0.5}
            if tails:
                pars.update(tail_frac=0.2, tail_tau=7.0, tail_share_hi=0.0, tail_tau_hi=8.0)
                fixed += ["tail_share_hi", "tail_tau_hi"]
                move.update(tail_frac=-0.05, tail_tau=2.0)
        P = m.make_params()
        for n, v in pars.items():
            P[n].set(value=v)
        for n in fixed:
            P[n].set(vary=False)
        y = m.eval(P, bin_centers=bc)
        keep = y.copy()
        P0 = P.copy()
        if start:
            for n, d in move.items():
                P0[n].set(value=P0[n].value + d * (1 if start == 1 else -0.5))
        kw = {} if method is None else {"method": method}
        c.state((ln, tails, dph, method, bg, start))
        ok, res = c.run(f"fit-exception:{ln}", m.fit, y, P0, bin_centers=bc, **kw)
        if not ok:
            continue
        case = dict(line=ln, tails=tails, dph_de=dph, method=method, background=bg, start=start)
        c.check(isinstance(res, lm.LineModelResult), "fit-type", "a fit does not give a line-model result", case=case)
        c.check(np.array_equal(keep, y), "fit-data-changed", "a fit changed the data", case=case)
        r = m._residual(res.params, y, None, bin_centers=bc)
        chi = float(np.sum(np.asarray(r)**2))
        c.check(np.isfinite(chi) and chi < 1e-2, "fit-exact", "a fit of an exact spectrum leaves a residual", case=case, chisq=chi)
        c.check(abs(res.chisqr - chi) <= 1e-6 * (1 + chi), "fit-chisq", "a fit's chi-squared is not the sum of squared residuals", case=case, got=res.chisqr, want=chi)
        for n, v in pars.items():
            tolv = {"peak_ph": 0.02 * dph, "integral": 60.0, "fwhm": 0.05, "background": 0.4, "tail_frac": 0.02, "tail_tau": 0.7}.get(n.split("_", 1)[-1] if n[1] == "_" else n, 1e-9 * (1 + abs(v)))
            c.check(abs(res.params[n].value - v) <= tolv, "fit-value", f"a fit of an exact spectrum does not find its parameters ({n})", case=case, got=res.params[n].value, want=v)
        c.run("fit-report", getattr(res, "_compact_fit_report", res.fit_report))
        # bins that are too wide are refused, in terms of the narrowest component
        bw = 0.5
        mfw = min(q.spect.minimum_fwhm(res.params[q.prefix + "fwhm"].value) for q in res.components)
        per = mfw / bw
        for mb in (per * 0.98, per * 1.02, per * 0.5, per * 2):
            c.trans()
            try:
                m.fit(y, res.params, bin_centers=bc, minimum_bins_per_fwhm=mb, **kw)
                got = True
            except ValueError as ex:
                got = False
                c.check("bins are too large" in str(ex), "bins-message", "refused for another reason", case=case, text=str(ex)[:100])
            c.check(got == (mb <= per), "bins-per-fwhm", "a fit with bins too wide for the line is accepted, or one with narrow bins refused", case=case, bins_per_fwhm=per, minimum=mb, accepted=got)
            if not thorough and ci % 6:
                break
        c.outcome(str(method))
    c.sample({"case": str(cases[part])})


def sh_guess(c, thorough):
    F = fl()
    mk = F.SpectralLine.quick_monochromatic_line
    lines = {"quick": mk("quick", 1000.0, 1.0, 0.0), "MnKAlpha": F.spectra["MnKAlpha"]}
    for ln, tails, bgq, prefix, dph, n0, integral, bg in itertools.product(lines, [False, True], [True, False], ["", "p_"], [1.0, 0.5, 3.0], [30, 80], [50.0, 5000.0], [0.0, 0.2, 30.0]):
        c.trace()
        line = lines[ln]
        m = line.model(has_tails=tails, has_linear_background=bgq, prefix=prefix)
        bc = (line.peak_energy + np.arange(-n0, n0 + 1) * 0.5) * dph
        y = np.round(integral * 0.5 * ref_pdf(line, bc / dph, 4.0) + bg)
        if y.sum() == 0:
            continue
        keep = y.copy()
        case = dict(line=ln, tails=tails, bg=bgq, prefix=prefix, dph_de=dph, n=n0, integral=integral, background=bg)
        ok, P = c.run("guess-exception", m.guess, y, bc, dph)
        if not ok:
            continue
        c.state((ln, tails, bgq, prefix, dph, n0, integral, bg))
        c.check(set(P) == set(m.param_names), "guess-params", "a guess does not set the model's parameters", case=case, got=sorted(P))
        c.check(P[prefix + "peak_ph"].value == bc[int(np.argmax(y))], "guess-peak", "guessed position is not the highest bin", case=case, got=P[prefix + "peak_ph"].value)
        c.check(P[prefix + "dph_de"].value == dph, "guess-dph", "guess changes the gain", case=case)
        base = max(y[:10].mean(), 1.0 / len(y))
        tot = y.sum() - base * len(y)
        tot = tot if tot >= 0 else y.sum()
        c.check(abs(P[prefix + "integral"].value - tot) <= 1e-9 * y.sum(), "guess-integral", "guessed integral is not the counts above background", case=case, got=P[prefix + "integral"].value, want=tot)
        if bgq:
            c.check(abs(P[prefix + "background"].value - base) < 1e-9 * (1 + base) and P[prefix + "background"].value > 0, "guess-background", "guessed background is not that of the first bins", case=case)
        cum = np.cumsum(y) / y.sum()
        iq = bc[int(np.argmax(cum > 0.75))] - bc[int(np.argmax(cum > 0.25))]
        want = min(max(0.7 * iq / dph, line.nominal_peak_energy / 10000), line.nominal_peak_energy)
        c.check(abs(P[prefix + "fwhm"].value - want) <= 1e-9 * want, "guess-fwhm", "guessed width is not that of the middle half of the counts", case=case, got=P[prefix + "fwhm"].value, want=want)
        c.check(np.array_equal(keep, y), "guess-data-changed", "a guess changed the data", case=case)
        ok, y0 = c.run("guess-eval", m.eval, P, bin_centers=bc)
        c.check(not ok or (bool(np.all(np.isfinite(y0))) and bool(np.all(y0 >= 0))), "guess-eval-value", "the guess cannot be evaluated", case=case)
        c.outcome(prefix)
    c.sample({"lines": sorted(lines)})


# ------------------------------------------------------------------ the line database
HEADER = "Ele. Trans.   Theory (eV)   Unc. (eV)    Direct (eV)   Unc. (eV)   Blend      Ref."
NICK = {'KA1': 'KL3', 'KA2': 'KL2', 'KB1': 'KM3', 'KB3': 'KM2', 'KB5': 'KM5', 'LA1': 'L3M5', 'LA2': 'L3M4', 'LL': 'L3M1', 'LB3': 'L1M3', 'LB1': 'L2M4', 'LB2': 'L3N5', 'LG1': 'L2N4'}


class Hang(Exception):
    pass


def timed(fn, *a, limit=5):
    def on(*_):
        raise Hang("did not return")
    old = signal.signal(signal.SIGALRM, on)
    signal.alarm(limit)
    try:
        return fn(*a)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def dbline(el, tr, peak, unc):
    s = f"{el:<9}{tr:<8}"
    s = f"{s:<44}{peak:<16}{unc:<13}"
    return s + "     1d"


def sh_db(c, thorough):
    fl()
    D = _m["db"]
    db = D.NISTXrayDBFile()
    # the shipped files, parsed here
    want = {}
    path = os.path.dirname(D.__file__)
    for fn in ("nist_xray_data.dat", "low_z_xray_data.dat"):
        on = False
        for t in open(os.path.join(path, fn), encoding="utf-8"):
            if on:
                f = [q for i, q in enumerate(t.split()) if i != 1 or not q.isdigit()]     # mass numbers
                try:
                    want[f"{f[0]} {f[1]}"] = (float(t[44:59]), float(t[60:72]))
                except (ValueError, IndexError):
                    continue
            elif "Theory" in t and "Blend" in t and "Ref." in t:
                on = True
    c.check({k: (v.peak, v.peak_unc) for k, v in db.lines.items()} == want, "db-content", "the database is not what the files say", n=(len(db.lines), len(want)))
    nick_forms = []
    for nick, tr in NICK.items():
        forms = {nick, nick.lower(), nick.capitalize()}
        greek = {"A": "alpha", "B": "beta", "G": "gamma"}.get(nick[1])
        if greek:
            for g in (greek, greek.capitalize(), greek.upper()):
                forms |= {nick[0] + g + nick[2:], nick[0].lower() + g + nick[2:]}
        if nick == "LL":
            forms |= {"Ll"}
        nick_forms.append((tr, sorted(forms | {tr, tr.lower()})))
    els = sorted({k.split()[0] for k in want}, key=D.ELEMENTS.index)
    for tr, forms in nick_forms:
        expect = [want.get(f"{el} {tr}") for el in els if f"{el} {tr}" in want]
        for form in forms:
            c.trace()
            c.state((tr, form))
            ok, got = c.run("db-type-exception", db.get_lines_by_type, form)
            c.check(not ok or [(q.peak, q.peak_unc) for q in got] == expect, "db-type", "lines of a type are not all that are in the database", form=form, transition=tr, got=len(got) if ok else None, want=len(expect))
            for el in els:
                k = f"{el} {tr}"
                for e2 in (el, el.lower(), el.upper()):
                    c.trans()
                    try:
                        g = db[f"{e2} {form}"]
                        g = (g.peak, g.peak_unc, g.element, g.transition)
                    except KeyError:
                        g = None
                    w = want.get(k)
                    w = None if w is None else (w[0], w[1], el, tr)
                    if g != w:
                        c.violate("db-lookup", "a line looked up by name is not that line", key=f"{e2} {form}", got=g, want=w)
    # files made here
    pieces = {"head": HEADER + "\n", "good": dbline("Mn", "KL3", 5898.8, 0.01) + "\n", "good2": dbline("Mn", "KL3", 5899.5, 0.5) + "\n", "other": dbline("Fe", "KL2", 6391.0, 0.2) + "\n",
              "blank": "\n", "short": "Mn       KL3\n", "text": "Column Definitions:\n"}
    n = 0
    tmp = c.newdir()
    for prog in sequences(list(pieces), 4 if thorough else 3):
        c.trace()
        n += 1
        fn = os.path.join(tmp, f"f{n}.dat")
        with open(fn, "w", encoding="utf-8") as fp:
            fp.write("".join(pieces[p] for p in prog))
        w = {}
        on = False
        for p in prog:
            if p == "head" and not on:
                on = True
            elif on and p in ("good", "good2"):
                w["Mn KL3"] = 5898.8 if p == "good" else 5899.5
            elif on and p == "other":
                w["Fe KL2"] = 6391.0
        c.state(tuple(sorted(w.items())))
        try:
            d = timed(D.NISTXrayDBFile, fn)
            c.check({k: v.peak for k, v in d.lines.items()} == w, "db-file", "a database file is not read as written", file=prog, got=sorted(d.lines), want=w)
            c.check(d.loaded_filenames == [fn], "db-loaded", "the list of files loaded is wrong", got=d.loaded_filenames)
            if n % 7 == 0:
                import contextlib
                import io
                with contextlib.redirect_stdout(io.StringIO()):
                    d = timed(D.NISTXrayDBFile, fn, os.path.join(tmp, "nonexistent"), fn)
                c.check({k: v.peak for k, v in d.lines.items()} == w and d.loaded_filenames == [fn, fn], "db-missing", "a missing file changes what is read from others", file=prog)
        except Hang:
            c.violate("db-hang", "reading a database file never ends", file=prog)
            if c.thorough is False:
                break
        except Exception as ex:
            c.violate("db-exception", f"reading a database file raised {type(ex).__name__}: {ex}", file=prog)
        os.remove(fn)
    c.sample({"nicknames": NICK})


def shards(tier):
    th = tier == "thorough"
    n = 16 if th else 8
    out = [(f"model{i}", (sh_model, (i, n, th))) for i in range(n)]
    out += [(f"lines{i}", (sh_lines, (i, 8, th))) for i in range(8)]
    out += [(f"fit{i}", (sh_fit, (i, n, th))) for i in range(n)]
    out += [("rvs", (sh_rvs, (th,))), ("register", (sh_register, (4 if th else 3,))), ("residual", (sh_residual, (th,))), ("guess", (sh_guess, (th,))), ("db", (sh_db, (th,))), ("quick", (sh_quick, (th,))), ("wrap", (sh_wrap, (th,))), ("refit", (sh_refit, (th,)))]
    return out


def run_shard(c, fn, args):
    fl()
    fn(c, *args)
