"""P12: energy calibrations. All add/update/remove/copy/reload histories, against a calibration computed from the points."""
import itertools
import os

import numpy as np

PROPERTY = "P12"
EXPLAIN = """States are calibrations (named points with uncertainties, curve style, approximation settings); transitions are adding, replacing (by name or by
energy), rejected additions, removals (by name, prefix or energy range), copying, saving and reloading, and changes of style.  After every
history the curve is compared with a natural cubic spline through the surviving points solved by dense linear algebra in the style's own
coordinates; approximating curves are compared with a Gaussian-process (or smoothing) spline of the same data."""
ASSUMPTIONS = ["points of different energy differ by more than their energy uncertainty", "the inverse is compared only where the curve is increasing"]

STYLES = ("loglog", "linear", "linear+0", "gain", "invgain", "loggain")
OPS = ("a0", "a1", "a2", "a3", "upE", "upN", "bad", "rmN", "rmE", "rmP", "copy", "save", "style", "approx")


def shards(tier):
    out = [(f"curve-{s}-{n}", ("curve", s, n)) for n in (4, 5, 3, 2, 1) for s in STYLES]
    out += [(f"approx-{s}-{g}", ("approx", s, g)) for s in STYLES for g in (True, False)]
    out += [(f"hist-{a}-{b}", ("hist", (a, b), 5 if tier == "thorough" else 4)) for a in OPS[:5] for b in OPS]
    out += [(f"hist-{a}", ("hist", (a,), 5 if tier == "thorough" else 3)) for a in OPS[5:]]
    out.append(("empty", ("empty",)))
    out += [("names", ("names",)), ("settings", ("settings",)), ("lines", ("lines",))]
    return out


def run_shard(c, kind, *args):
    np.seterr(all="ignore")
    globals()["do_" + kind](c, *args)


# ---------------------------------------------------------------- oracle
def natural(x, y):
    """Natural cubic spline by dense linear algebra: returns f(t) (linear beyond the ends)."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    n = len(x)
    h = np.diff(x)
    A, b = np.eye(n), np.zeros(n)
    for i in range(1, n - 1):
        A[i, i - 1:i + 2] = h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
        b[i] = 6 * ((y[i + 1] - y[i]) / h[i] - (y[i] - y[i - 1]) / h[i - 1])
    M = np.linalg.solve(A, b)
    s0 = (y[1] - y[0]) / h[0] - h[0] * (2 * M[0] + M[1]) / 6
    sN = (y[-1] - y[-2]) / h[-1] + h[-1] * (M[-2] + 2 * M[-1]) / 6

    def f(t):
        t = np.asarray(t, float)
        i = np.clip(np.searchsorted(x, t) - 1, 0, n - 2)
        u, v, hh = t - x[i], x[i + 1] - t, h[i]
        r = (M[i] * v**3 + M[i + 1] * u**3) / (6 * hh) + (y[i] / hh - M[i] * hh / 6) * v + (y[i + 1] / hh - M[i + 1] * hh / 6) * u
        r = np.where(t < x[0], y[0] + s0 * (t - x[0]), r)
        return np.where(t > x[-1], y[-1] + sN * (t - x[-1]), r)
    return f


def oracle(points, style, nonlin):
    """E(PH) for exact curves; None where the style has no curve for this many points."""
    pts = sorted(points, key=lambda p: p[1])
    if not pts:
        return lambda p: np.asarray(p, float)
    ph, e = np.array([p[1] for p in pts], float), np.array([p[2] for p in pts], float)
    if len(pts) == 1:
        if style == "loglog":
            return lambda p: e[0] * (np.asarray(p, float) / ph[0])**nonlin
        if style in {"gain", "invgain"}:
            return lambda p: e[0] / ph[0] * np.asarray(p, float)
        return None
    if style == "loglog":
        f = natural(np.log(ph), np.log(e))
        return lambda p: np.exp(f(np.log(p)))
    if style == "linear":
        return natural(ph, e)
    if style == "linear+0":
        return natural(np.hstack([0, ph]), np.hstack([0, e]))
    if style == "gain":
        f = natural(ph, ph / e)
        return lambda p: p / f(p)
    if style == "invgain":
        f = natural(ph, e / ph)
        return lambda p: p * f(p)
    f = natural(ph, np.log(ph / e))
    return lambda p: p * np.exp(-f(p))


def close(a, b, rtol=1e-7, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def build(points, style, nonlin=1.15, approx=False, gpr=True):
    from mass.calibration.energy_calibration import EnergyCalibration
    cal = EnergyCalibration(nonlin, style, approx, gpr)
    for name, ph, e, dph, de in points:
        cal.add_cal_point(ph, e, name, pht_error=dph, e_error=de)
    return cal


def probe(points):
    ph = sorted(p[1] for p in points) or [1000.0]
    mids = [(a + b) / 2 for a, b in zip(ph, ph[1:])] + [.25 * a + .75 * b for a, b in zip(ph, ph[1:])]
    return np.array(sorted({*ph, *mids, ph[0] * .3, ph[0] * .8, ph[-1] * 1.1, ph[-1] * 1.7}))


# ---------------------------------------------------------------- curves
def pointsets(n):
    """All sets of n points out of a PH alphabet, on three response shapes."""
    alphabet = [800.0, 1500.0, 2600.0, 4000.0, 6500.0, 7000.0]
    for phs in itertools.combinations(alphabet, n):
        for shape in range(3):
            f = [lambda p: p * 1.3, lambda p: 1.2 * p**1.08, lambda p: p * (1 + p / 3e4) + 40 * np.sin(p / 900)][shape]
            yield [(f"L{i}", p, float(f(p)), p * 1e-3, 0.01 + i * .005) for i, p in enumerate(phs)]


def do_curve(c, style, n):
    for k, pts in enumerate(pointsets(n)):
        nonlin = (1.0, 1.15, 1.3)[k % 3]
        f = oracle(pts, style, nonlin)
        t = probe(pts)
        if f is None:
            # no curve of this style for one point: an error, which adding another point cures
            cal = build(pts, style)
            try:
                cal(1000.0)
            except Exception:
                pass
            p2 = ("M", pts[0][1] * 2, pts[0][2] * 2.2, 1., .01)
            cal.add_cal_point(p2[1], p2[2], p2[0])
            c.check(close(cal(t), oracle(pts + [p2], style, nonlin)(t)), "after-failed-fit", f"{style} {pts}")
            continue
        want = f(t)
        dense = np.linspace(0, 2 * pts[-1][1], 3000)[1:]
        rising = bool(np.all(np.diff(f(dense)) > 0)) and f(dense[:1])[0] > 0 if style != "linear" else bool(np.all(np.diff(f(dense)) > 0))
        perms = list(itertools.permutations(pts)) if n <= 4 else [pts, pts[::-1], pts[2:] + pts[:2]]
        for q, perm in enumerate(perms):
            c.state(style, pts, q)
            cal = build(perm, style, nonlin)
            got = cal(t)
            c.trans(len(perm))
            c.trace()
            c.check(close(got, want), f"curve-{style}", f"{style}, points {perm}: at {t} got {got}, want {want}", points=perm)
            c.check(close(cal([p[1] for p in pts]), [p[2] for p in pts]), f"through-{style}", f"{perm}")
            c.check(list(cal.cal_point_names) == [p[0] for p in pts] and close(cal.cal_point_phs, [p[1] for p in pts])
                    and close(cal.cal_point_energies, [p[2] for p in pts]), "points-ascending", f"{perm}: {cal.cal_point_names}")
            if q in {0, len(perms) - 1}:
                battery(c, cal, pts, style, f, t, rising)
        dropone(c, cal, pts, style, nonlin)
    c.sample({"style": style, "points": pts})


def battery(c, cal, pts, style, f, t, rising):
    want = f(t)
    # argument kinds
    for arg in (list(t), tuple(t), np.array(t, order="F"), t.astype(np.float32)):
        before = np.array(arg)
        r = cal(arg)
        tol = 1e-6 if getattr(arg, "dtype", float) == np.float32 else 1e-9
        c.check(np.shape(r) == t.shape and close(r, f(before.astype(float)), max(tol, 1e-7)) and np.array_equal(before, np.array(arg)), f"argument-{type(arg).__name__}",
                f"{style}: {r} vs {want}")
    ti = np.round(t).astype(int)
    c.check(close(cal(ti), f(ti.astype(float))), "argument-int", f"{style} {ti}: {cal(ti)} vs {f(ti.astype(float))}")
    two = np.vstack([t, t[::-1]])
    ok, r = c.run("argument-2d", cal, two)
    if ok:
        c.check(close(r, f(two)), "argument-2d", f"{style}: {r}")
    e1 = cal(np.array([], float))
    c.check(np.shape(e1) == (0,), "argument-empty", f"{e1!r}")
    for x in (float(t[1]), int(t[-2])):
        s = cal(x)
        c.check(np.isscalar(s) and close(s, f(float(x))), "argument-scalar", f"{style} at {x}: {s!r} want {f(float(x))}")
        s = cal.ph2energy(x)
        c.check(np.isscalar(s) and close(s, f(float(x))), "ph2energy", f"{style} at {x}: {s!r}")
        s = cal.ph2dedph(x)
        h = 1e-4 * x
        c.check(np.isscalar(s) and close(s, (f(x + h) - f(x - h)) / 2 / h, 1e-4), "slope-scalar", f"{style} at {x}: {s!r}")
    # slope
    u = t[~np.isin(t, [p[1] for p in pts])]
    h = 1e-4 * u
    slope = (f(u + h) - f(u - h)) / (2 * h)
    for name, r in (("ph2dedph", cal.ph2dedph(u)), ("der=1", cal(u, der=1))):
        c.check(close(r, slope, 1e-4, 1e-6), f"slope-{style}", f"{name} at {u}: {r} want {slope}", points=pts)
    if not rising:
        return
    c.outcome("inverted")
    lo, hi = max(f(t[:1] * .2)[0], 1e-3), f(t[-1:])[0]
    es = np.linspace(lo, hi, 40)
    for fn, tol in ((cal.energy2ph, 2e-3), (cal.e2ph, 2e-3), (cal.energy2ph_exact, 1e-6)):
        ok, ph = c.run("inverse", fn, es)
        if ok:
            back = f(np.asarray(ph))
            c.check(np.shape(ph) == es.shape and close(back, es, tol), f"inverse-{fn.__name__}-{style}",
                    f"{fn.__name__} of {es}: {ph}: energies {back}", points=pts)
            s = fn(float(es[7]))
            c.check(np.isscalar(s) and close(s, ph[7], 1e-9), f"inverse-scalar-{fn.__name__}", f"{s!r} vs {ph[7]}")
            L = fn(list(es))
            c.check(close(L, ph, 1e-9), f"inverse-list-{fn.__name__}", "a list differs from an array")
    many = np.linspace(f(t[:1])[0], f(t[-3:-2])[0], 1100)
    before = many.copy()
    ok, ph = c.run("inverse-many", cal.energy2ph_exact, many)
    if ok:
        c.check(close(f(np.asarray(ph)), many, 1e-6) and np.array_equal(before, many), f"inverse-many-{style}",
                lambda: f"energy2ph_exact of 1100 energies is off by up to {np.max(np.abs(f(np.asarray(ph)) - many))}", points=pts)
    em = es[5:35]
    ph = np.array([np.interp(e, f(np.linspace(t[0] * .1, t[-1] * 1.1, 4000)), np.linspace(t[0] * .1, t[-1] * 1.1, 4000)) for e in em])
    h = 1e-4 * ph
    sl = (f(ph + h) - f(ph - h)) / (2 * h)
    c.check(close(cal.energy2dedph(em), sl, 5e-3, 1e-3), f"slope-of-energy-{style}", f"energy2dedph {cal.energy2dedph(em)} want {sl}", points=pts)


def dropone(c, cal, pts, style, nonlin):
    if len(pts) < 3:
        return
    en, d = cal.drop_one_errors()
    want = [float(oracle([p for p in pts if p is not q], style, nonlin)(q[1])) - q[2] for q in pts]
    c.check(close(en, [p[2] for p in pts]) and close(d, want, 1e-6, 1e-6), f"drop-one-{style}", f"{pts}: {d} want {want}")


# ---------------------------------------------------------------- approximations
def do_approx(c, style, gpr):
    from mass.mathstat import interpolate
    S = interpolate.GPRSpline if gpr else interpolate.SmoothingSpline
    for n in (3, 4, 5):
        for k, pts in enumerate(pointsets(n)):
            if k % 3 == 0 and n > 3:
                continue  # exactly proportional points
            pts = [(a, p, e, p * 2e-3, .02 * (1 + i)) for i, (a, p, e, _, _) in enumerate(pts)]
            ph, e, dph, de = (np.array([p[i] for p in pts]) for i in (1, 2, 3, 4))
            t = probe(pts)
            m = None
            if style == "loglog":
                sp = S(np.log(ph), np.log(e), de / e, dph / ph)
                f, scale, x = (lambda p: np.exp(sp(np.log(p)))), (lambda p: np.exp(sp(np.log(p)))), np.log
            elif style == "linear":
                sp = S(ph, e, de, dph)
                f, scale, x = sp, (lambda p: 1), (lambda p: p)
            elif style == "linear+0":
                sp = S(np.hstack([0, ph]), np.hstack([0, e]), np.hstack([de.min() * .1, de]), np.hstack([dph.min() * .1, dph]))
                f, scale, x = sp, (lambda p: 1), (lambda p: p)
            elif style == "gain":
                g = ph / e
                m = np.polyfit(ph, g, 1)[0]
                sp = S(ph, g, g * (((m * ph / g - 1) * dph / ph)**2 + (de / e)**2)**.5)
                f, scale, x = (lambda p: p / sp(p)), (lambda p: p / sp(p)**2), (lambda p: p)
            elif style == "invgain":
                g = e / ph
                m = np.polyfit(ph, g, 1)[0]
                sp = S(ph, g, g * (((1 + m * ph / g) * dph / ph)**2 + (de / e)**2)**.5)
                f, scale, x = (lambda p: p * sp(p)), (lambda p: p), (lambda p: p)
            else:
                g = np.log(ph / e)
                m = np.polyfit(ph, g, 1)[0]
                sp = S(ph, g, (((m * ph - 1) * dph / ph)**2 + (de / e)**2)**.5)
                f, scale, x = (lambda p: p * np.exp(-sp(p))), (lambda p: p * np.exp(-sp(p))), (lambda p: p)
            want = f(t)
            for perm in (pts, pts[::-1], pts[1:] + pts[:1]):
                c.state(style, gpr, pts, perm is pts)
                cal = build(perm, style, 1.15, True, gpr)
                got = cal(t)
                c.trans(len(perm))
                c.trace()
                c.check(close(got, want, 1e-6), f"approx-{style}-{gpr}", f"{perm}: {got} want {want}")
                if gpr:
                    u = cal.ph2uncertainty(t)
                    wu = sp.variance(x(t))**.5 * scale(t)
                    c.check(close(u, wu, 2e-2, 1e-4), f"uncertainty-{style}", f"{perm}: at {t} uncertainty {u}, want {wu}")
                es = cal(t)
                if np.all(np.diff(f(np.linspace(t[0] * .05, 2 * ph[-1], 2000))) > 0):
                    c.check(close(f(cal.energy2ph(es)), es, 2e-3), f"approx-inverse-{style}", f"{perm}")
                    if gpr:
                        c.check(close(cal.energy2uncertainty(es), u, 3e-2, 1e-3), f"uncertainty-of-energy-{style}", f"{perm}")
                h = 1e-4 * t
                mid = ~np.isin(t, ph)
                c.check(close(cal.ph2dedph(t)[mid], ((f(t + h) - f(t - h)) / 2 / h)[mid], 1e-4, 1e-6), f"approx-slope-{style}", f"{perm}")
            # the unit of pulse heights does not matter
            if k % 4 == 1 and (not gpr or style in {"loglog", "linear", "linear+0"}):
                for unit in (1e-5, 1e-3, 64.0):
                    other = build([(a, p * unit, e1, d1 * unit, e2) for a, p, e1, d1, e2 in pts], style, 1.15, True, gpr)
                    ok, got = c.run("unit", other, t * unit)
                    if not ok:
                        break
                    c.check(close(got, want, 1e-4), f"approx-unit-{style}-{gpr}", lambda: f"{pts} times {unit}: {got} want {want}")
                    if gpr:
                        c.check(close(other.ph2uncertainty(t * unit), cal.ph2uncertainty(t), 2e-2, 1e-3), f"uncertainty-unit-{style}", f"{pts} times {unit}")
                    c.trans()
            # switching the approximation off and on again gives the exact and the same approximating curve
            cal.set_use_approximation(False)
            c.check(close(cal(t), oracle(pts, style, 1.15)(t)), f"switch-exact-{style}", f"{pts}")
            cal.set_GPR(not gpr)
            cal.set_use_approximation(True)
            cal(t)
            cal.set_GPR(gpr)
            c.check(close(cal(t), want, 1e-6), f"switch-back-{style}", f"{pts}")
            c.trans(4)
    c.sample({"style": style, "gpr": gpr, "points": pts})


def do_empty(c):
    from mass.calibration.energy_calibration import EnergyCalibration
    for style in STYLES:
        for approx in (False, True):
            for how in ("new", "emptied", "copy"):
                cal = EnergyCalibration(1.2, style, approx)
                if how == "emptied":
                    cal.add_cal_point(1000, 1200, "a")
                    cal.add_cal_point(2000, 2500, "b")
                    cal(np.arange(3.) + 500)
                    cal.remove_cal_point_energy(1800, 1000)
                if how == "copy":
                    cal = cal.copy()
                c.state(style, approx, how)
                x = np.array([1.0, 200.0, 0.0, 5e4])
                r = cal(x)
                c.check(np.array_equal(r, x), "empty", f"{style} {how}: {r}")
                r[0] = 99
                c.check(x[0] == 1.0, "empty-aliased", "the energies share memory with the pulse heights given")
                c.check(np.array_equal(cal.energy2ph(x), x) and cal(5.0) == 5.0 and cal.energy2ph(7.0) == 7.0, "empty-inverse", f"{style} {how}")
                c.check(np.array_equal(cal.ph2dedph(x), np.ones(4)) and cal.ph2dedph(3.0) == 1, "empty-slope", f"{cal.ph2dedph(x)}")
                c.check(np.array_equal(cal([1, 2]), [1, 2]), "empty-list", f"{cal([1, 2])}")
                for arg in (7.0, [3.0, 9.0]):
                    ok, r = c.run("empty-exact-inverse", cal.energy2ph_exact, arg)
                    if ok:
                        c.check(close(r, arg, 1e-9), "empty-exact-inverse", f"{style} {how}: {r}")
                c.trans(5)
                c.trace()


# ---------------------------------------------------------------- histories
P = [("Ka", 1000.0, 1200.0, 2.0, 0.05), ("Kb", 2100.0, 2650.0, 2.0, 0.05), ("La", 3500.0, 4600.0, 3.0, 0.05), ("", 6000.0, 8300.0, 5.0, 0.05)]


class Model:
    def __init__(self):
        self.pts = []
        self.style = 0
        self.approx = False

    def add(self, name, ph, e, dph, de):
        new = list(self.pts)
        i = next((i for i, p in enumerate(new) if name and p[0] == name), None)
        if i is None:
            d = [abs(p[2] - e) for p in new]
            if d and min(d) <= de:
                i = d.index(min(d))
        if i is None:
            new.append((name, ph, e, dph, de))
        else:
            new[i] = (name or new[i][0], ph, e, dph, de)
        s = sorted(new, key=lambda p: p[1])
        if any(a[1] >= b[1] or a[2] >= b[2] for a, b in zip(s, s[1:])):
            return False
        self.pts = new
        return True


def do_hist(c, prefix, depth):
    from mass.calibration.energy_calibration import EnergyCalibration
    import h5py
    h5 = h5py.File(os.path.join(c.newdir(), "f.h5"), "w")
    k = 0
    for n in range(max(0, depth - len(prefix)) + 1):
        for rest in itertools.product(OPS, repeat=n):
            hist = prefix + rest
            if hist.count("style") > 2 or hist.count("approx") > 1:
                continue
            for evaluate in (True, False):
                cal, m = EnergyCalibration(1.2), Model()
                for op in hist:
                    c.trans()
                    cal = step(c, cal, m, op, h5, hist)
                    if cal is None:
                        return
                    if evaluate and op is not hist[-1]:
                        try:
                            cal(np.array([1500.0, 2500.0]))
                        except Exception:
                            c.outcome("evaluation not possible")
                k += evaluate
                final(c, cal, m, hist, ("energy2ph", "energy2ph_exact", "ph2dedph")[k % 3] if evaluate else "")
    c.sample({"history": hist, "points left": m.pts})


def step(c, cal, m, op, h5, hist):
    from mass.calibration.energy_calibration import EnergyCalibration
    if op[0] == "a" and op != "approx" or op in {"upE", "upN", "bad"}:
        arg = {"upE": ("", 2200.0, 2650.02, 9.0, 0.1), "upN": ("Ka", 6500.0, 9000.0, 4.0, .07), "bad": ("Kx", 500.0, 3000.0, 1.0, 0.05)}.get(op) or P[int(op[1])]
        good = m.add(*arg)
        try:
            cal.add_cal_point(arg[1], arg[2], arg[0], pht_error=arg[3], e_error=arg[4])
        except Exception as e:
            if good:
                c.violate("add-raised", f"{hist}: {op} raised {type(e).__name__}: {e}")
                return None
            c.outcome("rejected")
        else:
            c.check(good, "not-monotone-accepted", f"{hist}: {op} made points {cal!r}")
    elif op == "rmN":
        names = [p[0] for p in m.pts]
        try:
            cal.remove_cal_point_name("Ka")
        except Exception:
            c.check("Ka" not in names, "remove-by-name-raised", f"{hist}")
        if "Ka" in names:
            del m.pts[names.index("Ka")]
    elif op == "rmE":
        cal.remove_cal_point_energy(3500, 1500)
        m.pts = [p for p in m.pts if not abs(p[2] - 3500) < 1500]
    elif op == "rmP":
        cal.remove_cal_point_prefix("K")
        m.pts = [p for p in m.pts if not p[0].startswith("K")]
    elif op == "copy":
        old, cal = cal, cal.copy()
        old.set_curvetype("gain" if STYLES[m.style] != "gain" else "invgain")
        try:
            old.add_cal_point(9000.0, 13000.0, "Za")
            old.add_cal_point(9001.0, 13002.0, "Za")
        except Exception:
            pass
        old.remove_cal_point_prefix("L")
        old.set_nonlinearity(1.5)
    elif op == "save":
        cal.save_to_hdf5(h5, "cal")
        cal = EnergyCalibration.load_from_hdf5(h5, "cal")
    elif op == "style":
        m.style = (m.style + 1) % len(STYLES)
        cal.set_curvetype(STYLES[m.style] if m.style % 2 else m.style)
    elif op == "approx":
        m.approx = not m.approx
        cal.set_use_approximation(m.approx)
    return cal


def final(c, cal, m, hist, first):
    c.trace()
    c.state(sorted(m.pts), m.style, m.approx)
    pts = sorted(m.pts, key=lambda p: p[1])
    style = STYLES[m.style]
    f = oracle(pts, style, 1.2)
    t = probe(pts)
    c.check(cal.npts == len(pts), "npts", f"{hist}: {cal.npts} points, expected {len(pts)}")
    c.check(cal.curvename() == style, "style", f"{hist}: {cal.curvename()}")
    if f is None:
        return
    approx = m.approx and len(pts) >= 3
    if approx:
        fresh = build(pts, style, 1.2, True)
        want, tol = fresh(t), 1e-6
    else:
        want, tol = f(t), 1e-7
    # whichever question is asked first, it is answered for the calibration as it now is
    if first and pts and np.all(np.diff(want) > 0):
        t0 = t[1:-1]
        h = 1e-4 * t0
        if approx and first == "ph2dedph":
            u, w = cal.ph2uncertainty(t), fresh.ph2uncertainty(t)
            c.check(close(u, w, 1e-6, 1e-9), "first-uncertainty", f"{hist}: {u} want {w}")
        elif first == "ph2dedph":
            u, w = cal.ph2dedph(t0), (f(t0 + h) - f(t0 - h)) / (2 * h)
            c.check(close(u, w, 2e-2), "first-slope", f"{hist}: {u} want {w}", history=hist)
        else:
            u = getattr(cal, first)(want[1:-1])
            c.check(close(u, t0, 5e-3), "first-inverse", f"{hist}: {first} gives {u}, want {t0}", history=hist)
    got = cal(t)
    c.check(close(got, want, tol), "history", f"{hist} (style {style}): E({t}) = {got}, want {want}", history=hist, points=pts)
    c.check(list(cal.cal_point_names) == [p[0] for p in pts] and close(cal.cal_point_phs, [p[1] for p in pts])
            and close(cal.cal_point_energies, [p[2] for p in pts]), "points", f"{hist}: {cal!r}", history=hist)
    if approx:
        u, w = cal.ph2uncertainty(t), fresh.ph2uncertainty(t)
        c.check(close(u, w, 1e-6, 1e-9), "history-uncertainty", f"{hist}: {u} want {w}")
    # a calibration to which the points are added again, in order, has the same inverse
    es = want[1:-1] if pts else t
    if np.all(np.diff(want) > 0) and not approx:
        back = f(np.asarray(cal.energy2ph(es)))
        c.check(close(back, es, 5e-3), "history-inverse", f"{hist}: {back} want {es}")


# ---------------------------------------------------------------- names of lines, refusals, settings
def snapshot(cal):
    return (cal.npts, [float(x) for x in cal.cal_point_phs], [float(x) for x in cal.cal_point_energies], list(cal.cal_point_names),
            [float(x) for x in cal(np.linspace(100, 9000, 20))])


def do_names(c):
    """Points given by the name of a line are those of its energy, whatever came before."""
    from mass.calibration.energy_calibration import STANDARD_FEATURES, EnergyCalibration
    names = ["MnKAlpha", "CuKA", "TiKL3", "FeKBeta1", "ZnKA1", "CoLAlpha"]
    allowed = sorted(names, key=lambda n: STANDARD_FEATURES[n])
    for sub in itertools.permutations(names, 3):
        c.state(sub)
        for overwrite in (True, False):
            cal = EnergyCalibration(1.1, "gain")
            pts = []
            for n in sub:
                e = STANDARD_FEATURES[n]
                ph = 10 * e**.95
                cal.add_cal_point(ph, n, overwrite=overwrite)
                pts.append((n, ph, e, ph * 1e-3, .01))
                c.trans()
            f = oracle(pts, "gain", 1.1)
            t = probe(pts)
            c.trace()
            c.check(close(cal(t), f(t)), "by-name", f"{sub}: {cal(t)} want {f(t)}")
            want = sorted(pts, key=lambda p: p[1])
            c.check([p[0] for p in want] == list(cal.cal_point_names) and close(cal.cal_point_energies, [p[2] for p in want]), "by-name-points", f"{sub}: {cal!r}")
            text = str(cal).split("\n")
            c.check(len(text) == 4 and all(p[0] in line and f"{p[2]:.2f}" in line and f"{p[1]:.2f}" in line for p, line in zip(want, text[1:])), "text", f"{text}")
            for n in allowed:
                e = STANDARD_FEATURES[n]
                if not want[0][2] * .7 < e < want[-1][2] * 1.3:
                    continue
                ok, ph = c.run("name2ph", cal.name2ph, n)
                if ok:
                    c.check(np.isscalar(ph) and close(f(ph), e, 1e-3), "name2ph", f"{sub}: {n} at {ph}, whose energy is {f(ph)}")
            # refusals leave everything as it was
            before = snapshot(cal)
            for what, args, kw in (("unknown name", (12345., "NoSuchLine"), {}), ("known name, overwrite=False", (pts[0][1] * 1.01, sub[0]), dict(overwrite=False)),
                                   ("known energy, overwrite=False", (pts[1][1] * 1.01, pts[1][2] + .005), dict(overwrite=False)),
                                   ("known name and other energy, overwrite=False", (1e6, 1e6, sub[2]), dict(overwrite=False)),
                                   ("falling", (want[0][1] * .5, want[-1][2] * 2), {}), ("same height", (want[0][1], want[-1][2] * 2), {}),
                                   ("neither number nor name", (100., [1, 2]), {})):
                try:
                    cal.add_cal_point(*args, **kw)
                except Exception:
                    c.outcome("refused")
                else:
                    c.violate("accepted", f"{sub}: {what} was accepted: {cal!r}")
                c.trans()
                c.check(snapshot(cal) == before, "refused-but-changed", f"{sub}: {what}: {snapshot(cal)} was {before}")
            # errors taken when none are given: a thousandth of the pulse height
            c.check(close(cal._dph, np.asarray(cal.cal_point_phs) * 1e-3), "default-height-error", f"{cal._dph}")
            # an existing name moves the point; the energy may be given as text
            cal.add_cal_point(pts[1][1] * 1.001, str(pts[1][2] + 1), sub[1])
            pts[1] = (sub[1], pts[1][1] * 1.001, pts[1][2] + 1)
            c.check(close(cal(t), oracle(pts, "gain", 1.1)(t)), "moved-by-name", f"{sub}")
            for bad in ("nobody", ""):
                before = snapshot(cal)
                try:
                    cal.remove_cal_point_name(bad)
                except Exception:
                    pass
                c.check(snapshot(cal) == before, "removed-unknown", f"{sub}: removing {bad!r} changed the calibration")
            cal.remove_cal_point_energy(pts[1][2], .5)
            cal.remove_cal_point_prefix("Xx")
            c.check(sorted(cal.cal_point_names) == sorted([sub[0], sub[2]]), "removed-by-energy", f"{cal!r}")


def do_settings(c):
    """Curve styles by number, name in any case and bytes; the exponent of a one-point curve; the approximation switches; in every order."""
    from mass.calibration.energy_calibration import EnergyCalibration
    t = np.array([200.0, 900., 1500., 2600., 3000.])
    for i, s in enumerate(STYLES):
        for spell in (i, s, s.upper(), s.capitalize(), s.encode(), np.int64(i), np.str_(s)):
            for start in (0, 3, 5):
                cal = EnergyCalibration(1.1, start)
                for p in P[:3]:
                    cal.add_cal_point(p[1], p[2], p[0])
                cal(t)
                ok, _ = c.run("style-spelling", cal.set_curvetype, spell)
                c.trans()
                c.state(i, repr(spell), start)
                if ok:
                    c.trace()
                    c.check(cal.curvename() == s and close(cal(t), oracle(P[:3], s, 1.1)(t)), "style-spelling", f"{spell!r} from {start}: {cal.curvename()}")
                    ok, cal2 = c.run("style-constructor", EnergyCalibration, 1.1, spell)
                    c.check(ok and cal2.curvename() == s, "style-constructor", f"{spell!r}")
    for bad in ("lin", "", "log log", -1, 6, 99, b"nothing"):
        cal = EnergyCalibration(1.1, "gain")
        for p in P[:3]:
            cal.add_cal_point(p[1], p[2], p[0])
        before = snapshot(cal)
        try:
            cal.set_curvetype(bad)
            c.violate("style-accepted", f"{bad!r} gave {cal._curvetype}")
        except Exception:
            c.outcome("refused style")
        c.check(cal.curvename() == "gain" and snapshot(cal) == before, "style-refused-but-changed", f"{bad!r}")
    # exponent, style, evaluation and points in every order
    steps = ("nl1.3", "nl1.0", "gain", "loglog", "eval", "point")
    for n in range(1, 5):
        for seq in itertools.product(steps, repeat=n):
            cal = EnergyCalibration(1.15)
            cal.add_cal_point(P[0][1], P[0][2], P[0][0])
            nl, style, pts = 1.15, "loglog", [P[0]]
            for s in seq:
                c.trans()
                if s[:2] == "nl":
                    nl = float(s[2:])
                    cal.set_nonlinearity(nl)
                elif s == "eval":
                    cal(t)
                elif s == "point":
                    pts = [P[0], P[1]] if len(pts) == 1 else [P[0]]
                    if len(pts) == 2:
                        cal.add_cal_point(P[1][1], P[1][2], P[1][0])
                    else:
                        cal.remove_cal_point_name(P[1][0])
                else:
                    style = s
                    cal.set_curvetype(s)
            f = oracle(pts, style, nl)
            c.state(nl, style, len(pts))
            c.trace()
            for what, k in (("settings-history", cal), ("settings-copy", cal.copy())):
                c.check(close(k(t), f(t)), what, f"{seq}: {k(t)} want {f(t)}", history=seq)
            rising = np.linspace(1, 1.05 * pts[-1][1], 4000)
            c.check(bool(cal.ismonotonic) == bool(np.all(np.diff(f(rising)) > 0)), "ismonotonic", f"{seq}: {cal.ismonotonic}")
    # curves that rise everywhere, or turn over between or beyond their points
    for ys in itertools.product((100., 1200., 2300., 2400., 5000.), repeat=3):
        if list(ys) != sorted(set(ys)):
            continue
        for style in ("linear", "linear+0", "invgain", "loglog"):
            pts = [("", x, y) for x, y in zip((1000., 2000., 3000.), ys)]
            cal = EnergyCalibration(1.0, style)
            for _, x, y in pts:
                cal.add_cal_point(x, y)
            f = oracle(pts, style, 1.0)
            d = np.diff(f(np.linspace(1e-9 if style == "loglog" else 0, 3150, 1001)))
            c.state(ys, style)
            c.trace()
            if np.min(np.abs(d)) < 1e-6 * np.max(np.abs(d)):
                continue
            c.outcome("monotonic" if np.all(d > 0) else "not monotonic")
            c.check(bool(cal.ismonotonic) == bool(np.all(d > 0)), "ismonotonic", f"{style} {ys}: {cal.ismonotonic}")
    # uncertainties need the approximating curve
    for n in (0, 1, 2, 4):
        cal = build([(a, p, e, d, de) for a, p, e, d, de in P[:n]], "loglog")
        try:
            cal.ph2uncertainty(1000.)
            c.violate("uncertainty-of-exact", "an exact curve reports an uncertainty")
        except ValueError:
            c.outcome("no uncertainty")
        if n >= 3:
            cal.set_use_approximation(True)
            for fn, x in ((cal.energy2uncertainty, 3000.), (cal.e2uncertainty, 3000.)):
                c.check(close(fn(x), cal.ph2uncertainty(cal.energy2ph(x)), 1e-9) and fn(x) > 0, "uncertainty-aliases", f"{fn.__name__}")
            c.check(close(cal.e2dedph(3000.), cal.energy2dedph(3000.), 1e-12), "slope-alias", "e2dedph")


def do_lines(c):
    """The table of line energies, against the text of its data files."""
    import mass
    from mass.calibration import nist_xray_database as nx
    from mass.calibration.energy_calibration import LineEnergies
    db = nx.NISTXrayDBFile()
    want = {}
    for fn in db.DEFAULT_FILENAMES:
        path = os.path.join(os.path.dirname(nx.__file__), fn)
        started = False
        for line in open(path, encoding="utf-8"):
            if started and line.strip():
                el, tr, e, u = line[0:4].strip(), line[9:16].strip(), line[44:59].strip(), line[60:72].strip()
                if e and u:
                    want[el, tr] = float(e), float(u)
            started = started or line.startswith("Ele. A   Trans.")
    c.check(len(want) > 800, "lines-count", f"{len(want)}")
    alias = {"KL3": ("KA1", "KAlpha1", "KA", "KAlpha"), "KL2": ("KA2", "KAlpha2"), "KM3": ("KB1", "KBeta1", "KB", "KBeta"), "KM2": ("KB3", "KBeta3"), "KM5": ("KB5", "KBeta5"),
             "L3M5": ("LA1", "LAlpha1", "LA", "LAlpha"), "L3M4": ("LA2", "LAlpha2"), "L3M1": ("LL",), "L1M3": ("LB3", "LBeta3"), "L2M4": ("LB1", "LBeta1", "LB", "LBeta"),
             "L3N5": ("LB2", "LBeta2"), "L2N4": ("LG1", "LGamma1", "LG", "LGamma")}
    table = {}
    for (el, tr), (e, u) in want.items():
        c.state(el, tr)
        c.trans()
        for name in (tr, *alias.get(tr, ())):
            table[el + name] = e
        for key in (f"{el} {tr}", f"{el.lower()} {tr.lower()}", f"{el.upper()} {tr}"):
            ok, line = c.run("line-lookup", db.__getitem__, key)
            if ok:
                c.check(line.peak == e and line.peak_unc == u and line.element.strip() == el, "line-lookup", f"{key}: {line}")
        for name in alias.get(tr, ()):
            if name[-1].isdigit() or name == "LL":
                ok, line = c.run("line-nickname", db.__getitem__, f"{el} {name}")
                if ok:
                    c.check(line.peak == e, "line-nickname", f"{el} {name}: {line}")
    have = LineEnergies()
    c.trace(len(have))
    for k in sorted(set(table) | set(have)):
        c.check(have.get(k) == table.get(k) == mass.STANDARD_FEATURES.get(k), "line-table", f"{k}: {have.get(k)}, {mass.STANDARD_FEATURES.get(k)}, data files say {table.get(k)}")
    for tr, names in alias.items():
        for kind in (tr, tr.lower(), *[n for n in names if n[-1].isdigit() or n == "LL"]):
            lines = db.get_lines_by_type(kind)
            order = [el for el in nx.ELEMENTS if (el, tr) in want]
            c.check([x.element.strip() for x in lines] == order and all(x.transition.strip() == tr for x in lines), "lines-by-type", f"{kind}: {lines[:3]}...")
            c.trans()
    for bad in ("Mn", "Mn XX9", "Zz KA1"):
        try:
            db[bad]
            c.violate("line-unknown", f"{bad} gave {db[bad]}")
        except Exception:
            c.outcome("unknown line")
    c.sample({"lines": len(want), "names": len(have)})
