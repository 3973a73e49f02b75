"""P18: splines. All small knot sets over an alphabet against dense linear algebra."""
import itertools

import numpy as np

from vlib.core import chunks

PROPERTY = "P18"
EXPLAIN = """States are (knot set, values, end conditions / errors); transitions are evaluations (site x derivative order x scalar, list,
integer, 0-d, 1-d or 2-d argument).  Exact splines are compared with the cubic pieces solved by dense linear algebra from the
defining conditions; smoothing splines with the Reinsch solution (bisection on the multiplier); Gaussian-process splines with the
dense posterior formulas."""
ASSUMPTIONS = ["knots are distinct", "a derivative that jumps at a knot may have either one-sided value there"]

ORDERS = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3)]


def shards(tier):
    th = tier == "thorough"
    out = []
    gaps = list(itertools.product([0.5, 1, 3], repeat=2))
    for n in (2, 3, 4):
        for part, g in enumerate(itertools.product([0.5, 1, 3], repeat=1)):
            out.append((f"exact-{n}-{part}", ("exact", n, g)))
    if th:
        for g in gaps:
            out.append((f"exact-5-{g}", ("exact", 5, g)))
    for k in range(6):
        out.append((f"smooth-{k}", ("smooth", k, 6)))
        out.append((f"gpr-{k}", ("gpr", k, 6)))
    out.append(("linterp", ("linterp",)))
    return out


def run_shard(c, kind, *args):
    np.seterr(all="ignore")
    globals()["do_" + kind](c, *args)


def dense(x, y, y1, yN):
    """Coefficients of the cubic pieces (n-1, 4) in local coordinate, from the defining equations."""
    n = len(x)
    h = np.diff(x)
    m = n - 1
    A, b = [], []

    def row(d):
        r = np.zeros(4 * m)
        for k, v in d.items():
            r[k] = v
        return r
    for i in range(m):
        A.append(row({4 * i: 1})); b.append(y[i])
        A.append(row({4 * i: 1, 4 * i + 1: h[i], 4 * i + 2: h[i]**2, 4 * i + 3: h[i]**3})); b.append(y[i + 1])
    for i in range(m - 1):
        A.append(row({4 * i + 1: 1, 4 * i + 2: 2 * h[i], 4 * i + 3: 3 * h[i]**2, 4 * i + 5: -1})); b.append(0)
        A.append(row({4 * i + 2: 2, 4 * i + 3: 6 * h[i], 4 * i + 6: -2})); b.append(0)
    if y1 is None:
        A.append(row({2: 2})); b.append(0)
    else:
        A.append(row({1: 1})); b.append(y1)
    k = 4 * (m - 1)
    if yN is None:
        A.append(row({k + 2: 2, k + 3: 6 * h[-1]})); b.append(0)
    else:
        A.append(row({k + 1: 1, k + 2: 2 * h[-1], k + 3: 3 * h[-1]**2})); b.append(yN)
    return np.linalg.solve(np.array(A), np.array(b, float)).reshape(m, 4)


def ev(x, P, t, der):
    """(list of admissible values) of the `der`th derivative at t."""
    def poly(c, u, der):
        if der == 0:
            return c[0] + u * (c[1] + u * (c[2] + u * c[3]))
        if der == 1:
            return c[1] + u * (2 * c[2] + 3 * u * c[3])
        if der == 2:
            return 2 * c[2] + 6 * u * c[3]
        if der == 3:
            return 6 * c[3]
        return 0.0
    n = len(x)
    lo = [poly((P[0][0], P[0][1], 0, 0), t - x[0], der)]
    hl = x[-1] - x[-2]
    vN, sN = poly(P[-1], hl, 0), poly(P[-1], hl, 1)
    hi = [poly((vN, sN, 0, 0), t - x[-1], der)]
    vals = []
    if t <= x[0]:
        vals += lo
    if t >= x[-1]:
        vals += hi
    for i in range(n - 1):
        if x[i] <= t <= x[i + 1]:
            vals.append(poly(P[i], t - x[i], der))
    return vals


def near(got, vals, scale):
    return any(abs(got - v) <= 1e-8 * (1 + scale) for v in vals)


def do_exact(c, n, prefix):
    from mass.mathstat.interpolate import CubicSpline, CubicSplineFunction
    from mass.mathstat.derivative import Function
    for gaps in itertools.product([0.5, 1, 3], repeat=n - 1 - len(prefix)):
        x = np.cumsum([(-1.0)] + list(prefix) + list(gaps))
        sites = sorted(set(list(x) + [(a + b) / 2 for a, b in zip(x, x[1:])] + [(3 * a + b) / 4 for a, b in zip(x, x[1:])]
                           + [x[0] - 2.5, x[0] - 0.25, x[-1] + 0.25, x[-1] + 7]))
        for y in itertools.product([0, 1, -2.5], repeat=n):
            for y1, yN in itertools.product([None, 0.0, 2.0], repeat=2):
                P = dense(x, y, y1, yN)
                xs, ys = list(x), list(y)
                order = ORDERS[(len(gaps) + int(abs(sum(y)) * 2)) % 3]
                order = [k for k in order if k < n]
                ok, sp = c.run("CubicSpline", CubicSpline, np.array(xs)[order], np.array(ys, float)[order],
                               *((y1, yN) if order[0] < order[-1] or True else ()))
                if not ok:
                    return
                f = CubicSplineFunction(np.array(xs)[order], [ys[k] for k in order], y1, yN)
                c.state(gaps, prefix, y, y1, yN)
                for der in range(5):
                    arr = np.array(sites)
                    if der <= 3:
                        res = sp(arr, der=der)
                    resf = f(arr, der=der)
                    fd = f.derivative(der) if der else f
                    fdd = f.derivative(1)(arr, der=der - 1) if der else resf
                    resd = fd(arr)
                    c.trans(4)
                    want = [ev(x, P, t, der) for t in sites]
                    scale = max(abs(v) for w in want for v in w)
                    for name, r in (("call", res if der <= 3 else resf), ("function", resf), ("derivative", resd), ("derivative1", fdd)):
                        bad = [(t, float(g), w) for t, g, w in zip(sites, r, want) if not near(g, w, scale)]
                        c.check(np.shape(r) == arr.shape and not bad, f"exact-{name}-der{der}",
                                f"knots {xs} values {ys} ends {(y1, yN)}: derivative {der} at (site, got, want) {bad[:3]}", x=xs, y=ys, ends=(y1, yN))
                c.trace()
            if y[0] == 1:
                shapes(c, sp, sites, x, P)
    c.sample({"knots": list(map(float, x)), "values": list(y)})


def shapes(c, sp, sites, x, P):
    """Scalar, 0-d, 1-element, 2-d, integer and list arguments give the same values, in the same shape; arguments do not change."""
    t = float(sites[1])
    for der in (0, 1, 2):
        want = float(sp(np.array([t, t]), der=der)[0])
        s = sp(t, der=der)
        c.check(np.isscalar(s) and abs(s - want) < 1e-12 * (1 + abs(want)), "scalar", f"scalar evaluation {s!r} vs {want}")
        for arg in (np.array(t), np.array([t]), np.array([[t]]), np.array([[t, sites[2]], [sites[0], sites[-1]]])):
            before, shp = arg.copy(), arg.shape
            r = sp(arg, der=der)
            c.trans()
            c.check(arg.shape == shp and np.array_equal(arg, before), "argument-changed", f"argument of shape {shp} became {arg.shape}")
            c.check(np.shape(r) == shp and np.allclose(np.ravel(r)[0], sp(float(arg.ravel()[0]), der=der)), "shape",
                    f"argument of shape {shp} gives a result of shape {np.shape(r)}")
        r = sp([sites[0], t], der=der)
        c.check(np.shape(r) == (2,) and abs(r[1] - want) < 1e-12 * (1 + abs(want)), "list", f"list evaluation {r}")
        i = np.array([0, 1, 2])
        c.check(np.allclose(sp(i, der=der), sp(i.astype(float), der=der)) and np.isclose(sp(1, der=der), sp(1.0, der=der)), "integer", "integer arguments")


def do_linterp(c):
    from mass.mathstat.interpolate import CubicSpline, LinterpCubicSpline
    x = np.array([0, 1.0, 2.5, 4.5])
    t = np.linspace(-2, 7, 31)
    for y1 in itertools.product([0, 1, -2], repeat=4):
        s1 = CubicSpline(x, y1)
        for y2 in ((0, 0, 1, 0), (1, -1, 2, 5)):
            s2 = CubicSpline(x, y2)
            for fr in (0, 0.25, 1, 2):
                s = LinterpCubicSpline(s1, s2, fr)
                c.trans()
                c.state(y1, y2, fr)
                for der in (0, 1, 2):
                    c.check(np.allclose(s(t, der=der), fr * s1(t, der=der) + (1 - fr) * s2(t, der=der)), "linterp", f"{y1} {y2} {fr} der {der}")
        c.trace()


def natural_matrices(x):
    """Curvature energy = g^T K g of the natural cubic spline through g at x; K from the dense interpolant."""
    n = len(x)
    h = np.diff(x)
    Q = np.zeros((n, n - 2))
    R = np.zeros((n - 2, n - 2))
    for j in range(1, n - 1):
        Q[j - 1, j - 1], Q[j, j - 1], Q[j + 1, j - 1] = 1 / h[j - 1], -1 / h[j - 1] - 1 / h[j], 1 / h[j]
        R[j - 1, j - 1] = (h[j - 1] + h[j]) / 3
        if j < n - 2:
            R[j - 1, j] = R[j, j - 1] = h[j] / 6
    return Q @ np.linalg.solve(R, Q.T)


def reinsch(x, y, err, maxchisq):
    """knot values of the least-curvature curve with chisq <= maxchisq; also the chisq of the straight-line fit"""
    K = natural_matrices(x)
    W = np.diag(err**-2.0)
    A = np.vstack([np.ones_like(x), x]).T
    line = A @ np.linalg.solve(A.T @ W @ A, A.T @ W @ y)
    chil = float(((y - line)**2 / err**2).sum())
    if chil <= maxchisq:
        return line, chil
    lo, hi = -60.0, 60.0
    for _ in range(200):
        mid = (lo + hi) / 2
        g = np.linalg.solve(W + np.exp(mid) * K, W @ y)
        if ((y - g)**2 / err**2).sum() > maxchisq:
            hi = mid
        else:
            lo = mid
    return g, chil


def do_smooth(c, k, nk):
    from mass.mathstat.interpolate import SmoothingSpline, SmoothingSplineFunction, SmoothingSplineLog
    n = 0
    for gaps in itertools.chain(*(itertools.product([1, 3], repeat=m) for m in (2, 3, 4))):
        m = len(gaps) + 1
        for yy in itertools.product([0, 1, 4], repeat=m):
            n += 1
            if n % nk != k or (not c.thorough and n % 5 and m == 5):
                continue
            x = np.cumsum([2.0] + list(gaps))
            y = np.array(yy, float) + 0.1 * x * (n % 2) + 3
            for e in (np.full(m, 0.05), np.array([0.1, 0.05, 0.2, 0.1, 0.3])[:m]):
                for mc in (None, 2.0):
                    target = mc or m
                    want, chil = reinsch(x, y, e, target)
                    if abs(chil - target) < 0.5:
                        continue          # too near the boundary between the two regimes
                    cp = [a.copy() for a in (x, y, e)]
                    ok, sp = c.run("SmoothingSpline", SmoothingSplineFunction, x, y, e, maxchisq=mc)
                    if not ok:
                        return
                    c.trans()
                    c.state(gaps, yy, e[0], mc)
                    c.check(all(np.array_equal(a, b) for a, b in zip(cp, (x, y, e))), "smooth-args", "arguments changed")
                    got = sp(x)
                    c.check(np.allclose(got, want, atol=1e-4 * (1 + np.abs(y).max())), "smooth-knots",
                            f"x {x} y {y} err {e} maxchisq {target} (line has {chil:.3f}): {got}, least curvature is {want}", x=x, y=y, err=e, maxchisq=target)
                    chi = ((y - got)**2 / e**2).sum()
                    c.check(chi <= target * 1.001 and abs(chi - sp.actualchisq) < 1e-6 * (1 + chi), "smooth-chisq",
                            f"chisq {chi} (reported {sp.actualchisq}) of at most {target}")
                    for scale in (1e-5, 1e6):
                        ok, other = c.run("smooth-scaled", SmoothingSpline, x, y * scale, e * scale, maxchisq=mc)
                        if not ok:
                            break
                        c.trans()
                        c.check(np.allclose(other(x) / scale, got, atol=1e-6 * (1 + np.abs(y).max())), "smooth-scale", lambda: f"x {x} y {y} err {e} times {scale}: {other(x) / scale}, expected {got}")
                    # it is the natural cubic spline of its own knot values, and so are its derivatives
                    P = dense(x, got, None, None)
                    sites = [x[0] - 4, x[0] - 0.5] + [(a + b) / 2 for a, b in zip(x, x[1:])] + [(a + 4 * b) / 5 for a, b in zip(x, x[1:])] \
                        + [x[-1] + 0.5, x[-1] + 9]
                    for der in range(4):
                        w = np.array([ev(x, P, t, der)[0] for t in sites])
                        for nm, r in (("call", sp(np.array(sites), der=der)), ("derivative", sp.derivative(der)(np.array(sites)) if der else None),
                                      ("mixed", sp.derivative(1)(np.array(sites), der=der - 1) if der else None)):
                            if r is not None:
                                c.trans()
                                c.check(np.allclose(r, w, atol=1e-5 * (1 + np.abs(w).max())), f"smooth-{nm}-der{der}", f"x {x} y {y}: {r} want {w}")
                        s0 = sp(float(sites[3]), der=der)
                        c.check(np.ndim(s0) == 0 and np.isclose(s0, w[3], atol=1e-5 * (1 + np.abs(w).max())), "smooth-scalar", f"{s0} {w[3]}")
                    # integer abscissas
                    xi = x.astype(int)
                    ok, si = c.run("SmoothingSpline-int", SmoothingSpline, xi, y, e, maxchisq=mc)
                    if ok:
                        c.check(np.allclose(si(x), got, atol=1e-9), "smooth-int", "integer x gives another curve")
                    c.trace()
            # logarithmic version: exp of the curve in log-log space, and its true derivatives
            dy = 0.02 * y
            dx = 0.001 * x
            dx0 = dx.copy()
            chil = reinsch(np.log(x), np.log(y), np.full(m, 0.02), m)[1]
            if chil > 6:
                ok, sl = c.run("SmoothingSplineLog", SmoothingSplineLog, x, y, dy, dx)
                if ok:
                    c.check(np.array_equal(dx, dx0), "log-args", "SmoothingSplineLog changed its dx argument")
                    lm = SmoothingSpline(np.log(x), np.log(y), dy / y, dx0 / x)
                    t = np.array([2.5, 3.3, 4.1, x[-1] + 3])
                    f = np.exp(lm(np.log(t)))
                    d1 = f * lm(np.log(t), der=1) / t
                    c.check(np.allclose(sl(t), f, rtol=1e-9), "log-value", f"{sl(t)} {f}")
                    c.check(np.allclose(sl(t, der=1), d1, rtol=1e-7, atol=1e-9), "log-der1", f"derivative {sl(t, der=1)}, want {d1}")
                    c.trans(2)


def do_gpr(c, k, nk):
    from mass.mathstat.interpolate import GPRSpline, GPRSplineFunction
    n = 0
    for gaps in itertools.product([1, 3], repeat=3):
        for yy in itertools.product([0, 1, 4], repeat=4):
            n += 1
            if n % nk != k or (not c.thorough and n % 3):
                continue
            x = np.cumsum([1.0] + list(gaps))
            y = np.array(yy, float) + x
            e = np.array([0.1, 0.3, 0.2, 0.1])
            kern = lambda a, b: min(a, b)**3 / 3 + min(a, b)**2 / 2 * abs(a - b)
            for sf in (0.3, 2.0):
                sp = GPRSpline(x, y, e, sigmaf=sf)
                c.state(gaps, yy, sf)
                K = sf**2 * np.array([[kern(a, b) for b in x] for a in x])
                Ki = np.linalg.inv(K + np.diag(e**2))
                H = np.vstack([np.ones(4), x])
                A = H @ Ki @ H.T
                beta = np.linalg.solve(A, H @ Ki @ y)
                t = np.array([0.5, 1.0, 1.5, 2.7, x[-1], x[-1] + 2])
                Ks = sf**2 * np.array([[kern(a, b) for b in t] for a in x])
                R = np.vstack([np.ones(len(t)), t]) - H @ Ki @ Ks
                mean = Ks.T @ Ki @ y + R.T @ beta
                cov = sf**2 * np.array([[kern(a, b) for b in t] for a in t]) - Ks.T @ Ki @ Ks + R.T @ np.linalg.solve(A, R)
                c.trans(3)
                c.check(np.allclose(sp(t), mean, atol=1e-6 * (1 + np.abs(mean).max())), "gpr-mean", f"{sp(t)} want {mean}")
                v = sp.variance(t)
                c.check(np.allclose(v, np.diag(cov), rtol=1e-6, atol=1e-8), "gpr-variance", f"{v} want {np.diag(cov)}")
                c.check(np.allclose(sp.covariance(t), cov, rtol=1e-6, atol=1e-8), "gpr-covariance", "covariance")
                for i in (0, 3):
                    ok, s = c.run("gpr-scalar", sp.variance, float(t[i]))
                    c.check(ok and np.isclose(s, cov[i, i]), "gpr-scalar-variance", "scalar variance")
                    ok, s = c.run("gpr-scalarcov", sp.covariance, float(t[i]))
                    c.check(ok and np.isclose(s, cov[i, i]), "gpr-scalar-covariance", "scalar covariance")
                c.trace()
                # the origin of x does not matter
                for shift in (-0.5, -2.5, -40.0, 7.25):
                    ok, moved = c.run("gpr-shifted", GPRSpline, x + shift, y, e, sigmaf=sf)
                    if not ok:
                        break
                    c.check(np.allclose(moved(t + shift), mean, atol=1e-6 * (1 + np.abs(mean).max())), "gpr-shifted-mean", lambda: f"shifted by {shift}: {moved(t + shift)} want {mean}")
                    c.check(np.allclose(moved.variance(t + shift), np.diag(cov), rtol=1e-5, atol=1e-7) and np.allclose(moved.covariance(t + shift), cov, rtol=1e-5, atol=1e-7), "gpr-shifted-variance", f"shifted by {shift}")
                    c.trans(2)
            f = GPRSplineFunction(x, y, e)
            if n % 5 == 0:
                ok, moved = c.run("gpr-shifted-auto", GPRSplineFunction, x - 9.0, y, e)
                if ok:
                    c.check(np.allclose(moved(x - 9.0), f(x), rtol=1e-3, atol=1e-3), "gpr-shifted-auto-mean", lambda: f"{moved(x - 9.0)} want {f(x)}")
            t = np.array([0.5, 1.5, 2.7, x[-1] + 2])
            P = dense(x, f(x), None, None)
            for der in range(4):
                w = np.array([ev(x, P, a, der)[0] for a in t])
                c.trans(2)
                c.check(np.allclose(f(t, der=der), w, atol=1e-6 * (1 + np.abs(w).max())), f"gpr-der{der}", f"{f(t, der=der)} want {w}")
                if der:
                    c.check(np.allclose(f.derivative(der)(t), w, atol=1e-5 * (1 + np.abs(w).max())), f"gpr-derivative{der}", "derivative()")
            # the automatic smoothing maximises the marginal likelihood (against a grid)
            if not hasattr(f, "_marginal_like"):
                continue
            best = f._marginal_like(f.sigmaf)
            grid = max(f._marginal_like(s) for s in np.geomspace(0.02, 50, 40)) if n % 2 else best
            c.check(best >= grid - 1e-3 * (1 + abs(grid)), "gpr-best", f"x {x} y {y}: likelihood {best} at sigmaf {f.sigmaf}, grid reaches {grid}")
