"""P34: kinked-line fits, smoothing, random projections, line shapes and outlines equal their definitions."""
import itertools
import math

import numpy as np

PROPERTY = "P34"
EXPLAIN = """A state is a small data set (points of a line with a kink, samples to smooth, a matrix of given rank, a line shape, a histogram); a
transition computes one helper on it.  All data sets over small integer alphabets are enumerated, in every order of the points for the kinked
line, and each answer is compared with dense least squares (or the exact convolution, or the set of outline points)."""
ASSUMPTIONS = ["kinked lines have at least three different x values; noise-free ones at least two points within each side's slope for recovering the kink",
               "smoothing uses windows no longer than the data"]


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# ---- kinked line
def kink(c, n, part, nparts):
    from mass.mathstat.fitting import kink_model
    xs_all = [tuple(np.array(x, float)) for x in itertools.product((0, 1, 2, 5), repeat=n) if len(set(x)) >= 3]
    yset = [tuple((i * 7 + j * j * 3) % 5 - 1.0 for i in range(n)) for j in range(4)] + [tuple(float(i) for i in range(n)), (2.0,) * n]
    for i, x in enumerate(xs_all):
        if i % nparts != part:
            continue
        x = np.array(x)
        for y in yset:
            y = np.array(y)
            for k in (0.4, 1.0, 1.6, 2.0, 3.5, 4.9):
                inside = x.min() < k < x.max()
                xa, ya = x.copy(), y.copy()
                c.state(tuple(x), tuple(y), k)
                c.trans()
                d = dict(x=x, y=y, k=k)
                try:
                    model, abc, X2 = kink_model(k, xa, ya)
                except ValueError:
                    c.check(not inside, "kink-refused", "a kink within the data was refused", **d)
                    c.outcome("refused")
                    continue
                except Exception as e:
                    c.violate("kink-exception", repr(e), **d)
                    continue
                if not c.check(inside, "kink-outside", "a kink outside the data was accepted", **d):
                    continue
                M = np.column_stack([np.ones(n), np.minimum(x - k, 0), np.maximum(x - k, 0)])
                want, *_ = np.linalg.lstsq(M, y, rcond=None)
                c.check(close(abc, want, 1e-7), "kink-parameters", "level and slopes are not the least-squares ones", got=abc, want=want, **d)
                c.check(close(model, M @ want, 1e-7), "kink-model", "the model is not that of each point, in order", got=model, want=M @ want, **d)
                c.check(abs(X2 - float(np.sum((M @ want - y)**2))) < 1e-7, "kink-chisq", "sum of squares", got=X2, want=float(np.sum((M @ want - y)**2)), **d)
                c.check(np.array_equal(xa, x) and np.array_equal(ya, y), "kink-inputs", "inputs changed", **d)
                c.trace()
    for bad in (-1.0, 0.0, 5.0, 6.0):
        try:
            kink_model(bad, np.array([0.0, 1, 2, 5]), np.array([1.0, 2, 3, 4]))
            c.violate("kink-end", "a kink at or beyond the end of the data was accepted", k=bad)
        except ValueError:
            pass


def fitkink(c, thorough):
    from mass.mathstat.fitting import fit_kink_model, kink_model
    base = np.arange(0, 10, 1.0)
    for k, a, b, s, off, order in itertools.product((2.5, 3.3, 4.0, 4.6, 6.5), (0.0, 5.0), (-1.0, 0.0, 1.0, 2.0), (-2.0, 0.0, 3.0), (0.0, -40.0), ("up", "down", "mixed")):
        if b == s:
            continue
        idx = {"up": np.arange(10), "down": np.arange(10)[::-1], "mixed": np.argsort(np.arange(10) * 7 % 10)}[order]
        x = (base + off)[idx]
        kk = k + off
        y = np.where(x < kk, a + b * (x - kk), a + s * (x - kk))
        for kb in (None, (kk - 1.5, kk + 2)):
            c.state(k, a, b, s, off, order, kb is None)
            xa, ya = x.copy(), y.copy()
            d = dict(k=kk, a=a, b=b, c=s, order=order, bounds=kb)
            ok, r = c.run("fit-exception", fit_kink_model, xa, ya, **({} if kb is None else dict(kbounds=kb)))
            if not ok:
                continue
            c.trans()
            model, p, X2 = r
            lo, hi = kb or (x.min(), x.max())
            c.check(lo <= p[0] <= hi, "fit-bounds", "the kink is outside its bounds", got=p, **d)
            m2, abc, x2 = kink_model(p[0], x, y)
            c.check(close(model, m2) and close(p[1:], abc) and abs(X2 - x2) < 1e-9, "fit-consistent", "the answer is not that of the best kink", got=p, want=abc, **d)
            c.check(abs(p[0] - kk) < 2e-3 and X2 < 1e-4, "fit-recovers", "a noise-free kink was not found", got=p, X2=X2, **d)
            c.check(close(p[1:], (a, b, s), 2e-2), "fit-parameters", "parameters of a noise-free kinked line", got=p, **d)
            c.check(np.array_equal(xa, x) and np.array_equal(ya, y), "fit-inputs", "inputs changed", **d)
            c.trace()
    for kb in ((-1, 5), (2, 11), (-3, 12)):
        try:
            fit_kink_model(base, base, kbounds=kb)
            c.violate("fit-bounds-accepted", "bounds beyond the data were accepted", bounds=kb)
        except ValueError:
            pass
    # any data: the answer belongs to its own kink
    for y in itertools.product((0.0, 1.0, 4.0), repeat=6 if thorough else 5):
        x = np.arange(len(y), dtype=float) * 2
        ok, r = c.run("fit-exception", fit_kink_model, x, np.array(y))
        c.trans()
        c.state("any", y)
        if ok:
            m2, abc, x2 = kink_model(r[1][0], x, np.array(y))
            c.check(close(r[0], m2) and close(r[1][1:], abc) and abs(r[2] - x2) < 1e-9, "fit-consistent", "the answer is not that of the best kink", y=y)
            c.check(r[2] <= float(np.sum((np.array(y) - np.polyval(np.polyfit(x, y, 1), x))**2)) + 1e-7, "fit-worse-than-line", "a kinked line fits worse than a straight one", y=y, got=r[2])


# ---- smoothing
def savgol(c, part, nparts):
    from mass.mathstat.utilities import savitzky_golay
    n = 0
    for w, order in itertools.product((1, 3, 5, 7, 9), range(6)):
        for deriv in range(order + 1):
            n += 1
            if n % nparts != part:
                continue
            ks = np.arange(-(w // 2), w // 2 + 1, dtype=float)
            legal = w >= order + 2
            ys = [np.array([(i * i * 5 + i * 3 + j) % 11 for i in range(14)], float) for j in range(5)]
            ys += [np.eye(1, 14, j)[0] for j in range(14)] + [np.arange(14.0)**p for p in range(order + 2)] + [np.arange(14)]
            for y in ys:
                keep = y.copy()
                c.trans()
                c.state("savgol", w, order, deriv, tuple(y))
                try:
                    s = savitzky_golay(y, w, order, deriv) if deriv else savitzky_golay(y, w, order)
                except TypeError:
                    c.check(not legal, "savgol-refused", "a legal window was refused", window=w, order=order)
                    continue
                except Exception as e:
                    c.violate("savgol-exception", repr(e), window=w, order=order, deriv=deriv)
                    continue
                if not c.check(legal, "savgol-accepted", "a window too small for its polynomial was accepted", window=w, order=order):
                    continue
                d = dict(window=w, order=order, deriv=deriv, y=y)
                c.check(np.array_equal(y, keep), "savgol-input", "the data were changed", **d)
                if not c.check(s.shape == y.shape, "savgol-shape", "smoothing changed the length", got=s.shape, **d):
                    continue
                h = w // 2
                pad = np.concatenate([y[0] - np.abs(y[1:h + 1][::-1] - y[0]), y, y[-1] + np.abs(y[-h - 1:-1][::-1] - y[-1])]) if h else np.asarray(y, float)
                V = np.vander(ks, order + 1, increasing=True)
                # derivative at its center of the least-squares polynomial of each window
                want = np.array([np.linalg.lstsq(V, pad[i:i + w], rcond=None)[0][deriv] for i in range(len(y))]) * math.factorial(deriv)
                scale = 1 + float(np.max(np.abs(pad)))
                c.check(close(s / scale, want / scale, 1e-9), "savgol-value", "a smoothed value is not that of the polynomial fitted to its window", got=s, want=want, **d)
                c.trace()
    for bad in (2, 4, 0):
        for f in (lambda: savitzky_golay(np.arange(9.0), bad, 0),):
            try:
                f()
                c.violate("savgol-even", "an even window was accepted", window=bad)
            except TypeError:
                pass


# ---- random projections
def randomly(c, m, n):
    from mass.mathstat import utilities as U
    k = 0
    for r in range(0, min(m, n) + 1):
        for salt in range(4):
            A0 = np.array([[((i + 2) * (j + 1 + salt) * 7 + i * i * j + salt * j * j) % 13 - 6.0 for j in range(n)] for i in range(m)])
            u, s, v = np.linalg.svd(A0, full_matrices=False)
            s = np.where(np.arange(len(s)) < r, 10.0 / (1 + np.arange(len(s))), 0.0)
            A = (u * s) @ v
            for nl in range(max(1, r), min(m, n) + 1):
                for q in (0, 1, 2, 3):
                    k += 1
                    U.rng = np.random.default_rng(k)
                    keep = A.copy()
                    c.state("range", m, n, r, nl, q, salt)
                    d = dict(shape=(m, n), rank=r, nl=nl, q=q)
                    ok, Q = c.run("range-exception", U.find_range_randomly, A, nl, q)
                    c.trans(2)
                    if ok:
                        c.check(Q.shape == (m, nl) and close(Q.T @ Q, np.eye(nl), 1e-9), "range-orthonormal", "the range's vectors are not orthonormal", got=Q.shape, **d)
                        c.check(close(Q @ (Q.T @ A), A, 1e-6), "range-spans", "the vectors do not span the matrix's columns", **d)
                    ok, t = c.run("svd-exception", U.find_svd_randomly, A, nl, q)
                    if ok:
                        uu, w, vv = t
                        c.check(uu.shape == (m, nl) and w.shape == (nl,) and vv.shape == (nl, n), "svd-shapes", "shapes of the decomposition", got=(uu.shape, w.shape, vv.shape), **d)
                        c.check(close(w, s[:nl], 1e-6) if nl <= len(s) else True, "svd-values", "singular values", got=w, want=s[:nl], **d)
                        c.check(close((uu * w) @ vv, A, 1e-6), "svd-product", "the decomposition's product is not the matrix", **d)
                        c.check(close(uu.T @ uu, np.eye(nl), 1e-8) and close(vv @ vv.T, np.eye(nl), 1e-8), "svd-orthonormal", "singular vectors are not orthonormal", **d)
                    c.check(np.array_equal(A, keep), "random-inputs", "the matrix was changed", **d)
                    c.trace()
    for q in (-1, -2):
        try:
            U.find_range_randomly(np.eye(3), 2, q)
            c.violate("range-negative", "a negative number of power iterations was accepted", q=q)
        except ValueError:
            pass


# ---- Voigt profiles
def voigts(c, thorough):
    from mass.mathstat.special import voigt, voigt_approx_fwhm
    from scipy.special import ndtri
    nodes, wts = np.polynomial.legendre.leggauss(200)
    del ndtri
    for xc, h, s in itertools.product((0, 0.0, 100, -3.5), (0, 0.3, 1.0, 4), (0, 0.2, 1, 2.5)):
        if h == 0 and s == 0:
            continue
        c.state("voigt", xc, h, s)
        x = xc + np.array([-30, -6, -2, -1, -0.3, 0, 0.1, 0.5, 1.7, 3, 8, 25.0])
        keep = x.copy()
        ok, v = c.run("voigt-exception", voigt, x, xc, h, s)
        if not ok:
            continue
        c.trans()
        t = x - xc
        if s == 0:
            want = h / np.pi / (t * t + h * h)
        elif h == 0:
            want = np.exp(-0.5 * (t / s)**2) / s / math.sqrt(2 * math.pi)
        else:
            # Gaussian-weighted average of the Lorentzian, on panels narrow against both widths
            want = np.zeros_like(t)
            edges = np.linspace(-10 * s, 10 * s, 1 + max(40, int(60 * s / h)))
            for a, b in zip(edges[:-1], edges[1:]):
                u = 0.5 * (b - a) * nodes[::1] + 0.5 * (a + b)
                g = np.exp(-0.5 * (u / s)**2) / s / math.sqrt(2 * math.pi) * wts * 0.5 * (b - a)
                want += np.sum(g[None, :] * (h / np.pi / ((t[:, None] - u[None, :])**2 + h * h)), axis=1)
        c.check(np.allclose(v, want, rtol=1e-7, atol=1e-14), "voigt-value", "not the convolution of its Lorentzian and Gaussian", got=v, want=want, case=(xc, h, s))
        c.check(np.array_equal(x, keep), "voigt-input", "the points were changed", case=(xc, h, s))
        for arg, w in ((x.tolist(), v), (float(x[3]), v[3]), (tuple(x[::-1]), v[::-1]), (x.reshape(3, 4), v.reshape(3, 4))):
            ok, g = c.run("voigt-exception", voigt, arg, xc, h, s)
            c.check(not ok or (np.shape(g) == np.shape(w) and np.allclose(g, w, rtol=1e-13)), "voigt-argument", "the value depends on how the points are passed", kind=type(arg).__name__, case=(xc, h, s))
        # full width at half maximum
        fl, fg = 2 * h, s * math.sqrt(8 * math.log(2))
        fw = voigt_approx_fwhm(fl, fg)
        half = voigt(np.array([xc + fw / 2]), xc, h, s)[0] / voigt(np.array([float(xc)]), xc, h, s)[0]
        c.check(abs(half - 0.5) < 4e-4, "voigt-fwhm", "the approximate width is off by more than stated", case=(xc, h, s), got=fw, ratio=half)
        c.trace()


# ---- outlines of histograms
class Axis:
    def __init__(self):
        self.lines, self.lim, self.bands = [], None, []

    def plot(self, x, y, **kw):
        self.lines.append((np.array(x), np.array(y), kw))

    def set_xlim(self, lim):
        self.lim = list(lim)

    def fill_between(self, x, lo, hi, **kw):
        self.bands.append((np.array(x), np.array(lo), np.array(hi), kw))


def outlines(c, n):
    from mass.mathstat.utilities import plot_as_stepped_hist, plot_stepped_hist_poisson_errors
    for data in itertools.product((0, 1, 7), repeat=n):
        for lo, w in ((0.0, 1.0), (-3.5, 0.25), (100, 2)):
            edges = lo + w * np.arange(n + 1)
            ctr = 0.5 * (edges[1:] + edges[:-1])
            for kind, bins in (("edges", edges), ("centers", ctr)):
                if kind == "centers" and n < 2:
                    continue
                ax = Axis()
                c.state("outline", data, lo, w, kind)
                b0, y0 = bins.copy(), np.array(data, float)
                ok, _ = c.run("outline-exception", plot_as_stepped_hist, ax, y0, bins, color="r")
                if not ok:
                    continue
                c.trans()
                x = np.repeat(edges, 2)
                y = np.concatenate([[0], np.repeat(np.array(data, float), 2), [0]])
                d = dict(data=data, bins=bins)
                c.check(len(ax.lines) == 1 and close(ax.lines[0][0], x) and close(ax.lines[0][1], y), "outline", "the outline is not that of the counts over their bins", got=ax.lines, want=(x, y), **d)
                c.check(ax.lines and ax.lines[0][2] == {"color": "r"} and close(ax.lim, (edges[0], edges[-1])), "outline-limits", "limits or style of the outline", got=ax.lim, **d)
                c.check(np.array_equal(b0, bins) and np.array_equal(y0, data), "outline-inputs", "arguments changed", **d)
                if n >= 5:
                    for scale, offset in ((1.0, 0.0), (0.5, 3.0)):
                        ax = Axis()
                        ok, _ = c.run("band-exception", plot_stepped_hist_poisson_errors, ax, y0, bins, scale=scale, offset=offset)
                        if ok:
                            c.check(len(ax.lines) == 1 and close(ax.lines[0][1], np.concatenate([[0], np.repeat(y0 * scale + offset, 2), [0]])) and close(ax.lines[0][0], x),
                                    "band-outline", "the outline is not that of the scaled counts", **d)
                            bx, bl, bh, _kw = ax.bands[0]
                            c.check(close(bx, ctr) and bool(np.all(bl <= bh)) and bool(np.all(bl >= offset)), "band", "the error band", **d)
                c.trace()


def shards(tier):
    th = tier == "thorough"
    out = [(f"kink{n}-{i}", (kink, (n, i, 8))) for n in ((3, 4, 5) if not th else (3, 4, 5, 6)) for i in range(8)]
    out += [("fitkink", (fitkink, (th,))), ("voigt", (voigts, (th,)))]
    out += [(f"savgol{i}", (savgol, (i, 4))) for i in range(4)]
    out += [(f"random{m}x{n}", (randomly, (m, n))) for m, n in ((3, 3), (5, 3), (3, 6), (8, 5), (12, 12))]
    out += [(f"outline{n}", (outlines, (n,))) for n in ((1, 2, 3, 7) if not th else (1, 2, 3, 5, 7, 8))]
    return out


def run_shard(c, fn, args):
    import matplotlib
    matplotlib.use("Agg")
    fn(c, *args)
    c.sample({"shard": fn.__name__, "args": args})
