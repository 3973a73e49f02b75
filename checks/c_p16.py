"""P16: Laplace-kernel entropies against the integrals of the stated densities."""
import itertools
import math

import numpy as np

PROPERTY = "P16"
EXPLAIN = """Every multiset of up to 4 (5) values over a grid (ties, close, far and very far apart), kernel widths, methods and
number types: the entropy is compared with the integral of the kernel density (piecewise Gauss-Legendre, analytic tails), the cross entropy
and divergence of every pair of small samples with closed-form integrals of the documented densities; every order, shifts and scales;
binned method compared at its accuracy (0.06 in entropy). Every pair of sorted lists up to length 4 (5) is merged."""
ASSUMPTIONS = ["the binned method bins to w/20 over the data range plus 5 w, so its values are compared to 0.06",
               "for the binned cross entropy the second sample is smoothed with the Laplace kernel too, with the floor used there (15 widths from one value)"]

GRID = (0.0, 0.5, 0.75, 2.0, 7.0, 40.0, 900.0)
WIDTHS = (0.3, 1.0, 4.0)
GLX, GLW = np.polynomial.legendre.leggauss(24)


def shards(tier):
    return [(f"entropy-{i}", ("entropy", i)) for i in range(6)] + [(f"cross-{i}", ("cross", i)) for i in range(6)] + \
        [("merge", ("merge",)), ("sizes", ("sizes",)), ("types", ("types",))]


def run_shard(c, kind, *args):
    {"entropy": entropy, "cross": cross, "merge": merge, "sizes": sizes, "types": types}[kind](c, *args)


# ---------------------------------------------------------------------------------- the definitions
def density(u, x, w):
    u = np.asarray(u)
    return np.exp(-np.abs(u[..., None] - np.asarray(x)) / w).sum(axis=-1) / (2 * w * len(x))


def o_entropy(x, w):
    s = sorted(set(x))
    lo, hi = s[0], s[-1]
    # outside the data the density is one exponential: the integral is exact
    d, e = (float(density(np.array(t), x, w)) for t in (lo, hi))
    total = w * d * (1 - math.log(d)) + w * e * (1 - math.log(e))
    for a, b in zip(s[:-1], s[1:]):
        # around each end on the scale of w, the rest of a long gap is negligible on both sides
        gap = b - a
        cuts = [a + min(gap / 2, k * w / 2) for k in range(0, 121)]
        edges = sorted(set(cuts + [b - (t - a) for t in cuts]))
        for p, q in zip(edges[:-1], edges[1:]):
            u = (p + q) / 2 + (q - p) / 2 * GLX
            f = density(u, x, w)
            f = np.where(f > 0, f, 1e-300)
            total += float(np.sum(GLW * -f * np.log(f)) * (q - p) / 2)
    return total


def cdf(u, x, w):
    return sum(0.5 * math.exp((u - a) / w) if u < a else 1 - 0.5 * math.exp(-(u - a) / w) for a in x) / len(x)


def o_cross(x, y, w):
    half = math.sqrt(6) * w
    nodes = sorted(list(x) + [b - half for b in y] + [b + half for b in y])
    ymin = 1 / math.sqrt(len(y) + 3)
    floor = ymin / (nodes[-1] - nodes[0] + 20 * w)
    edges = sorted(set([b - half for b in y] + [b + half for b in y]))
    total = 0.0
    for a, b in zip([-math.inf] + edges, edges + [math.inf]):
        mid = a + 1e-9 if b == math.inf else b - 1e-9 if a == -math.inf else (a + b) / 2
        inside = sum(abs(mid - v) < half for v in y) if math.isfinite(a) and math.isfinite(b) else 0
        q = floor + (1 - ymin) * inside / (len(y) * 2 * half)
        p = (1.0 if b == math.inf else cdf(b, x, w)) - (0.0 if a == -math.inf else cdf(a, x, w))
        total -= p * math.log(q)
    return total


def o_approx(x, y, w):
    """-integral of p log q over the range used by the binned method, both smoothed and normalised there."""
    lo, hi = min(list(x) + list(y)) - 5 * w, max(list(x) + list(y)) + 5 * w
    edges = sorted(set([lo, hi] + list(x) + list(y) + list(np.arange(lo, hi, w / 2))))
    floor = math.exp(-15) / (2 * w)
    ip = iq = ic = 0.0
    for p, q in zip(edges[:-1], edges[1:]):
        u = (p + q) / 2 + (q - p) / 2 * GLX
        wt = GLW * (q - p) / 2
        f = np.maximum(density(u, x, w) * len(x), floor)
        g = np.maximum(density(u, y, w) * len(y), floor)
        ip += float(np.sum(wt * f))
        iq += float(np.sum(wt * g))
        ic += float(np.sum(wt * f * np.log(g)))
    return -ic / ip + math.log(iq)


# ---------------------------------------------------------------------------------- explorations
def samples(nmax, grid=GRID):
    for n in range(1, nmax + 1):
        yield from itertools.combinations_with_replacement(grid, n)


def entropy(c, part):
    from mass.mathstat.entropy import laplace_entropy
    for k, s in enumerate(samples(5 if c.thorough else 4)):
        if k % 6 != part:
            continue
        for w in WIDTHS:
            want = o_entropy(s, w)
            h = f"sample {s} width {w}"
            perms = [s] if k % 5 else sorted(set(itertools.permutations(s)))
            for p in perms:
                x = np.array(p)
                c.state(p, w)
                for kw in ({}, {"approx_mode": "exact"}):
                    ok, got = c.run("entropy", laplace_entropy, x, w, **kw)
                    c.trans()
                    if ok:
                        c.check(abs(got - want) < 1e-8, "entropy", lambda: f"{got}, expected {want}", history=f"{h} order {p}")
                c.check(x.tolist() == list(p), "input-changed", f"{p}")
                c.trace()
            if max(s) < 100:
                want_a = o_approx(s, s, w)
                ok, got = c.run("entropy-binned", laplace_entropy, np.array(perms[-1]), w, "approx")
                if ok:
                    c.check(abs(got - want_a) < 0.06 and abs(got - want) < 0.09, "entropy-binned", lambda: f"{got}, expected {want_a} (exact {want})", history=h)
                c.trans()
            for a, b in ((1, -3.0), (10.0, 0.0), (0.01, 0.0), (-2.0, 5.0)):
                ok, got = c.run("entropy-scaled", laplace_entropy, a * np.array(s) + b, abs(a) * w)
                if ok:
                    c.check(abs(got - want - math.log(abs(a))) < 1e-8, "entropy-scale", lambda: f"{got} after scaling by {a}, {want} before", history=h)


def cross(c, part):
    from mass.mathstat.entropy import laplace_KL_divergence, laplace_cross_entropy
    grid = GRID if c.thorough else GRID[:2] + GRID[3:6]
    ss = list(samples(3 if c.thorough else 3, grid))
    k = 0
    for s in ss:
        for t in ss:
            k += 1
            if k % 6 != part:
                continue
            for w in WIDTHS if k % 2 or c.thorough else (1.0,):
                want = o_cross(s, t, w)
                h = f"samples {s}, {t} width {w}"
                x, y = np.array(s[::-1]), np.array(t[1:] + t[:1])
                c.state(s, t, w)
                c.trans(3)
                ok, got = c.run("cross", laplace_cross_entropy, x, y, w)
                if ok:
                    c.check(abs(got - want) < 1e-8, "cross", lambda: f"{got}, expected {want}", history=h)
                ok, got = c.run("divergence", laplace_KL_divergence, x, y, w, "exact")
                if ok and k % 3 == 0:
                    e = o_entropy(s, w)
                    c.check(abs(got - (want - e)) < 1e-8, "divergence", lambda: f"{got}, expected {want - e}", history=h)
                if ok and k % 4 == 0:
                    ok, got = c.run("cross-scaled", laplace_cross_entropy, 3 * x - 1, 3 * y - 1, 3 * w)
                    if ok:
                        c.check(abs(got - want - math.log(3)) < 1e-8, "cross-scale", lambda: f"{got} after scaling by 3, {want} before", history=h)
                c.check(x.tolist() == list(s[::-1]) and y.tolist() == list(t[1:] + t[:1]), "input-changed", "", history=h)
                if k % 5 == 0 and max(s + t) < 100:
                    want_a = o_approx(s, t, w)
                    ok, got = c.run("cross-binned", laplace_cross_entropy, x, y, w, "approx")
                    if ok:
                        c.check(abs(got - want_a) < 0.1, "cross-binned", lambda: f"{got}, expected {want_a}", history=h)
                    ok, got = c.run("divergence-binned", laplace_KL_divergence, x, y, w, "approx")
                    if ok:
                        w2 = want_a - o_approx(s, s, w)
                        c.check(abs(got - w2) < 0.16, "divergence-binned", lambda: f"{got}, expected {w2}", history=h)
                c.trace()


def merge(c):
    from mass.mathstat.entropy import _merge_orderedlists
    n = 5 if c.thorough else 4
    lists = [list(v) for m in range(n + 1) for v in itertools.combinations_with_replacement((0.0, 1.0, 1.5, 4.0), m)]
    for a in lists:
        for b in lists:
            c.state(tuple(a), tuple(b))
            c.trans()
            if not a and not b:
                try:
                    _merge_orderedlists(a, b)
                    c.violate("merge-empty", "no error for two empty lists")
                except ValueError:
                    pass
                continue
            x, y = (np.array(a), np.array(b)) if len(a) % 2 else (a, b)
            ok, got = c.run("merge", _merge_orderedlists, x, y)
            if not ok:
                continue
            h = f"merging {a} and {b}: {got}"
            v, first = np.asarray(got[0]).tolist(), np.asarray(got[1]).astype(bool)
            c.check(v == sorted(a + b) and len(first) == len(v), "merge-values", h)
            c.check(sorted(np.asarray(v)[first].tolist()) == a and sorted(np.asarray(v)[~first].tolist()) == b, "merge-origin", h)
            c.check(list(x) == a and list(y) == b, "input-changed", h)
            c.trace()


def sizes(c):
    """The method is chosen by the number of values."""
    from mass.mathstat.entropy import laplace_cross_entropy, laplace_entropy
    pat = [0.0, 0.1, 2.0, 2.5, 7.0]
    for n in (1000, 199999, 200000, 200001, 250000):
        x = np.array((pat * (n // 5 + 1))[:n])
        e, a, s = (laplace_entropy(x, 1.0, *m) for m in (("exact",), ("approx",), ()))
        c.check(s == (e if n <= 200000 else a), "size-method", f"{n} values: {s}, exact {e}, binned {a}")
        c.check(abs(e - a) < 0.09 and abs(e - o_entropy(pat, 1.0)) < 1e-3, "size-entropy", f"{n} values: exact {e}, binned {a}")
        c.state(n)
        c.trans(3)
        c.trace()
        y = x[: 50]
        e, a, s = (laplace_cross_entropy(x, y, 1.0, *m) for m in (("exact",), ("approx",), ()))
        c.check(s == (e if n + 50 <= 200000 else a), "size-method-cross", f"{n} values: {s}, exact {e}, binned {a}")


def types(c):
    from mass.mathstat.entropy import laplace_KL_divergence, laplace_cross_entropy, laplace_entropy
    for s in samples(4, (0.0, 1.0, 3.0, 50.0)):
        t = (1.0, 3.0, 4.0)
        w1, w2 = o_entropy(s, 2.0), o_cross(s, t, 2.0)
        for dt in (np.float32, np.int64, np.uint16, np.uint8, list, tuple, "strided"):
            def make(v):
                if dt in (list, tuple):
                    return dt(v)
                if dt == "strided":
                    return np.repeat(np.array(v), 3)[::3]
                return np.array(v, dtype=dt)
            h = f"{dt} {s}"
            c.state(h)
            c.trans(3)
            c.trace()
            ok, got = c.run("types-entropy", laplace_entropy, make(s), 2.0)
            if ok:
                c.check(abs(got - w1) < 1e-8, "types-entropy", f"{got}, expected {w1}", history=h)
            ok, got = c.run("types-cross", laplace_cross_entropy, make(s), make(t), 2.0)
            if ok:
                c.check(abs(got - w2) < 1e-8, "types-cross", f"{got}, expected {w2}", history=h)
            ok, got = c.run("types-div", laplace_KL_divergence, make(s), make(t), 2.0)
            if ok:
                c.check(abs(got - (w2 - w1)) < 1e-8, "types-divergence", f"{got}, expected {w2 - w1}", history=h)
    for bad in (([], 1.0), ([1.0], 0.0), ([1.0], -1.0)):
        try:
            laplace_entropy(*bad)
            c.violate("no-error", f"laplace_entropy{bad}")
        except ValueError:
            pass
    for bad in (([], [1.0], 1.0), ([1.0], [], 1.0), ([1.0], [1.0], 0.0)):
        try:
            laplace_cross_entropy(*bad)
            c.violate("no-error", f"laplace_cross_entropy{bad}")
        except ValueError:
            pass
