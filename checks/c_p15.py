"""P15: robust statistics against their textbook definitions, computed exactly."""
import itertools
import math
import warnings
from fractions import Fraction as F

import numpy as np

PROPERTY = "P15"
EXPLAIN = """Every ordered sample of up to 5 (6) values over an alphabet with ties, and every multiset of up to 10 (13) values in several
orders, in each number type (floats of two sizes, signed and unsigned integers of several sizes, lists; strided arrays),
compared with definitions evaluated in exact rational arithmetic: high median (every small weight vector, zeros included),
MAD, trimean, shortest half (range, mean, centre, normalised), Q scale, and the bisquare and Huber means (the defining equation
is satisfied; the Huber one is the minimiser of its convex loss). Each is repeated shifted and scaled, and inputs are compared afterwards."""
ASSUMPTIONS = ["the shortest half holds more than half of the values (floor(n/2)+1, as published and tested)",
               "bisquare/Huber: k is at least the normalised MAD, and the iteration's answer is compared at 1e-3 of the scale when it converges"]

DN = [None, None, 0.399, 0.994, 0.512, 0.844, 0.611, 0.857, 0.669, 0.872]


def shards(tier):
    out = [(f"ordered-{i}", ("ordered", i)) for i in range(6)]
    out += [(f"multisets-{i}", ("multisets", i)) for i in range(8)]
    out += [(f"weights-{i}", ("weights", i)) for i in range(3)]
    out += [("types", ("types",)), ("mean-bisquare", ("means", "bisquare")), ("mean-huber", ("means", "huber"))]
    return out


def run_shard(c, kind, *args):
    warnings.simplefilter("ignore")
    {"ordered": ordered, "multisets": multisets, "weights": weights, "types": types, "means": means}[kind](c, *args)


# ---------------------------------------------------------------------------------- definitions
def median(v):
    s = sorted(v)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def quantile(v, p):
    s = sorted(v)
    h = F(len(s) - 1) * p
    k = int(h)
    return s[k] if k + 1 >= len(s) else s[k] + (h - k) * (s[k + 1] - s[k])


def d_mad(v):
    m = median(v)
    return median([abs(x - m) for x in v])


def d_trimean(v):
    return (quantile(v, F(1, 4)) + quantile(v, F(3, 4))) / 4 + quantile(v, F(1, 2)) / 2


def d_shorth(v):
    """range, and every (mean, centre) of a shortest interval"""
    s = sorted(v)
    n = len(s)
    h = n // 2 + 1
    r = min(s[i + h - 1] - s[i] for i in range(n - h + 1))
    eps = F(1, 10**13) * max(abs(x) for x in s)  # several are shortest, up to rounding
    return r, [(sum(s[i:i + h]) / F(h), (s[i] + s[i + h - 1]) / F(2)) for i in range(n - h + 1) if s[i + h - 1] - s[i] <= r + eps]


def shorth_norm(n):
    return (n + 1.0) / n if n % 2 == 0 else (n + 1.0) / (n - 1.0)


def d_q(v):
    n = len(v)
    h = n // 2 + 1
    k = h * (h - 1) // 2
    d = sorted(abs(a - b) for a, b in itertools.combinations(v, 2))
    f = 2.2219 * (DN[n] if n <= 9 else (n / (n + 1.4) if n % 2 else n / (n + 3.8)))
    return float(d[k - 1]) * f


def near(a, b, scale=1.0, rtol=1e-12):
    a, b = float(a), float(b)
    return abs(a - b) <= rtol * max(abs(b), scale)


def one(c, make, vals, h, rtol=1e-12):
    """All the statistics of one sample; make(vals) builds what is passed."""
    from mass.mathstat import robust
    v = [F(x) for x in vals]
    n = len(v)
    scale = max([abs(x) for x in v] + [F(1, 10**6)])
    x = make(vals)
    keep = np.array(x).copy()
    c.state(h)
    c.trans(5)
    c.trace()
    ok, got = c.run("mad", robust.median_abs_dev, x)
    if ok:
        c.check(near(got, d_mad(v), scale, rtol), "mad", lambda: f"{got}, expected {float(d_mad(v))}", history=h)
    ok, got = c.run("mad", robust.median_abs_dev, x, True)
    if ok:
        c.check(near(got, float(d_mad(v)) / 0.674480, scale, rtol), "mad-norm", lambda: f"{got}", history=h)
    ok, got = c.run("trimean", robust.trimean, x)
    if ok:
        c.check(near(got, d_trimean(v), scale, rtol), "trimean", lambda: f"{got}, expected {float(d_trimean(v))}", history=h)
    r, locs = d_shorth(v)
    ok, got = c.run("shorth", robust.shorth_range, x)
    if ok:
        c.check(near(got, r, scale, rtol), "shorth", lambda: f"{got}, expected {float(r)}", history=h)
    if n > 1:
        ok, got = c.run("shorth", robust.shorth_range, x, True, False, True)
        if ok:
            c.check(near(got[0], float(r) / (2 * 0.674480) * shorth_norm(n), scale, rtol), "shorth-norm", lambda: f"{got[0]}", history=h)
            lo = [b for b in locs if near(got[1], b[0], scale, rtol) and near(got[2], b[1], scale, rtol)]
            c.check(lo, "shorth-location", lambda: f"mean, centre {got[1:]}, expected one of {[(float(a), float(b)) for a, b in locs]}", history=h)
        ok, got = c.run("qscale", robust.Qscale, x)
        if ok:
            c.check(near(got, d_q(v), scale if rtol > 1e-10 else 0, max(rtol, 1e-11)), "qscale", lambda: f"{got}, expected {d_q(v)}", history=h)
    ok, got = c.run("high_median", robust.high_median, x, None, True)
    if ok:
        c.check(F(float(got[0])) == F(float(keep[got[1]])) and near(got[0], sorted(v)[n // 2], scale, rtol), "high-median",
                lambda: f"{got}, expected {float(sorted(v)[n // 2])}", history=h)
    c.check(np.array_equal(np.array(x), keep), "input-changed", lambda: f"{x}, was {keep}", history=h)
    if isinstance(x, np.ndarray):
        for name, fn in (("shorth", robust.shorth_range), ("qscale", robust.Qscale)):
            if name == "qscale" and n < 2:
                continue
            y = x.copy()
            a = fn(x)
            ok, b = c.run(name + "-inplace", fn, y, sort_inplace=True)
            if ok:
                c.check(a == b and sorted(y.tolist()) == sorted(keep.tolist()), name + "-inplace", lambda: f"{b} and {a}; array left {y}", history=h)


def arr(dtype):
    return lambda v: np.array(v, dtype=dtype)


# ---------------------------------------------------------------------------------- explorations
def ordered(c, part):
    n = 7 if c.thorough else 6
    k = 0
    for m in range(1, n + 1):
        for v in itertools.product((0.0, 1.0, 1.5, 4.0) if m < 6 else (0.0, 1.0, 4.0), repeat=m):
            k += 1
            if k % 6 != part:
                continue
            one(c, arr(float), v, f"sample {v}")


def multisets(c, part):
    nmax = 16 if c.thorough else 13
    k = 0
    for n in range(5, nmax + 1):
        alphabets = [(0.0, 1.0, 3.0)] + ([(0.1, 0.3, 0.7, 1e3)] if n < 12 or c.thorough else []) + ([(-2.0, 0.0, 0.5, 0.75, 9.0)] if n <= (10 if c.thorough else 9) else [])
        for al in alphabets:
            for v in itertools.combinations_with_replacement(al, n):
                k += 1
                if k % 8 != part:
                    continue
                orders = [v, v[::-1], v[1::2] + v[::2]]
                for o in orders:
                    one(c, arr(float), o, f"sample {o}")
        # distinct distances: every step pattern
        if n <= (12 if c.thorough else 10):
            for steps in itertools.product((1, 2.5), repeat=n - 1):
                k += 1
                if k % 8 != part:
                    continue
                v = tuple(itertools.accumulate((0.0,) + steps))
                one(c, arr(float), v[::2] + v[1::2], f"steps {steps}")
                if k % 16 == part:
                    one(c, arr(float), [1e6 + 1e-3 * x for x in v[::-1]], f"shifted and scaled steps {steps}")
                    one(c, arr(float), [-1e-12 * x for x in v], f"tiny steps {steps}")


def types(c):
    n = 5 if not c.thorough else 6
    todo = [("float32", (0.5, 1.25, 100.0)), ("int64", (-3, 0, 5, 100)), ("int32", (-3, 0, 5)), ("uint16", (0, 40000, 65535)), ("int16", (-30000, 0, 30000)),
            ("uint8", (0, 128, 255)), ("uint64", (1, 7, 2**40)), ("int8", (-100, 3, 120))]
    for t, al in todo:
        for m in (1, 2, 3, 4, 5, 6, 7, 8):
            for i, v in enumerate(itertools.combinations_with_replacement(al, m)):
                o = v[1::2] + v[::2]
                one(c, arr(t), o, f"{t} {o}", rtol=1e-6 if t == "float32" else 1e-12)
                if t in ("int64", "float32"):
                    one(c, lambda v: np.repeat(np.array(v, dtype=t), 2)[::2], o, f"strided {t} {o}", rtol=1e-6 if t == "float32" else 1e-12)
    for m in (1, 2, 3, 4, 5, 6, 7):
        for v in itertools.combinations_with_replacement((0, 3, 7), m):
            one(c, list, v[::-1], f"list {v[::-1]}")
            one(c, lambda v: [x + 0.5 for x in v], v[::-1], f"list of floats {v[::-1]}") if False else None
    from mass.mathstat import robust
    for fn in (robust.shorth_range, robust.Qscale):
        for x in ([3, 1, 2], (3, 1, 2)):
            try:
                fn(x, sort_inplace=True)
                c.violate("inplace-list", "a list cannot be sorted in place, but no error was raised")
            except ValueError:
                pass
    for n in (0, 1):
        try:
            robust.Qscale(np.zeros(n))
            c.violate("qscale-short", "no error for fewer than two values")
        except ValueError:
            pass


def weights(c, part):
    from mass.mathstat import robust
    k = 0
    for n in range(1, 8 if c.thorough else 7):
        for v in itertools.product((0.0, 1.0, 2.5) if n < 7 else (0.0, 1.0), repeat=n):
            for w in itertools.product((0, 1, 2, 5) if n < 5 else (0, 1, 3), repeat=n):
                if not any(w):
                    continue
                k += 1
                if k % 3 != part:
                    continue
                want = min(x for x in v if 2 * sum(b for a, b in zip(v, w) if a <= x) > sum(w))
                h = f"values {v} weights {w}"
                c.state(h)
                c.trans()
                c.trace()
                for scale, dt in ((1, float), (0.25, float), (1, int), (1, "list")):
                    if dt != float and k % 4:
                        continue
                    x = np.array(v)
                    ww = list(w) if dt == "list" else np.array(w, dtype=dt) * dt(scale)
                    wk = np.array(ww).copy()
                    ok, got = c.run("high_median", robust.high_median, x, ww, True)
                    if ok:
                        c.check(got[0] == want and v[got[1]] == want, "high-median", lambda: f"{got}, expected {want}", history=h)
                        got = robust.high_median(list(v), ww)
                        c.check(got == want, "high-median", lambda: f"{got}, expected {want}", history=h)
                    c.check(np.array_equal(x, v) and np.array_equal(np.array(ww), wk), "input-changed", "", history=h)


def huber_solution(v, k):
    """The interval of zeros of the non-increasing sum of clip(x-m, -k, k)."""
    def s(m):
        return sum(max(-k, min(k, x - m)) for x in v)
    bps = sorted({x - k for x in v} | {x + k for x in v})
    lo = hi = None
    for a, b in zip(bps[:-1], bps[1:]):
        sa, sb = s(a), s(b)
        if sa >= 0 >= sb:
            if sa == 0 and sb == 0:
                lo, hi = (a if lo is None else lo), b
            else:
                m = a + (b - a) * sa / (sa - sb) if sa != sb else a
                lo, hi = (m if lo is None else min(lo, m)), (m if hi is None else max(hi, m))
    return lo, hi


def means(c, which):
    from mass.mathstat import robust
    fn = robust.bisquare_weighted_mean if which == "bisquare" else robust.huber_weighted_mean
    nmax = 8 if c.thorough else 7
    for n in range(1, nmax + 1):
        for v in itertools.product((0.0, 1.0, 1.5, 4.0), repeat=n) if n < 5 else itertools.combinations_with_replacement((0.0, 1.0, 1.5, 2.25, 4.0), n):
            fv = [F(x) for x in v]
            mad = float(d_mad(fv)) / 0.67448
            x = np.array(v)
            base = {}
            for kk in (0.5, 1.0, 1.5, 3.0, 10.0) if n < 5 or c.thorough else (1.5, 4.0):
                for extra in ({}, {"center": 1.25}, {"tol": 1e-9}):
                    h = f"{which} of {v}, k={kk}, {extra}"
                    c.state(h)
                    c.trans()
                    start = extra.get("center", float(median(fv)))
                    try:
                        got = fn(x, kk, **extra)
                    except RuntimeError:
                        got = None
                    except Exception as e:
                        c.violate("mean-error:" + type(e).__name__, repr(e), history=h)
                        continue
                    c.check(np.array_equal(x, v), "input-changed", "", history=h)
                    c.trace()
                    if got is None or got != got:
                        # only when there is no sensible answer: no data near the start (bisquare), or a tight k
                        if which == "bisquare" and min(abs(y - start) for y in v) < kk and len(set(v)) == 1:
                            c.violate("mean-none", "no answer for constant data", history=h)
                        elif which == "huber" and (kk >= 1.5 * mad or len(set(v)) == 1) and extra.get("tol", 0) == 0 and mad > 0:
                            c.violate("mean-none", "no answer", history=h)
                        elif len(set(v)) == 1 and which == "huber":
                            c.violate("mean-none", "no answer for constant data", history=h)
                        c.outcome("none")
                        continue
                    c.outcome("value")
                    tol = extra.get("tol", 1e-5 * mad) + 1e-12
                    if which == "bisquare":
                        w = [(1 - ((y - got) / kk) ** 2) ** 2 if abs(y - got) <= kk else 0.0 for y in v]
                        f = sum(a * y for a, y in zip(w, v)) / sum(w)
                        c.check(abs(f - got) <= 2 * tol + 1e-6 * (abs(f - got) > 0 and min(abs(abs(y - got) - kk) for y in v) < 1e-6), "bisquare-equation",
                                lambda: f"{got} is not the weighted mean {f} with its own weights", history=h)
                    else:
                        lo, hi = huber_solution(fv, F(kk))
                        slack = 1e-3 * max(mad, 1e-3) + 1e-2 * (extra.get("tol", 0) > 1e-6)
                        c.check(float(lo) - slack <= got <= float(hi) + slack, "huber-minimum", lambda: f"{got}, expected between {float(lo)} and {float(hi)}", history=h)
                        w = [1.0 if abs(y - got) <= kk else kk / abs(y - got) for y in v]
                        f = sum(a * y for a, y in zip(w, v)) / sum(w)
                        c.check(abs(f - got) <= 2 * tol, "huber-equation", lambda: f"{got} against {f}", history=h)
                    # shift and scale
                    if not extra and mad > 0:
                        for a, b in ((2.0, 0.0), (1.0, 8.0), (0.5, -4.0)):
                            ok, g2 = c.run("mean-shifted", fn, a * x + b, a * kk)
                            if ok:
                                c.check(abs(g2 - (a * got + b)) <= 4 * a * tol + 1e-9, "mean-equivariance", lambda: f"{g2} for data scaled by {a} and shifted by {b}, {got} before", history=h)
                        for dt in (np.float32, list):
                            ok, g2 = c.run("mean-type", fn, x.astype(dt) if dt is not list else list(v), kk)
                            if ok:
                                c.check(abs(g2 - got) < 1e-4, "mean-type", lambda: f"{g2} as {dt}", history=h)
