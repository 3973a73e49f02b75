"""P13: optimal filters. Every small pulse shape x noise model x trim x band limit, against the dense constrained minimum-variance solution."""
import itertools
import os

import numpy as np

from vlib import mkdata

PROPERTY = "P13"
EXPLAIN = """A state is a filter-maker configuration (pulse shape, pretrigger length, noise model, trims, band limits, description of the noise by
autocorrelation, whitener or spectrum); a transition computes one kind of filter with it, in every order of kinds.  All shapes over a small
alphabet are enumerated; each filter is compared, value by value, with the dense constrained minimum-variance solution (Lagrange system with
the full covariance matrix, dense DFT matrices for band limits), and its constraints, variance and predicted resolution are checked directly.
Through channels on files, every kind x trims x band limits x options is computed, stored, reloaded and compared."""
ASSUMPTIONS = ["noise covariance positive definite and pulse, arrival-time and constant terms linearly independent over the samples used",
               "the five-lag response to the average pulse has a definite curvature (else the parabola has no vertex)",
               "the pulse is larger than any variation of its pretrigger samples", "the untrimmed samples include the pulse's peak; band-limited arrival-time-safe filters are the smoothed unlimited ones (only the constant response is promised)"]

X5 = np.arange(-2, 3.)
PINV5 = np.linalg.pinv(np.vander(X5, 3, increasing=True))


# ---- independent dense definitions
def cov(ac, n):
    i = np.arange(n)
    return np.asarray(ac, float)[np.abs(i[:, None] - i[None, :])]


def circ(ac, n):
    i = np.arange(n)
    k = np.abs(i[:, None] - i[None, :])
    return np.asarray(ac, float)[np.minimum(k, n - k)]


def lowpass(v, dt, fmax, f3):
    """dense real DFT, frequency by frequency"""
    v = np.asarray(v, float)
    if fmax is None and f3 is None:
        return v
    n = len(v)
    t = np.arange(n)
    out = np.zeros_like(v)
    for k in range(n // 2 + 1):
        f = k / (n * dt)
        g = 1.0
        if fmax is not None and f > fmax:
            g = 0.0
        if f3 is not None:
            g /= 1 + (f / f3)**2
        w = 1.0 if k == 0 or 2 * k == n else 2.0
        for trig in (np.cos, np.sin):
            b = trig(2 * np.pi * k * t / n)
            out += (w / n) * g * np.tensordot(b, v, 1) * b if v.ndim == 1 else (w / n) * g * np.outer(b, b @ v)
    return out


def normalized(sig, npre, cut_pre, cut_post):
    """(unit-peak signal over the used samples, peak)"""
    sig = np.asarray(sig, float)
    n = len(sig)
    pre = sig[cut_pre:npre - 1]
    if len(pre) == 0:
        pre = sig[:max(1, npre)]
    base = pre.mean()
    used = sig[cut_pre:n - cut_post]
    up, down = used.max() - base, base - used.min()
    peak = down if down > up else up
    s = sig - base
    s[:npre] = 0
    return s[cut_pre:n - cut_post] / peak, peak


def vertex(f, s):
    conv = np.array([f @ s[k:k + len(f)] for k in range(5)])
    c, b, a = PINV5 @ conv
    good = abs(a) > 1e-4 * np.abs(conv).max() and np.abs(conv).max() > 0
    return (c - b * b / (4 * a) if good else np.nan), good and abs(c - b * b / (4 * a)) > 1e-3 * np.abs(conv).max()


def constrained(R, cons, rhs):
    """argmin f'Rf subject to cons f = rhs, by the Lagrange system"""
    n, m = len(R), len(cons)
    K = np.block([[R, cons.T], [cons, np.zeros((m, m))]])
    return np.linalg.solve(K, np.concatenate([np.zeros(n), rhs]))[:n]


# ---- alphabets
def noises(n):
    k = np.arange(n, dtype=float)
    return {"white": 4.0 * (k == 0), "exp": 3 * 0.7**k, "alternating": 2 * (-0.5)**k, "mixed": 0.8**k + 0.5 * (k == 0) + 0.3 * (-0.3)**k,
            "ma1": np.where(k == 0, 1.25, np.where(k == 1, 0.5, 0.0)), "osc": np.cos(k) * 0.6**k + (k == 0)}


def shapes(npost, alphabet):
    for tail in itertools.product(alphabet, repeat=npost):
        if max(tail) > 0:
            yield tail


def scaled_close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * (1e-300 + np.abs(b).max()))


def common(c, kind, F, peak, want, var, npre, cuts, d, tol=1e-7):
    """values, trims, variance and resolution of a filter"""
    pre, post = cuts
    v = np.asarray(F.values, float)
    n = len(v)
    c.check(len(v) == len(want) + pre + post, f"{kind}:length", f"{len(v)} values, expected {len(want) + pre + post}", **d)
    c.check(not np.any(v[:pre]) and not np.any(v[n - post:]), f"{kind}:trim", "non-zero weight on the trimmed samples", values=v, **d)
    ok = c.check(scaled_close(v[pre:n - post], want, tol), f"{kind}:values", "not the constrained minimum-variance filter", got=v, want=want, **d)
    c.check(abs(F.variance - var) <= 1e-6 * abs(var), f"{kind}:variance", f"variance {F.variance}, but the response to the noise covariance is {var}", **d)
    c.check(abs(F.nominal_peak - peak) <= 1e-9 * abs(peak), f"{kind}:peak", f"nominal peak {F.nominal_peak}, expected {peak}", **d)
    c.check(abs(F.predicted_v_over_dv - peak / np.sqrt(8 * np.log(2) * var)) <= 1e-6 * abs(F.predicted_v_over_dv), f"{kind}:vdv",
            f"predicted V/dV {F.predicted_v_over_dv}, expected {peak / np.sqrt(8 * np.log(2) * var)}", **d)
    c.check((F.cut_pre, F.cut_post) == (pre, post), f"{kind}:cuts", f"cuts {F.cut_pre, F.cut_post}", **d)
    return ok


def check_5lag(c, mk, sig, npre, R, Rinv, cuts, band, dt, d, peakarg=0.0, kind="5lag"):
    pre, post = cuts
    s, peak = normalized(sig, npre, pre, post)
    n = len(s) - 4
    if np.abs(s[2:-2] - s[2:-2].mean()).max() < 1e-9:
        c.outcome("no-signal")
        return
    Rn = R(n)
    cons = np.array([s[2:-2], np.ones(n)])
    f0 = constrained(Rn, cons, np.array([1.0, 0.0]))
    f = lowpass(f0, dt, *band)
    h, good = vertex(f, s)
    if not good or np.abs(f).max() < 1e-6 * np.abs(f0).max():
        c.outcome("no-vertex")
        return
    f = f / h
    ok, F = c.run(f"raises:{kind}", mk.compute_5lag, fmax=band[0], f_3db=band[1], cut_pre=pre, cut_post=post)
    c.trans()
    if not ok:
        return
    # the vertex can be a small difference of the products: allow for that
    tol = 1e-8 * (1 + np.abs([f @ s[k:k + n] for k in range(5)]).max())**2
    common(c, kind, F, peakarg or peak, f, f @ Rn @ f, npre, cuts, d, tol)
    v = np.asarray(F.values, float)
    c.check(abs(v.sum()) <= 1e-8 * np.abs(v).sum(), f"{kind}:constant", f"response {v.sum()} to a constant", **d)
    full = np.concatenate([np.zeros(pre), s, np.zeros(post)])
    conv = np.array([v @ full[k:k + len(v)] for k in range(5)])
    cc, b, a = PINV5 @ conv
    c.check(abs(cc - b * b / (4 * a) - 1) <= 1e-6 * (1 + np.abs(conv).max())**2, f"{kind}:unit", f"response {cc - b * b / (4 * a)} to the unit-peak pulse", **d)
    c.check(F.convolution_lags == 5 and not F.is_arrival_time_safe and F.fmax == band[0] and F.f_3db == band[1], f"{kind}:kind", "wrong description of the filter", **d)
    c.outcome(kind)


def check_ats(c, mk, sig, dtm, npre, R, cuts, band, dt, d, peakarg=0.0, kind="ats"):
    pre, post = cuts
    s, peak = normalized(sig, npre, pre, post)
    n = len(s)
    D = np.asarray(dtm, float)[pre:len(sig) - post] / peak
    M = np.array([s, D, np.ones(n)])
    Q = M / np.linalg.norm(M, axis=1, keepdims=True) if np.all(np.any(M, axis=1)) else np.zeros((3, n))
    if np.linalg.svd(Q)[1].min() < 1e-3:
        c.outcome("dependent")
        return
    Rn = R(n)
    want0 = [constrained(Rn, M, np.eye(3)[k]) for k in range(3)]
    want = [lowpass(w, dt, *band) for w in want0]
    if any(np.abs(w).max() < 1e-6 * np.abs(w0).max() for w, w0 in zip(want, want0)):
        c.outcome("nothing-passes")
        return
    ok, F = c.run(f"raises:{kind}", mk.compute_ats, fmax=band[0], f_3db=band[1], cut_pre=pre, cut_post=post)
    c.trans()
    if not ok:
        return
    common(c, kind, F, peakarg or peak, want[0], want[0] @ Rn @ want[0], npre, cuts, d)
    for name, vec, w in (("dt", F.dt_values, want[1]), ("const", F.const_values, want[2])):
        w = np.concatenate([np.zeros(pre), w, np.zeros(post)])
        c.check(scaled_close(vec, w, 1e-7), f"{kind}:{name}-values", f"{name} values are not the constrained minimum-variance estimator", got=vec, want=w, **d)
    v = np.asarray(F.values, float)
    c.check(abs(v.sum()) <= 1e-8 * np.abs(v).sum(), f"{kind}:constant", f"response {v.sum()} to a constant", **d)
    if band == (None, None):
        full = [np.concatenate([np.zeros(pre), r, np.zeros(post)]) for r in M]
        resp = np.array([[np.asarray(q, float) @ r for r in full] for q in (v, F.dt_values, F.const_values)])
        c.check(np.abs(resp - np.eye(3)).max() < 1e-7, f"{kind}:constraints", "responses to (pulse, arrival-time term, constant) are not 1 and 0", got=resp, **d)
    c.check(F.convolution_lags == 1 and F.is_arrival_time_safe and F.fmax == band[0] and F.f_3db == band[1], f"{kind}:kind", "wrong description of the filter", **d)
    c.outcome(kind)


BANDS = [(None, None), (None, 20e3), (30e3, None), (35e3, 15e3), (1e9, None), (None, 1e9)]
DT = 1e-5


def maker_shard(c, N, npre, alphabet, part, nparts):
    import mass
    ns = noises(N)
    combos = list(itertools.product(ns, [(0, 0), (1, 0), (0, 1), (2, 1)], BANDS))
    prebase = [np.zeros(npre), np.full(npre, 1000.0), 50 + (np.arange(npre) * 7 % 5) * 0.003]
    for idx, tail in enumerate(shapes(N - npre, alphabet)):
        if idx % nparts != part:
            continue
        scale = (1.0, 500.0, 0.1)[idx // 3 % 3]
        base = prebase[idx % 3]
        sig = np.concatenate([base, base[:1].mean() + scale * np.array(tail, float)])
        if idx % 5 == 4:        # negative-going pulses
            sig = 2 * base[0] - sig
        dtm = np.gradient(sig)
        dtm[:npre - 1] = 0
        # every noise x trim x band for a few shapes; a rotating selection for all
        sel = combos if idx % 97 == 0 else combos[idx % 12::12] if not c.thorough else combos[idx % 3::3]
        for name, cuts, band in sel:
            ac = ns[name]
            d = dict(signal=sig, npre=npre, noise=name, cuts=cuts, band=band)
            c.sample(d)
            c.state("maker", N, npre, tail, name, cuts, band, idx)
            peakarg = 0.0 if idx % 4 else 123.0
            saved = [np.array(x) for x in (sig, ac, dtm)]
            mk = mass.FilterMaker(sig, npre, ac, dt_model=dtm, sample_time_sec=DT, peak=peakarg)
            if max(tail[:len(tail) - cuts[1]]) < max(tail):
                c.outcome("peak-trimmed")
                continue
            R = lambda n, ac=ac: cov(ac, n)
            todo = ["5lag", "ats"] if idx % 2 else ["ats", "5lag"]
            for kind in todo:
                if kind == "5lag":
                    if N - sum(cuts) - 4 >= 3:
                        check_5lag(c, mk, sig, npre, R, None, cuts, band, DT, d, peakarg)
                else:
                    check_ats(c, mk, sig, dtm, npre, R, cuts, band, DT, d, peakarg)
            c.check(all(np.array_equal(a, b) for a, b in zip(saved, (sig, ac, dtm))), "maker:input", "computing filters changed the maker's inputs", **d)
    c.trace()


def whiten_shard(c, N, npre, alphabet):
    """the noise described by a whitener, alone or superseding an autocorrelation"""
    import mass
    for theta, phi in [((2.0,), (1.0,)), ((1.0,), (0.5,)), ((1.0, 0.4), (1.0,)), ((1.0,), (1.0, -0.6)), ((1.5, -0.4), (1.0, 0.5, 0.1)), ((1.0, -1.2, 0.5), (2.0, 0.3))]:
        def Wm(n):
            band = lambda co: np.array([[co[i - j] if 0 <= i - j < len(co) else 0.0 for j in range(n)] for i in range(n)])
            return np.linalg.solve(band(theta), band(phi))

        def R(n):
            W = Wm(n)
            return np.linalg.inv(W.T @ W)
        for idx, tail in enumerate(shapes(N - npre, alphabet)):
            sig = np.concatenate([np.full(npre, 10.0 * (idx % 2)), 10.0 * (idx % 2) + 100 * np.array(tail, float)])
            dtm = np.gradient(sig)
            dtm[:npre - 1] = 0
            cuts = [(0, 0), (1, 0), (0, 1)][idx % 3]
            if max(tail[:len(tail) - cuts[1]]) < max(tail):
                continue
            band = BANDS[idx // 3 % 4]
            c.state("whitener", theta, phi, tail, cuts, band)
            tw = mass.ToeplitzWhitener(np.array(theta), np.array(phi))
            d = dict(signal=sig, npre=npre, theta=theta, phi=phi, cuts=cuts, band=band)
            mk = mass.FilterMaker(sig, npre, dt_model=dtm, whitener=tw, sample_time_sec=DT)
            check_5lag(c, mk, sig, npre, R, None, cuts, band, DT, d, kind="5lag-whitener")
            check_ats(c, mk, sig, dtm, npre, R, cuts, band, DT, d, kind="ats-whitener")
            if len(theta) == 1 and len(phi) == 1:       # the two descriptions of white noise agree
                ac = np.zeros(N)
                ac[0] = (theta[0] / phi[0])**2
                both = mass.FilterMaker(sig, npre, ac, dt_model=dtm, whitener=tw, sample_time_sec=DT)
                only = mass.FilterMaker(sig, npre, ac, dt_model=dtm, sample_time_sec=DT)
                for m, kind in ((both, "both"), (only, "covariance")):
                    check_5lag(c, m, sig, npre, R, None, cuts, band, DT, d, kind=f"5lag-{kind}")
                    check_ats(c, m, sig, dtm, npre, R, cuts, band, DT, d, kind=f"ats-{kind}")
    c.trace()


def fourier_shard(c, N, npre, alphabet):
    import mass
    k = np.arange(N)
    for name, ac in noises(N).items():
        # a periodic noise of N samples with this covariance
        r = np.asarray(ac)[np.minimum(k, N - k)]
        psd = np.fft.rfft(r).real * 2 * DT
        M = N - 4
        short = np.fft.rfft(r[np.minimum(np.arange(M), M - np.arange(M))]).real
        if psd.min() <= 1e-9 * psd.max() or short.min() <= 1e-6 * short.max():
            continue
        Rc = circ(ac, M)
        for idx, tail in enumerate(shapes(N - npre, alphabet)):
            sig = np.concatenate([np.full(npre, 3.0), 3.0 + 50 * np.array(tail, float)])
            s, peak = normalized(sig, npre, 0, 0)
            band = BANDS[idx % len(BANDS)]
            c.state("fourier", N, name, tail, band)
            d = dict(signal=sig, npre=npre, noise=name, band=band)
            if np.ptp(s[2:-2]) == 0:
                continue
            f0 = constrained(Rc, np.array([s[2:-2], np.ones(M)]), np.array([1.0, 0]))
            f = lowpass(f0, DT, *band)
            h, good = vertex(f, s)
            if not good or np.abs(f).max() < 1e-6 * np.abs(f0).max():
                c.outcome("no-vertex")
                continue
            f = f / h
            for withac in (False, True):
                mk = mass.FilterMaker(sig, npre, noise_autocorr=ac if withac else None, noise_psd=psd, sample_time_sec=DT)
                ok, F = c.run("raises:fourier", mk.compute_fourier, fmax=band[0], f_3db=band[1])
                c.trans()
                if not ok:
                    return
                tol = 1e-8 * (1 + np.abs([f @ s[q:q + M] for q in range(5)]).max())**2
                common(c, "fourier", F, peak, f, f @ (cov(ac, M) if withac else Rc) @ f, npre, (0, 0), d, tol)
                v = np.asarray(F.values)
                c.check(abs(v.sum()) <= 1e-9 * np.abs(v).sum(), "fourier:constant", f"response {v.sum()} to a constant", **d)
            c.outcome("fourier")
    c.trace()


def helpers_shard(c):
    """band limits, the noise response, refusals, array-likes, and the order of computations"""
    import mass
    from mass.core.optimal_filtering import band_limit, bracketR
    for n in range(1, 12):
        for v in itertools.product((-1., 0., 2.), repeat=n) if n <= 5 else [np.roll(np.arange(n)**2 % 7 - 2., j) for j in range(n)]:
            v = np.array(v)
            for band in BANDS + [(0.0, None), (None, 1e3), (1 / (n * DT), None), (0.5 / DT, None)]:
                x, y = v.copy(), np.array([v, v[::-1], np.ones(n)]).T.copy()
                c.state("band", n, v.tolist(), band)
                # a limit exactly at one of the frequencies is a matter of rounding
                if band[0] and band[0] < 1e8 and np.any(np.abs(np.arange(n) / (n * DT) - band[0]) < 1e-6 * band[0]) and band[1] is None:
                    b2 = (band[0] * (1 + 1e-9), None)
                else:
                    b2 = band
                ok, _ = c.run("raises:band_limit", band_limit, x, DT, *b2)
                ok2, _ = c.run("raises:band_limit-2d", band_limit, y, DT, *b2)
                c.trans(2)
                if ok and ok2:
                    want = lowpass(v, DT, *b2)
                    c.check(np.allclose(x, want, atol=1e-9), "band_limit:1d", f"{v} limited by {b2}: {x}, expected {want}")
                    c.check(np.allclose(y, np.array([want, lowpass(v[::-1], DT, *b2), np.ones(n)]).T, atol=1e-9), "band_limit:2d", f"{v} limited by {b2}: {y}")
    for n in range(1, 6):
        for q in itertools.product((-1., 0., 1., 2.), repeat=n):
            q = np.array(q)
            for ac in itertools.product((1., -0.5, 0.25), repeat=min(n, 3)):
                ac = np.array(list(ac) + [0.1] * (n - len(ac)) + [99.0] * (len(ac) % 2))
                c.state("bracketR", q.tolist(), ac.tolist())
                ok, r = c.run("raises:bracketR", bracketR, q, ac)
                if ok:
                    c.check(abs(r - q @ cov(ac, n) @ q) < 1e-9, "bracketR:value", f"bracketR({q}, {ac}) = {r}, expected {q @ cov(ac, n) @ q}")
        try:
            bracketR(np.ones(n + 1), np.ones(n))
            c.violate("bracketR:short", "a noise vector shorter than the filter was accepted")
        except ValueError:
            c.outcome("short-refused")
    N, npre = 12, 4
    sig = np.array([0, 0, 0, 0, 5, 9, 10, 7, 4, 2, 1, 0])
    dtm = np.gradient(sig.astype(float))
    ac = 3 * 0.7**np.arange(N)
    psd = np.fft.rfft(ac[np.minimum(np.arange(N), N - np.arange(N))]).real
    # array-likes of any kind
    ref = mass.FilterMaker(sig.astype(float), npre, ac, psd, dtm, sample_time_sec=DT)
    refs = {"5lag": ref.compute_5lag(), "ats": ref.compute_ats(), "fourier": ref.compute_fourier()}
    for conv in (list, tuple, np.array, lambda x: np.array(x, dtype=np.float32), lambda x: np.repeat(np.array(x), 2)[::2]):
        mk = mass.FilterMaker(conv(sig), npre, conv(ac), conv(psd), conv(dtm), sample_time_sec=DT)
        for kind in ("5lag", "ats", "fourier"):
            ok, F = c.run(f"raises:array-like:{kind}", getattr(mk, f"compute_{kind}"))
            c.trans()
            if ok:
                c.check(scaled_close(F.values, refs[kind].values, 1e-5) and abs(F.variance / refs[kind].variance - 1) < 1e-5,
                        f"array-like:{kind}", "the filter depends on the kind of array given", got=F.values, want=refs[kind].values)
    # the order of computations does not matter
    ops = [("5lag", {}), ("ats", {}), ("fourier", {}), ("5lag", dict(f_3db=2e4, cut_pre=1)), ("ats", dict(fmax=3e4, cut_post=2))]
    first = {}
    for seq in itertools.product(range(len(ops)), repeat=3):
        mk = mass.FilterMaker(sig.astype(float), npre, ac, psd, dtm, sample_time_sec=DT)
        c.state("seq", seq)
        for i in seq:
            ok, F = c.run("raises:sequence", getattr(mk, f"compute_{ops[i][0]}"), **ops[i][1])
            if ok:
                v = (F.values.tolist(), F.variance, F.predicted_v_over_dv)
                c.check(first.setdefault(i, v) == v, "sequence", f"{ops[i]} after {seq} differs from the first time")
    # refusals
    def refused(what, f, *a, **kw):
        c.state("refuse", what)
        try:
            f(*a, **kw)
        except (ValueError, NotImplementedError):
            c.outcome("refused")
        except Exception as e:
            c.violate(f"refuse:{what}", f"{what} raised {type(e).__name__}: {e}, not ValueError")
        else:
            c.violate(f"refuse:{what}", f"{what} was accepted")
    f = sig.astype(float)
    refused("5lag without noise", mass.FilterMaker(f, npre, dt_model=dtm).compute_5lag)
    refused("ats without noise", mass.FilterMaker(f, npre, dt_model=dtm).compute_ats)
    refused("ats without dt model", mass.FilterMaker(f, npre, ac).compute_ats)
    refused("fourier without spectrum", mass.FilterMaker(f, npre, ac).compute_fourier)
    refused("fourier with trims", mass.FilterMaker(f, npre, ac, psd).compute_fourier, cut_pre=1)
    refused("fourier with a spectrum of another length", mass.FilterMaker(f, npre, ac, psd[:-1], sample_time_sec=DT).compute_fourier)
    for kind in ("5lag", "ats", "fourier"):
        g = getattr(mass.FilterMaker(f, npre, ac, psd, dtm), f"compute_{kind}")
        refused(f"{kind} band limit without sample time", g, f_3db=1e4)
        refused(f"{kind} band limit without sample time (fmax)", g, fmax=1e4)
        g = getattr(mass.FilterMaker(f, npre, ac, psd, dtm, sample_time_sec=DT), f"compute_{kind}")
        for a, b in ((-1, 0), (0, -1), (-1, 3)):
            refused(f"{kind} cuts {a, b}", g, cut_pre=a, cut_post=b)
        if kind != "fourier":
            refused(f"{kind} cut everything", g, cut_pre=8, cut_post=4)
    # trims that cover the pretrigger, and short pretriggers
    for np_, cp in ((4, 3), (4, 4), (4, 2), (1, 0), (2, 0), (2, 1)):
        s = np.concatenate([np.full(np_, 7.0), 7 + np.array([3, 6, 10, 8, 5, 3, 2, 1.])])
        dm = np.gradient(s)
        a2 = 3 * 0.7**np.arange(len(s))
        mk = mass.FilterMaker(s, np_, a2, dt_model=dm, sample_time_sec=DT)
        d = dict(npre=np_, cut_pre=cp, signal=s)
        check_5lag(c, mk, s, np_, lambda n: cov(a2, n), None, (cp, 0), (None, None), DT, d, kind="5lag-short-pretrigger")
        check_ats(c, mk, s, dm, np_, lambda n: cov(a2, n), (cp, 0), (None, None), DT, d, kind="ats-short-pretrigger")


def channel_shard(c, part, nparts):
    """filters computed through channels, stored and reloaded"""
    import mass
    d0 = c.newdir()
    NS, NPRE = 40, 12
    pulse, noise = mkdata.pulse_files(d0, 1, 60, 60, ns=NS, npre=NPRE)
    combos = list(itertools.product(["5lag", "ats"], [(0, 0), (3, 0), (0, 5), (2, 4)], [(None, None), (None, 2e4), (4e4, None), (4e4, 2e4)],
                                    [dict(), dict(shift1=False), dict(optimize_dp_dt=False), dict(shift1=False, optimize_dp_dt=False)]))
    combos = [x for x in combos if x[0] == "ats" or not x[3]]
    for kind, cuts, band, opts in combos[part::nparts]:
        d = c.newdir()
        args = dict(hdf5_filename=os.path.join(d, "o.hdf5"), hdf5_noisefilename=os.path.join(d, "n.hdf5"))
        c.state("channel", kind, cuts, band, sorted(opts))
        g = mass.TESGroup([pulse], [noise], **args)
        ds = g.channel[1]
        ds.summarize_data(peak_time_microsec=60.5)
        ds.compute_noise()
        ds.avg_pulses_auto_masks()
        f = ds.compute_5lag_filter if kind == "5lag" else ds.compute_ats_filter
        kw = dict(fmax=band[0], f_3db=band[1], cut_pre=cuts[0], cut_post=cuts[1], **opts)
        if kind == "ats":
            kw["minimum_n_pulses"] = 10
        other = ds.compute_ats_filter if kind == "5lag" else ds.compute_5lag_filter
        ok, _ = c.run(f"raises:channel-{kind}", f, **kw)
        c.trans()
        if not ok:
            continue
        F = ds.filter
        dd = dict(kind=kind, cuts=cuts, band=band, opts=str(opts))
        ac = np.array(ds.noise_autocorr[:], float)

        class Made:      # the filter the channel made, checked like any other
            def compute_5lag(self, **k):
                return F
            compute_ats = compute_5lag
        if kind == "5lag":
            check_5lag(c, Made(), np.array(ds.average_pulse[:], float), NPRE - ds.pretrigger_ignore_samples, lambda n: cov(ac, n), None, cuts, band, ds.timebase, dd, kind="channel-5lag")
        else:
            m = np.array(ds.pulsemodel, float)
            check_ats(c, Made(), m[:, 0], m[:, 1], NPRE, lambda n: cov(ac, n), cuts, band, ds.timebase, dd, peakarg=F.nominal_peak, kind="channel-ats")
        # not recomputed without forceNew, whichever kind is asked for
        other()
        c.check(ds.filter is F, f"channel-{kind}:forceNew", "a filter already computed was replaced without forceNew", **dd)
        g.hdf5_file.close()
        g.hdf5_noisefile.close()
        g2 = mass.TESGroup([pulse], [noise], **args)
        G = g2.channel[1].filter
        for a in ("values", "nominal_peak", "variance", "predicted_v_over_dv", "dt_values", "convolution_lags", "fmax", "f_3db", "cut_pre", "cut_post",
                  "is_arrival_time_safe"):
            x, y = getattr(F, a), getattr(G, a)
            c.check(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y, f"channel-{kind}:reload:{a}", f"{a} is {y} after reopening, was {x}", **dd)
        # the other kind, forced, replaces it entirely
        ds2 = g2.channel[1]
        other2 = ds2.compute_ats_filter if kind == "5lag" else ds2.compute_5lag_filter
        ok, _ = c.run(f"raises:channel-{kind}-replace", other2, forceNew=True)
        if ok:
            H = ds2.filter
            g2.hdf5_file.close()
            g2.hdf5_noisefile.close()
            g3 = mass.TESGroup([pulse], [noise], **args)
            G = g3.channel[1].filter
            c.check(np.array_equal(G.values, H.values) and np.array_equal(G.dt_values, H.dt_values) if H.dt_values is not None else
                    np.array_equal(G.values, H.values) and G.dt_values is None, f"channel-{kind}:replace", "reopening gives another filter than the one computed last", **dd)
            c.check((G.f_3db, G.fmax, G.cut_pre, G.cut_post, G._filter_type) == (H.f_3db, H.fmax, H.cut_pre, H.cut_post, H._filter_type),
                    f"channel-{kind}:replace-attrs", "reopening gives attributes of the earlier filter", **dd)
            g3.hdf5_file.close()
            g3.hdf5_noisefile.close()
        c.outcome("channel-" + kind)
    c.trace()


def shards(tier):
    t = tier == "thorough"
    out = [("helpers", (helpers_shard, ()))]
    for N, npre, al, parts in [(9, 3, (0, 1, 3), 3), (10, 4, (0, 1, 3), 3), (11, 5, (0, 2, 3), 3), (12, 6, (0, 1, 2), 3)] + (
            [(12, 5, (0, 1, 3), 8), (10, 4, (0, 1, 2, 3), 8)] if t else []):
        out += [(f"maker-{N}-{npre}-{len(al)}-{i}", (maker_shard, (N, npre, al, i, parts))) for i in range(parts)]
    out += [(f"whiten-{N}", (whiten_shard, (N, npre, al))) for N, npre, al in [(10, 4, (0, 1, 3)), (11, 5, (0, 2, 3))] + ([(12, 5, (0, 1, 3))] if t else [])]
    out += [(f"fourier-{N}", (fourier_shard, (N, npre, al))) for N, npre, al in [(10, 4, (0, 1, 3)), (11, 5, (0, 2, 3)), (12, 6, (0, 1, 3))] + ([(14, 7, (0, 1, 3))] if t else [])]
    out += [(f"channel-{i}", (channel_shard, (i, 8))) for i in range(8)]
    return out


def run_shard(c, fn, args):
    fn(c, *args)
