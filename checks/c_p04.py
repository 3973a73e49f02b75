"""P04: every small pulse record x window settings, summarised by both implementations, against the definitions."""
import itertools
import os

import numpy as np

from vlib.ljh import Spec

PROPERTY = "P04"
EXPLAIN = """All records of up to 11-12 samples over three-letter sample alphabets (with steps, ties, extremes of the 16-bit
range) are summarised by the fast implementation for every presample count, ignored-sample count and peak position in
the bounds, and by the two stand-alone estimators (rise time, maximum derivative); each value is compared with an
independent evaluation of its definition.  The same definitions then decide, for both implementations and through the
public per-channel and group calls on real files, a set of records of every shape class x every combination of trims,
ignored pretrigger time, stated peak time, inversion and pretrigger fit."""
ASSUMPTIONS = ["more presamples than ignored ones; 5 samples or more after the trigger",
               "values at an exact floating-point tie of a threshold (10%, 90%, 4.3 sigma) are not compared",
               "rise time and promptness are compared only for records whose maximum exceeds the pretrigger mean"]

DT = 1e-5
ALPHAS = {"low": (0, 1, 7), "mid": (1000, 1003, 1400), "wide": (11, 30000, 65535), "near": (65533, 65534, 65535),
          "drop": (400, 2, 403)}
CFG = [(11, 3, 0), (11, 3, 2), (12, 5, 3), (11, 4, 1), (11, 2, 1), (11, 6, 2)]


# ------------------------------------------------------------------ definitions
def fast_ref(D, dt, peak_s, ignore, npre):
    """The definitions of the fast implementation; D is records x samples (already trimmed)."""
    X = D.astype(float)
    ne = npre - ignore
    ptm = X[:, :ne].mean(axis=1)
    ptrms = np.sqrt(np.maximum(0, ((X[:, :ne] - ptm[:, None])**2).mean(axis=1)))
    step = X[:, npre - 1] - ptm - 4.3 * ptrms
    shift = step > 0
    post = X[:, npre - 1:] - ptm[:, None]
    pk = X.max(axis=1)
    pv = np.where(pk > ptm, pk - np.floor(ptm + .5), 0)
    pidx = np.where(pk > ptm, X.argmax(axis=1), 0)
    n = len(X)
    rows = np.arange(n)
    p0 = X[:, npre + 2:npre + 8].sum(axis=1)
    p1 = X[:, npre + 1:npre + 7].sum(axis=1)
    with np.errstate(all="ignore"):
        prompt = np.where(pv > 0, (np.where(shift, p1, p0) / 6 - ptm) / pv, 0)
    lo, hi = .1 * pv + ptm, .9 * pv + ptm
    tail = X[:, npre:]
    over = tail > lo[:, None]
    has = over.any(axis=1)
    li = over.argmax(axis=1)
    over2 = (tail > hi[:, None]) & (np.arange(tail.shape[1])[None, :] >= li[:, None])
    has2 = over2.any(axis=1) & has
    h = over2.argmax(axis=1)
    prev = np.maximum(h - 1, -1)
    hv = X[rows, npre + prev]
    lv = tail[rows, li]
    with np.errstate(all="ignore"):
        rise = np.where(has2 & (hv > lv), dt * (prev - li) * pv / (hv - lv), dt)
    # a threshold that falls (within rounding) on a sample value is a tie
    tie = (np.abs(tail - lo[:, None]) < 1e-6).any(axis=1) | (np.abs(tail - hi[:, None]) < 1e-6).any(axis=1)
    return {"pretrig_mean": ptm, "pretrig_rms": ptrms, "pulse_average": post.mean(axis=1),
            "pulse_rms": np.sqrt((post**2).mean(axis=1)), "promptness": prompt, "rise_times": rise,
            "postpeak_deriv": deriv_ref(X, peak_s), "peak_index": pidx, "peak_value": pv, "min_value": X.min(axis=1),
            "shift1": shift, "_steptie": np.abs(step) < 1e-4, "_risetie": tie, "_real": pk > ptm}


KERN = (.2, .1, 0, -.1, -.2)
SG = (-0.11905, 0.30952, 0.28571, -0.02381, -0.45238)


def deriv_ref(X, start, kernel=KERN, spike=True):
    """Largest derivative after sample `start`: kernel convolved; with spike rejection, of two values 2 apart the smaller."""
    Y = X[:, start:] if start >= 0 else X[:, :0]
    m = Y.shape[1]
    if m < (7 if spike else 5):
        return np.zeros(len(X))
    c = sum(kernel[k] * Y[:, 4 - k:m - k] for k in range(5))
    if spike:
        c = np.minimum(c[:, 2:], c[:, :-2])
    return c.max(axis=1)


def rise_ref(X, dt, npre):
    """The rise-time estimate of the stand-alone function; second result: must be skipped (ties, flat)."""
    n = len(X)
    if npre >= 4:
        base = X[:, :npre].mean(axis=1)
    else:
        base, npre = X.min(axis=1), 0
    pk = X.max(axis=1) - base
    ipk = X.argmax(axis=1)
    out = np.full(n, -9.9e-6)
    skip = np.zeros(n, bool)
    for i in range(n):
        if ipk[i] < npre:
            continue
        if pk[i] <= 0:
            skip[i] = True
            continue
        y = (X[i, npre:] - base[i]) / pk[i]
        if (np.abs(y - .1) < 1e-9).any() or (np.abs(y - .9) < 1e-9).any():
            skip[i] = True
            continue
        first = int(np.flatnonzero(y > .1)[0])
        last = int(np.flatnonzero(y > .9)[0]) - 1
        if last < first:
            last = first + 1
        last = min(last, ipk[i] - npre)
        dy = max(y[last] - y[first], dt)
        out[i] = dt * (last - first) / dy
    return out, skip


# ------------------------------------------------------------------ comparisons
def close(a, b, tol=2e-6, atol=1e-9):
    return np.abs(a - b) <= tol * np.abs(b) + atol


def compare(c, D, got, ref, tag, names=None):
    scale2 = float(max(1, D.max()))**2
    for name, r in ref.items():
        if name.startswith("_") or (names and name not in names):
            continue
        g = np.asarray(got[name]).astype(float)
        r = np.asarray(r).astype(float)
        if name in ("pretrig_rms", "pulse_rms"):
            ok = np.abs(g**2 - r**2) <= 1e-6 * r**2 + 1e-11 * scale2
        elif name in ("peak_index", "peak_value", "min_value", "shift1"):
            ok = g == r
        else:
            ok = close(g, r, tol=3e-6, atol=1e-6 if name in ("pretrig_mean", "pulse_average", "postpeak_deriv") else 1e-12)
            if name == "promptness":
                ok |= np.abs(g - r) < 1e-6
            if name == "pulse_average":
                ok |= np.abs(g - r) < 1e-7 * scale2**.5
        if name in ("shift1", "promptness"):
            ok |= ref["_steptie"]
        if name == "rise_times":
            ok |= ref["_risetie"] | ~ref["_real"]
        if name == "promptness" and not ref.get("_fast", True):
            ok |= ~ref["_real"]
        if not ok.all():
            i = int(np.flatnonzero(~ok)[0])
            c.violate(f"{tag}:{name}", f"{name} of record {i} {D[i].tolist()} is {g[i]}, its definition gives {r[i]}",
                      record=D[i], got=g[i], expected=r[i])


# ------------------------------------------------------------------ shards
def shards(tier):
    out = []
    for a in ALPHAS:
        for cfg in CFG + ([(13, 4, 2), (13, 5, 0)] if tier == "thorough" else []):
            out.append((f"kernel-{a}-{'-'.join(map(str, cfg))}", ("kernel", a, cfg)))
        out.append((f"standalone-{a}", ("standalone", a)))
    for k in range(8):
        out.append((f"files-{k}", ("files", k, 8)))
    return out


def run_shard(c, kind, *args):
    globals()["shard_" + kind](c, *args)


def all_records(alpha, n):
    k = len(alpha)
    idx = np.arange(k**n)
    cols = [(idx // k**j) % k for j in range(n)]
    return np.array(alpha, np.uint16)[np.stack(cols[::-1], axis=1)]


def shard_kernel(c, alpha, cfg):
    from mass.core.cython_channel import summarize_data_cython as fast
    ns, npre, ignore = cfg
    # every record whose first letters run over the alphabet; the leading sample is fixed to bound the count
    tail = all_records(ALPHAS[alpha], ns - (1 if c.thorough else 2))
    pad = ns - tail.shape[1]
    heads = list(itertools.product(ALPHAS[alpha][:2], repeat=pad)) if c.thorough else [ALPHAS[alpha][:1] * pad, ALPHAS[alpha][1::-1]]
    for head in heads:
        D = np.hstack([np.tile(np.array(head, np.uint16), (len(tail), 1)), tail])
        n = len(D)
        for peak_s in ([npre, npre + 1, ns - 7, ns - 6, ns - 1] if not c.thorough else range(ns)):
            saved = D.copy()
            ok, got = c.run("kernel", fast, D, DT, peak_s, ignore, npre)
            if not ok:
                return
            ref = fast_ref(D, DT, peak_s, ignore, npre)
            compare(c, D, got, ref, "fast", None if peak_s == npre else ("postpeak_deriv", "peak_index", "pretrig_mean"))
            c.check(np.array_equal(saved, D), "fast:input", "the records were modified")
            c.trans(n)
            c.state(alpha, cfg, head, peak_s)
        # a part of the records gives the same part of the results
        for first, end in ((0, 1), (5, 17), (n - 3, n), (7, 8)):
            ok, part = c.run("kernel-part", fast, D, DT, npre, ignore, npre, first, end)
            if ok:
                full = fast(D[first:end].copy(), DT, npre, ignore, npre)
                for name in full:
                    c.check(np.array_equal(np.asarray(part[name]), np.asarray(full[name]), equal_nan=True), f"fast:part:{name}",
                            f"records {first}:{end} give {np.asarray(part[name])[:5]}, alone {np.asarray(full[name])[:5]}")
        c.trace(n)
    c.outcome("kernel")


def shard_standalone(c, alpha):
    from mass.core import analysis_algorithms as aa
    for n in (range(5, 9) if not c.thorough else range(5, 10)):
        D = all_records(ALPHAS[alpha], n)
        X = D.astype(float)
        for npre in (0, 2, 4, n - 1):
            ok, got = c.run("rise", aa.estimateRiseTime, D.copy(), DT, npre)
            if not ok:
                continue
            ref, skip = rise_ref(X, DT, npre) if n < 8 or npre == 4 else (None, None)
            if ref is None:
                continue
            bad = ~(close(got, ref, 1e-9, 1e-15) | skip)
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                c.violate("rise", f"estimateRiseTime({D[i].tolist()}, nPretrig={npre}) is {got[i]}, expected {ref[i]}")
            for i in range(0, len(D), 97):
                one = aa.estimateRiseTime(D[i].copy(), DT, npre)
                c.check(np.allclose(one, got[i], equal_nan=True), "rise:alone",
                        f"the rise time of {D[i].tolist()} alone is {one}, among others {got[i]}")
                flt = aa.estimateRiseTime(D[i].astype(float), DT, npre)
                c.check(np.allclose(one, flt, equal_nan=True), "rise:type", f"{D[i].tolist()}: {one} for integers, {flt} for floats")
            c.trans(len(D))
            c.state("rise", n, npre, alpha)
        for kernel, k in ((None, KERN), ("SG", SG), ([.5, .25, 0, -.25, -.5], (.5, .25, 0, -.25, -.5)), ([1, 0, 0, 0, -1.], (1, 0, 0, 0, -1.))):
            for spike in (True, False):
                for lead in (0, 1, 2, 4):
                    ref = deriv_ref(X, lead, k, spike)
                    for fn in (aa.compute_max_deriv, aa.python_compute_max_deriv):
                        E = D if fn is aa.compute_max_deriv or n < 6 else D[::7]
                        r = ref if E is D else ref[::7]
                        saved = E.copy()
                        ok, got = c.run(f"deriv:{fn.__name__}", fn, E, lead, spike_reject=spike, kernel=kernel)
                        if not ok:
                            continue
                        bad = ~close(got, r, 3e-6, 1e-5 if D.max() < 2000 else .02)
                        if bad.any():
                            i = int(np.flatnonzero(bad)[0])
                            c.violate(f"deriv:{fn.__name__}", f"{fn.__name__}({E[i].tolist()}, {lead}, spike_reject={spike}, "
                                      f"kernel={kernel}) is {got[i]}, expected {r[i]}")
                        c.check(np.array_equal(E, saved), f"deriv:{fn.__name__}:input", "the records were modified")
                        for i in range(0, len(E), 333):
                            v = E[i].copy()
                            one = fn(v, lead, spike_reject=spike, kernel=kernel)
                            c.check(v.shape == (n,) and len(one) == 1 and np.allclose(one[0], got[i]), f"deriv:{fn.__name__}:alone",
                                    f"{fn.__name__} of one record {E[i].tolist()} is {one}, among others {got[i]}")
                    c.trans(len(D))
                    c.state("deriv", n, lead, spike, str(kernel), alpha)
    c.outcome("standalone")


# ------------------------------------------------------------------ through files
NS, NPRE = 24, 9


def shapes():
    """One record of every class: pulse at every position and rise, flat, decaying, saturated, dips, early trigger, spikes."""
    t = np.arange(NS)
    out = []
    for base, amp in ((1000, 900), (20, 5000), (60000, 5000), (0, 40)):
        for start in (7, 8, 9, 10, 14, 20, 22):
            for tau, rise in ((3., .5), (8., 2.)):
                x = np.clip(t - start, 0, None)
                y = base + amp * 1.6 * (np.exp(-x / tau) - np.exp(-x / rise)) + ((t * 7) % 3)
                out.append(y)
        wig = base + (t * 5) % 4
        out += [np.full(NS, base), wig, wig + 3 * (t % 2), base + 10 * t, base + 10 * (NS - t), np.where(t == 5, base + amp, base + t % 2),
                np.where(t < NPRE, base + amp, base), np.where(t >= NPRE, 65535, base), np.where(t >= NPRE, 0, base),
                np.where(t == NS - 1, base + amp, base + t % 3), np.where(t == NPRE - 1, base + amp, base),
                np.where(t == 0, base + amp, base + t % 2), np.where(t < 4, base, base + amp)]
    return np.clip(np.round(np.array(out)), 0, 65535).astype(int)


def plain_ref(D, dt, peak_s, ignore, npre, cut_pre, cut_post, ptrms_stored):
    X = D.astype(float)
    ns = X.shape[1]
    pre, post, alld = X[:, cut_pre:npre - ignore], X[:, npre:ns - cut_post], X[:, cut_pre:ns - cut_post]
    ptm = pre.mean(axis=1)
    ptrms = pre.std(axis=1)
    pk = np.maximum(post.max(axis=1) - np.floor(ptm), 0)
    step = X[:, npre - 1] - ptm - 4.3 * ptrms
    shift = step > 0
    half = (npre + 2 + peak_s) // 2
    prompt = np.full(len(X), np.nan)
    for i in range(len(X)):
        w = X[i, npre + 1:half - 1] if shift[i] else X[i, npre + 2:half]
        if len(w) and pk[i] > 0:
            prompt[i] = (w.mean() - ptm[i]) / pk[i]
    rise, skip = rise_ref(alld, dt, npre - cut_pre)
    return {"pretrig_mean": ptm, "pretrig_rms": ptrms, "pulse_average": post.mean(axis=1) - ptm,
            "pulse_rms": np.sqrt(((post - ptm[:, None])**2).mean(axis=1)), "promptness": prompt, "rise_times": rise,
            "postpeak_deriv": deriv_ref(alld, peak_s - cut_pre), "peak_index": post.argmax(axis=1) + npre, "peak_value": pk,
            "min_value": alld.min(axis=1), "shift1": shift, "_steptie": (np.abs(step) < 1e-4) | np.isnan(prompt), "_risetie": skip,
            "_real": np.isfinite(prompt), "_fast": False}


FIELDS = {"pretrig_mean": "p_pretrig_mean", "pretrig_rms": "p_pretrig_rms", "pulse_average": "p_pulse_average", "pulse_rms": "p_pulse_rms",
          "promptness": "p_promptness", "rise_times": "p_rise_time", "postpeak_deriv": "p_postpeak_deriv", "peak_index": "p_peak_index",
          "peak_value": "p_peak_value", "min_value": "p_min_value", "shift1": "p_shift1"}


def shard_files(c, k, n):
    import mass
    S = shapes()
    combos = list(itertools.product((0, 3), (0, 5), (None, 0, 20, 60), (None, 40, 110), (True, False), (False, True), (False, True)))
    for j, (cut_pre, cut_post, ignore_us, peak_us, cython, invert, fit) in enumerate(combos[k::n]):
        if ignore_us == 60 and cut_pre:
            continue      # no pretrigger sample would remain
        if fit and (cython or (not c.thorough and cut_post)):
            continue      # the linear fit belongs to the plain implementation
        if not c.thorough and invert and ignore_us not in (None, 20):
            continue
        key = (cut_pre, cut_post, ignore_us, peak_us, cython, invert, fit)
        d = c.newdir()
        order = S if j % 2 == 0 else S[::-1]
        recs = [(i * 100 + 7, 1_600_000_000_000_000 + i * 12345 * 7, [int(v) for v in (65535 - s if invert else s)])
                for i, s in enumerate(order)]
        p = Spec(nsamp=NS, npre=NPRE, rows=2, row=1, records=recs).write(os.path.join(d, "a_chan1.ljh"))
        kw = dict(cut_pre=cut_pre, cut_post=cut_post, use_cython=cython)
        if ignore_us is not None:
            kw["pretrigger_ignore_microsec"] = ignore_us + (.5, 0)[j % 2]
        if peak_us is not None:
            kw["peak_time_microsec"] = peak_us + (.5, 0)[j // 2 % 2]
        if fit:
            kw["doPretrigFit"] = True
        g = mass.TESGroup([p], hdf5_filename=os.path.join(d, "o.hdf5"), overwrite_hdf5_file=True)
        ds = g.channel[1]
        if invert:
            ds.invert_data = True
        if j % 3 == 0:
            g.summarize_data(**kw)
            c.check(g.why_chan_bad.get(1) is None, "group:bad", f"{key}: the channel was marked bad: {dict(g.why_chan_bad)}")
        else:
            ok, _ = c.run("summarize", ds.summarize_data, **kw)
            if not ok:
                g.hdf5_file.close()
                return
        ignore = 3 if ignore_us is None else ignore_us // 10
        D = np.array(order)
        if peak_us is None:
            idx = D[:, cut_pre:NS - cut_post].argmax(axis=1) + cut_pre
            vals, cnt = np.unique(idx, return_counts=True)
            peak_s = int(vals[cnt.argmax()])
        else:
            peak_s = NPRE + peak_us // 10
        c.check(ds.peak_samplenumber == peak_s, "peak_samplenumber", f"{key}: {ds.peak_samplenumber} is not {peak_s}")
        if cython:
            T = D[:, cut_pre:NS - cut_post]
            ref = fast_ref(T, DT, peak_s - cut_pre, ignore, NPRE - cut_pre)
            ref["peak_index"] = np.where(ref["peak_value"] > 0, ref["peak_index"] + cut_pre, ref["peak_index"])
        else:
            ref = plain_ref(D, DT, peak_s, ignore, NPRE, cut_pre, cut_post, None)
        got = {a: getattr(ds, b)[:] for a, b in FIELDS.items()}
        if not cython:
            got["promptness"] = np.where(np.isnan(ref["promptness"]), 0, got["promptness"])
            ref["promptness"] = np.where(np.isnan(ref["promptness"]), 0, ref["promptness"])
            ref["_real"] = np.ones(len(D), bool)
        compare(c, D, got, ref, "file-fast" if cython else "file-plain")
        usec = np.array([r[1] for r in recs])
        c.check(np.allclose(ds.p_timestamp[:], usec * 1e-6, rtol=0, atol=1e-6), "timestamp", f"{key}: {ds.p_timestamp[:3]}")
        c.check(np.array_equal(ds.p_subframecount[:], [r[0] for r in recs]), "subframecount", f"{key}: {ds.p_subframecount[:3]}")
        if not cython:
            # the straight line fitted to the pretrigger samples
            x = np.arange(cut_pre, NPRE - ignore, dtype=float)
            Y = D[:, cut_pre:NPRE - ignore].astype(float)
            slope = ((x - x.mean()) * (Y - Y.mean(axis=1)[:, None])).sum(axis=1) / ((x - x.mean())**2).sum() if len(x) > 1 else 0 * Y[:, 0]
            off = Y.mean(axis=1) - slope * x.mean()
            if not fit:
                slope, off = 0 * slope, 0 * off
            if len(x) > 1:
                c.check(np.allclose(ds.p_pretrig_deriv[:], slope, rtol=1e-5, atol=1e-3), "pretrig_deriv", f"{key}: {ds.p_pretrig_deriv[:5]} is not {slope[:5]}")
                c.check(np.allclose(ds.p_pretrig_offset[:], off, rtol=1e-5, atol=1e-2), "pretrig_offset", f"{key}: {ds.p_pretrig_offset[:5]} is not {off[:5]}")
        g.hdf5_file.close()
        c.state(key)
        c.trans(len(D))
        c.trace()
        c.outcome("fast" if cython else "plain")
        c.sample({"setting": [str(v) for v in key], "peak_samplenumber": int(peak_s)})
