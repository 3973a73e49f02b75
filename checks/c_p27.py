"""P27: noise power spectra and autocorrelations. Every small data sequence split in every way, against dense sums."""
import itertools
import os

import numpy as np

from vlib.ljh import Spec

PROPERTY = "P27"
EXPLAIN = """A state is a set of live power-spectrum accumulators, each with the list of segments fed to it; transitions add a segment (good, too short, with NaN),
add a long vector, or copy an accumulator and go on with the original or the copy.  All such histories up to a depth are run over every window; after each step every
live accumulator's spectrum, frequencies and rebinned spectrum are compared with dense cosine/sine sums over exactly its own segments.
Further shards enumerate all small data vectors over an alphabet (every composition into calls, number type and window), the convenience functions, and noise files
(record lengths, counts, excursions, lags, ranges, segment lengths, broken and continuous), whose stored results must equal the definitions and survive reopening."""
ASSUMPTIONS = ["every spectral bin is normalised as 2 dt |X|^2 / sum(w^2), the first and last ones too (as the existing tests state), so Parseval counts those two with half weight",
               "at least one noise record (or chunk) passes the excursion limit", "continuous autocorrelations need 15 times as many samples as lags"]

ps = None


def mod():
    global ps
    if ps is None:
        from mass.mathstat import power_spectrum
        ps = power_spectrum
    return ps


# ---- definitions
def dft2(x):
    """|X_k|^2 for k=0..n/2, by dense sums"""
    x = np.asarray(x, float)
    n = len(x)
    t = np.arange(n)
    k = np.arange(n // 2 + 1)
    a = 2 * np.pi * ((k[:, None] * t[None, :]) % n) / n
    return (np.cos(a) @ x)**2 + (np.sin(a) @ x)**2


def psd(x, w, dt):
    x = np.asarray(x, float)
    w = np.ones(len(x)) if w is None else np.asarray(w, float)
    return 2 * dt / (w**2).sum() * dft2(w * x)


def mean_psd(segs, ws, dt):
    return np.mean([psd(x, w, dt) for x, w in zip(segs, ws)], axis=0)


def rebin(s, nbins):
    m = len(s) - 1
    idx = [int(np.floor(0.5 + k * nbins / m)) for k in range(m + 1)]
    return np.array([np.mean([v for v, j in zip(s, idx) if j == b]) for b in range(nbins + 1)])


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tol * (1e-12 + np.max(np.abs(b), initial=0.0))))


def wdef(name, n):
    t = np.arange(n)
    c = (n - 1) / 2.0
    if name is None:
        return None
    if name == "bartlett":
        return 1 - np.abs(t - c) / c
    if name == "welch":
        return 1 - ((t - c) / c)**2
    if name == "hann":
        return np.sin(np.pi * t / (n - 1))**2
    if name == "hamming":
        return 0.08 + 0.92 * np.sin(np.pi * t / (n - 1))**2
    if name == "ramp":
        return 1.0 + t
    raise KeyError(name)


def windows(n, ints=True):
    """(label, argument to pass, weights)"""
    p = mod()
    out = [("none", None, None)]
    for name in ("bartlett", "welch", "hann", "hamming"):
        if n == 2 and name != "hamming":
            continue   # all-zero weights
        out.append((name, getattr(p, name), wdef(name, n)))
    out.append(("ramp-callable", lambda k: np.arange(1, k + 1), wdef("ramp", n)))
    out.append(("ramp-array", np.arange(1, n + 1), wdef("ramp", n)))
    out.append(("ramp-list", [float(v) for v in range(1, n + 1)], wdef("ramp", n)))
    return out


def checks_spec(c, tag, sp, segs, ws, m, dt, **d):
    """a live accumulator against its own segments"""
    ok = c.check(sp.nsegments == len(segs), f"{tag}-count", "number of accumulated segments", got=sp.nsegments, want=len(segs), **d)
    f = sp.frequencies()
    ok = c.check(close(f, np.arange(m + 1) / (2.0 * m * dt)), f"{tag}-freq", "frequencies", got=f, **d) and ok
    if not segs or not ok:
        return
    want = mean_psd(segs, ws, dt)
    got = sp.spectrum()
    c.check(close(got, want), f"{tag}-spectrum", "spectrum is the mean over exactly the accumulated segments", got=got, want=want, segs=segs, **d)
    for nb in range(1, m + 1):
        got = sp.spectrum(nb)
        c.check(close(got, rebin(want, nb), 1e-8), f"{tag}-rebin", "rebinned spectrum", nbins=nb, m=m, got=got, want=rebin(want, nb), **d)
        c.check(close(sp.frequencies(nb), np.arange(nb + 1) / (2.0 * nb * dt)), f"{tag}-refreq", "rebinned frequencies", nbins=nb, **d)


# ---- histories of accumulators
def segpool(m):
    a = [((7 * i * i + 3 * i + 1) % 11) - 5 for i in range(2 * m)]
    b = [((5 * i * i + i + 4) % 13) - 2 for i in range(2 * m)]
    long_ = [((3 * i * i * i + 2 * i + 1) % 17) - 8 for i in range(5 * m + max(0, m - 1))]   # not a multiple of 2m
    return a, b, long_


def histories(c, overlap, m, wi, depth):
    p = mod()
    label, warg, w = windows(2 * m)[wi]
    dt = 0.25
    a, b, long_ = segpool(m)
    L = m if overlap else 2 * m
    cls = p.PowerSpectrumOverlap if overlap else p.PowerSpectrum
    ops = ["A", "B", "f", "long", "bad", "nan", "copy-orig", "copy-copy"]
    if overlap:
        ops.remove("nan")

    def fed(model, seg):
        """model: (last half or None, [segments])"""
        last, segs = model
        if not overlap:
            return (None, [*segs, list(seg)])
        if last is None:
            return (list(seg), segs)
        return (list(seg), [*segs, list(last) + list(seg)])

    def feed_long(model):
        last, segs = model
        if not overlap:
            n = len(long_) // (2 * m)
            return (None, segs + [long_[i * 2 * m:(i + 1) * 2 * m] for i in range(n)])
        nt = len(long_)
        nk = (nt - 1) // m
        d = (nt - 2 * m) / (nk - 1.0) if nk > 1 else 0.0
        offs = [int(k * d + 0.5) for k in range(nk)]
        return (last, segs + [long_[o:o + 2 * m] for o in offs])

    for hist in itertools.product(ops, repeat=depth):
        live = [(cls(m, dt=dt), (None, []))]
        cur = 0
        for k, op in enumerate(hist):
            sp, model = live[cur]
            if op in {"A", "B", "f"}:
                seg = np.array({"A": a, "B": b, "f": [v + 0.5 for v in b]}[op][:L])
                if op == "A":
                    seg = seg.astype(np.int16)
                keep = seg.copy()
                ok, _ = c.run("add-segment", sp.addDataSegment, seg, window=warg)
                if not ok:
                    return
                c.check(np.array_equal(seg, keep), "input-changed", "addDataSegment changed its input", hist=hist)
                seg[:] = 77   # the accumulator must not depend on the caller's array afterwards
                live[cur] = (sp, fed(model, keep.tolist()))
            elif op == "long":
                arr = np.array(long_)
                ok, _ = c.run("add-long", sp.addLongData, arr, window=warg)
                if not ok:
                    return
                c.check(arr.tolist() == long_, "input-changed", "addLongData changed its input", hist=hist)
                live[cur] = (sp, feed_long(model))
            elif op in {"bad", "nan"}:
                if overlap and model[0] is None:
                    continue   # the first half segment's length is only known to be wrong with the second
                seg = np.zeros(L + 1) if op == "bad" else np.array([np.nan] + [0.0] * (L - 1))
                try:
                    sp.addDataSegment(seg, window=warg)
                    c.violate("bad-accepted", f"a segment of the wrong length or with NaN was accepted ({op})", hist=hist, overlap=overlap)
                except ValueError:
                    pass
                if overlap:
                    break    # documented to fail; what the failed half leaves behind is unspecified
            else:
                cp = sp.copy()
                c.check(type(cp) is type(sp), "copy-type", "copy has the class of the original", got=type(cp).__name__)
                live.append((cp, (model[0], list(model[1]))))
                if op == "copy-copy":
                    cur = len(live) - 1
            c.trans()
            for j, (s, mo) in enumerate(live):
                if k == depth - 1 or j == cur:
                    checks_spec(c, "overlap" if overlap else "plain", s, mo[1], [w] * len(mo[1]), m, dt, hist=hist[:k + 1], which=j, window=label)
        c.state("hist", overlap, m, label, hist)
        c.trace()
    c.sample({"what": "histories", "overlap": overlap, "m": m, "window": label, "last": hist})


# ---- all small vectors
def vectors(c, m, alphabet, part, nparts):
    p = mod()
    n = 2 * m
    allv = list(itertools.product(alphabet, repeat=n))
    wins = windows(n)
    for x in allv[part::nparts]:
        for dt in (1.0, 2e-6):
            for label, warg, w in wins:
                want = psd(x, w, dt)
                for typ in (list, np.int16, np.float32, float):
                    if typ is not float and (dt != 1.0):
                        continue
                    arr = list(x) if typ is list else np.array(x, dtype=typ)
                    sp = p.PowerSpectrum(m, dt=dt)
                    ok, _ = c.run("vector", sp.addDataSegment, arr, window=warg)
                    if not ok:
                        continue
                    got = sp.spectrum()
                    c.trans()
                    if not c.check(close(got, want, 1e-6 if typ is np.float32 else 1e-9), "vector-spectrum", "spectrum of one segment", x=x, window=label, dt=dt, typ=str(typ), got=got, want=want):
                        continue
                    c.check(list(arr) == list(x), "input-changed", "the data were changed", x=x)
                if w is None:
                    df = 1.0 / (n * dt)
                    ww = np.ones(m + 1)
                    ww[0] = ww[-1] = 0.5
                    ms = float(np.mean(np.square(x)))
                    c.check(abs((got * ww).sum() * df - ms) <= 1e-9 * (1 + ms), "parseval", "integral of the spectrum is the mean square", x=x, dt=dt, got=got)
        # two segments: order and splitting do not matter
        y = x[::-1]
        sp1, sp2, sp3 = (p.PowerSpectrum(m) for _ in range(3))
        sp1.addLongData(np.array(x + y + (1,) * (n - 1)))
        sp2.addDataSegment(np.array(y))
        sp2.addDataSegment(np.array(x))
        sp3.addLongData(np.array(x))
        sp3.addLongData(np.array(y + (5,)))
        want = (psd(x, None, 1.0) + psd(y, None, 1.0)) / 2
        for s in (sp1, sp2, sp3):
            c.check(close(s.spectrum(), want), "split", "splitting over calls changed the spectrum", x=x, got=s.spectrum(), want=want)
        c.state("vec", m, x)
    c.sample({"what": "vectors", "m": m, "x": list(allv[part])})


def splits(c, overlap, m, nseg):
    """every composition of a run of segments into calls gives the same"""
    p = mod()
    n = 2 * m
    total = [((11 * i * i + 5 * i) % 23) - 9.5 for i in range(n * nseg)]
    for label, warg, w in windows(n):
        if not overlap:
            want = mean_psd([total[i * n:(i + 1) * n] for i in range(nseg)], [w] * nseg, 1.0)
            for comp in compositions_all(nseg):
                for tail in (0, n - 1):
                    sp = p.PowerSpectrum(m)
                    pos = 0
                    for k in comp:
                        if k == 1 and not tail:
                            sp.addDataSegment(np.array(total[pos * n:(pos + 1) * n]), window=warg)
                        else:
                            sp.addLongData(np.array(total[pos * n:(pos + k) * n] + [3.0] * tail), window=warg)
                        pos += k
                        if pos == 1:
                            sp = sp.copy()
                    c.check(close(sp.spectrum(), want), "composition", "splitting over calls changed the spectrum", comp=comp, window=label, got=sp.spectrum(), want=want)
                    c.state("comp", m, nseg, label, comp, tail)
                    c.trace()
        else:
            for ln in range(2 * m + 1, n * nseg + 1):
                x = total[:ln]
                sp = p.PowerSpectrumOverlap(m)
                ok, _ = c.run("overlap-long", sp.addLongData, np.array(x), window=warg)
                if not ok:
                    continue
                nk = (ln - 1) // m
                d = (ln - n) / (nk - 1.0)
                offs = [int(k * d + 0.5) for k in range(nk)]
                want = mean_psd([x[o:o + n] for o in offs], [w] * nk, 1.0)
                c.check(sp.nsegments == nk and close(sp.spectrum(), want), "overlap-long", "overlapping segments cover the data evenly", n=ln, m=m, window=label, got=sp.spectrum(), want=want)
                c.state("ovl", m, ln, label)
                c.trace()


def compositions_all(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions_all(n - k):
            yield (k, *rest)


# ---- convenience functions
def convenience(c, nmax):
    p = mod()
    for n in (2, 3, 4, 5, 7, 16, 33):
        for name in ("bartlett", "welch", "hann", "hamming"):
            if n == 2 and name == "welch":
                continue
            c.check(np.allclose(getattr(p, name)(n), wdef(name, n), atol=1e-12), f"window-{name}", "window function", n=n, got=getattr(p, name)(n))
    for n in range(2, nmax):
        x = [((7 * i * i + i) % 19) - 6 for i in range(n)]
        for segf in (1, 2, 3, 4):
            m = n // (2 * segf)
            if m < 1:
                continue
            for label, warg, w in windows(2 * m):
                if segf == 1:
                    segs = [x[:2 * m]]
                else:
                    segs = [x[i * m:(i + 2) * m] for i in range(2 * segf - 1)]
                for dt in (None, 0.5):
                    for typ in (np.int64, float, np.uint8):
                        arr = np.array(x).astype(typ)
                        keep = arr.copy()
                        ss = segs if typ is not np.uint8 else [[v % 256 for v in s] for s in segs]
                        want = mean_psd(ss, [w] * len(ss), dt or 1.0)
                        ok, r = c.run("computeSpectrum", p.computeSpectrum, arr, segfactor=segf, dt=dt, window=warg)
                        if not ok:
                            continue
                        c.trans()
                        got = r if dt is None else r[1]
                        c.check(close(got, want), "computeSpectrum", "convenience function agrees with the definition", n=n, segfactor=segf, window=label, dt=dt, got=got, want=want)
                        if dt is not None:
                            c.check(close(r[0], np.arange(m + 1) / (2 * m * dt)), "computeSpectrum-freq", "frequencies", n=n, segfactor=segf)
                        c.check(np.array_equal(arr, keep), "input-changed", "computeSpectrum changed its input", n=n)
                c.state("conv", n, segf, label)
    # autocorrelation of explicit pulses (one per column)
    for ns, npul, alph in ((2, 2, (-1, 0, 3)), (3, 1, (-1, 0, 3)), (3, 2, (0, 1, 4)), (4, 1, (-2, 0, 1))):
        for v in itertools.product(alph, repeat=ns * npul):
            for typ in (float, np.int32):
                arr = np.array(v, dtype=typ).reshape(ns, npul)
                keep = arr.copy()
                ok, got = c.run("autocorr-pulses", p.autocorrelation_broken_from_pulses, arr)
                if not ok:
                    continue
                c.trans()
                want = broken_ac(keep.T)
                c.check(np.allclose(got, want, atol=1e-10), "autocorr-pulses", "autocorrelation of pulses", x=v, ns=ns, got=got, want=want)
                c.check(np.array_equal(arr, keep), "input-changed", "autocorrelation_broken_from_pulses changed its input", x=v)
            c.state("acp", ns, npul, v)
    c.sample({"what": "convenience functions", "n": n})


# ---- noise files
def broken_ac(recs, nlags=None):
    n = len(recs[0])
    ac = np.zeros(n)
    for r in recs:
        y = np.asarray(r, float) - np.mean(r)
        for k in range(n):
            ac[k] += sum(y[i] * y[i + k] for i in range(n - k)) / (n - k)
    return (ac / len(recs))[:nlags]


def cont_ac(stream, nlags, maxexc):
    size = 15 * nlags
    tot, cnt = np.zeros(nlags), 0
    for i in range(len(stream) // size):
        y = np.asarray(stream[i * size:(i + 1) * size], float)
        y = y - y.mean()
        if np.abs(y).max() > maxexc:
            continue
        cnt += 1
        tot += [np.dot(y[:size - k], y[k:]) / (size - k) for k in range(nlags)]
    if not cnt:
        raise ZeroDivisionError
    return tot / cnt


def noise_recs(nsamp, nrec, wild=()):
    out = []
    for r in range(nrec):
        s = [1000 + ((13 * (r * nsamp + i)**2 + 7 * r + 5 * i) % 29) for i in range(nsamp)]
        if r in wild:
            s[(r * 3) % nsamp] += 20000
        out.append(s)
    return out


def write_noise(path, recs, nsamp, npre):
    return Spec(nsamp=nsamp, npre=npre, rows=1, row=0, records=[(k * 100, 1_599_000_000_000_000 + k * 10000, s) for k, s in enumerate(recs)]).write(path)


def nofile_oracle(recs, nsamp, seg, w, dt, maxexc, continuous):
    if continuous:
        s = [v for r in recs for v in r]
        segs = [s[i * seg:(i + 1) * seg] for i in range(len(s) // seg)]
    else:
        segs = recs
    m2 = 2 * (seg // 2)
    segs = [np.asarray(x[:m2], float) for x in segs]
    segs = [x - x.mean() for x in segs if x.max() - x.min() < maxexc]
    return mean_psd(segs, [None if w is None else w[:m2]] * len(segs), dt)


def noise_direct(c, nsamp, continuous):
    """NoiseRecords by itself and with an HDF5 group"""
    import h5py
    from mass.core.channel import NoiseRecords
    p = mod()
    d = c.newdir()
    cases = [(1, ()), (2, (1,)), (5, ()), (5, (0, 3)), (5, (4,))]
    if continuous:
        cases = [(16, ()), (30, ()), (31, (7,)), (47, (20,))] if nsamp < 20 else [(1, ()), (2, ()), (3, (1,))]
    for ci, (nrec, wild) in enumerate(cases):
        recs = noise_recs(nsamp, nrec, wild)
        fn = write_noise(os.path.join(d, f"n{ci}_chan1.noi"), recs, nsamp, 2)
        before = open(fn, "rb").read()
        stream = [v for r in recs for v in r]
        for grp in (False, True):
            h5 = h5py.File(os.path.join(d, f"x{ci}.hdf5"), "w") if grp else None

            def make():
                nr = NoiseRecords(fn, records_are_continuous=continuous)
                if grp:
                    for k in list(h5):
                        del h5[k]
                    nr.set_hdf5_group(h5.require_group("chan1"))
                return nr
            # spectra
            segsizes = [None, nsamp] if not continuous else [None, nsamp, 2, 3, 2 * nsamp, 3 * nsamp + 1]
            dt = 1e-5
            for seg in segsizes:
                sg = seg or nsamp
                if sg > nsamp * nrec:
                    continue
                for label, warg, w in windows(2 * (sg // 2)):
                    if label == "ramp-list":
                        continue
                    for maxexc in (1000, 1e6):
                        ok, nr = c.run("noise-open", make)
                        if not ok:
                            return
                        ok, sp = c.run("noise-spectrum", nr.compute_power_spectrum_reshape, window=warg, seg_length=seg, max_excursion=maxexc)
                        if not ok:
                            continue
                        want = nofile_oracle(recs, nsamp, sg, w, dt, maxexc, continuous)
                        if not np.all(np.isfinite(want)):
                            continue
                        c.trans()
                        c.check(close(sp.spectrum(), want, 1e-7), "noise-spectrum", "noise spectrum equals its definition", nsamp=nsamp, nrec=nrec, wild=wild, seg=seg, window=label, max_excursion=maxexc, continuous=continuous, got=sp.spectrum(), want=want)
                        c.check(close(sp.frequencies(), np.arange(sg // 2 + 1) / (2 * (sg // 2) * dt)), "noise-freq", "frequencies", seg=seg, got=sp.frequencies())
                        if sg == nsamp:
                            c.check(nr.noise_psd is not None and close(np.array(nr.noise_psd), want, 1e-7), "noise-psd-stored", "stored spectrum", nsamp=nsamp, seg=seg, group=grp)
                        c.state("nspec", nsamp, continuous, ci, grp, seg, label, maxexc)
            if not continuous:
                try:
                    make().compute_power_spectrum_reshape(seg_length=nsamp + 1)
                    c.violate("noise-resegmented", "broken records were resegmented", nsamp=nsamp)
                except ValueError:
                    pass
            # autocorrelations
            N = nsamp * nrec
            if continuous:
                lags = [None, nsamp, nsamp + 1, 2 * nsamp, 1, 2]
                ranges = [None, (0, N), (1, N), (nsamp, N), (3, N - 2), (0, 15 * nsamp), (2, 2 + 15 * nsamp)]
            else:
                lags = [None, *range(1, nsamp + 1)]
                ranges = [None, *((a, b) for a in (0, 1, nsamp - 1, nsamp, nsamp + 1) for b in (N, N - 1, N - nsamp, N - nsamp + 1))]
            for nl in lags:
                for rg in ranges:
                    for maxexc in (1000, 1e6):
                        a, b = rg or (0, N)
                        if b <= a:
                            continue
                        if continuous:
                            part = stream[a:b]
                            want_n = nl or len(stream)
                            if len(part) < 15 * want_n:
                                want_n = len(part) // 15
                                if want_n < nsamp:
                                    continue
                            try:
                                with np.errstate(all="ignore"):
                                    want = cont_ac(part, want_n, maxexc)
                            except ZeroDivisionError:
                                continue
                        else:
                            use = [r for i, r in enumerate(recs) if i * nsamp >= a and (i + 1) * nsamp <= b and max(r) - min(r) <= maxexc]
                            if not use:
                                continue
                            want = broken_ac(use, nl or nsamp)
                        if not np.all(np.isfinite(want)):
                            continue
                        ok, nr = c.run("noise-open", make)
                        if not ok:
                            return
                        ok, _ = c.run("noise-autocorr", nr.compute_autocorrelation, n_lags=nl, data_samples=None if rg is None else list(rg), plot=False, max_excursion=maxexc)
                        if not ok:
                            continue
                        got = np.array(nr.autocorrelation)
                        c.trans()
                        c.check(close(got, want, 1e-7), "noise-autocorr", "noise autocorrelation equals its definition", nsamp=nsamp, nrec=nrec, wild=wild, n_lags=nl, data_samples=rg, max_excursion=maxexc, continuous=continuous, group=grp, got=got, want=want)
                        c.state("nac", nsamp, continuous, ci, grp, nl, rg, maxexc)
            if h5 is not None:
                h5.close()
        c.check(open(fn, "rb").read() == before, "file-changed", "noise analysis changed the file")
        c.trace()
    c.sample({"what": "noise file", "nsamp": nsamp, "continuous": continuous})


def noise_group(c, nsamp, continuous):
    """through data groups: compute_noise, repeat, force, reopen"""
    import mass
    nrec, wild = (40, (17,)) if continuous else (7, (2,))
    for exc in (1000, 100000):
        d = c.newdir()
        recs = noise_recs(nsamp, nrec, wild)
        nf = write_noise(os.path.join(d, "n_chan1.ljh"), recs, nsamp, 2)
        pf = write_noise(os.path.join(d, "a_chan1.ljh"), noise_recs(nsamp, 3), nsamp, 2)
        want_psd = nofile_oracle(recs, nsamp, nsamp, wdef("hann", 2 * (nsamp // 2)), 1e-5, exc, continuous)
        want_ac = cont_ac([v for r in recs for v in r], nsamp, exc) if continuous else broken_ac([r for r in recs if max(r) - min(r) <= exc])
        for hist in (("do",), ("do", "do"), ("do", "force"), ("do", "reopen"), ("do", "reopen", "do"), ("do", "reopen", "force"), ("old",), ("nlags", "do"), ("do", "nlags")):
            for f in os.listdir(d):
                if f.endswith(".hdf5"):
                    os.remove(os.path.join(d, f))

            def openit():
                return mass.TESGroup([pf], [nf], noise_is_continuous=continuous, overwrite_hdf5_file=False)
            ok, g = c.run("group-open", openit)
            if not ok:
                return
            done = False
            for op in hist:
                if op == "reopen":
                    g.hdf5_file.close()
                    g.hdf5_noisefile.close()
                    ok, g = c.run("group-open", openit)
                elif op == "nlags":
                    ds = g.channel[1]
                    if not continuous:
                        continue
                    for nl in (nsamp, nsamp + 2, 2 * nsamp):
                        stream = [v for r in recs for v in r]
                        try:
                            want_nl = cont_ac(stream, nl, exc)
                        except ZeroDivisionError:
                            continue   # too few data or no usable chunk
                        ok, _ = c.run("compute_noise_nlags", ds.compute_noise_nlags, nl, max_excursion=exc)
                        if ok:
                            got = np.array(ds.noise_records_nlags.autocorrelation)
                            c.check(close(got, want_nl, 1e-7), "nlags-autocorr", "compute_noise_nlags autocorrelation", n_lags=nl, got=got)
                            wantp = nofile_oracle(recs, nsamp, nl, wdef("hann", 2 * (nl // 2)), 1e-5, exc, True)
                            c.check(close(np.array(ds.noise_records_nlags.noise_psd), wantp, 1e-7), "nlags-psd", "compute_noise_nlags spectrum", n_lags=nl)
                elif op == "old":
                    ok, _ = c.run("compute_noise_spectra", g.channel[1].compute_noise_spectra, max_excursion=exc)
                    done = True
                else:
                    ok, _ = c.run("compute_noise", g.channel[1].compute_noise, max_excursion=exc, forceNew=(op == "force"))
                    done = True
                if not ok:
                    break
                c.trans()
                if done:
                    ds = g.channel[1]
                    for nm, arr, want in (("autocorr", ds.noise_autocorr, want_ac), ("psd", ds.noise_psd, want_psd)):
                        c.check(close(np.array(arr), want, 1e-7), f"group-{nm}", "stored noise result equals its definition", hist=hist, nsamp=nsamp, continuous=continuous, got=np.array(arr), want=want)
                    df = ds.noise_psd.attrs["delta_f"]
                    c.check(abs(df - 1 / (2 * (nsamp // 2) * 1e-5)) < 1e-6 * df, "group-df", "frequency step", got=df)
            g.hdf5_file.close()
            g.hdf5_noisefile.close()
            c.state("group", nsamp, continuous, exc, hist)
            c.trace()


def lowpass(c, nmax):
    """brick-wall low-pass filter used for plotting"""
    from mass.core.analysis_algorithms import filter_signal_lowpass
    for n in range(1, nmax):
        x = np.array([((7 * i * i + i) % 19) - 6.0 for i in range(n)])
        keep = x.copy()
        for fs in (1.0, 1e5):
            for frac in (0.0, 0.03, 0.11, 0.27, 0.41, 0.6):
                ok, got = c.run("lowpass", filter_signal_lowpass, x, fs, frac * fs)
                if not ok:
                    continue
                t = np.arange(n)
                want = np.zeros(n)
                for k in range(n // 2 + 1):
                    if k * fs / n < frac * fs:
                        g = 1.0 if k == 0 or 2 * k == n else 2.0
                        for tr in (np.cos, np.sin):
                            bs = tr(2 * np.pi * k * t / n)
                            want += g / n * (bs @ x) * bs
                c.check(np.allclose(got, want, atol=1e-9), "lowpass", "low-passed signal", n=n, fs=fs, fcut=frac * fs, got=np.real(got), want=want)
                c.check(np.array_equal(x, keep), "input-changed", "low-pass changed its input")
                c.trans()
                c.state("lp", n, fs, frac)


def shards(tier):
    th = tier == "thorough"
    out = []
    for ov in (False, True):
        for m in (1, 2, 3) if not th else (1, 2, 3, 5):
            for wi in range(4 if m == 1 else 8):
                if m == 1 and wi >= 5:
                    continue
                depth = 3 if not th else 4
                if m == 2 and wi in {0, 6}:
                    depth += 1
                out.append((f"hist-{'o' if ov else 'p'}{m}w{wi}", (histories, (ov, m, wi, depth))))
    for m, al in ((1, (-2, 0, 1, 3, 250)), (2, (-1, 0, 3)), (3, (0, 1, 3) if th else (0, 1))):
        k = 4 if m > 1 else 1
        for i in range(k):
            out.append((f"vec{m}-{i}", (vectors, (m, al, i, k))))
    for m in (1, 2, 3):
        out.append((f"split{m}", (splits, (False, m, 5 if not th else 8))))
        out.append((f"ovsplit{m}", (splits, (True, m, 5 if not th else 10))))
    out.append(("convenience", (convenience, (28 if not th else 70,))))
    for ns in (4, 5, 6) if not th else (4, 5, 6, 7, 8):
        for cont in (False, True):
            out.append((f"noise{ns}{'c' if cont else 'b'}", (noise_direct, (ns, cont))))
            out.append((f"group{ns}{'c' if cont else 'b'}", (noise_group, (ns, cont))))
    for ns in (40,) if not th else (40, 41):
        out.append((f"noise{ns}c", (noise_direct, (ns, True))))
    out.append(("lowpass", (lowpass, (20 if not th else 60,))))
    return out


def run_shard(c, fn, args):
    fn(c, *args)
