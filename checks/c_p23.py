"""P23: compressing LJH records to OFF. Every small pulse model and record set, against dense projections."""
import itertools
import os
import sys

import numpy as np

from vlib import mkdata
from vlib.ljh import Spec, pattern

PROPERTY = "P23"
EXPLAIN = """A state is a pulse model (existing components, number of extra SVD and five-lag components, training pulses) or an LJH file with a conversion setting
(projector layout and number type, ignored presamples, OFF version, several source files); transitions build, save (inverted or not, repeatedly), reload and convert.  All combinations over small alphabets are run;
the OFF file is read back and every field of every record compared with dense matrix products of the samples.  Whole pipelines (files -> projectors script -> conversion loop -> OFF) are run
over sets of channels, with some channels or files missing, with positive and negative-going pulses."""
ASSUMPTIONS = ["training pulses leave at least as many independent residuals as extra components are requested", "at least two presamples are used for the pretrigger mean and slope",
               "LJH 2.1 time stamps are compared to within a microsecond (they are not whole microseconds)"]


def coefs_of(off, sl):
    """All the coefficients of some records of an OFF file, in order."""
    rec = off[sl]
    cols = [rec["pulseMean"], rec["derivativeLike"], rec["filtValue"]]
    out = np.column_stack(cols)
    return np.column_stack([out, rec["extraCoefs"]]) if "extraCoefs" in rec.dtype.names else out


def f32(a):
    return np.asarray(a, dtype=np.float32)


def close(a, b, tol=1e-9, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    s = np.max(np.abs(b), initial=0.0) if scale is None else scale
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (s + 1e-30)))


# ---- models
def base_model(n, which):
    """constant, derivative-like and pulse-like components with projectors dual to them"""
    t = np.arange(n) - 2.0
    pulse = np.where(t > 0, np.exp(-np.clip(t, 0, None) / 3.0) - np.exp(-np.clip(t, 0, None) / 0.8), 0.0)
    if which == 1:
        pulse = np.where(t > 0, 1.0 / (1 + np.clip(t, 0, None)), 0.0)
    d = np.diff(pulse, prepend=0.0)
    B = np.vstack([np.ones(n), d, pulse]).T
    W = np.diag(1.0 + 0.1 * np.arange(n)) if which else np.eye(n)
    P = np.linalg.solve(B.T @ W @ B, B.T @ W)
    return P, B


def conditioned(residuals, k):
    """Whether k components of the residuals can be told from rounding errors (the range finder cubes singular values)"""
    s = np.linalg.svd(residuals, compute_uv=False)
    return k == 0 or bool(k <= s.size and s[k - 1] > 1e-2 * s[0] and s[k - 1] > 1e-9)


def models(c, n, which):
    import h5py
    from mass.core.pulse_model import PulseModel
    P0, B0 = base_model(n, which)
    d = c.newdir()
    train_sets = []
    for k in (3, 5, 9):
        rng = np.random.RandomState(n * 10 + k)
        train_sets.append(np.rint(1000 + 300 * rng.rand(n, k) + 2000 * np.outer(B0[:, 2], 1 + rng.rand(k))))
    for train, extra, nb in itertools.product(train_sets, (0, 1, 2, 5), range(3, 3 + n - 3 + 1)):
        nsvd = nb - 3 - extra
        resid = train - B0 @ (P0 @ train)
        if nsvd < 0:
            try:
                PulseModel(P0.copy(), B0.copy(), nb, train, 1., 1., 1., "x", extra, np.zeros(n - 4), np.zeros(n), np.zeros(3), 1., np.zeros(4))
                c.violate("too-few", "a model with fewer components than given was accepted", n_basis=nb, extra=extra)
            except Exception:
                pass
            continue
        if not conditioned(resid, nsvd) or nsvd + extra > n - 3:
            continue
        f5 = np.zeros((n, 5))
        for i in range(5):
            f5[i:i + n - 4, i] = P0[2, 2:-2]
        keep = [a.copy() for a in (P0, B0, train)]
        args = (P0, B0, nb, train, 123.5, 2.5, 0.5, os.path.join(d, "f_chan3.ljh"), extra, P0[2, 2:-2].copy(), B0[:, 2] * 1000, np.arange(1., n // 2 + 2), 12.5, np.arange(float(n), 0, -1))
        ok, m = c.run("model", PulseModel, *args)
        if not ok:
            continue
        c.trans()
        det = dict(n=n, which=which, n_basis=nb, extra=extra, ntrain=train.shape[1])
        c.check(all(np.array_equal(a, b) for a, b in zip(keep, (P0, B0, train))), "input-changed", "building a model changed its inputs", **det)
        P, B = np.array(m.projectors), np.array(m.basis)
        if not c.check(P.shape == (nb, n) and B.shape == (n, nb), "shape", "shapes of projectors and basis", got=(P.shape, B.shape), **det):
            continue
        c.check(np.array_equal(B[:, :3], B0), "first-three", "constant, derivative and pulse components kept", **det)
        rank2 = True
        if extra:
            # residual of the filters after the SVD components
            Bs, Ps = B[:, :nb - extra], P[:nb - extra]
            rank2 = conditioned(f5 - Bs @ (Ps @ f5), extra)
        if rank2:
            c.check(close(P @ B, np.eye(nb), 1e-7), "dual", "projectors times basis is the identity", got=P @ B, **det)
            c.check(close(P[:3] @ B, np.eye(nb)[:3], 1e-7), "dual3", "the first three projectors see nothing of the others", **det)
            # the extra directions lie in the span of the residuals; and exhaust them when there are enough
            if extra == 0 and nsvd:
                u = B[:, 3:]
                r = resid @ np.linalg.pinv(resid, rcond=1e-8)
                c.check(close(r @ u, u, 1e-6), "span", "extra components lie in the span of the training residuals", **det)
                if nsvd == np.linalg.matrix_rank(resid, tol=1e-6):
                    c.check(close(B @ (P @ train), train, 1e-6), "complete", "enough components represent all training pulses", **det)
            if extra == 5:
                c.check(close(B @ (P @ f5), f5, 1e-6), "fivelag", "five extra components represent all five lagged filters", **det)
        labels = m.labels()
        c.check(labels == ["const", "deriv", "pulse", *(f"svd{i}" for i in range(nsvd)), *(f"5lag{i}" for i in range(extra))], "labels", "labels", got=labels, **det)
        # saving, again and again, never changes the model, and reloading gives it back
        for hist in ((False,), (True,), (True, False), (True, True), (False, True, False)):
            path = os.path.join(d, "m.hdf5")
            with h5py.File(path, "w") as h5:
                for i, inv in enumerate(hist):
                    g = h5.create_group(str(i))
                    ok, _ = c.run("toHDF5", m.toHDF5, g, inv)
                    if not ok:
                        return
                    c.trans()
                    c.check(np.array_equal(m.projectors, P) and np.array_equal(m.basis, B), "save-changed", "saving changed the model in memory", hist=hist, **det)
            with h5py.File(path, "r") as h5:
                for i, inv in enumerate(hist):
                    ok, r = c.run("fromHDF5", PulseModel.fromHDF5, h5[str(i)])
                    if not ok:
                        return
                    s = np.ones(nb)
                    if inv:
                        s[1:] = -1
                    c.check(np.array_equal(r.projectors, s[:, None] * P) and np.array_equal(r.basis, s[None, :] * B), "reload", "projectors and basis reload" + (" (inverted but for the mean)" if inv else ""), hist=hist, **det)
                    for a in ("pulses_for_svd", "n_basis", "v_dv", "pretrig_rms_median", "pretrig_rms_sigma", "file_name", "extra_n_basis_5lag", "f_5lag", "average_pulse_for_5lag", "noise_psd", "noise_psd_delta_f", "noise_autocorr"):
                        c.check(np.array_equal(getattr(r, a), getattr(m, a)), "reload-field", f"{a} reloads unchanged", got=getattr(r, a), **det)
                    c.check(r.labels() == labels, "reload-labels", "labels after reloading", **det)
        c.state("model", n, which, train.shape[1], extra, nb)
        c.trace()
    c.sample({"what": "pulse models", "n": n, "which": which})


# ---- conversion of one file
PROJ = ("pinv", "int", "fortran", "float32", "square")


def projbasis(kind, n, nb):
    rng = np.random.RandomState(nb)
    B = rng.randint(-4, 5, size=(n, nb)).astype(float)
    B[:, 0] = 1
    P = np.linalg.pinv(B)
    if kind == "int":
        return rng.randint(-3, 4, size=(nb, n)), B.astype(int)
    if kind == "fortran":
        return np.asfortranarray(P), np.asfortranarray(B)
    if kind == "float32":
        return P.astype(np.float32), B.astype(np.float32)
    return P, B


def check_off(c, path, specs, P, B, nign, offversion, sig, **det):
    """the OFF file holds exactly the projections of all records of all specs, in order"""
    from mass.off.off import OffFile
    ok, off = c.run(f"{sig}:open", OffFile, path)
    if not ok:
        return
    total = sum(len(s.records) for s in specs)
    s0 = specs[0]
    if not c.check(len(off) == total and off.nRecords == total, f"{sig}:count", "one OFF record per LJH record", got=len(off), want=total, **det):
        return
    P, B = np.asarray(P, float), np.asarray(B, float)
    h = off.header
    c.check(h["FileFormatVersion"] == offversion and h["NumberOfBases"] == len(P) and h["FramePeriodSeconds"] == s0.dt, f"{sig}:header", "header", got=str(h)[:300], **det)
    c.check(h["ReadoutInfo"].get("SubframeDivisions", h["ReadoutInfo"]["NumberOfRows"]) == s0.divisions, f"{sig}:divisions", "subframe divisions", got=h["ReadoutInfo"], want=s0.divisions, **det)
    c.check(np.array_equal(off.projectors, P) and np.array_equal(off.basis, B), f"{sig}:model", "projectors and basis stored exactly", **det)
    k = 0
    for s in specs:
        D = s.data().astype(float)
        n = len(D)
        if n == 0:
            continue
        sl = slice(k, k + n)
        k += n
        rec = off[sl]
        co = coefs_of(off, sl)
        C = D @ P.T
        mag = np.abs(D) @ np.abs(P).T * (1e-6 if det.get("kind") == "float32" else 1e-12)
        c.check(bool(np.all(np.abs(co - C) <= 2e-7 * np.abs(C) + mag)), f"{sig}:coefs", "coefficients are projectors times samples", got=co[:2], want=C[:2], **det)
        R = D - C @ B.T
        rs = np.sqrt(((R - R.mean(axis=1, keepdims=True))**2).mean(axis=1))
        c.check(close(rec["residualStdDev"], rs, 3e-7, scale=np.abs(D).max() + np.abs(C @ B.T).max()), f"{sig}:resid", "residual is what the model does not represent", got=rec["residualStdDev"][:3], want=rs[:3], **det)
        npre = s.true_npre
        pre = D[:, :npre - nign]
        c.check(close(rec["pretriggerMean"], pre.mean(axis=1), 2e-7), f"{sig}:ptmean", "pretrigger mean", got=rec["pretriggerMean"][:3], want=pre.mean(axis=1)[:3], **det)
        if offversion == "0.3.0":
            m = npre - nign
            t = np.arange(m) - (m - 1) / 2.0
            delta = (pre @ t) / (t @ t) * (m - 1)
            c.check(close(rec["pretriggerDelta"], delta, 1e-6, scale=np.abs(pre).max() + 1), f"{sig}:ptdelta", "pretrigger slope", got=rec["pretriggerDelta"][:3], want=delta[:3], **det)
        c.check(np.all(rec["recordSamples"] == s.nsamp) and np.all(rec["recordPreSamples"] == npre), f"{sig}:lengths", "record lengths", **det)
        c.check([int(v) for v in rec["framecount"]] == [int(v) // s.divisions for v in s.subframes(n)], f"{sig}:frames", "frame counts", got=rec["framecount"][:3], want=s.subframes(n)[:3], **det)
        nano = [int(v) for v in rec["unixnano"]]
        if s.old:
            want = [t * 1e9 for t in s.times(n)]
            c.check(all(abs(a - b) <= 1000 for a, b in zip(nano, want)), f"{sig}:time", "time stamps", got=nano[:3], want=want[:3], **det)
        else:
            c.check(nano == [u * 1000 for u in s.usec(n)], f"{sig}:time", "time stamps", got=nano[:3], want=s.usec(n)[:3], **det)
        for i in range(min(n, 2)):
            x, y = off.recordXY(k - n + i)
            y0 = B @ f32(C[i])
            c.check(close(y, y0, 1e-5, scale=np.abs(B).max() * np.abs(C[i]).sum()), f"{sig}:reconstruct", "reconstructed pulse is basis times coefficients", got=y, want=y0, **det)
            c.check(np.allclose(x, (np.arange(s.nsamp) - npre) * s.dt), f"{sig}:times", "sample times", got=x, **det)
    off.close()


def mkspec(version, nsamp, npre, nrec, salt=0, **kw):
    T0 = 1_600_000_000_123_457
    recs = []
    for i, smp in enumerate(pattern(nsamp, nrec, salt)):
        if version.startswith("2.1"):
            recs.append(((37 * i + salt) % 250, 1000 + 13 * i, smp))
        else:
            recs.append((1000 * i + 7 * salt + 3, T0 + 1001 * i + salt, smp))
    return Spec(version=version, nsamp=nsamp, npre=npre, records=recs, **kw)


def convert(c, version, nsamp, npre):
    from mass.core import ljh2off
    d = c.newdir()
    kws = [dict(rows=1, row=0), dict(rows=8, cols=2, row=3, col=1), dict(rows=4, row=1, subdiv=64, suboff=0)]
    for ki, kw in enumerate(kws):
        if version == "2.1.0" and ki == 2:
            continue
        for nrec in (0, 1, 2, 5):
            spec = mkspec(version, nsamp, npre, nrec, **kw)
            ljh = spec.write(os.path.join(d, f"a{ki}_{nrec}_chan2.ljh"))
            raw = open(ljh, "rb").read()
            for kind in PROJ:
                for nb in (3, 4) if kind != "square" else (nsamp,):
                    P, B = projbasis(kind, nsamp, nb)
                    kp, kb = P.copy(), B.copy()
                    for nign in range(0, spec.true_npre - 1):
                        for ov in ("0.3.0", "0.2.0", "0.1.0"):
                            out = os.path.join(d, "o_chan2.off")
                            det = dict(version=version, nsamp=nsamp, npre=npre, nrec=nrec, kind=kind, nb=nb, n_ignore=nign, off_version=ov, header=kw)
                            ok, _ = c.run("ljh2off", ljh2off.ljh2off, ljh, out, P, B, nign, "model.hdf5", **({} if ov == "0.3.0" else {"off_version": ov}))
                            if not ok:
                                continue
                            c.trans()
                            check_off(c, out, [spec], P, B, nign, ov, "conv", **det)
                            c.state("conv", version, nsamp, npre, ki, nrec, kind, nb, nign, ov)
                    c.check(np.array_equal(P, kp) and np.array_equal(B, kb), "input-changed", "conversion changed the model")
            c.check(open(ljh, "rb").read() == raw, "source-changed", "conversion changed the LJH file")
            c.trace()
    # several files in sequence
    for counts in itertools.product((0, 1, 3), repeat=3):
        specs = [mkspec(version, nsamp, npre, n, salt=11 * j + 1, rows=1, row=0) for j, n in enumerate(counts)]
        paths = [s.write(os.path.join(d, f"m{j}_chan2.ljh")) for j, s in enumerate(specs)]
        P, B = projbasis("pinv", nsamp, 3)
        out = os.path.join(d, "o_chan2.off")
        for k in (2, 3):
            ok, _ = c.run("multi_ljh2off", ljh2off.multi_ljh2off, paths[:k], out, P, B, 0, "model.hdf5")
            if ok:
                c.trans()
                check_off(c, out, specs[:k], P, B, 0, "0.3.0", "multi", counts=counts[:k])
            c.state("multi", version, nsamp, npre, counts[:k])
    c.sample({"what": "conversion", "version": version, "nsamp": nsamp, "npre": npre})


def big(c, nsamp, nrec):
    """longer than one block of samples"""
    from mass.core import ljh2off
    d = c.newdir()
    spec = mkspec("2.2.0", nsamp, 5, nrec, rows=1, row=0)
    ljh = spec.write(os.path.join(d, "a_chan2.ljh"))
    P, B = projbasis("pinv", nsamp, 3)
    out = os.path.join(d, "o_chan2.off")
    ok, _ = c.run("ljh2off", ljh2off.ljh2off, ljh, out, P, B, 1, "model.hdf5")
    if ok:
        check_off(c, out, [spec], P, B, 1, "0.3.0", "big", nsamp=nsamp, nrec=nrec)
    c.trans()
    c.state("big", nsamp, nrec)
    c.trace()


# ---- loops over channels
def loops(c, first):
    import h5py
    from mass.core import ljh2off
    from mass.core.pulse_model import PulseModel
    n = 8
    P0, B0 = base_model(n, 0)
    mods = {}
    for ch in (1, 2, 11):
        mods[ch] = PulseModel(P0 * ch, B0 / ch, 3, np.ones((n, 2)), 1., 1., 1., f"x{ch}", 0, np.zeros(n - 4), np.zeros(n), np.zeros(3), 1., np.zeros(4))
    for have in itertools.product((first,), (0, 1, 2, 3), (0, 1, 2, 3)):        # channel 1, 2, 11: bit 0: first base, bit 1: second base
        for inmodel in itertools.product((False, True), repeat=3):
            if not any(inmodel):
                continue
            d = c.newdir()
            os.makedirs(os.path.join(d, "src"))
            os.makedirs(os.path.join(d, "out"))
            h5p = os.path.join(d, "model.hdf5")
            with h5py.File(h5p, "w") as h5:
                for ch, y in zip((1, 2, 11), inmodel):
                    if y:
                        mods[ch].toHDF5(h5.create_group(str(ch)), False)
            bases = [os.path.join(d, "src", b) for b in ("run1", "run2")]
            specs = {}
            for ch, bits in zip((1, 2, 11), have):
                for j in (0, 1):
                    if bits >> j & 1:
                        s = mkspec("2.2.0", n, 4, 2 + j, salt=ch + 5 * j, rows=1, row=0)
                        s.write(f"{bases[j]}_chan{ch}.ljh")
                        specs[ch, j] = s
            for maxch in (100, 1, 2):
                for nbase in (1, 2):
                    out = os.path.join(d, "out", f"o{maxch}{nbase}")
                    ok, r = c.run("loop", ljh2off.multi_ljh2off_loop, bases[:nbase], h5p, out, maxch, 1, False)
                    if not ok:
                        continue
                    want = []
                    for ch, y in zip((1, 2, 11), inmodel):
                        js = [j for j in range(nbase) if (ch, j) in specs]
                        if y and js and len(want) < maxch:
                            want.append((ch, js))
                    det = dict(have=have, inmodel=inmodel, max_channels=maxch, nbase=nbase)
                    c.trans()
                    c.check(r[1] == [f"{out}_chan{ch}.off" for ch, _ in want], "loop-files", "OFF files made", got=r[1], want=want, **det)
                    made = sorted(f for f in os.listdir(os.path.join(d, "out")) if f.startswith(f"o{maxch}{nbase}_"))
                    c.check(made == sorted(f"o{maxch}{nbase}_chan{ch}.off" for ch, _ in want), "loop-made", "exactly these files are made", got=made, **det)
                    for ch, js in want:
                        if os.path.exists(f"{out}_chan{ch}.off"):
                            check_off(c, f"{out}_chan{ch}.off", [specs[ch, j] for j in js], P0 * ch, B0 / ch, 1, "0.3.0", "loop", **det)
            # one base, with the experiment state file
            for state in (None, "# unix time in nanoseconds, state label\n1600000000000000000, START\n1600000000123458000, A\n"):
                od = os.path.join(d, "od" + ("s" if state else ""))
                os.makedirs(od)
                src = f"{bases[0]}_experiment_state.txt"
                if state:
                    open(src, "w").write(state)
                want = [ch for ch, y in zip((1, 2, 11), inmodel) if y and (ch, 0) in specs]
                import contextlib
                import io
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        r = ljh2off.ljh2off_loop(f"{bases[0]}_chan1.ljh", h5p, od, 100, 1, state is not None, False)
                except Exception as ex:
                    c.violate("ljh2off_loop", f"{type(ex).__name__}: {ex}", have=have, inmodel=inmodel)
                    continue
                c.check(list(r[1]) == [os.path.join(od, f"run1_chan{ch}.off") for ch in want] and list(r[0]) == [f"{bases[0]}_chan{ch}.ljh" for ch in want], "ljh2off_loop-files", "files converted", got=r, want=want)
                dst = os.path.join(od, "run1_experiment_state.txt")
                c.check(os.path.exists(dst) == bool(state) and (not state or open(dst).read() == state), "state-copied", "experiment state file copied")
                if state:
                    os.remove(src)
            c.state("loop", have, inmodel)
            c.trace()
    c.sample({"what": "loops", "channels": [1, 2, 11]})


# ---- whole pipeline
def pipeline(c, nbasis, extra, dirname):
    import h5py
    import mass
    from mass.core import ljh2off, projectors_script
    res = {}
    for inv in (False, True):
        d = os.path.join(c.newdir(), dirname)
        for ch in (1, 3):
            a, nz = mkdata.pulse_files(d, chan=ch, npulses=60, nnoise=40)
            if inv:
                for fn in (a, nz):
                    f = mass.LJHFile.open(fn)
                    off, ns, rec = f.header_size, f.nSamples, f.pulse_size_bytes
                    del f
                    b = bytearray(open(fn, "rb").read())
                    for p in range(off, len(b), rec):
                        x = np.frombuffer(bytes(b[p + 16:p + rec]), dtype="<u2")
                        b[p + 16:p + rec] = (~x).tobytes()
                    open(fn, "wb").write(bytes(b))
        pf = [os.path.join(d, f"a_chan{ch}.ljh") for ch in (1, 3)]
        nf = [os.path.join(d, f"n_chan{ch}.ljh") for ch in (1, 3)]
        with h5py.File(os.path.join(d, "model.hdf5"), "w") as h5:
            ok, r = c.run("make_projectors", projectors_script.make_projectors, pf, nf, h5, 10000, 8, nbasis, 4000, os.path.join(d, "mass.hdf5"), os.path.join(d, "massn.hdf5"),
                          inv, True, extra, True)
        if not ok:
            return
        if not c.check(tuple(r) == (2, 2), "pipeline-good", "both channels good", got=r):
            return
        P, B, f5 = {}, {}, {}
        with h5py.File(os.path.join(d, "model.hdf5"), "r") as h5:
            c.check(sorted(h5) == ["1", "3"], "pipeline-models", "a model per channel", got=sorted(h5))
            for ch in (1, 3):
                m = mass.PulseModel.fromHDF5(h5[str(ch)])
                P[ch], B[ch], f5[ch] = m.projectors, m.basis, m.f_5lag
                nb = nbasis
                c.check(close(m.projectors @ m.basis, np.eye(nb), 1e-6), "pipeline-dual", "projectors times basis is the identity", got=m.projectors @ m.basis, n_basis=nbasis, extra=extra)
        ok, r = c.run("pipeline-convert", ljh2off.ljh2off_loop, pf[0], os.path.join(d, "model.hdf5"), d, 100, 2, False, False)
        if not ok:
            return
        c.trans()
        # the same filter in the data group
        g = mass.TESGroup(pf, nf, hdf5_filename=os.path.join(d, "mass2.hdf5"), hdf5_noisefilename=os.path.join(d, "massn2.hdf5"))
        for ds in g:
            ds.invert_data = inv
        g.summarize_data()
        g.auto_cuts(nsigma_pt_rms=10000, nsigma_max_deriv=8)
        g.compute_noise()
        g.compute_ats_filter(shift1=False, optimize_dp_dt=True)
        g.filter_data()
        ok, name = c.run("pulse_model_to_hdf5", g.pulse_model_to_hdf5, None, n_basis=3, replace_output=True, _rethrow=True)
        if ok:
            c.check(name == os.path.join(d, "a_model.hdf5") and os.path.isfile(name), "model-name", "name of the model file", got=name)
            try:
                g.pulse_model_to_hdf5(None, n_basis=3)
                c.violate("model-overwritten", "an existing model file was overwritten without being asked to")
            except Exception:
                pass
            # into an open file: the same contents; a failing channel is marked bad alone, or its error is passed on
            import h5py
            with h5py.File(os.path.join(d, "open.hdf5"), "w") as h5, h5py.File(name, "r") as ref:
                ok, other = c.run("model-open-file", g.pulse_model_to_hdf5, h5, n_basis=3, _rethrow=True)
                if ok:
                    c.check(other == h5.filename and sorted(h5) == sorted(ref), "model-open-name", "channels of the model file", got=sorted(h5))
                    for ch in ref:
                        for k in ("projectors", "basis", "5lag_filter", "v_dv"):
                            c.check(np.array_equal(h5[f"{ch}/svdbasis/{k}"][()], ref[f"{ch}/svdbasis/{k}"][()]), "model-open-same", f"{k} of channel {ch}")
                    del h5["3"]
                    try:
                        g.pulse_model_to_hdf5(h5, n_basis=3, _rethrow=True)
                        c.violate("model-no-error", "the error of a failing channel was not passed on")
                    except Exception:
                        pass
                    c.check(g.good_channels == [1, 3] or g.good_channels == [3], "model-marks", f"good channels {g.good_channels}")
                    g.set_chan_good(1, 3)
                    if "3" in h5:
                        del h5["3"]
                    c.run("model-one-fails", g.pulse_model_to_hdf5, h5, n_basis=3)
                    c.check(g.good_channels == [3] and "3" in h5, "model-one-fails", f"good channels {g.good_channels}, models of {sorted(h5)}")
                    g.set_chan_good(1, 3)
        for ch in (1, 3):
            ds = g.channel[ch]
            off = mass.off.off.OffFile(os.path.join(d, f"a_chan{ch}.off"))
            raw = ds.pulse_records.datafile
            D = np.array([mass.LJHFile.open(pf[(1, 3).index(ch)])[i] for i in range(60)], float)
            co = np.array(coefs_of(off, slice(None)), float)
            C = D @ P[ch].T
            c.check(close(co, C, 1e-6), "pipeline-coefs", "coefficients are projectors times raw samples")
            c.check(len(off) == 60 and [int(v) for v in off["unixnano"]] == [int(round(t * 1e6)) * 1000 for t in raw.datatimes_float], "pipeline-times", "records and time stamps in order")
            fv = np.array(ds.p_filt_value[:], float)
            if not inv:
                c.check(np.allclose(co[:, 2], fv, rtol=1e-4, atol=0.5), "pipeline-filtvalue", "the third coefficient is the arrival-time-safe filtered value", got=co[:3, 2], want=fv[:3])
            else:
                c.check(np.allclose(co[:, 2], fv, rtol=1e-4, atol=0.5), "pipeline-filtvalue-inv", "the third coefficient of inverted data is the filtered value", got=co[:3, 2], want=fv[:3])
            res[inv, ch] = (co, np.array(off["residualStdDev"], float))
            if extra == 5:
                # five-lag filter in coefficient space
                from mass.off import Channel
                chn = Channel(off, None, verbose=False)
                ok, _ = c.run("add5Lag", chn.add5LagRecipes, f5[ch])
        for gg in (g,):
            gg.hdf5_file.close()
            gg.hdf5_noisefile.close()
        c.state("pipeline", nbasis, extra, inv, dirname)
    if nbasis == 3 and len(res) == 4:
        for ch in (1, 3):
            (a, ra), (b, rb) = res[False, ch], res[True, ch]
            c.check(np.allclose(a[:, 1:], b[:, 1:], rtol=1e-3, atol=1.0) and np.allclose(a[:, 0], 65535 - b[:, 0], atol=1.0) and np.allclose(ra, rb, rtol=1e-3, atol=1e-2), "pipeline-inverted",
                    "the model of inverted data sees the same pulses", got=b[:2], want=a[:2])
    c.trace()
    c.sample({"what": "pipeline", "n_basis": nbasis, "extra": extra})


# ---- the two programs
def programs(c, part, nparts):
    """make_projectors and ljh2off as run from the command line"""
    import shutil
    import h5py
    import mass
    from mass.core import ljh2off, projectors_script
    d0 = c.newdir()
    for ch in (1, 3, 11):
        mkdata.pulse_files(d0, chan=ch, npulses=40, nnoise=25)
    for k in range(3):   # names that are of other sets
        shutil.copy(os.path.join(d0, "a_chan3.ljh"), os.path.join(d0, ("ab_chan3.ljh", "a_chan3.txt.bak", "a2_chan5.ljh")[k]))

    def call(what, mod, argv):
        old, sys.argv = sys.argv, ["prog", *argv]
        try:
            mod.main()
            return 0
        except SystemExit as e:
            return e.code if e.code is not None else 0
        except Exception as e:
            return e
        finally:
            sys.argv = old

    def model(path):
        out = {}
        with h5py.File(path, "r") as h5:
            for ch in h5:
                m = mass.PulseModel.fromHDF5(h5[ch])
                out[int(ch)] = (m.projectors, m.basis, m.v_dv, m.f_5lag)
        return out
    direct = {}
    cases = list(itertools.product(((1, 3, 11), (3, 11), (11,)), (None, 1, 2, 7), (False, True), ("new", "exists", "replace")))
    for idx, (noise, maxch, given, state) in enumerate(cases):
        if idx % nparts != part:
            continue
        d = os.path.join(c.newdir(), "run.ljhdir")
        os.makedirs(d)
        for f in os.listdir(d0):
            if f.startswith("n_") and int(f[6:-4]) not in noise:
                continue
            os.symlink(os.path.join(d0, f), os.path.join(d, f))
        want = sorted(noise)[:maxch]
        target = os.path.join(d, "mine.hdf5" if given else "a_model.hdf5")
        if state != "new":
            open(target, "wb").write(b"precious")
        nb = 3 + idx // nparts % 2
        argv = [os.path.join(d, "a_chan3.ljh"), os.path.join(d, f"n_chan{noise[-1]}.ljh"), "-n", str(nb), "--silent", "--n_sigma_pt_rms", "9000",
                "--mass_hdf5_path", os.path.join(d, "m.hdf5"), "--mass_hdf5_noise_path", os.path.join(d, "mn.hdf5")]
        argv += ["-o", target] if given else []
        argv += ["-m", str(maxch)] if maxch else []
        argv += ["-r"] if state == "replace" else []
        case = dict(noise=noise, max=maxch, given=given, state=state)
        c.state("projectors-program", *case.values())
        r = call("projectors", projectors_script, argv)
        c.trans()
        if state == "exists":
            c.check(r == 1 and open(target, "rb").read() == b"precious", "program-overwrites", "an existing model file was not respected", got=r, **case)
            c.check(not os.path.exists(os.path.join(d, "m.hdf5")), "program-aborts", "the aborted program left files", **case)
            continue
        if not c.check(r == 0 and os.path.isfile(target), "program-fails", f"make_projectors failed: {r!r}", **case):
            continue
        m = model(target)
        c.check(sorted(m) == want, "program-channels", "models of other channels than those with both pulses and noise", got=sorted(m), want=want, **case)
        for ch in m:
            if ch not in direct:
                dd = c.newdir()
                with h5py.File(os.path.join(dd, "x.hdf5"), "w") as h5:
                    projectors_script.make_projectors([os.path.join(d0, f"a_chan{ch}.ljh")], [os.path.join(d0, f"n_chan{ch}.ljh")], h5, 9000, 8, 3, 4000, os.path.join(dd, "m.hdf5"), os.path.join(dd, "n.hdf5"), False, True, 0, True)
                direct.update(model(os.path.join(dd, "x.hdf5")))
            c.check(m[ch][0].shape[0] == nb == m[ch][1].shape[1], "program-nbasis", "components of the model", got=m[ch][0].shape, want=nb, chan=ch, **case)
            if nb == 3:   # (further components are found with random vectors)
                c.check(all(close(a, b, 1e-9) for a, b in zip(m[ch], direct[ch])), "program-model", "the model is not that of the channel alone", chan=ch, **case)
        c.trace()
        # conversion
        for k, (outdir, have, replace, exps, m2, ign) in enumerate(itertools.product(("off",), (False, True), (False, True), (False, True), (None, 1), (0, 2))):
            if (k + idx) % 5:
                continue
            out = os.path.join(d, f"{outdir}{k}")
            if have:
                os.makedirs(out)
                open(os.path.join(out, "a_chan11.off"), "wb").write(b"precious")
            sf = os.path.join(d, "a_experiment_state.txt")
            if os.path.exists(sf):
                os.remove(sf)
            if exps:
                open(sf, "w").write("# unix time in nanoseconds, state label\n1600000001000000000, A\n")
            argv = [os.path.join(d, "a_chan11.ljh"), target, out] + (["-r"] if replace else []) + (["-m", str(m2)] if m2 else []) + (["--n_ignore_presamples", str(ign)] if ign else [])
            r = call("ljh2off", ljh2off, argv)
            c.trans()
            cc = dict(case, have=have, replace=replace, exps=exps, max=m2, ignore=ign)
            c.state("ljh2off-program", *cc.values())
            if have and not replace:
                c.check(r == 0 and os.listdir(out) == ["a_chan11.off"] and open(os.path.join(out, "a_chan11.off"), "rb").read() == b"precious", "program-off-overwrites", "an existing directory was written to", got=r, files=os.listdir(out), **cc)
                continue
            if not exps:
                c.check(isinstance(r, Exception) and not os.path.exists(os.path.join(out, "a_experiment_state.txt")), "program-off-state", "a missing state file was not noticed", got=repr(r), **cc)
                continue
            wantc = want[:m2]
            if not c.check(r == 0, "program-off-fails", f"ljh2off failed: {r!r}", **cc):
                continue
            files = {f for f in os.listdir(out) if f.endswith(".off")} - ({"a_chan11.off"} if have and 11 not in wantc else set())
            c.check(files == {f"a_chan{ch}.off" for ch in wantc}, "program-off-channels", "files of other channels than asked", got=sorted(files), want=wantc, **cc)
            c.check(open(os.path.join(out, "a_experiment_state.txt")).read() == open(sf).read(), "program-off-copy", "the state file was not copied", **cc)
            for ch in wantc:
                off = mass.off.off.OffFile(os.path.join(out, f"a_chan{ch}.off"))
                f = mass.LJHFile.open(os.path.join(d, f"a_chan{ch}.ljh"))
                D = np.array([f[i] for i in range(f.nPulses)], float)
                c.check(len(off) == 40 and close(np.array(coefs_of(off, slice(None)), float), D @ m[ch][0].T, 1e-6), "program-off-coefs", "coefficients are not projectors times samples", chan=ch, **cc)
                c.check(close(np.array(off["pretriggerMean"], float), D[:, :f.nPresamples - ign].mean(axis=1), 1e-6), "program-off-ptm", "pretrigger mean", chan=ch, **cc)
            c.trace()
    c.sample({"what": "programs", "cases": len(cases)})


def shards(tier):
    th = tier == "thorough"
    out = []
    for n in (8, 9, 12) if not th else (8, 9, 10, 12, 16):
        for w in (0, 1):
            out.append((f"models{n}-{w}", (models, (n, w))))
    for v in ("2.2.0", "2.2.1", "2.1.0"):
        for ns, npre in ((4, 2), (5, 3), (6, 4)) + (((9, 5), (12, 6)) if th else ()):
            if v == "2.1.0":
                npre = min(npre, ns - 1)
            out.append((f"convert{v}-{ns}-{npre}", (convert, (v, ns, npre))))
    out.append(("big-1000", (big, (1000, 1100))))
    out.append(("big-3000", (big, (3000, 720))))
    if th:
        out.append(("big-9", (big, (9, 70000))))
    for i in range(8):
        out.append((f"programs{i}", (programs, (i, 8))))
    for i in range(4):
        out.append((f"loops{i}", (loops, (i,))))
    for nb, ex in ((3, 0), (5, 0), (6, 2)) + (((4, 1), (8, 5)) if th else ()):
        out.append((f"pipeline{nb}-{ex}", (pipeline, (nb, ex, "plain" if nb != 5 else "chan_data.chan"))))
    return out


def run_shard(c, fn, args):
    fn(c, *args)
