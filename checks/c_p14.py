"""P14: filters applied to every small record, in every implementation, against the dense definition."""
import itertools
import os

import numpy as np

from vlib import mkdata
from vlib.ljh import Spec
from vlib.offs import OffSpec

PROPERTY = "P14"
EXPLAIN = """The fast five-lag implementation filters every record of 8 (and, over two letters, 9-10) samples over several
sample alphabets with every filter over {-1,0,1} (and others); each value and phase is compared with the vertex of the
least-squares parabola through the five plain dot products.  Through channels, real filters of every kind (five-lag,
arrival-time-safe with and without the one-sample shift) x trims x band limits x transforms are applied by each
implementation to ordinary and degenerate records in one or many segments; the OFF recipes are compared on every small
basis, filter and coefficient vector.  Scaling and adding constants are checked on the same records."""
ASSUMPTIONS = ["records of at least 8 samples", "records whose five-lag parabola is degenerate (zero curvature) have no value and are not compared"]

LAGS = np.array([-2., -1, 0, 1, 2])
FIT = np.linalg.pinv(np.vander(LAGS, 3, increasing=True))     # rows: constant, linear, quadratic coefficient


def dense(X, f):
    """value, phase, and whether they are defined"""
    n = X.shape[1]
    conv = np.array([X[:, k:n - 4 + k] @ f for k in range(5)])
    c, b, a = FIT @ conv
    scale = np.abs(conv).max(axis=0) + 1e-30
    ok = np.abs(a) > 1e-7 * scale
    with np.errstate(all="ignore"):
        return np.where(ok, c - b * b / (4 * a), np.nan), np.where(ok, -b / (2 * a), np.nan), ok, scale / np.maximum(np.abs(a), 1e-30)


def shards(tier):
    out = []
    for alpha in ALPHAS:
        for part in range(4):
            out.append((f"fast-{alpha}-{part}", ("fast", alpha, part, 4)))
    for k in range(8):
        out.append((f"channel-{k}", ("channel", k, 8)))
    out += [(f"off-{nb}", ("off", nb)) for nb in (1, 2, 3)]
    out += [("offchannel", ("offchannel",))]
    return out


ALPHAS = {"low": (0, 1, 5), "mid": (1000, 1001, 1300), "wide": (0, 30000, 65535)}


def run_shard(c, kind, *args):
    globals()["shard_" + kind](c, *args)


def all_records(alpha, n):
    k = len(alpha)
    idx = np.arange(k**n)
    return np.array(alpha, np.uint16)[np.stack([(idx // k**j) % k for j in range(n)][::-1], axis=1)]


def shard_fast(c, alpha, part, nparts):
    from mass.core.analysis_algorithms import filter_data_5lag_cython as fast
    A = ALPHAS[alpha]
    jobs = [(8, A, f) for f in itertools.product((-1., 0., 1.), repeat=4)]
    jobs += [(8, A, f) for f in ((.5, -1.25, 3., -2.25), (1e3, 1e-3, -1e3, 7), (1, 2, 3, 4))]
    jobs += [(n, A[:2] if n > 9 or not c.thorough else A, f) for n in (9, 10) for f in
             (itertools.product((-1., 1.), repeat=n - 4) if c.thorough else
              [tuple(np.roll((3., -1, -1, -1, 0, 0)[:n - 4], k)) for k in range(n - 4)])]
    jobs += [(n, A[:2], tuple((-1.)**k * (k + 1) for k in range(n - 4))) for n in (11, 12)]
    for n, letters, f in jobs[part::nparts]:
        D = all_records(letters, n)
        if n == 8 and not c.thorough:
            D = D[D[:, 0] == letters[(part + int(abs(f[0]))) % 3]]
        f = np.array(f, float)
        saved, fs = D.copy(), f.copy()
        ok, got = c.run("fast", fast, D, f)
        if not ok:
            return
        v, ph, good, cond = dense(D.astype(float), f)
        gv, gp = np.asarray(got[0]), np.asarray(got[1])
        c.check(np.array_equal(D, saved) and np.array_equal(f, fs), "fast:input", "the inputs were modified")
        for name, g, r, tol in (("value", gv, v, 1e-9), ("phase", gp, ph, 1e-9)):
            bad = good & ~(np.abs(g - r) <= tol * cond * (1 + np.abs(r)))
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                c.violate(f"fast:{name}", f"record {D[i].tolist()} filtered by {f.tolist()} has {name} {g[i]}, expected {r[i]}")
        # one record alone; a few, by blocks of any size
        for i in range(0, len(D), max(1, len(D) // 7)):
            one = fast(D[i:i + 1], f)
            c.check(np.array_equal(one[0], gv[i:i + 1], equal_nan=True), "fast:alone", f"{D[i].tolist()} alone: {one[0]}, among others: {gv[i]}")
        for per in (1, 2, 1000):
            blk = fast(D[:9], f, per)
            c.check(np.array_equal(blk[0], gv[:9], equal_nan=True) and np.array_equal(blk[1], gp[:9], equal_nan=True), "fast:blocks",
                    f"blocks of {per}: {blk[0]} not {gv[:9]}")
        c.state(alpha, n, f.tolist())
        c.trans(len(D))
        c.trace(len(D))
    c.outcome("fast")


# ------------------------------------------------------------------ channels
def tf_none(x):
    return x


def tf_square(x):
    return x + 1e-5 * x * x


NS, NPRE = 40, 12


def shard_channel(c, k, n):
    import mass
    rng = np.random.RandomState(5)
    d0 = c.newdir()
    pulse, noise = mkdata.pulse_files(d0, 1, 30, 30, ns=NS, npre=NPRE)
    # extra records: degenerate ones, scaled and offset copies
    t = np.arange(NS)
    shape = np.where(t < NPRE, 0, np.exp(-(t - NPRE) / 10.) - np.exp(-(t - NPRE + 1.) / 2.))
    noisefree = [np.round(1000 + a * shape) for a in (0, 1000, 2000, 4000, 8000)]
    noisefree += [np.round(b + 4000 * shape) for b in (0, 100, 5000, 30000)]
    early = [np.round(1000 + 5000 * np.interp(t + s, t, shape)) for s in (-2, -1, -.5, 0, .5, 1, 2, 3)]
    odd = [np.zeros(NS), np.full(NS, 65535), np.full(NS, 1000), 1000 + 10 * t, np.where(t >= NPRE, 65535, 0), np.where(t == 3, 9000, 500)]
    extra = [np.clip(x, 0, 65535).astype(int) for x in noisefree + early + odd]
    combos = list(itertools.product(("5lag", "ats", "ats-noshift"), (None, tf_none, tf_square), (dict(), dict(cut_pre=2, cut_post=3)),
                                    (dict(), dict(f_3db=10000.), dict(fmax=20000.)), (10**6, 7)))
    for j, (kind, tf, cuts, band, per) in enumerate(combos[k::n]):
        d = c.newdir()
        g0 = mass.TESGroup([pulse], [noise], hdf5_filename=os.path.join(d, "b.hdf5"), hdf5_noisefilename=os.path.join(d, "bn.hdf5"))
        D0 = np.array(g0.channel[1].data[:]).astype(int)
        g0.hdf5_file.close()
        g0.hdf5_noisefile.close()
        D = np.vstack([D0, extra])
        p = Spec(nsamp=NS, npre=NPRE, rows=1, row=0,
                 records=[(i * 50, 1_600_000_000_000_000 + i * 5000, D[i].tolist()) for i in range(len(D))]).write(os.path.join(d, "a_chan1.ljh"))
        g = mass.TESGroup([p], [noise], hdf5_filename=os.path.join(d, "o.hdf5"), hdf5_noisefilename=os.path.join(d, "n.hdf5"))
        ds = g.channel[1]
        ds.pulse_records.set_segment_size(per * (16 + 2 * NS))
        with np.errstate(all="ignore"):
            ds.summarize_data(use_cython=j % 2 == 0, peak_time_microsec=60.5)
        cut = np.zeros(len(D), bool)
        cut[len(D0):] = True
        ds.cuts.cut("pretrigger_rms", cut)
        ds.compute_noise()
        ds.avg_pulses_auto_masks()
        kw = dict(cuts, **band)
        if kind == "5lag":
            ok, _ = c.run(f"{kind}:compute", ds.compute_5lag_filter, **kw)
        else:
            ok, _ = c.run(f"{kind}:compute", ds.compute_ats_filter, shift1=kind == "ats", transform=tf, minimum_n_pulses=10, **kw)
        if not ok:
            continue
        f = np.array(ds.filter.values, float)
        c.check(len(f) == {"5lag": NS - 4, "ats": NS - 1, "ats-noshift": NS}[kind], f"{kind}:length", f"{len(f)} filter samples")
        X = D.astype(float)
        ptm = np.array(ds.p_pretrig_mean[:], float)
        Y = tf(X - ptm[:, None]) if tf is not None else X
        if kind == "5lag":
            v, ph, good, cond = dense(Y, f)
            impl = [("plain", dict(use_cython=False)), ("default", {})] + ([("fast", dict(use_cython=True))] if tf is None else [])
        else:
            sh = np.array(ds.p_shift1[:], bool)
            W = Y if kind == "ats-noshift" else np.where(sh[:, None], Y[:, :-1], Y[:, 1:])
            dt = np.array(ds.filter.dt_values, float)
            v = W @ f
            with np.errstate(all="ignore"):
                ph = (W @ dt) / v
            mag = np.abs(W) @ np.abs(f) + 1e-30
            good = np.abs(v) > 1e-6 * mag
            cond = mag / np.maximum(np.abs(v), 1e-30)
            impl = [("plain", dict(use_cython=False)), ("default", {})]
        for name, ikw in impl:
            with np.errstate(all="ignore"):
                ok, _ = c.run(f"{kind}:{name}", ds.filter_data, transform=tf, forceNew=True, **ikw)
            if not ok:
                continue
            gv, gp = np.array(ds.p_filt_value[:], float), np.array(ds.p_filt_phase[:], float)
            for what, a, b in (("value", gv, v), ("phase", gp, ph)):
                bad = good & ~(np.abs(a - b) <= 4e-7 * np.maximum(1, cond) * (np.abs(b) + (1 if what == "phase" else 1e-3)))
                if bad.any():
                    i = int(np.flatnonzero(bad)[0])
                    c.violate(f"{kind}:{name}:{what}", f"{kind} filter ({kw}, transform {tf and tf.__name__}), {per} records per segment, {name}: "
                              f"record {i} {D[i].tolist()} has {what} {a[i]}, expected {b[i]}")
            c.trans(len(D))
        if tf is None:
            # linear in the pulse, blind to constants (the filter's response to a constant is zero)
            top = np.abs(v[len(D0) + 4])
            c.check(abs(f.sum()) * 30000 < 1e-4 * top, f"{kind}:constant", f"the filter's response to a constant is {f.sum()}")
            gv = np.array(ds.p_filt_value[:], float)[len(D0):]
            c.check(np.all(np.abs(gv[5:9] - gv[3]) < 2e-3 * gv[3]), f"{kind}:offset", f"values {gv[5:9]} of the same pulse over other baselines, not {gv[3]}")
            for i, a in ((1, 1), (2, 2), (3, 4)):
                c.check(abs(gv[i] - gv[4] * a / 8) < 3e-3 * gv[4] / 8 * a + 2, f"{kind}:scale", f"values {gv[1:5]} of pulses 1, 2, 4, 8 times as large")
        # one record alone gives the same, with the stored filter
        g.hdf5_file.close()
        g.hdf5_noisefile.close()
        c.state(kind, tf and tf.__name__, sorted(kw.items()), per)
        c.trace()
        c.outcome(kind)


# ------------------------------------------------------------------ OFF
def shard_off(c, nb):
    from mass.off import fivelag
    ns = 8
    bases = []
    for k in range(4 if not c.thorough else 12):
        rng = np.random.RandomState(100 * nb + k)
        bases.append(rng.randint(-3, 4, size=(ns, nb)).astype(float))
    coefs = np.array(list(itertools.product((-2., 0., 1., 3.5), repeat=nb)))
    for f in itertools.product((-1., 0., 1., .5) if c.thorough else (-1., 0., 1.), repeat=ns - 4):
        f = np.array(f)
        for b in bases:
            fs, bs = f.copy(), b.copy()
            ok, r = c.run("off", fivelag.calc_5lag_fit_matrix, f, b)
            if not ok:
                return
            lag, fit = r
            c.check(np.array_equal(f, fs) and np.array_equal(b, bs), "off:input", "the inputs were modified")
            X = coefs @ b.T
            v, ph, good, cond = dense(X, f)
            want = np.array([X[:, k:ns - 4 + k] @ f for k in range(5)]).T
            c.check(np.allclose(coefs @ np.asarray(lag).T, want, atol=1e-9), "off:lags", f"basis {b.tolist()}, filter {f.tolist()}: wrong lagged products")
            cba = coefs @ fit
            with np.errstate(all="ignore"):
                gv, gp = fivelag.filtValue5Lag(cba), fivelag.peakX5Lag(cba)
            for name, a, e in (("value", gv, v), ("phase", gp, ph)):
                bad = good & ~(np.abs(a - e) <= 1e-9 * cond * (1 + np.abs(e)))
                if bad.any():
                    i = int(np.flatnonzero(bad)[0])
                    c.violate(f"off:{name}", f"basis {b.tolist()}, filter {f.tolist()}, coefficients {coefs[i]}: {name} {a[i]}, expected {e[i]}")
            c.state(nb, f.tolist(), b.tolist())
            c.trans(len(coefs))
            c.trace(len(coefs))
    c.outcome("off")


def shard_offchannel(c):
    from mass.off import Channel, OffFile
    for nb in (3, 4, 5):
        for ns in (8, 12):
            rng = np.random.RandomState(nb)
            basis = rng.randint(-3, 4, size=(ns, nb)).astype(float)
            spec = OffSpec(nbasis=nb, nsamp=ns, npre=3, basis=basis, projectors=np.linalg.pinv(basis))
            coefs = [[float(x) for x in np.roll(np.arange(1, nb + 1) * (i % 7 - 3), i)] for i in range(40)]
            p = spec.write(os.path.join(c.newdir(), "x_chan1.off"), [spec.rec(i, coefs=coefs[i]) for i in range(40)])
            for f in ([1.] + [0.] * (ns - 5), list(np.cos(np.arange(ns - 4.))), [(-1.)**k for k in range(ns - 4)]):
                ch = Channel(OffFile(p), None, verbose=False)
                ok, _ = c.run("offchannel", ch.add5LagRecipes, np.array(f))
                if not ok:
                    continue
                X = np.array(coefs) @ basis.T
                v, ph, good, cond = dense(X, np.array(f))
                with np.errstate(all="ignore"):
                    gv = ch.getAttr("filtValue5Lag", slice(None))
                    gp = ch.getAttr("peakX5Lag", [slice(0, 20), slice(20, 40)])
                    sub = ch.getAttr(["peakX5Lag", "filtValue5Lag"], slice(7, 13))
                gp = np.hstack(gp) if isinstance(gp, list) else gp
                for name, a, e in (("value", gv, v), ("phase", gp, ph), ("value-part", sub[1], v[7:13]), ("phase-part", sub[0], ph[7:13])):
                    gd, cd = (good, cond) if len(e) == 40 else (good[7:13], cond[7:13])
                    bad = gd & ~(np.abs(np.asarray(a) - e) <= 1e-5 * np.maximum(1, 1e-3 * cd) * (1 + np.abs(e)))
                    c.check(not bad.any(), f"offchannel:{name}", f"{nb} bases, {ns} samples: {np.asarray(a)[bad][:3]} not {e[bad][:3]}")
                c.state("offchannel", nb, ns, f)
                c.trans(40)
                c.trace(40)
    c.outcome("offchannel")
