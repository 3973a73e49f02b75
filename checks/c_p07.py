"""P07: attributes, cuts and states of OFF channels, against arrays selected independently."""
import itertools
import os

import numpy as np

from vlib.mkoff import T0, off_file, state_file
from vlib.offs import OffSpec

PROPERTY = "P07"
EXPLAIN = """(1) for several state histories (repeated, empty, excluded, aliased states): every state request (each state,
ordered lists, slices, lists of slices, everything) x every cut pattern over the records x inversion x bundles of stored
and derived attributes, on real channels (OFF file and array backed), against the same selection done record by record.
(2) every program of up to three recipes over an alphabet of functions and ingredients, evaluated in every order of
requests, saved and reloaded (whole group, single book), on the same and on a freshly opened channel.
(3) the recipes made by the corrections (drift, phase, time drift, calibration, 5-lag)."""
ASSUMPTIONS = ["a recipe's ingredients are distinct (a function needing one value twice takes it once)",
               "slices in lists have explicit, non-negative bounds"]

N = 6
HIST = {
    "plain": [(0, "A"), (2, "B"), (4, "C")],
    "repeat": [(0, "A"), (1, "B"), (2, "A"), (4, "B"), (5, "A")],
    "late": [(2, "A"), (3, "IGNORE"), (4, "B")],
    "empty": [(0, "A"), (3, "B"), (3, "C"), (3, "A"), (9, "D")],
    "startonly": [(0, "START")],
    "alias": [(0, "A"), (2, "B"), (3, "C"), (5, "B")],
    "half": [(0.5, "A"), (2.5, "B"), (4.5, "A")],
}
EXCL = {"START", "STOP", "END", "IGNORE"}


def shards(tier):
    out = [(f"select-{h}-{k}", ("select", h, k)) for h in HIST for k in ("off", "off5", "array")]
    out += [(f"recipes-{k}-{i}", ("recipes", k, i)) for k in ("off", "array") for i in range(6)]
    out += [("corrections", ("corrections",))]
    out += [(f"plots-{k}-{h}", ("plots", k, h)) for k in ("off", "array") for h in HIST if k == "off" or h in ("repeat", "alias")]
    return out


def run_shard(c, kind, *args):
    {"select": select, "recipes": recipes, "corrections": corrections, "plots": plots}[kind](c, *args)


def channel(d, kind, hist=None, n=N, chan=3):
    """A channel and what it holds, as dictionaries of plain lists."""
    from mass.off import ChannelGroup
    nb = 5 if kind == "off5" else 3
    s = OffSpec(nbasis=nb, basis=np.arange(8 * nb, dtype=float).reshape(8, nb) * 0.01 + 0.3, projectors=np.ones((nb, 8)), nsamp=8)
    recs = [s.rec(i, unixnano=T0 + i * 1_000_000_000, ptm=10.5 + (i * 7) % 5, resid=1.5 + (i * 3) % 4,
                  coefs=[2.0 + (i * 5 + j * 3) % 7 + 0.25 * j for j in range(nb)]) for i in range(n)]
    os.makedirs(d, exist_ok=True)
    f = s.write(os.path.join(d, f"o_chan{chan}.off"), recs)
    state_file(d, HIST[hist] if hist else [(0, "A")])
    g = ChannelGroup([f], verbose=False)
    if hist == "alias":
        g.experimentStateFile.aliasState(["A", "C"], "X")
    ds = g[chan]
    stored = {"unixnano": [r["unixnano"] for r in recs], "framecount": [r["framecount"] for r in recs],
              "pretriggerMean": [r["ptm"] for r in recs], "residualStdDev": [r["resid"] for r in recs],
              "recordSamples": [8] * n,
              "pulseMean": [r["coefs"][0] for r in recs], "derivativeLike": [r["coefs"][1] for r in recs],
              "filtValue": [r["coefs"][2] for r in recs], "coefs": [r["coefs"] for r in recs]}
    if nb > 3:
        stored["extraCoefs"] = [r["coefs"][3:] for r in recs]
    stored = {k: np.array(v, dtype=np.int64 if k in ("unixnano", "framecount", "recordSamples") else np.float32) for k, v in stored.items()}
    if kind == "array":
        from mass.off.channels import ChannelFromNpArray, ChannelGroupFromNpArrays
        del stored["coefs"]
        a = np.zeros(n, dtype=[(k, v.dtype) for k, v in stored.items()] + [("p_timestamp", float)])
        for k, v in stored.items():
            a[k] = v
        a["p_timestamp"] = stored["unixnano"] * 1e-9
        esf = g.experimentStateFile
        ds = ChannelFromNpArray(a, channum=chan, shortname="s", experimentStateFile=esf, verbose=False)
        g = ChannelGroupFromNpArrays([ds], shortname="x", verbose=False, experimentStateFile=esf)
    return g, ds, stored, f


def state_of(hist):
    """The state of each record: the latest that started at or before it."""
    alias = {"A": "X", "C": "X"} if hist == "alias" else {}
    labels = {x for _, x in HIST[hist]}
    excl = {"IGNORE"} if not labels - EXCL else EXCL
    out = []
    for i in range(N):
        s = None
        for t, lab in HIST[hist]:
            if t * 1_000_000_000 - 1000 <= i * 1_000_000_000:
                s = lab
        out.append(None if s in excl or s is None else alias.get(s, s))
    names = [alias.get(x, x) for _, x in HIST[hist] if x not in excl]
    return out, list(dict.fromkeys(names))


def requests(hist, labels, where):
    """(what is passed, the record numbers it means)"""
    yield None, list(range(N))
    sel = {x: [i for i, s in enumerate(where) if s == x] for x in labels}
    for x in labels:
        yield x, sel[x]
    for r in (1, 2, 3):
        for p in itertools.permutations(labels, r):
            yield list(p), [i for x in p for i in sel[x]]
    for a in range(N + 1):
        for b in range(a, N + 2):
            yield slice(a, b), list(range(a, min(b, N)))
    yield slice(None), list(range(N))
    yield slice(-2, None), [N - 2, N - 1]
    yield slice(None, -4), [0, 1]
    for a, b, x, y in ((0, 1, 3, 5), (4, 6, 0, 2), (2, 2, 5, 6), (1, 4, 2, 3), (0, 6, 0, 6)):
        yield [slice(a, b), slice(x, y)], list(range(a, b)) + list(range(x, y))
    yield [slice(1, 3)], [1, 2]


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if b.dtype.kind in "iub":
        return np.array_equal(a, b)
    return np.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True)


def select(c, hist, kind):
    d = c.newdir()
    g, ds, stored, path = channel(d, kind, hist)
    where, labels = state_of(hist)
    c.check(sorted(ds.stateLabels) == sorted(labels), "labels", lambda: f"{ds.stateLabels} instead of {labels}")
    # derived attributes: one step, and chains
    A = [("unixnano", "filtValue"), ("pulseMean", "derivativeLike", "residualStdDev"), ("filtValue", "dbl", "mix", "cutMask", "filtPhaseX")]
    ds.recipes.add("dbl", lambda filtValue: 2.0 * filtValue)
    ds.recipes.add("mix", lambda a, b: a - b, ["dbl", "pretriggerMean"])
    ds.recipes.add("filtPhaseX", lambda y, x, z: x / (y + 1.0) + z, ["mix", "filtValue", "dbl"])
    want = dict(stored)
    want["dbl"] = 2.0 * stored["filtValue"]
    want["mix"] = want["dbl"] - stored["pretriggerMean"]
    want["filtPhaseX"] = stored["filtValue"] / (want["mix"] + 1.0) + want["dbl"]
    want["relTimeSec"] = np.arange(N) * 1.0
    A.append(("relTimeSec", "framecount"))
    if kind != "array":
        ds.recipes.add("fromcoefs", lambda coefs, f: coefs.sum(axis=1) + f, ["coefs", "dbl"])
        want["fromcoefs"] = stored["coefs"].sum(axis=1) + want["dbl"]
        want["filtPhase"] = stored["derivativeLike"] / stored["filtValue"]
        A.append(("coefs", "fromcoefs", "filtPhase"))
    if kind == "off5":
        A.append(("extraCoefs", "coefs"))
    masks = list(itertools.product((False, True), repeat=N))
    if not c.thorough:
        masks = [m for i, m in enumerate(masks) if kind == "off" or i % 5 in (0, 3)]
    holder = {}
    ds.recipes.add("cutMask", lambda framecount: holder["m"][np.asarray(framecount) - 1000])
    reqs = list(requests(hist, labels, where))
    before = bytes(np.asarray(ds.offFile[:]).tobytes())
    for m in masks:
        holder["m"] = np.array(m)
        want["cutMask"] = holder["m"]
        for ri, (req, idx) in enumerate(reqs):
            for cut in ("cutMask", "!cutMask", "!!cutMask"):
                keep = [i for i in idx if holder["m"][i] != (cut == "!cutMask")]
                attrs = A[(ri + len(cut)) % len(A)] if not c.thorough else sum(A, ())
                h = f"states {hist}, records wanted {req}, cut {cut} with mask {m}, attributes {attrs}"
                ok, got = c.run("getAttr", ds.getAttr, list(attrs), req, cut)
                c.trans()
                if not ok:
                    return
                c.check(isinstance(got, list) and len(got) == len(attrs), "list-length", "", history=h)
                for a, v in zip(attrs, got):
                    c.check(close(v, want[a][keep]), "values:" + ("stored" if a in stored else "derived"),
                            lambda: f"{a}: {np.asarray(v).tolist()} instead of {want[a][keep].tolist()}", history=h)
                a = attrs[0]
                ok, v = c.run("getAttr-one", ds.getAttr, a, req, cut)
                if ok:
                    c.check(close(v, want[a][keep]), "single:" + ("stored" if a in stored else "derived"), "", history=h)
                c.state(hist, kind, str(req), cut, m)
                c.trace()
        # as the default cut; and as a function
        ds.cutSetDefault("cutMask")
        fn = (lambda framecount: holder["m"][np.asarray(framecount) - 1000])
        for req, idx in reqs:
            if not c.thorough and not (req is None or isinstance(req, (str, list))):
                continue
            keep = [i for i in idx if holder["m"][i]]
            for cut in (None, fn):
                ok, v = c.run("getAttr-" + ("default" if cut is None else "function"), ds.getAttr, ["filtPhaseX", "unixnano"], req, cut)
                if ok:
                    c.check(close(v[0], want["filtPhaseX"][keep]) and close(v[1], want["unixnano"][keep]), "default-cut" if cut is None else "function-cut",
                            "", history=f"{hist} {req} mask {m}")
                c.trans()
        ds.cutSetDefault("cutNone")
    # attributes as properties: all records, no cut
    for a in ("filtValue", "relTimeSec", "dbl", "filtPhaseX", "residualStdDev", "pretriggerMean", "unixnano"):
        ok, v = c.run("property", getattr, ds, a)
        if ok:
            c.check(close(v, want[a]), "property", lambda: f"ds.{a} is {v}, expected {want[a]}")
    if kind != "array":
        ok, v = c.run("nocut-coefs", getattr, ds, "fromcoefs")
        if ok:
            c.check(close(v, want["fromcoefs"]), "property", "fromcoefs")
    c.check(np.asarray(ds.offFile[:]).tobytes() == before, "stored-changed", "reading attributes changed the stored values")
    for bad in ("nosuch", ["filtValue", "nosuch"]):
        try:
            ds.getAttr(bad, None)
            c.violate("unknown-attribute", f"{bad} was accepted")
        except Exception:
            pass
    for bad in ("NOSTATE", ["NOSTATE"]):
        try:
            v = ds.getAttr("filtValue", bad)
            c.violate("unknown-state", f"state {bad} was accepted: {v}")
        except Exception:
            pass
    # no states asked for: no records
    ok, v = c.run("no-states", ds.getAttr, "filtValue", [])
    if ok:
        c.check(len(v) == 0, "no-states", f"{v}")


# ------------------------------------------------------------------------------------ (2)
class AddMul:
    """A callable object (as the corrections are)."""

    def __init__(self, k):
        self.k = k

    def __call__(self, x, y=1.0):
        return x * self.k + y


def f_scale(x):
    return 3.0 * x


def f_diff(a, b):
    return a - 0.5 * b


def f_rev(b, a):
    return a / (2.0 + b * b)


FUNCS = [("scale", f_scale, 1), ("obj", AddMul(2.0), 1), ("obj2", AddMul(-1.0), 2), ("diff", f_diff, 2), ("rev", f_rev, 2)]


def recipes(c, kind, part):
    d = c.newdir()
    base = ["filtValue", "pretriggerMean"]
    progs = []
    for name, f, n in FUNCS:
        progs += [[(name, f, ing)] for ing in itertools.permutations(base, n)]
    two = []
    for p in progs:
        for name, f, n in FUNCS:
            two += [p + [(name, f, ing)] for ing in itertools.permutations(base + ["r0"], n) if "r0" in ing]
    three = []
    for i, p in enumerate(two):
        for name, f, n in FUNCS:
            three += [p + [(name, f, ing)] for ing in itertools.permutations(base[:1] + ["r0", "r1"], n) if "r1" in ing]
    allp = progs + two + three[::(1 if c.thorough else 3)]
    where = list(range(N))
    _, _, stored, _ = channel(d, kind)
    import mass
    for pi in range(part, len(allp), 6):
        prog = allp[pi]
        g, ds = None, None
        if pi < 6 or pi % 12 == part:
            dd = os.path.join(d, f"p{pi}")
            g, ds, stored, path = channel(dd, kind)
            c._p7 = (g, ds, dd)
            gen = 0
        g, ds, dd = c._p7
        names = [f"r{k}x{pi}" for k in range(len(prog))]
        want = dict(stored)
        for k, (fname, f, ing) in enumerate(prog):
            real = [names[int(x[1])] if x[0] == "r" else x for x in ing]
            ok, _ = c.run("add", ds.recipes.add, names[k], f, list(real))
            if not ok:
                return
            want[names[k]] = f(*[want[x] for x in real])
        hist = [(n, p[0], p[2]) for n, p in zip(names, prog)]
        c.trans(len(prog))
        c.state(kind, str(hist))
        for order in (list(itertools.permutations(names)) if pi % 4 == 0 else [names, names[::-1]]):
            ok, v = c.run("craft", ds.getAttr, list(order) + ["filtValue"], slice(1, N), "cutNone")
            if ok:
                for a, b in zip(list(order) + ["filtValue"], v):
                    c.check(close(b, want[a][1:]), "recipe-value", lambda: f"{a} = {b}, expected {want[a][1:]}", history=hist)
        for nme in names:
            ok, v = c.run("recipe-property", getattr, ds, nme)
            if ok:
                c.check(close(v, want[nme]), "recipe-property", "", history=hist)
        # adding the same name again is refused, and changes nothing; overwriting replaces it
        try:
            ds.recipes.add(names[-1], f_scale, ["pretriggerMean"])
            c.violate("silently-replaced", "a recipe name in use was accepted without overwrite", history=hist)
        except Exception:
            pass
        v = ds.getAttr(names[-1], slice(0, N), "cutNone")
        c.check(close(v, want[names[-1]]), "refused-add-changed", "", history=hist)
        # save and reload
        fn = os.path.join(dd, f"rb{pi}.pkl")
        ok, _ = c.run("saveRecipeBooks", g.saveRecipeBooks, fn)
        g2, ds2, _, _ = c._g2 if getattr(c, "_g2", None) and pi % 5 else channel(os.path.join(d, "second"), kind)
        c._g2 = (g2, ds2, None, None)
        if ok:
            ok, _ = c.run("loadRecipeBooks", g2.loadRecipeBooks, fn)
            if ok:
                v = ds2.getAttr(names + ["relTimeSec"], slice(0, N), "cutNone")
                for a, b in zip(names + ["relTimeSec"], v):
                    w = want[a] if a in want else np.arange(N) * 1.0
                    c.check(close(b, w), "reloaded-recipe", lambda: f"{a}: {b} instead of {w}", history=hist)
        fn1 = fn + "1"
        ok, _ = c.run("to_file", ds.recipes.to_file, fn1)
        if ok:
            try:
                ds.recipes.to_file(fn1)
                c.violate("to_file-clobbers", "to_file replaced a file without overwrite")
            except Exception:
                pass
            ok, rb = c.run("from_file", type(ds.recipes).from_file, fn1)
            if ok:
                src = ds.offFile[0:N]
                for nme in names:
                    c.check(close(rb.craft(nme, src), want[nme]), "book-from-file", "", history=hist)
                c.check(list(rb.keys()) == list(ds.recipes.keys()), "book-keys", "", history=hist)
        ok, _ = c.run("overwrite", ds.recipes.add, names[-1], f_scale, ["pretriggerMean"], overwrite=True)
        if ok:
            v = ds.getAttr([names[-1]] + names[:-1], slice(0, N), "cutNone")
            c.check(close(v[0], 3.0 * stored["pretriggerMean"]), "overwritten", "", history=hist)
            for a, b in zip(names[:-1], v[1:]):
                c.check(close(b, want[a]), "overwrite-changed-others", "", history=hist)
        for f in (fn, fn1):
            if os.path.exists(f):
                os.remove(f)
        c.trace()


# ------------------------------------------------------------------------------------ (3)
def corrections(c):
    import mass
    from mass.off import ChannelGroup
    K, NC = 100, 300
    for chan in (1, 4):
        lines = [1000 * (1 + .01 * chan), 2000 * (1 + .01 * chan)]
        d = c.newdir()
        f = off_file(d, chan, NC)
        state_file(d, [(0, "A"), (K, "B"), (2 * K, "C")])
        for states in (None, "A", ["B", "C"], ["A"]):
            for cut in (None, "cutPart"):
                g = ChannelGroup([f], verbose=False)
                ds = g[chan]
                raw = {k: np.array(ds.offFile[:][k]) for k in ds.offFile.dtype.names}
                ds.recipes.add("cutPart", lambda relTimeSec: (relTimeSec % 3) < 2)
                sel = np.zeros(NC, bool)
                for s in ([states] if isinstance(states, str) else states or ["A", "B", "C"]):
                    sel["ABC".index(s) * K:"ABC".index(s) * K + K] = True
                if cut:
                    sel &= (np.arange(NC) % 3) < 2
                hist = f"states {states} cut {cut}"
                ok, _ = c.run("learnDriftCorrection", ds.learnDriftCorrection, states=states, cutRecipeName=cut)
                if ok:
                    slope, info = mass.core.analysis_algorithms.drift_correct(raw["pretriggerMean"][sel], raw["filtValue"][sel])
                    w = raw["filtValue"] * (1 + (raw["pretriggerMean"] - info["median_pretrig_mean"]) * slope)
                    c.check(close(ds.filtValueDC, w), "drift-correction", "not learned from exactly the selected records", history=hist)
                    c.check(close(ds.getAttr("filtValueDC", "B"), w[K:2 * K]), "drift-correction-states", "", history=hist)
                ok, _ = c.run("learnPhaseCorrection", ds.learnPhaseCorrection, uncorrectedName="filtValueDC", states=states, cutRecipeName=cut,
                              linePositionsFunc=lambda ds: lines)
                if ok:
                    ph = raw["derivativeLike"] / raw["filtValue"]
                    dc = np.asarray(ds.filtValueDC)
                    pc = mass.core.phase_correct.phase_correct(ph[sel], dc[sel], lines)
                    c.check(close(ds.filtValueDCPC, pc.correct(ph, dc)), "phase-correction", "", history=hist)
                ok, _ = c.run("learnTimeDriftCorrection", ds.learnTimeDriftCorrection, states=states, cutRecipeName=cut, ndeg=2)
                if ok:
                    from mass.core.channel import time_drift_correct
                    t = (raw["unixnano"] - raw["unixnano"][0]) * 1e-9
                    info = time_drift_correct(t[sel], raw["filtValue"][sel], 1, ndeg=2)
                    w = raw["filtValue"] * (1 + info["model"](info["normalize"](t)))
                    c.check(close(ds.filtValueTC, w), "time-drift-correction", "", history=hist)
                cal = mass.EnergyCalibration(curvetype="gain")
                cal.add_cal_point(1000 * (1 + .01 * chan), 1500.0, "p1")
                cal.add_cal_point(2000 * (1 + .01 * chan), 2900.0, "p2")
                ds.recipes.add("energy", cal, ["filtValueDC"], inverse=cal.energy2ph)
                c.check(close(ds.energy, cal.ph2energy(np.asarray(ds.filtValueDC))), "energy", "", history=hist)
                for k, v in raw.items():
                    c.check(np.array_equal(np.asarray(ds.offFile[:][k]), v), "stored-changed", k, history=hist)
                # the whole chain survives saving and reloading
                fn = os.path.join(d, "rb.pkl")
                g.saveRecipeBooks(fn)
                g2 = ChannelGroup([f], verbose=False)
                ok, _ = c.run("loadRecipeBooks", g2.loadRecipeBooks, fn)
                if ok:
                    for nme in ("filtValueDC", "filtValueDCPC", "filtValueTC", "energy", "relTimeSec", "filtPhase"):
                        ok, v = c.run("reloaded-correction", g2[chan].getAttr, nme, ["C", "A"])
                        if ok:
                            w = np.asarray(getattr(ds, nme))
                            c.check(close(v, np.hstack([w[2 * K:], w[:K]])), "reloaded-correction", nme, history=hist)
                    c.check(np.allclose(g2[chan].recipes["energy"].inverse(2000.0), cal.energy2ph(2000.0)), "reloaded-inverse", "", history=hist)
                c.trans(6)
                c.trace()
                c.state(chan, str(states), cut)
    # 5-lag recipes against the definition in sample space
    for nb in (3, 5):
        for npre, salt in itertools.product((1, 3), range(4)):
            d = c.newdir()
            g, ds, stored, path = channel(d, "off5" if nb == 5 else "off")
            rng = np.random.RandomState(salt)
            filt = rng.randint(-3, 4, size=4).astype(float)
            ok, _ = c.run("add5LagRecipes", ds.add5LagRecipes, filt)
            if not ok:
                continue
            pulses = np.array([ds.offFile.modeledPulse(i) for i in range(N)])
            y = np.array([[np.dot(filt, p[j:j + 4]) for j in range(5)] for p in pulses])
            x = np.arange(-2, 3)
            fit = np.array([np.polyfit(x, r, 2) for r in y])    # a, b, c
            with np.errstate(all="ignore"):
                v = fit[:, 2] - 0.25 * fit[:, 1] ** 2 / fit[:, 0]
                px = -0.5 * fit[:, 1] / fit[:, 0]
            good = np.abs(fit[:, 0]) > 1e-3 * (1e-9 + np.abs(y).max())
            got = np.asarray(ds.getAttr("filtValue5Lag", None))
            c.check(close(ds.getAttr("cba5Lag", None), fit[:, ::-1].astype(np.float32)) or np.allclose(np.asarray(ds.getAttr("cba5Lag", None)), fit[:, ::-1], atol=1e-4 * np.abs(y).max() + 1e-9),
                    "cba5Lag", "")
            c.check(np.allclose(got[good], v[good], rtol=1e-2), "filtValue5Lag", lambda: f"{got} instead of {v}")
            c.check(np.allclose(np.asarray(ds.getAttr("peakX5Lag", None))[good], px[good], rtol=1e-2, atol=1e-3), "peakX5Lag", "")
            c.trans()
            c.trace()


def drawn(ax):
    return [(ln.get_label(), np.asarray(ln.get_xdata()), np.asarray(ln.get_ydata())) for ln in ax.lines]


def plots(c, kind, *hists):
    """What is plotted of one attribute against another: state by state, the records that satisfy the cut, and the others."""
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots()
    for hist in hists:
        d = c.newdir()
        g, ds, stored, path = channel(d, kind, hist)
        where, labels = state_of(hist)
        holder = {}
        ds.recipes.add("cutMask", lambda framecount: holder["m"][np.asarray(framecount) - 1000])
        ds.recipes.add("dbl", lambda filtValue: 2.0 * filtValue)
        ds.recipes.add("filtValueDC", DC(), ["pretriggerMean", "filtValue"])
        want = dict(stored, dbl=2.0 * stored["filtValue"], filtValueDC=stored["filtValue"] + 3.0 * stored["pretriggerMean"])
        sel = {x: [i for i, s in enumerate(where) if s == x] for x in labels}
        reqs = [(None, list(labels))] + [(x, [x]) for x in labels] + [(list(p), list(p)) for p in itertools.permutations(labels, 2)]
        masks = [m for i, m in enumerate(itertools.product((False, True), repeat=N)) if i % (9 if c.thorough else 21) == 0]
        for mask, (req, names), bad, deflt in itertools.product(masks, reqs, (False, True), (False, True)):
            holder["m"] = np.array(mask)
            cut = None if deflt else "cutMask"
            ds.cutSetDefault("cutMask" if deflt else "cutNone")
            h = f"{hist}: states {req}, mask {mask}, default cut {deflt}, includeBad {bad}"
            c.state(hist, kind, str(req), mask, bad, deflt)

            def lines(pairs, tags):
                out = []
                for x in names:
                    for inv in (False, True)[:1 + bad]:
                        keep = [i for i in sel[x] if mask[i] != inv]
                        out += [(lab(x) + (" bad" + tail if inv else tail), want[a][keep], want[b][keep]) for (a, b), (lab, tail) in zip(pairs, tags)]
                return out

            def same(sig, got, exp, what):
                ok = len(got) == len(exp) and all(gl == el and close(gx, ex) and close(gy, ey) for (gl, gx, gy), (el, ex, ey) in zip(got, exp))
                c.check(ok, sig, lambda: f"{what} draws {[(a, list(x), list(y)) for a, x, y in got]}, expected {[(a, list(x), list(y)) for a, x, y in exp]}", history=h)
                c.trans()
            plain = (lambda x: x, "")
            for b in ("pretriggerMean", "dbl", ["dbl", "pulseMean"]):
                ax.clear()
                ok, _ = c.run("plotAvsB", ds.plotAvsB, "filtValue", b, ax, req, bad, cut)
                if ok:
                    exp = lines([("filtValue", b)], [plain]) if isinstance(b, str) else \
                        [ln for nm in b for ln in lines([("filtValue", nm)], [(lambda x, nm=nm: nm + x, "")])]
                    same("plotAvsB", drawn(ax), exp, f"plotAvsB(filtValue, {b})")
            ax.clear()
            ok, _ = c.run("plotCompareDriftCorrect", ds.plotCompareDriftCorrect, ax, req, cut, bad)
            if ok:
                exp = lines([("pretriggerMean", "filtValue"), ("pretriggerMean", "filtValueDC")], [plain, (lambda x: x, " DC")])
                same("plotCompareDriftCorrect", drawn(ax), exp, "plotCompareDriftCorrect")
            c.trace()
    plt.close(fig)


class DC:
    def __call__(self, indicator, uncorrected):
        return uncorrected + 3.0 * indicator
