"""P08: which channels of an OFF group are used; every history of marks, includeBad contexts and failing group calls."""
import itertools
import os

import numpy as np

from vlib.mkoff import off_file, state_file

PROPERTY = "P08"
EXPLAIN = """(1) every sequence (bounded) of mark bad / mark good / mark all good / enter and leave includeBad contexts
(nested, and left by an exception) / group calls that fail for a subset of channels, on real channel groups (OFF files
and OFF-style views of arrays), compared after every operation with a model: the marks and a stack of contexts.
(2) every analysis step of a group x every subset of channels failing x every subset marked bad beforehand; each other
channel's result is compared with the same step on a group of that channel alone.
(3) quality checks: every combination of thresholds around the decision points."""
ASSUMPTIONS = ["contexts are entered and left in last-in first-out order, as `with` statements do"]

CH = (3, 1, 10)
OPS = ([("bad", c, r) for c, r in ((3, "a"), (1, "b – ü"), (10, ""), (3, "again"))]
       + [("good", 3), ("good", 1), ("allgood",), ("enter", True), ("enter", False), ("exit",), ("exitexc",)]
       + [("call", ()), ("call", (3,)), ("call", (1, 10)), ("view",)])


def shards(tier):
    n = 12
    out = [(f"marks-{kind}-{i}", ("marks", kind, i, n)) for kind in ("off", "array") for i in range(n if kind == "off" else 4)]
    out += [(f"steps-{s}", ("steps", s)) for s in STEPS]
    out += [("quality", ("quality",))]
    return out


def run_shard(c, kind, *args):
    {"marks": marks, "steps": steps, "quality": quality}[kind](c, *args)


def make_group(d, chans, n=12, kind="off", base="o"):
    import mass
    from mass.off import ChannelGroup
    files = [off_file(d, ch, n, base=base) for ch in chans]
    state_file(d, [(0, "A"), (n // 2, "B")], base=base)
    g = ChannelGroup(files, verbose=False)
    if kind == "off":
        return g
    from mass.off.channels import ChannelFromNpArray, ChannelGroupFromNpArrays
    arrays = []
    for ch in chans:
        a = np.array(g[ch].offFile[:])
        b = np.zeros(len(a), dtype=[("p_timestamp", float), ("filtValue", "f4"), ("unixnano", "i8"), ("pretriggerMean", "f4")])
        for k in ("filtValue", "unixnano", "pretriggerMean"):
            b[k] = a[k]
        b["p_timestamp"] = a["unixnano"] * 1e-9
        arrays.append(ChannelFromNpArray(b, channum=ch, shortname=f"s{ch}", experimentStateFile=g.experimentStateFile, verbose=False))
    return ChannelGroupFromNpArrays(arrays, shortname="x", verbose=False, experimentStateFile=g.experimentStateFile)


# ------------------------------------------------------------------------------------ (1)
class Fail(Exception):
    pass


def marks(c, kind, part, nparts):
    d = c.newdir()
    g = make_group(d, CH, kind=kind)
    objs = {ch: g[ch] for ch in CH}
    # ingredients missing in some channels make a group call fail there
    for fail in ((), (3,), (1, 10)):
        for ch in CH:
            if ch not in fail:
                objs[ch].recipes.add(f"need{fail}", lambda unixnano: unixnano * 1.0, ingredients=["unixnano"], createProperty=False)
    n = len(objs[3])
    depth = (5 if c.thorough else 4) if kind == "off" else 3
    seqs = itertools.product(range(len(OPS)), repeat=depth)
    if kind == "array":
        nparts = 4
    serial = 0
    for si, s in enumerate(seqs):
        if si % nparts != part:
            continue
        bad, stack, cms = {}, [False], []
        for i, k in enumerate(s):
            op = OPS[k]
            hist = (kind, [OPS[x] for x in s[:i + 1]])
            kk = op[0]
            cur = [ch for ch in CH if stack[-1] or ch not in bad]
            if kk == "bad":
                objs[op[1]].markBad(op[2])
                bad[op[1]] = op[2]
            elif kk == "good":
                objs[op[1]].markGood()
                bad.pop(op[1], None)
            elif kk == "allgood":
                c.run("markAllGood", g.markAllGood)
                bad.clear()
            elif kk == "enter":
                cm = g.includeBad(op[1])
                cm.__enter__()
                cms.append(cm)
                stack.append(op[1])
            elif kk in ("exit", "exitexc"):
                if not cms:
                    break
                cm = cms.pop()
                if kk == "exit":
                    cm.__exit__(None, None, None)
                else:
                    e = Fail("x")
                    r = cm.__exit__(Fail, e, None)
                    c.check(not r, "exception-swallowed", "includeBad hid an exception", history=hist)
                stack.pop()
            elif kk == "call":
                serial += 1
                name = f"cutCall{serial}"
                fails = [ch for ch in cur if ch in op[1]]
                if serial % 3 == 0 and fails:
                    # the first error ends the call
                    try:
                        g.cutAdd(name, lambda x: x > 0, [f"need{op[1]}"], _rethrow=True)
                        c.violate("rethrow", "_rethrow=True hid an error", history=hist)
                    except Exception:
                        pass
                    bad[fails[0]] = None
                    cur = cur[:cur.index(fails[0])]
                    ok = False
                else:
                    ok, r = c.run("group-call-" + kind, g.cutAdd, name, lambda x: x > 0, [f"need{op[1]}"], **({"_rethrow": True} if serial % 3 == 0 else {}))
                if ok:
                    c.check(list(r) == [ch for ch in cur if ch not in op[1]], "call-returns",
                            lambda: f"the call returned results for {list(r)}, expected {[ch for ch in cur if ch not in op[1]]}", history=hist)
                for ch in CH:
                    want = ch in cur and ch not in op[1]
                    c.check((name in objs[ch].recipes.keys()) == want, "call-acts-on",
                            f"the group call {'skipped' if want else 'acted on'} channel {ch}", history=hist)
                    if ch in cur and ch in op[1]:
                        bad[ch] = None    # any reason
            elif kk == "view":
                # things that look at all channels internally
                c.run("whyChanBad", lambda: g.whyChanBad)
                c.run("setDefaultBinsize", g.setDefaultBinsize, 2.0)
                c.run("repr", repr, g)
            c.trans()
            verify(c, g, objs, bad, stack[-1], hist, n, kind)
        c.trace()
        while cms:
            cms.pop().__exit__(None, None, None)
        for ch in CH:
            objs[ch].markGood()
        if len(objs[3].recipes.keys()) > 60:
            for ch in CH:
                for k in [k for k in objs[ch].recipes.keys() if k.startswith("cutCall")]:
                    del objs[ch].recipes.craftedIngredients[k]


def verify(c, g, objs, bad, inc, hist, n, kind):
    want = [ch for ch in CH if inc or ch not in bad]
    first = c.state(kind, inc, tuple(sorted((k, v) for k, v in bad.items() if v is not None)), tuple(sorted(k for k, v in bad.items())))
    c.check(list(g) == want, "iteration", lambda: f"iteration gives {list(g)}, expected {want}", history=hist)
    c.check(list(g.keys()) == want, "keys", lambda: f"keys() gives {list(g.keys())}, expected {want}", history=hist)
    c.check([id(x) for x in g.values()] == [id(objs[ch]) for ch in want], "values", "", history=hist)
    c.check([(a, id(b)) for a, b in g.items()] == [(ch, id(objs[ch])) for ch in want], "items", "", history=hist)
    c.check(len(g) == len(want), "len", lambda: f"len {len(g)}, expected {len(want)}", history=hist)
    c.check(all(g[ch] is objs[ch] for ch in CH), "lookup", "", history=hist)
    why = g.whyChanBad
    c.check(sorted(why) == sorted(bad) and all(why[k] == v for k, v in bad.items() if v is not None)
            and all(why[k] for k, v in bad.items() if v is None), "whyChanBad", lambda: f"{dict(why)} instead of {bad}", history=hist)
    c.check(list(g) == want, "after-whyChanBad", lambda: f"asking for whyChanBad changed the iteration to {list(g)} from {want}", history=hist)
    c.check(all(objs[ch].markedBadBool == (ch in bad) for ch in CH), "marked", "", history=hist)
    c.check(all((getattr(objs[ch], "markedBadReason", None) is None) == (ch not in bad) and (ch in bad or getattr(objs[ch], "markedBadExtraInfo", None) is None) for ch in CH), "marked-reason", "a good channel has a reason to be bad, or the reverse", history=hist)
    good = [ch for ch in CH if ch not in bad]
    if good:
        c.check(g.firstGoodChannel() is objs[good[0]], "firstGoodChannel", "", history=hist)
    if first or len(hist[1]) <= 2:
        edges = np.array([0.0, 1e9])
        _, h = g.hist(edges, "filtValue")
        c.check(h.tolist() == [n * len(want)], "hist", lambda: f"{h.tolist()} counts for channels {want} of {n} records", history=hist)
        _, hs = g.hists(edges, "filtValue")
        c.check(list(hs) == want, "hists", "", history=hist)
        # histograms of channels asked for by number include the bad ones
        _, hs = g.hists(edges, "filtValue", channums=list(CH))
        c.check(list(hs) == list(CH), "hists-by-number", "", history=hist)
        if kind == "off":
            with g.includeBad():
                c.check(len(g) == len(CH), "includeBad", "", history=hist)
                with g.includeBad(False):
                    c.check(list(g) == good, "includeBad-False", "", history=hist)
                c.check(list(g) == list(CH), "includeBad-nested", lambda: f"{list(g)} inside the outer includeBad", history=hist)
            c.check(list(g) == want, "after-includeBad", "", history=hist)


# ------------------------------------------------------------------------------------ (2)
STEPS = ("learnDriftCorrection", "learnTimeDriftCorrection", "learnResidualStdDevCut", "learnPhaseCorrection", "cutAdd",
         "alignToReferenceChannel", "calibrateFollowingPlan", "learnCalibrationPlan", "cutSetDefault")


def setup_step(g, step, fail, isref=False):
    for ch, ds in g.items():
        if ch not in fail:
            ds.recipes.add("fv2", lambda filtValue: filtValue * 1.0, ["filtValue"], createProperty=False)
            ds.recipes.add("resid2", lambda residualStdDev: residualStdDev * 1.0, ["residualStdDev"], createProperty=False)
            ds.recipes.add("cutSome", lambda filtValue: filtValue > 1200, createProperty=False)
        if step == "calibrateFollowingPlan":
            ds.calibrationPlanInit("filtValue")
            for i, (e, name) in enumerate(((1000.0, "p1"), (2000.0, "p2"))):
                ds.calibrationPlanAddPoint(e * (1 + 0.01 * ch), name, energy=e)
        if isref:
            ds.calibrationPlanInit("fv2")
            for e, name in ((1000.0, "p1"), (2000.0, "p2")):
                ds.calibrationPlanAddPoint(e * 1.08, name, energy=e)


def do_step(g, step, ref=None):
    if step == "learnDriftCorrection":
        return g.learnDriftCorrection(uncorrectedName="fv2", correctedName="res"), "res"
    if step == "learnTimeDriftCorrection":
        return g.learnTimeDriftCorrection(uncorrectedName="fv2", correctedName="res", ndeg=2), "res"
    if step == "learnPhaseCorrection":
        return g.learnPhaseCorrection(uncorrectedName="fv2", correctedName="res", linePositionsFunc=lambda ds: [1000 * (1 + 0.01 * ds.channum), 2000 * (1 + 0.01 * ds.channum)]), "res"
    if step == "learnResidualStdDevCut":
        return g.learnResidualStdDevCut(n_sigma_equiv=1, newCutRecipeName="cutRes", cutRecipeName="cutSome"), "cutRes"
    if step == "cutAdd":
        return g.cutAdd("cutNew", lambda a: a > 1500, ["fv2"], setDefault=True), "cutNew"
    if step == "cutSetDefault":
        return g.cutSetDefault("cutNone"), None
    if step == "alignToReferenceChannel":
        return g.alignToReferenceChannel(ref, "fv2", np.arange(0, 3000, 10.0), _peakLocs=None), "arbsInRefChannelUnits"
    if step == "calibrateFollowingPlan":
        return g.calibrateFollowingPlan("fv2", calibratedName="energyX", dlo=30, dhi=30, binsize=1.0, approximate=False), "energyX"
    if step == "learnCalibrationPlan":
        return g.learnCalibrationPlanFromEnergiesAndPeaks("fv2", None, 5.0, ["MgKAlpha", "ClKAlpha"], 5.0), "energyRough"
    raise ValueError(step)


def value(ds, name):
    return np.asarray(ds.getAttr(name, slice(0, len(ds)), "cutNone"), dtype=float)


def steps(c, step):
    chans = (8, 1, 4)
    d = c.newdir()
    n = 300 if step in ("calibrateFollowingPlan", "alignToReferenceChannel", "learnCalibrationPlan") else 60
    refdir = os.path.join(d, "ref")
    refg = make_group(refdir, [8], n)
    setup_step(refg, step, (), isref=True)
    ref = refg[8]
    alone, default = {}, {}
    for ch in chans:
        g = make_group(os.path.join(d, f"alone{ch}"), [ch], n)
        setup_step(g, step, ())
        ok, r = c.run("step-alone", do_step, g, step, ref)
        if not ok:
            return
        c.check(list(g) == [ch], "step-fails-alone", lambda: f"{step}: {dict(g.whyChanBad)}")
        name = r[1]
        alone[ch] = value(g[ch], name) if name else None
        default[ch] = g[ch].hist([0, 1500, 1e9], "filtValue")[1].tolist()
        c.outcome(f"{step} {default[ch]}")
    if step == "cutSetDefault":
        # cuts that only some channels have: it is the channels in use that need them
        for have, bad in itertools.product(itertools.product((0, 1), repeat=3), repeat=2):
            H, B = [ch for ch, f in zip(chans, have) if f], [ch for ch, f in zip(chans, bad) if f]
            if len(B) == 3:
                continue
            g = make_group(os.path.join(d, "g"), chans, n)
            for ch in H:
                g[ch].cutAdd("cutOwn", lambda filtValue: filtValue > 1500)
            for ch in B:
                g[ch].markBad("before")
            missing = [ch for ch in chans if ch not in B and ch not in H]
            c.state("cutSetDefault-own", have, bad)
            c.trans()
            try:
                g.cutSetDefault("cutOwn")
                done = True
            except AssertionError:
                done = False
            c.check(done == (not missing), "cutSetDefault-needs", "a cut that every channel in use has is refused, or another is accepted", have=H, bad=B)
            for ch in chans:
                with g.includeBad():
                    h = g[ch].hist([0, 1500, 1e9], "filtValue")[1].tolist()
                full = default[ch]
                want = [0, full[1]] if done and ch not in B else full
                c.check(h == want, "cutSetDefault-own", f"channel {ch}: {h} instead of {want}", have=H, bad=B)
            c.trace()
    for fail in itertools.product((0, 1), repeat=3):
        for pre in itertools.product((0, 1), repeat=3):
            if step == "calibrateFollowingPlan" and not c.thorough and sum(pre) > 1:
                continue
            F = [ch for ch, f in zip(chans, fail) if f]
            B = [ch for ch, f in zip(chans, pre) if f]
            if step == "cutSetDefault" and len(B) == 3:
                continue
            hist = f"{step}: fails for {F}, marked bad before: {B}"
            g = make_group(os.path.join(d, "g"), chans, n)
            setup_step(g, step, F)
            if step == "cutSetDefault":
                g.cutAdd("cutHalf", lambda filtValue: filtValue > 1500, setDefault=True)
            for ch in B:
                g[ch].markBad("before")
            keys0 = {ch: list(ds.recipes.keys()) for ch, ds in [(x, g[x]) for x in chans]}
            ok, r = c.run("group-step:" + step, do_step, g, step, ref)
            c.trans()
            if not ok:
                continue
            c.state(step, fail, pre)
            res, name = r
            if step == "cutSetDefault":
                # sets the default of the channels in use only
                for ch in chans:
                    h = g[ch].hist([0, 1500, 1e9], "filtValue")[1].tolist()
                    want = default[ch] if ch not in B else [0, default[ch][1]]
                    c.check(h == want, "cutSetDefault", f"channel {ch}: {h} instead of {want}", history=hist)
                continue
            done = [ch for ch in chans if ch not in F and ch not in B]
            why = g.whyChanBad
            c.check(sorted(why) == sorted(set(F) | set(B)), "bad-after-step", lambda: f"bad channels {dict(why)}, expected {sorted(set(F) | set(B))}", history=hist)
            c.check(all(why.get(ch) == "before" for ch in B), "reason-changed", "", history=hist)
            c.check(all(why.get(ch) for ch in F), "no-reason", "", history=hist)
            if res is not None:
                c.check(list(res) == done, "results", lambda: f"results for {list(res)}, expected {done}", history=hist)
            for ch in chans:
                if ch in done:
                    ok, v = c.run("value-after-step", value, g[ch], name)
                    if ok:
                        c.check(v.shape == alone[ch].shape and np.allclose(v, alone[ch], rtol=1e-6, equal_nan=True), "result-depends-on-others",
                                f"{step}: channel {ch}'s {name} differs from that channel analysed alone", history=hist)
                    h = g[ch].hist([0, 1500, 1e9], "filtValue")[1].tolist()
                    c.check(h == default[ch], "default-cut-depends-on-others", f"channel {ch}: {h} instead of {default[ch]}", history=hist)
                elif ch in B:
                    c.check(list(g[ch].recipes.keys()) == keys0[ch], "bad-channel-processed", f"{step} acted on bad channel {ch}", history=hist)
            c.trace()


# ------------------------------------------------------------------------------------ (3)
def quality(c):
    import mass
    d = c.newdir()
    chans = (8, 1, 4)
    # calibrations with different drop-one errors in the channels
    wob = {8: 0.0, 1: 3.0, 4: 30.0}
    errs = {}
    for absf, sig in itertools.product((None, 0.5, 5.0, 1000.0), (None, 0.1, 1.0, 2.0, 100.0)):
        for pre in itertools.product((0, 1), repeat=3):
            g = make_group(os.path.join(d, "g"), chans, 12)
            for ch in chans:
                cal = mass.EnergyCalibration(curvetype="gain")
                for k, e in enumerate((500.0, 1000.0, 1500.0, 2000.0, 3000.0)):
                    cal.add_cal_point(e * (1 + 1e-5 * e) + (wob[ch] if k == 2 else 0.3 * (k % 2)), e, f"l{k}")
                g[ch].recipes.add("energy", cal, ["filtValue"], createProperty=False)
                e = np.abs(cal.drop_one_errors()[1])
                errs[ch] = (e.max(), 1.4826 * np.median(e))
            B = [ch for ch, p in zip(chans, pre) if p]
            for ch in B:
                g[ch].markBad("before")
            kw = {}
            if absf is not None:
                kw["thresholdAbsolute"] = absf
            if sig is not None:
                kw["thresholdSigmaFromMedianAbsoluteValue"] = sig
            c.run("qualityCheckDropOneErrors", g.qualityCheckDropOneErrors, **kw)
            c.trans()
            want = sorted(set(B) | {ch for ch in chans if (absf is not None and errs[ch][0] > absf) or (sig is not None and errs[ch][0] > sig * errs[ch][1])})
            hist = f"thresholds {kw}, drop-one (max, sigma) {errs}, marked before {B}"
            c.check(sorted(g.whyChanBad) == want, "drop-one", lambda: f"bad: {dict(g.whyChanBad)}, expected {want}", history=hist)
            c.state("dropone", absf, sig, pre)
            c.trace()
            c.outcome(f"drop-one {want}")
    # fits: each channel with its own resolution and offset
    n = 600
    off = {8: 1.08, 1: 1.011, 4: 1.04}     # channel 1's energy scale is off by 0.1%

    def fresh():
        g = make_group(os.path.join(d, "q"), chans, n)
        for ch in chans:
            g[ch].recipes.add("energyQ", lambda filtValue, k=off[ch]: filtValue / k, ["filtValue"], createProperty=False)
            g[ch].recipes.add("cutFirst", lambda relTimeSec: relTimeSec < 400, createProperty=False)
        return g
    line = mass.SpectralLine.quick_monochromatic_line("q", 1000.0, 0.001, 0)
    for cut in (None, "cutFirst"):
        fits = {}
        for ch in chans:
            ok, r = c.run("linefit", fresh()[ch].linefit, line.model(has_linear_background=True), attr="energyQ",
                          dlo=40, dhi=40, binsize=2.0, plot=False, cutRecipeName=cut)
            if not ok:
                return
            fits[ch] = (r.params["peak_ph"].value, r.params["peak_ph"].stderr, r.params["fwhm"].value)
        dev = {ch: abs(f[0] - 1000.0) for ch, f in fits.items()}
        for tabs, tsig, fw in itertools.product((None, 0.999 * dev[1], 1.001 * dev[1], 1e-9), (None, 1e-6, 1e6), (None, 0.1, fits[4][2] * 0.999, fits[4][2] * 1.001, 1e4)):
            if tabs is not None and tsig is not None:
                continue
            g = fresh()
            kw = dict(attr="energyQ", dlo=40, dhi=40, binsize=2.0, cutRecipeName=cut, resolutionPlot=False,
                      positionToleranceAbsolute=tabs, positionToleranceFitSigma=tsig, worstAllowedFWHM=fw)
            ok, _ = c.run("qualityCheckLinefit", g.qualityCheckLinefit, line.model(has_linear_background=True), **kw)
            c.trans()
            want = sorted(ch for ch in chans if (tabs is not None and dev[ch] > tabs) or (tsig is not None and dev[ch] > tsig * fits[ch][1])
                          or (fw is not None and fits[ch][2] > fw))
            c.check(sorted(g.whyChanBad) == want, "quality-linefit", lambda: f"bad {dict(g.whyChanBad)}, expected {want}",
                    history=f"{kw}, fits {fits}")
            c.state("linefit", cut, tabs, tsig, fw)
            c.trace()
            c.outcome(f"linefit {want}")
