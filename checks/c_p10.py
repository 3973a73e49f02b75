"""P10: the channels of a data group: file sets x options, mark/unmark/reopen histories, failing steps."""
import itertools
import os

import numpy as np

from vlib.core import chunks
from vlib.ljh import Spec, pattern
from vlib.mkdata import pulse_files

PROPERTY = "P10"
EXPLAIN = """(1) every small set of pulse and noise files (channel subsets, orders, directories, empty files) x every
combination of exclusion options, given as list, tuple or glob, opened as a real TESGroup; (2) every sequence of
mark-bad / mark-good / reopen (all, subset, restored from HDF5 alone) up to the depth, compared after every operation
with a dictionary of reasons; (3) every analysis step x every subset of channels failing in it x every subset marked
bad beforehand, with the remaining channels compared with the same channel analysed in a group of its own."""
ASSUMPTIONS = ["reasons for marking a channel bad take less than 64 kB per channel (the limit of HDF5 attributes)"]

US = 1_500_000_000_000_000


def tiny(d, base, ch, n, salt=0):
    s = Spec(nsamp=4, npre=1)
    p = pattern(4, n, ch + salt)
    s.records = [(i * 100, US + i * 1000 + ch, p[i]) for i in range(n)]
    os.makedirs(d, exist_ok=True)
    return s.write(os.path.join(d, f"{base}_chan{ch}.ljh")), p


# ------------------------------------------------------------------------------------ shards
def shards(tier):
    out = [(f"sets-{i}", ("sets", i)) for i in range(8)]
    nseq = 16
    out += [(f"marks-{i}", ("marks", i, nseq)) for i in range(nseq)]
    out += [(f"steps-{s}", ("steps", s)) for s in STEPS]
    out += [("noiseonly", ("noiseonly",))]
    return out


def run_shard(c, kind, *args):
    {"sets": sets, "marks": marks, "steps": steps, "noiseonly": noiseonly}[kind](c, *args)


# ------------------------------------------------------------------------------------ (1) file sets
CH = (2, 10, 1)     # sorted neither as numbers nor as strings


def same_data(c, ds, chan, pulses, noise, hist):
    ok, got = c.run("read-data", lambda: [np.asarray(ds.read_trace(i)) for i in range(ds.nPulses)])
    if ok:
        c.check(len(got) == len(pulses[chan]) and all(np.array_equal(a, b) for a, b in zip(got, pulses[chan])),
                "wrong-pulses", f"channel {chan} does not hold the pulses of its file", history=hist, got=got, want=pulses[chan])
    if noise is not None:
        nr = ds.noise_records
        c.check(nr is not None and nr.channum == chan, "wrong-noise-channel",
                lambda: f"channel {chan} has noise records of channel {getattr(nr, 'channum', None)}", history=hist)
        if nr is not None:
            ok, got = c.run("read-noise", lambda: np.asarray(nr.datafile.alldata))
            if ok:
                c.check(np.array_equal(got, noise[chan]), "wrong-noise", f"channel {chan}'s noise is not that of its file", history=hist)


def check_group(c, g, want, bad, hist, order=True):
    """The group's public views agree with the model: channels `want` in order, `bad` = {chan: [reasons]}."""
    good = [x for x in want if x not in bad]
    n = (lambda x: list(x)) if order else sorted
    c.check(n(ds.channum for ds in g.datasets) == n(want), "channels", lambda: f"channels {[ds.channum for ds in g.datasets]}, expected {want}",
            history=hist)
    c.check(n(g.channel) == n(want) and all(g.channel[k].channum == k for k in g.channel), "channel-map",
            lambda: f"channel map has {list(g.channel)}, expected {want}", history=hist)
    c.check(n(ds.channum for ds in g) == n(good), "iteration", lambda: f"iteration gives {[ds.channum for ds in g]}, expected {good}", history=hist)
    c.check(n(g.iter_channel_numbers()) == n(good), "iter_channel_numbers", "", history=hist)
    c.check(n(g.iter_channel_numbers(include_badchan=True)) == n(want), "iter-include-bad",
            lambda: f"{list(g.iter_channel_numbers(include_badchan=True))} instead of {want}", history=hist)
    c.check(n(ds.channum for ds in g.iter_channels(include_badchan=True)) == n(want), "iter-include-bad", "", history=hist)
    c.check(n(g.good_channels) == n(good), "good_channels", lambda: f"good_channels {g.good_channels}, expected {good}", history=hist)
    c.check(g.num_good_channels == len(good) and g.n_good_channels() == len(good) and g.n_channels == len(want), "counts",
            lambda: f"n_channels={g.n_channels} num_good_channels={g.num_good_channels}; expected {len(want)} and {len(good)}", history=hist)
    why = {int(k): list(v) for k, v in g.why_chan_bad.items() if k in want}
    c.check(why == {k: v for k, v in bad.items() if k in want}, "why_chan_bad", lambda: f"why_chan_bad {why}, expected {bad}", history=hist)
    if good:
        ok, ds = c.run("first_good", lambda: g.first_good_dataset)
        if ok:
            c.check(ds.channum == good[0] if order else ds.channum in good, "first_good_dataset", f"{ds.channum}, expected {good}", history=hist)
    else:
        try:
            g.first_good_dataset
            c.violate("first_good_dataset", "no good channel, yet first_good_dataset gave one", history=hist)
        except IndexError:
            pass
    for i, ds in enumerate(g.datasets):
        c.check(ds.index == i, "index", f"dataset {i} has index {ds.index}", history=hist)


def sets(c, part):
    import mass
    d0 = c.newdir()
    pulses, noise, pf, nf = {}, {}, {}, {}
    for ch in CH:
        pf[ch], pulses[ch] = tiny(d0 + "/my_chan7_dir", "run", ch, 2)
        nf[ch], noise[ch] = tiny(d0 + "/my_chan7_dir", "noise", ch, 3, 50)
    empty = tiny(d0 + "/my_chan7_dir", "run", 5, 0)[0]
    nf[5], noise[5] = tiny(d0 + "/my_chan7_dir", "noise", 5, 3, 50)
    pulses[5], pf[5] = np.zeros((0, 4)), empty

    orders = [p for r in (1, 2, 3) for s in itertools.combinations(CH, r) for p in itertools.permutations(s)]
    orders += [(5, 2, 1), (2, 5, 1), (1, 2, 5)]
    noises = [None, (2, 10, 1, 5), (5, 1, 2, 10), (1, 2), (10, 2), (10,), (1, 10, 5)]
    opts = [dict(never_use=nu, use_only=uo, max_chans=mx)
            for nu in (None, (2,), [1, 10, 77]) for uo in (None, [1, 2], (10, 99, 5, 2)) for mx in (None, 1, 2, 7)]
    allc = list(itertools.product(orders, noises, range(len(opts))))
    for k, (order, nlist, oi) in enumerate(allc):
        if k % 8 != part or (not c.thorough and (k // 8) % 3 and oi not in (0, 9, 13)):
            continue
        o = opts[oi]
        want = [x for x in order if (nlist is None or x in nlist) and not (o["never_use"] and x in o["never_use"])
                and (o["use_only"] is None or x in o["use_only"])]
        want = want[:o["max_chans"]]
        if not want:
            continue
        want = [x for x in want if x != 5]
        hist = f"pulse files {order}, noise files {nlist}, options {o}"
        a = [pf[x] for x in order]
        b = None if nlist is None else [nf[x] for x in nlist]
        if k % 2:
            a, b = tuple(a), (None if b is None else tuple(b))
        a0, b0 = list(a), None if b is None else list(b)
        h5 = os.path.join(d0, f"t{k}.hdf5")
        kw = {kk: v for kk, v in o.items() if v is not None}
        ok, g = c.run("open:" + ("noise" if b else "plain") + ("-max" if o["max_chans"] else ""),
                      mass.TESGroup, a, b, hdf5_filename=h5, hdf5_noisefilename=h5 + "n", **kw)
        c.trans()
        if not ok:
            continue
        c.state(order, nlist, oi)
        c.trace()
        c.check(list(a) == a0 and (b is None or list(b) == b0), "caller-list-changed", "the caller's list of files was changed", history=hist)
        check_group(c, g, want, {}, hist)
        for ds in g:
            same_data(c, ds, ds.channum, pulses, noise if b else None, hist)
        c.outcome(f"{len(want)} channels")
        g.hdf5_file.close()
        if g.hdf5_noisefile is not None:
            g.hdf5_noisefile.close()
        for f in (h5, h5 + "n"):
            if os.path.exists(f):
                os.remove(f)
    if part == 0:
        globs(c, d0 + "/my_chan7_dir", pulses, noise, pf, nf)


def globs(c, d, pulses, noise, pf, nf):
    import mass
    num = sorted(pf)
    for pat, np_, sel in itertools.product(("run_chan*.ljh", "run_chan1*.ljh", "run_chan[12].ljh", "run_chan2.ljh"),
                                           (None, "noise_chan*.ljh", "noise_chan1*.ljh"), (None, [1, 2], [10])):
        want = [x for x in num if __import__("fnmatch").fnmatch(f"run_chan{x}.ljh", pat)]
        if np_:
            want = [x for x in want if __import__("fnmatch").fnmatch(f"noise_chan{x}.ljh", np_)]
        if sel:
            want = [x for x in want if x in sel]
        hist = f"glob {pat} with noise {np_}, use_only={sel}"
        if not want:
            continue
        ok, g = c.run("open-glob", mass.TESGroup, os.path.join(d, pat), os.path.join(d, np_) if np_ else None, use_only=sel)
        c.trans()
        if not ok:
            continue
        c.trace()
        w = [x for x in want if x != 5]
        check_group(c, g, w, {}, hist)
        for ds in g:
            same_data(c, ds, ds.channum, pulses, noise if np_ else None, hist)
        # default names of the HDF5 files: beside the data files, from their base name
        c.check(g.hdf5_file.filename == os.path.join(d, "run_mass.hdf5"), "default-hdf5-name", g.hdf5_file.filename, history=hist)
        if np_:
            c.check(g.hdf5_noisefile.filename == os.path.join(d, "noise_mass.hdf5"), "default-noise-hdf5-name", g.hdf5_noisefile.filename,
                    history=hist)
            g.hdf5_noisefile.close()
        g.hdf5_file.close()
        for f in ("run_mass.hdf5", "noise_mass.hdf5"):
            if os.path.exists(os.path.join(d, f)):
                os.remove(os.path.join(d, f))


def noiseonly(c):
    import mass
    d0 = c.newdir()
    noise, nf = {}, {}
    for ch in CH:
        nf[ch], noise[ch] = tiny(d0, "noise", ch, 3, 50)
    k = 0
    for r in (1, 2, 3):
        for order in itertools.permutations(CH, r):
            for nu, uo, mx, where in itertools.product((None, [2]), (None, (10, 1), [2, 1]), (None, 1, 2), ("first", "second")):
                want = [x for x in order if not (nu and x in nu) and (uo is None or x in uo)][:mx]
                if not want:
                    continue
                k += 1
                kw = {kk: v for kk, v in dict(never_use=nu, use_only=uo, max_chans=mx).items() if v is not None}
                files = [nf[x] for x in order]
                hist = f"noise-only {order} {kw} files given {where}"
                h5 = os.path.join(d0, f"n{k}.hdf5")
                a = (files,) if where == "first" else ([], files)
                ok, g = c.run("noise-only", mass.TESGroup, *a, noise_only=True, hdf5_noisefilename=h5, **kw)
                c.trans()
                if not ok:
                    continue
                c.trace()
                c.state(order, nu, uo, mx, where)
                c.check([ds.channum for ds in g] == want and g.n_channels == len(want) and g.good_channels == want, "noise-only-channels",
                        lambda: f"{[ds.channum for ds in g]} (n_channels {g.n_channels}), expected {want}", history=hist)
                for ds in g:
                    c.check(np.array_equal(np.asarray(ds.noise_records.datafile.alldata), noise[ds.channum]), "noise-only-data", "", history=hist)
                # marks and their reasons survive reopening, in any order
                marks = {}
                for i, ch in enumerate(want[k % 2::2]):
                    why = ("", "no signal", "naïve – reason")[(k + i) % 3]
                    ok, _ = c.run("noise-only-mark", g.set_chan_bad, ch, why)
                    marks[ch] = [why]
                for turn in range(3):
                    c.state(order, nu, uo, mx, where, sorted(marks), turn)
                    c.check(g.why_chan_bad == marks and g.good_channels == [x for x in want if x not in marks], "noise-only-marks",
                            lambda: f"bad {g.why_chan_bad}, expected {marks}", history=f"{hist} marked, opened {turn + 1} times")
                    g.hdf5_noisefile.close()
                    ok, g = c.run("noise-only-reopen", mass.TESGroup, *a, noise_only=True, hdf5_noisefilename=h5, **kw)
                    if not ok:
                        return
                    if turn == 1 and marks:
                        ch = next(iter(marks))
                        c.run("noise-only-good", g.set_chan_good, ch)
                        del marks[ch]
                g.hdf5_noisefile.close()
                os.remove(h5)


# ------------------------------------------------------------------------------------ (2) marks
ALL = (1, 3, 12)
OPS = ([("bad", (1,), "a"), ("bad", (3,), "naïve – reason"), ("bad", (12, 3), ""), ("bad", (1,), None), ("badmix", (1, 12), "z" * 300),
        ("good", (1,)), ("good", (3, 12)), ("allgood",), ("reopen",), ("subset",), ("restore",)])


class Marks:
    def __init__(self, c, d):
        self.c = c
        self.dir = d
        self.files = [tiny(d, "x", ch, 2)[0] for ch in ALL]
        self.bad = {}
        self.loaded = list(ALL)
        self.order = True
        self.open(self.files)

    def open(self, files):
        import mass
        self.g = mass.TESGroup(list(files), hdf5_filename=os.path.join(self.dir, "x.hdf5"))

    def close(self):
        self.g.hdf5_file.close()

    def apply(self, op, hist):
        import mass
        g, c = self.g, self.c
        k = op[0]
        if k in ("bad", "badmix", "good"):
            chans = [x for x in op[1] if x in self.loaded]
            if not chans:
                return False
        if k == "bad":
            if len(chans) == 1:
                args = [chans[0]]
            else:
                args = list(chans)
            if op[2] is not None:
                args.append(op[2])
            ok, _ = c.run("set_chan_bad", g.set_chan_bad, *args)
            for ch in chans:
                self.bad[ch] = self.bad.get(ch, []) + [op[2] or ""]
        elif k == "badmix":
            ok, _ = c.run("set_chan_bad-list", g.set_chan_bad, chans[0], np.array(chans[1:], dtype=int), op[2])
            for ch in chans:
                self.bad[ch] = self.bad.get(ch, []) + [op[2]]
        elif k == "good":
            ok, _ = c.run("set_chan_good", g.set_chan_good, list(chans))
            for ch in chans:
                self.bad.pop(ch, None)
        elif k == "allgood":
            ok, _ = c.run("set_all_chan_good", g.set_all_chan_good)
            for ch in self.loaded:
                self.bad.pop(ch, None)
        elif k == "reopen":
            self.close()
            self.loaded, self.order = list(ALL), True
            ok, _ = c.run("reopen", self.open, self.files)
        elif k == "subset":
            self.close()
            self.loaded, self.order = [12, 1], True
            ok, _ = c.run("reopen-subset", self.open, [self.files[2], self.files[0]])
        else:
            self.close()
            self.loaded, self.order = list(ALL), False
            ok, g = c.run("RestoreTESGroup", mass.RestoreTESGroup, os.path.join(self.dir, "x.hdf5"))
            if ok:
                self.g = g
        return ok


def marks(c, part, nparts):
    depth = 5 if c.thorough else 3
    seqs = list(itertools.product(range(len(OPS)), repeat=depth))
    if not c.thorough:
        # depth 4 for the sequences that reopen in the middle
        seqs += [s for s in itertools.product(range(len(OPS)), repeat=4) if s[1] >= 8 and s[0] < 5 and s[3] >= 5]
    for si, s in enumerate(seqs):
        if si % nparts != part:
            continue
        d = c.newdir()
        w = Marks(c, d)
        for i, k in enumerate(s):
            hist = [OPS[x] for x in s[:i + 1]]
            if not w.apply(OPS[k], hist):
                break
            c.trans()
            c.state(tuple(w.loaded), tuple(sorted((a, tuple(b)) for a, b in w.bad.items())))
            check_group(c, w.g, w.loaded, w.bad, hist, w.order)
        # finally: everything as it was when reopened
        try:
            w.close()
        except Exception:
            pass
        ok, _ = c.run("reopen-final", w.open, w.files)
        if ok:
            check_group(c, w.g, list(ALL), w.bad, [OPS[x] for x in s] + ["reopen"])
            w.close()
        c.trace()
        __import__("shutil").rmtree(d)


# ------------------------------------------------------------------------------------ (3) failing steps
STEPS = ("summarize_data", "auto_cuts", "avg_pulses_auto_masks", "compute_noise", "compute_5lag_filter", "compute_ats_filter",
         "filter_data", "drift_correct", "phase_correct")
SCH = (3, 1, 8)


def do(g, step):
    if step == "filter_data":
        g.filter_data()
    elif step == "summarize_data":
        g.summarize_data()
    else:
        getattr(g, step)()


def prepare(g, step):
    """Everything that must be done before the step."""
    seq = []
    for s in ("summarize_data", "auto_cuts", "avg_pulses_auto_masks", "compute_noise", "compute_5lag_filter", "filter_data",
              "drift_correct", "phase_correct"):
        if s == step or (step == "compute_ats_filter" and s == "compute_5lag_filter"):
            break
        seq.append(s)
    for s in seq:
        do(g, s)


def sabotage(ds, step):
    """Make the step impossible for this channel."""
    if step in ("summarize_data", "filter_data"):
        ds.pulse_records = None
    elif step in ("compute_noise", "auto_cuts"):
        ds.noise_records = None
    elif step in ("compute_5lag_filter", "compute_ats_filter"):
        ds.noise_records = None
        ds.noise_autocorr = None
    else:
        ds.cuts.cut("pretrigger_rms", np.ones(ds.nPulses, bool))


def dump(ds):
    """Everything stored for the channel, except file names and the reason it is bad."""
    out = {}

    def visit(name, obj):
        if hasattr(obj, "shape"):
            out[name] = np.asarray(obj[()])
        for k, v in obj.attrs.items():
            if isinstance(v, (int, float, np.number, np.ndarray)):
                out[name + "@" + k] = np.asarray(v)
    ds.hdf5_group.visititems(visit)
    return out


def differ(a, b):
    if set(a) != set(b):
        return f"entries {sorted(set(a) ^ set(b))}"
    for k in sorted(a):
        x, y = a[k], b[k]
        if x.dtype.kind in "SOU" or x.dtype.names:
            if x.tolist() != y.tolist():
                return k
        elif x.shape != y.shape or not np.allclose(x.astype(float), y.astype(float), rtol=1e-9, atol=1e-12, equal_nan=True):
            return k
    return None


def group_at(c, step, chans, d, tag):
    import mass
    pa, na = zip(*[pulse_files(os.path.join(d, tag), ch, npulses=40, nnoise=20) for ch in chans])
    g = mass.TESGroup(list(pa), list(na), hdf5_filename=os.path.join(d, tag + ".hdf5"), hdf5_noisefilename=os.path.join(d, tag + "n.hdf5"))
    prepare(g, step)
    return g, list(pa), list(na)


def steps(c, step):
    import mass
    d = c.newdir()
    alone, before = {}, {}
    for ch in SCH:
        ok, r = c.run("alone", group_at, c, step, [ch], d, f"alone{ch}")
        if not ok:
            return
        g = r[0]
        before[ch] = dump(g.channel[ch])
        c.run("alone-" + step, do, g, step)
        c.check(g.good_channels == [ch], "step-failed-alone", lambda: f"{step} failed: {g.why_chan_bad}")
        alone[ch] = dump(g.channel[ch])
        c.check(differ(alone[ch], before[ch]) is not None, "step-does-nothing", step)
        g.hdf5_file.close()
        g.hdf5_noisefile.close()
    for fail in itertools.product((0, 1), repeat=3):
        for pre in itertools.product((0, 1), repeat=3):
            tag = "g" + "".join(map(str, fail + pre))
            hist = f"{step}: fails for {[x for x, f in zip(SCH, fail) if f]}, marked bad before: {[x for x, f in zip(SCH, pre) if f]}"
            g, pa, na = group_at(c, step, SCH, d, tag)
            c.trans()
            bad = {}
            for ch, p in zip(SCH, pre):
                if p:
                    g.set_chan_bad(ch, "before")
                    bad[ch] = ["before"]
            start = {}
            for ch, f in zip(SCH, fail):
                if f:
                    sabotage(g.channel[ch], step)
                start[ch] = dump(g.channel[ch])
            ok, _ = c.run("step:" + step, do, g, step)
            if not ok:
                continue
            want = {ch for ch, p, f in zip(SCH, pre, fail) if p or f}
            c.state(step, fail, pre)
            c.check(set(g.why_chan_bad) == want, "bad-after-step", lambda: f"bad channels {g.why_chan_bad}, expected {want}", history=hist)
            for ch, p, f in zip(SCH, pre, fail):
                got = dump(g.channel[ch])
                if p:
                    c.check(differ(got, start[ch]) is None, "bad-channel-processed", lambda: f"{step} changed {differ(got, start[ch])} of bad channel {ch}",
                            history=hist)
                    c.check(list(g.why_chan_bad.get(ch, [])) == ["before"], "reason-changed", "", history=hist)
                elif not f:
                    c.check(differ(got, alone[ch]) is None, "result-depends-on-others",
                            lambda: f"{step}: {differ(got, alone[ch])} of channel {ch} differs from that channel analysed alone", history=hist)
                else:
                    why = g.why_chan_bad.get(ch, [])
                    c.check(len(why) == 1 and why[0] != "", "no-reason", f"reasons {why}", history=hist)
            reasons = {k: list(v) for k, v in g.why_chan_bad.items()}
            g.hdf5_file.close()
            g.hdf5_noisefile.close()
            ok, g = c.run("reopen", mass.TESGroup, pa, na, hdf5_filename=os.path.join(d, tag + ".hdf5"),
                          hdf5_noisefilename=os.path.join(d, tag + "n.hdf5"))
            if ok:
                check_group(c, g, list(SCH), reasons, hist)
                # marked good again, the step now completes for the channels that had been left out
                if not any(fail) or step in ("compute_noise",):
                    c.run("set_all_chan_good", g.set_all_chan_good)
                    check_group(c, g, list(SCH), {}, hist)
                    c.run("step-again", do, g, step)
                    for ch in SCH:
                        c.check(differ(dump(g.channel[ch]), alone[ch]) is None, "result-after-marked-good",
                                lambda: f"{differ(dump(g.channel[ch]), alone[ch])} of {ch}", history=hist)
                g.hdf5_file.close()
                g.hdf5_noisefile.close()
            c.trace()
