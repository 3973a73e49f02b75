"""P29: neighboring channels and crosstalk flags."""
import itertools
import os

import numpy as np

from vlib.core import chunks
from vlib.ljh import Spec

PROPERTY = "P29"
EXPLAIN = """(1) every placement of up to four channels (one of them without data) on small one-, two- and three-dimensional grids, coincidences included, in
several orders: the stored neighbor lists are compared with exact squared distances and their ranks; repeated with and without forcing, with maps of other sizes,
and reopened.  (2) a state is the arrival times of a channel and of its neighbors on a small clock with the flags computed so far; transitions flag crosstalk with each choice of windows, ranks of neighbors,
separate or combined categories, names, forcing, reopening.  All sorted times of three pulses against all of two or three neighboring pulses are run and compared pulse by pulse
with the definition.  (3) all small sets of times in two channels through CrosstalkVeto, queried at every millisecond."""
ASSUMPTIONS = ["no neighboring pulse arrives exactly at the edge of a veto period", "every channel with data is in the map",
               "CrosstalkVeto is compared to within its 1 ms resolution"]
CH = (1, 3, 300)
TB = 1e-6      # seconds per subframe


def shards(tier):
    out = [(f"map{i}", (maps, i)) for i in range(6)]
    out += [(f"flags{i}", (flags, i)) for i in range(8)]
    out += [(f"steps{i}", (steps, i)) for i in range(4)]
    out += [(f"veto{i}", (veto, i)) for i in range(4)]
    return out


def run_shard(c, fn, *a):
    fn(c, *a)


def group(c, n=3, counts=None):
    """Three channels; each has its own number of small pulses."""
    import mass
    d = c.newdir()
    counts = counts or (n, n, n)
    files = []
    for ch, m in zip(CH, counts):
        recs = [(1000 * i, 1_600_000_000_000_000 + 1000 * i, [100] * 8 + [500, 400, 300, 250, 200, 180, 160, 150]) for i in range(m)]
        files.append(Spec(nsamp=16, npre=8, rows=1, row=0, timebase="1e-6", records=recs).write(os.path.join(d, f"a_chan{ch}.ljh")))
    out = os.path.join(d, "o.hdf5")
    g = mass.TESGroup(files, hdf5_filename=out)
    g.summarize_data()
    return d, files, out, g


def want_list(channels, pos, me):
    """[channel, squared distance, rank] in the map's order."""
    pos = [tuple(p) for p in pos]
    spans = [max(x) - min(x) for x in zip(*pos)]
    possible = sorted({sum(v * v for v in vs) for vs in itertools.product(*[range(s + 1) for s in spans])})
    mine = pos[channels.index(me)]
    return [[ch, d2, possible.index(d2)] for ch, p in zip(channels, pos) for d2 in [sum((a - b)**2 for a, b in zip(p, mine))]]


def writemap(d, name, channels, pos):
    path = os.path.join(d, name)
    with open(path, "w") as fp:
        fp.write("# channel, position\n")
        for ch, p in zip(channels, pos):
            fp.write(" ".join(str(v) for v in (ch, *p)) + "\n")
    return path


def maps(c, part):
    import mass
    d, files, out, g = group(c)
    grids = [[(i,) for i in (0, 1, 2, 5)], [(i, j) for i in range(3) for j in range(2)], [(0, 0), (-1, 4), (2, 2), (1, 0), (3, -2)],
             [(0, 0, 0), (1, 0, 2), (1, 1, 1), (0, 2, 1)]]
    todo = []
    for gi, grid in enumerate(grids):
        for channels in ((1, 3, 300), (300, 3, 7, 1)):
            todo += [(gi, channels, p) for p in itertools.product(grid, repeat=len(channels)) if len(set(p)) > 1 or len(channels) == 3]
    if not c.thorough:
        todo = [t for i, t in enumerate(todo) if i % 7 == 0]
    old = None
    for k, (gi, channels, pos) in enumerate(chunks(todo, 6)[part]):
        path = writemap(d, "map.txt", channels, pos)
        dd = dict(channels=channels, positions=pos)
        cat = "space%d" % gi
        c.state(channels, pos)
        ok, _ = c.run("set-neighbors", g.set_nearest_neighbors_list, path, cat, forceNew=True)
        c.check(sorted(g.good_channels) == [1, 3, 300], "channel-failed", lambda: f"{g.why_chan_bad}", **dd)
        if not ok or len(g.good_channels) < 3:
            return
        wants = {ch: want_list(list(channels), pos, ch) for ch in CH}

        def compare(grp, sig):
            for ch in CH:
                ds = grp.channel[ch]
                got = ds.hdf5_group[f"nearest_neighbors/{cat}/neighbors_list"][()].tolist()
                c.check(got == wants[ch], sig, lambda: f"channel {ch}: neighbors {got}, expected {wants[ch]}", **dd)
                p = ds.hdf5_group[f"nearest_neighbors/{cat}/position"][()].tolist()
                c.check(p == list(pos[list(channels).index(ch)]), sig + "-position", lambda: f"channel {ch} at {p}", **dd)
                c.trans()
        compare(g, "neighbors")
        for ch in CH:
            ds = g.channel[ch]
            c.check(np.array_equal(getattr(ds, f"neighbors_list_{cat}")[:], wants[ch]), "attribute", "the channel's neighbor list attribute", **dd)
        # not recomputed unless forced, for a map of the same size
        other = tuple(tuple(2 * v + i for v in p) for i, p in enumerate(pos))
        c.run("set-again", g.set_nearest_neighbors_list, writemap(d, "map2.txt", channels, other), cat)
        compare(g, "kept")
        if k % 25 == 0:
            g.hdf5_file.close()
            g = mass.TESGroup(files, hdf5_filename=out)
            compare(g, "reopened")
            c.run("set-reopened", g.set_nearest_neighbors_list, path, cat)
            compare(g, "reopened-kept")
        c.trace()
    # other kinds of distance are refused (and so mark the channels bad)
    ds = g.channel[1]
    for kind in ("manhattan", "nonsense"):
        try:
            ds.set_nearest_neighbors_list(path, "other", distanceType=kind, forceNew=True)
            c.violate("distance-kind", f"{kind} distances gave no error")
        except Exception:
            pass


def set_times(g, times):
    for ch, t in times.items():
        g.channel[ch].p_subframecount[:] = [round(1000 * x) + 5_000_000 for x in t]


def expect(victim, others, prior, post):
    out = []
    for t in victim:
        for o in others:
            assert abs(o - (t - prior)) > 1e-6 and abs(o - (t + post)) > 1e-6
        out.append(any(t - prior < o < t + post for o in others))
    return out


WINDOWS = [(1.5, 2.5), (0.25, 0.5), (4.5, 0.5), (0.5, 20.5)]


def flags(c, part):
    """All arrival times on a small clock."""
    counts = (3, 2, 2)
    d, files, out, g = group(c, counts=counts)
    path = writemap(d, "map.txt", (1, 3, 300), [(0,), (1,), (2,)])
    g.set_nearest_neighbors_list(path, "row")
    ds = g.channel[1]
    n = 8 if c.thorough else 6
    todo = [(v, a) for v in itertools.combinations_with_replacement(range(1, n + 1), 3) for a in itertools.combinations_with_replacement(range(n + 2), 2)]
    for k, (v, a) in enumerate(chunks(todo, 8)[part]):
        b = ((a[0] * 3 + v[1]) % (n + 2), (a[1] * 5 + v[2] + 1) % (n + 2))
        if k % 2:
            b = b[::-1]
        set_times(g, {1: v, 3: a, 300: b})
        c.state(v, a, b)
        for prior, post in WINDOWS if c.thorough else [WINDOWS[0], WINDOWS[1 + k % 3]]:
            for dist, others in ((1, a), (2, b), ([1, 2], a + b)) if k % 3 == 0 else ((1, a), ([1, 2], a + b)):
                dd = dict(pulses=v, neighbors=a, second_neighbors=b, prior=prior, post=post, distances=dist)
                ok, _ = c.run("flag", ds.flag_crosstalking_pulses, prior, post, nearestNeighborsDistances=dist, forceNew=True)
                if not ok:
                    return
                w = expect(v, others, prior, post)
                got = ds.p_is_crosstalking[:].tolist()
                c.trans()
                c.check(got == w, "flags", lambda: f"flags {got}, expected {w}", **dd)
        if k % 4 == 1:
            # a neighbor's pulses count even when it is set aside, and when they are cut
            bad = (3,) if k % 8 == 1 else (3, 300)
            for ch in bad:
                g.set_chan_bad(ch, "set aside by the check")
            g.channel[300].cuts.cut("timing", np.array([True, False]))
            for how in (True, False):
                c.state(v, a, b, bad, how)
                ok, _ = c.run("flag-bad", ds.flag_crosstalking_pulses, 1.5, 2.5, combineCategories=how, nearestNeighborsDistances=[1, 2], forceNew=True)
                w = expect(v, a + b, 1.5, 2.5)
                got = ds.p_is_crosstalking[:].tolist()
                c.check(got == w, "flags-set-aside", lambda: f"flags {got}, expected {w}", pulses=v, neighbors=a, second_neighbors=b, bad=bad, combined=how)
            for ch in bad:
                g.set_chan_good(ch)
            g.channel[300].cuts.clear_cut()
        c.trace()


def steps(c, part):
    """Histories of flagging with several categories, names, windows and distances; all channels at once; reopening."""
    import mass
    d, files, out, g = group(c, counts=(4, 3, 3))
    todo = []
    layouts = [((0,), (1,), (2,)), ((1,), (0,), (2,)), ((0,), (5,), (1,)), ((0,), (1,), (1,))]
    times = [{1: (2, 3, 9, 12), 3: (1, 6, 14), 300: (3, 10, 30)}, {1: (1, 1, 2, 2), 3: (0, 8, 9), 300: (20, 30, 40)},
             {1: (5, 6, 7, 8), 3: (50, 60, 70), 300: (6, 6, 7)}, {1: (10, 20, 30, 40), 3: (12, 22, 38), 300: (9, 29, 41)}]
    for la, lb in itertools.product(layouts, repeat=2):
        for t in times:
            todo.append((la, lb, t))
    acts = [("combined", 1), ("combined", [1, 2]), ("combined", 9), ("separate", 1), ("separate", [2]), ("separate", [1, 2, 3])]
    pairs = list(itertools.product(range(len(acts)), repeat=2))
    for k, (la, lb, t) in enumerate(chunks(todo, 4)[part]):
        dd = dict(first=la, second=lb, times=t)
        pa, pb = writemap(d, "a.txt", CH, la), writemap(d, "b.txt", CH[::-1], lb[::-1])
        c.run("set-a", g.set_nearest_neighbors_list, pa, "alpha", forceNew=True)
        c.run("set-b", g.set_nearest_neighbors_list, pb, "beta", forceNew=True)
        set_times(g, t)

        def ranks(pos, me, dist):
            dist = [dist] if isinstance(dist, int) else dist
            return {ch for ch, _, r in want_list(list(CH), pos, me) if r in dist}

        def want(me, act):
            how, dist = act
            sep = {"alpha": ranks(la, me, dist), "beta": ranks(lb, me, dist)}
            allch = sep["alpha"] | sep["beta"]
            f = expect(t[me], [x for ch in allch for x in t[ch]], prior, post)
            per = {k2: expect(t[me], [x for ch in v for x in t[ch]], prior, post) for k2, v in sep.items()}
            return f, (per if how == "separate" else None)
        for i, j in pairs if c.thorough else pairs[k % 5::5]:
            prior, post = WINDOWS[(i + j + k) % 4]
            key = "is_crosstalking" if (i + j) % 2 else f"xt{j % 2}"
            hist = []
            for act in (acts[i], acts[j]):
                hist.append(act)
                c.state(la, lb, sorted(t.items()), tuple(map(str, hist)), key)
                g.flag_crosstalking_pulses(prior, post, combineCategories=act[0] == "combined", nearestNeighborsDistances=act[1], crosstalk_key=key, forceNew=True)
                c.check(sorted(g.good_channels) == [1, 3, 300], "channel-failed", lambda: f"{g.why_chan_bad}", history=hist, **dd)
                if len(g.good_channels) < 3:
                    return
                res = {}
                for ch in CH:
                    ds = g.channel[ch]
                    f, per = want(ch, act)
                    got = ds.hdf5_group[f"crosstalk_flags/{key}"][()].tolist()
                    c.trans()
                    res[ch] = f
                    c.check(got == f, f"steps-{act[0]}", lambda: f"channel {ch}: {got}, expected {f}", history=hist, key=key, windows=(prior, post), **dd)
                    c.check(getattr(ds, "p_" + key)[:].tolist() == f, "steps-attribute", "the channel's flag attribute", history=hist, **dd)
                    for cat in per or ():
                        got = getattr(ds, f"p_{key}_{cat}")[:].tolist()
                        c.check(got == per[cat], "steps-category", lambda: f"channel {ch} {cat}: {got}, expected {per[cat]}", history=hist, windows=(prior, post), **dd)
            # existing flags are kept without forcing
            g.flag_crosstalking_pulses(1000.25, 1000.25, nearestNeighborsDistances=[1, 2, 3], crosstalk_key=key)
            for ch in CH:
                if any(res[ch]):
                    c.check(g.channel[ch].hdf5_group[f"crosstalk_flags/{key}"][()].tolist() == res[ch], "steps-kept", "flags changed without forcing", history=hist, channel=ch, **dd)
            c.trace()
        if k % 5 == 0:
            g.hdf5_file.close()
            g = mass.TESGroup(files, hdf5_filename=out)
            for ch in CH:
                if any(res[ch]):
                    c.check(g.channel[ch].hdf5_group[f"crosstalk_flags/{key}"][()].tolist() == res[ch], "steps-reopened", "flags changed by reopening", channel=ch, **dd)
            prior, post = WINDOWS[k % 4]
            g.flag_crosstalking_pulses(prior, post, nearestNeighborsDistances=1, crosstalk_key="after", forceNew=True)
            c.check(sorted(g.good_channels) == [1, 3, 300], "reopened-failed", lambda: f"{g.why_chan_bad}", **dd)
            if len(g.good_channels) < 3:
                return
            for ch in CH:
                f, _ = want(ch, ("combined", 1))
                got = g.channel[ch].p_after[:].tolist()
                c.check(got == f, "steps-after-reopening", lambda: f"channel {ch}: {got}, expected {f}", **dd)
    # channels without neighbor lists are left alone
    d, files, out, g = group(c)
    g.flag_crosstalking_pulses(1.0, 1.0)
    c.check(sorted(g.good_channels) == [1, 3, 300], "no-neighbors", "a channel without neighbor list was marked bad")


def frac(ch, i):
    return 0.3 + (0.0, 0.37, 0.55)[(ch + i) % 3]


def veto(c, part):
    from mass.core.channel_group import CrosstalkVeto
    d, files, out, g = group(c, counts=(3, 2, 2))
    T0 = 1_600_000_000.0
    slots = (0, 2, 7, 30)
    todo = [(v, a, w, lim) for v in itertools.combinations_with_replacement(slots, 3) for a in itertools.combinations_with_replacement(slots, 2)
            for w in ((-10, 3), (-2, 2), (0, 5)) for lim in (100, 5)]
    if not c.thorough:
        todo = todo[::3]
    for k, (v, a, w, lim) in enumerate(chunks(todo, 4)[part]):
        times = {1: v, 3: a, 300: (90, 91)}
        for ch, t in times.items():
            g.channel[ch].p_timestamp[:] = [T0 + (x + frac(ch, i)) / 1e3 for i, x in enumerate(t)]
            g.channel[ch].p_postpeak_deriv[:] = [10 if (i + k) % 3 == 0 else 1 for i in range(len(t))]
        g.channel[1].cuts.clear_cut()
        bad = [(k // 3) % 2 == 1, False, False]
        g.channel[1].cuts.cut("pretrigger_rms", np.array(bad))
        ok, V = c.run("veto", CrosstalkVeto, g, w, lim)
        if not ok:
            return
        c.state(v, a, w, lim, k % 3, bad[0])
        wins = []
        for ch, t in times.items():
            for i, x in enumerate(t):
                if ch == 1 and bad[i]:
                    continue
                f = frac(ch, i)
                wins.append((x + f + w[0], x + f + w[1]))
                if (i + k) % 3 == 0 and 10 > lim:
                    wins.append((x + f + w[1] + 1, x + f + w[1] + 8))
        lo, hi = min(min(t) for t in times.values()) + w[0] - 7, 91 + w[1] + 15
        q = np.concatenate([np.arange(lo, hi), [lo - 1000, lo - 100.5, hi + 5000]])
        ok, got = c.run("veto-query", V.veto, T0 + q / 1e3)
        if not ok:
            return
        ok, W = c.run("veto-copy", V.copy)
        if ok:
            c.check(np.array_equal(W.veto(T0 + q / 1e3), got), "veto-copy-differs", "a copy vetoes otherwise")
            W.nhits += 5
            c.check(np.array_equal(V.veto(T0 + q / 1e3), got), "veto-copy-shared", "changing a copy changes the original")
        for x, gv in zip(q, got):
            # the veto works in bins of 1 ms, so it may begin 1.5 ms early, and end between 0.5 ms early and late
            low = sum(1 for p, r in wins if p - 0.49 <= x <= r - 0.51)
            high = sum(1 for p, r in wins if p - 1.51 <= x <= r + 0.51)
            c.trans()
            if low > 1:
                c.check(bool(gv), "veto-missed", f"time {x} ms is not vetoed", pulses=times, window=w, limit=lim)
            if high <= 1:
                c.check(not gv, "veto-extra", f"time {x} ms is vetoed", pulses=times, window=w, limit=lim)
        c.trace()
    # many pulses at once
    d, files, out, g = group(c, counts=(200, 2, 2))
    for ch in CH:
        g.channel[ch].p_timestamp[:] = T0 + 0.0503
    ok, V = c.run("veto-many", CrosstalkVeto, g)
    if ok:
        c.check(bool(np.all(V.veto(T0 + np.array([0.043, 0.050])))), "veto-overflow", "204 simultaneous pulses veto nothing")
