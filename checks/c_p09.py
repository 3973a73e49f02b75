"""P09: cut bookkeeping; every operation sequence (bounded) on real groups vs a dictionary of arrays."""
import itertools
import os

import numpy as np

from vlib.core import chunks
from vlib.ljh import Spec, pattern

PROPERTY = "P09"
EXPLAIN = """States are (registered fields, their values per pulse); transitions are register / unregister / cut /
clear / select / reopen operations on a real two-channel data group backed by its HDF5 file.  All operation
sequences up to the depth run from four start situations (fresh, populated, fragmented bit space, nearly full)."""
ASSUMPTIONS = ["field names are distinct between boolean and categorical fields"]

NP = {1: 3, 3: 2}   # pulses per channel


def masks(n):
    return {1: np.array([True, False, False][:n]), 2: np.array([False, True, True][:n]), 3: np.ones(n, bool), 0: np.zeros(n, bool)}


class Model:
    def __init__(self, group):
        self.bools = {}    # name -> {chan: bool array (True = cut)}
        self.cats = {}     # name -> (labels, {chan: list of label})
        for n in [x.decode() for x in group.boolean_cut_desc["name"] if x]:
            self.bools[n] = {c: np.zeros(k, bool) for c, k in NP.items()}
        self.cats["calibration"] = (["in", "out"], {c: ["in"] * k for c, k in NP.items()})
        if "state" in [x.decode() for x in group.categorical_cut_desc["name"]]:
            self.cats["state"] = (["uncategorized", "START"], {c: ["uncategorized"] * k for c, k in NP.items()})

    def bits(self):
        n = len(self.bools)
        for labels, _ in self.cats.values():
            b = 1
            while (1 << b) < len(labels):
                b += 1
            n += b
        return n

    def key(self):
        return (sorted((k, [(c, m.tolist()) for c, m in sorted(v.items())]) for k, v in self.bools.items()),
                sorted((k, v[0], sorted(v[1].items())) for k, v in self.cats.items()))


class World:
    def __init__(self, c, d):
        import mass
        self.c, self.d, self.mass = c, d, mass
        self.files = []
        for ch, n in NP.items():
            s = Spec(nsamp=4, npre=1)
            p = pattern(4, n, ch)
            s.records = [(i * 100, 1500000000000000 + i * 1000, p[i]) for i in range(n)]
            self.files.append(s.write(os.path.join(d, f"x_chan{ch}.ljh")))
        self.open()
        self.m = Model(self.g)

    def open(self):
        self.g = self.mass.TESGroup(list(self.files), hdf5_filename=os.path.join(self.d, "x_mass.hdf5"))

    def close(self):
        self.g.hdf5_file.close()

    def refused(self, sig, exc, fn, *a, hist=None, **kw):
        before = self.snapshot()
        try:
            fn(*a, **kw)
        except exc:
            pass
        else:
            self.c.violate(f"accepted:{sig}", f"{sig} with invalid arguments {a} was accepted", history=hist)
        after = self.snapshot()
        self.c.check(before == after, f"refused-but-changed:{sig}", f"{sig}{a} failed but changed the cuts", history=hist)

    def snapshot(self):
        out = []
        for ch in NP:
            cm = self.g.channel[ch].cuts.cut_mask()
            out.append((cm.dtype.names, cm.tolist()))
        return out

    # -------------------------------------------------------------- operations
    def apply(self, op, hist):
        g, m, c = self.g, self.m, self.c
        k = op[0]
        if k == "fill":
            # every bit not in use can be had by a new field, which starts out with no pulse cut
            op = ("reg", tuple(f"fill{i}" for i in range(32 - m.bits())))
            k = "reg"
        if k == "reg":
            names = op[1]
            new = [n for n in dict.fromkeys(names) if n not in m.bools]
            if m.bits() + len(new) > 32:
                self.refused("register-boolean-full", ValueError, g.register_boolean_cut_fields, *names, hist=hist)
                return
            g.register_boolean_cut_fields(*names)
            for n in new:
                m.bools[n] = {ch: np.zeros(x, bool) for ch, x in NP.items()}
        elif k == "unreg":
            names = op[1]
            if any(n not in m.bools for n in names):
                self.refused("unregister-boolean", KeyError, g.unregister_boolean_cut_fields, *names, hist=hist)
                return
            g.unregister_boolean_cut_fields(*names)
            for n in names:
                m.bools.pop(n, None)
        elif k == "regc":
            _, name, labels, default = op
            if name in m.cats:
                g.register_categorical_cut_field(name, labels)   # ignored
                return
            lab = list(dict.fromkeys(str(x) for x in labels))
            dflt = "uncategorized" if default is None else str(default)
            if dflt in lab:
                lab.remove(dflt)
            lab.insert(0, dflt)
            b = 1
            while (1 << b) < len(lab):
                b += 1
            args = (name, labels) if default is None else (name, labels, default)
            if m.bits() + b > 32:
                self.refused("register-categorical-full", ValueError, g.register_categorical_cut_field, *args, hist=hist)
                return
            g.register_categorical_cut_field(*args)
            m.cats[name] = (lab, {ch: [dflt] * x for ch, x in NP.items()})
        elif k == "unregc":
            if op[1] not in m.cats:
                self.refused("unregister-categorical", KeyError, g.unregister_categorical_cut_field, op[1], hist=hist)
                return
            g.unregister_categorical_cut_field(op[1])
            del m.cats[op[1]]
        elif k == "cut":
            _, name, which = op
            for ch, n in NP.items():
                mask = masks(n)[which if ch == 1 else (which * 2) % 4]
                if name not in m.bools:
                    self.refused("cut-unknown", ValueError, g.channel[ch].cuts.cut, name, mask, hist=hist)
                    continue
                keep = mask.copy()
                g.channel[ch].cuts.cut(name, mask)
                c.check(np.array_equal(keep, mask), "cut:input-changed", "", history=hist)
                m.bools[name][ch] = m.bools[name][ch] | mask
        elif k == "cutnum":
            # by bit number: whichever boolean field is listed there
            desc = g.boolean_cut_desc
            num = op[1]
            for ch, n in NP.items():
                mask = masks(n)[op[2]]
                name = desc[num]["name"].decode()
                if not name:
                    self.refused("cut-number", ValueError, g.channel[ch].cuts.cut, num, mask, hist=hist)
                    continue
                g.channel[ch].cuts.cut(num, mask)
                m.bools[name][ch] = m.bools[name][ch] | mask
        elif k == "cutc":
            _, name, shift = op
            for ch, n in NP.items():
                if name not in m.cats:
                    continue
                labels = m.cats[name][0]
                pick = [labels[(i + shift) % len(labels)] for i in range(n)]
                codes = g.cut_field_categories(name)
                g.channel[ch].cuts.cut(name, np.array([codes[p] for p in pick], dtype=np.uint32))
                m.cats[name][1][ch] = pick
        elif k == "cutd":
            _, name, li = op
            for ch, n in NP.items():
                if name not in m.cats:
                    continue
                labels = m.cats[name][0]
                a, b = labels[li % len(labels)], labels[(li + 1) % len(labels)]
                mk = masks(n)
                g.channel[ch].cuts.cut_categorical(name, {a: mk[1], b: mk[2]})
                m.cats[name][1][ch] = [a if mk[1][i] else b if mk[2][i] else labels[0] for i in range(n)]
                # a pulse in two categories is refused and changes nothing
                self.refused("categorical-conflict", ValueError, g.channel[ch].cuts.cut_categorical, name,
                             {a: mk[1], b: mk[3]}, hist=hist)
                # likewise when one of the two is the field's default category, in either order
                for x, y in ((labels[0], labels[-1]), (labels[-1], labels[0])):
                    self.refused("categorical-conflict-default", ValueError, g.channel[ch].cuts.cut_categorical, name,
                                 {x: mk[1], y: mk[3]}, hist=hist)
        elif k == "param":
            _, name, allowed = op
            for ch, n in NP.items():
                data = np.array([0.0, 1.0, -2.0][:n])
                if allowed is None and name not in m.bools:
                    continue
                if name not in m.bools:
                    self.refused("cut-parameter-unknown", ValueError, g.channel[ch].cuts.cut_parameter, data, allowed, name, hist=hist)
                    continue
                g.channel[ch].cuts.cut_parameter(data, allowed, name)
                m.bools[name][ch] = m.bools[name][ch] | np.array([param_cut(x, allowed) for x in data])
        elif k == "clear":
            names = op[1]
            for ch in NP:
                if any(n not in m.bools for n in names):
                    self.refused("clear-unknown", ValueError, g.channel[ch].cuts.clear_cut, *names, hist=hist)
                    continue
                g.channel[ch].cuts.clear_cut(*names)
                for n in (names or list(m.bools)):
                    m.bools[n][ch] = np.zeros(NP[ch], bool)
        elif k == "bad":
            # a channel set aside keeps its cuts; the fields belong to the whole group, so to it as well
            g.set_chan_bad(op[1], "set aside by the check")
        elif k == "good":
            g.set_chan_good(op[1])
        elif k == "reopen":
            self.close()
            self.open()

    # -------------------------------------------------------------- comparison
    def compare(self, hist, full):
        g, m, c = self.g, self.m, self.c
        op = hist[-1][0] if hist else "start"
        self.ctr = getattr(self, "ctr", len(hist)) + 1
        names = sorted(x.decode() for x in g.boolean_cut_desc["name"] if x)
        c.check(names == sorted(m.bools), f"{op}:boolean-fields", f"{names} want {sorted(m.bools)}", history=hist)
        cn = sorted(x.decode() for x in g.categorical_cut_desc["name"])
        c.check(cn == sorted(m.cats), f"{op}:categorical-fields", f"{cn} want {sorted(m.cats)}", history=hist)
        for ch, n in NP.items():
            cuts = g.channel[ch].cuts
            cm = cuts.cut_mask()
            if not c.check(sorted(cm.dtype.names or ()) == sorted([*m.bools, *m.cats]), f"{op}:cut_mask-fields", "", history=hist):
                return
            for f, v in m.bools.items():
                c.check(np.array_equal(cm[f], ~v[ch]), f"{op}:boolean-values",
                        lambda: f"channel {ch} field {f}: good={cm[f].tolist()} want {(~v[ch]).tolist()}", history=hist)
            for f, (labels, v) in m.cats.items():
                codes = g.cut_field_categories(f)
                if not c.check(sorted(codes) == sorted(labels), f"{op}:categories", f"{f}: {codes} want {labels}", history=hist):
                    return
                c.check(len(set(codes.values())) == len(labels), f"{op}:codes-distinct", f"{codes}", history=hist)
                want = [codes[x] for x in v[ch]]
                c.check(cm[f].tolist() == want, f"{op}:categorical-values",
                        lambda: f"channel {ch} field {f}: {cm[f].tolist()} want {want} ({v[ch]})", history=hist)
            allbad = np.zeros(n, bool)
            for v in m.bools.values():
                allbad |= v[ch]
            c.check(np.array_equal(cuts.good(), ~allbad) and np.array_equal(cuts.bad(), allbad), f"{op}:good-all",
                    lambda: f"good()={cuts.good().tolist()} want {(~allbad).tolist()}", history=hist)
            ds = g.channel[ch]
            c.check(np.array_equal(ds.good(), ~allbad) and np.array_equal(ds.bad(), allbad), f"{op}:ds-good", "", history=hist)
            if not full or (not self.c.thorough and (self.ctr + ch) % 4 == 1):
                continue
            some = [f for f in m.bools if f in {"b1", "b2", "b3", "energy", "timing", "smart_cuts"}]
            sel = {(f, lab): np.array([x == lab for x in v[ch]]) for f, (labels, v) in m.cats.items()
                   for lab in labels[:99 if c.thorough else 5]}
            for k in (1, 2):
                for fs in list(itertools.combinations(some, k))[:4 if k == 2 else None]:
                    bad = np.zeros(n, bool)
                    for f in fs:
                        bad |= m.bools[f][ch]
                    c.check(np.array_equal(cuts.good(*fs), ~bad) and np.array_equal(cuts.bad(*fs), bad), f"{op}:good-some",
                            f"{fs}", history=hist)
            f1 = some[:1]
            bad = m.bools[f1[0]][ch] if f1 else allbad
            for (f, lab), s in sel.items():
                c.check(np.array_equal(cuts.select_category(**{f: lab}), s), f"{op}:select", f"{f}={lab}", history=hist)
                c.check(np.array_equal(cuts.good(*f1, **{f: lab}), ~bad & s), f"{op}:good-select", f"{f1} {f}={lab}", history=hist)
                c.check(np.array_equal(cuts.bad(*f1, **{f: lab}), bad & s), f"{op}:bad-select", f"{f1} {f}={lab}", history=hist)
            pairs = [(x, y) for x, y in itertools.combinations(list(sel), 2) if x[0] != y[0]]
            for (fa, la), (fb, lb) in pairs[::1 if c.thorough else 1 + len(pairs) // 6]:
                c.check(np.array_equal(cuts.select_category(**{fa: la, fb: lb}), sel[fa, la] & sel[fb, lb]),
                        f"{op}:select2", f"{fa}={la},{fb}={lb}", history=hist)
            for f in (*some[:2], *m.cats):
                one = cuts.cut_mask(f)
                want = ~m.bools[f][ch] if f in m.bools else np.array([g.cut_field_categories(f)[x] for x in m.cats[f][1][ch]])
                c.check(one.dtype.names == (f,) and np.array_equal(one[f], want), f"{op}:cut_mask-one", f, history=hist)
            for bad_call in (lambda: cuts.good("no such"), lambda: cuts.bad("no such"), lambda: cuts.cut_mask("no such"),
                             lambda: cuts.select_category(nosuch="a"), lambda: cuts.select_category(calibration="nosuch"),
                             lambda: cuts.good(calibration="nosuch")):
                if "calibration" not in m.cats:
                    break
                try:
                    bad_call()
                    c.violate(f"{op}:unknown-name", "an unknown field or category was accepted", history=hist)
                except ValueError:
                    pass


def param_cut(x, allowed):
    if allowed is None:
        return False
    if isinstance(allowed[0], tuple) or allowed[0] == "invert":
        inside = any((a is None or x >= a) and (b is None or x <= b) for a, b in (e for e in allowed if e != "invert"))
        return inside if "invert" in allowed else not inside
    a, b = allowed
    return not ((a is None or x > a) and (b is None or x < b))


OPS = [
    ("cut", "b1", 1), ("cut", "energy", 2), ("cut", "b1", 0), ("cut", "b2", 3),
    ("reg", ("b1",)), ("reg", ("b2", "b1", "b2")), ("unreg", ("b1",)), ("unreg", ("b2", "energy")),
    ("regc", "c1", ("x", "y"), None), ("regc", "c2", ("p", "q", "r", "s", "q"), "r"),
    ("regc", "c3", tuple(range(9)), 4), ("unregc", "c1"), ("unregc", "c2"),
    ("cutc", "c1", 1), ("cutc", "c2", 2), ("cutd", "c2", 1), ("cutc", "calibration", 1), ("cutd", "c3", 5),
    ("clear", ("b1",)), ("clear", ()), ("clear", ("energy", "b1")), ("reopen",),
    ("param", "b1", (0, None)), ("cutnum", 2, 2),
]
PARAM = [None, (0, 1), (None, 0), (0, None), (-2, 1), (-3, 0.5), (None, None), ((0, 1),), ((-2, -2), (1, 5)), ((None, 0),), ((0, None),),
         ("invert", (0, 1)), ((0.5, 2), "invert"), ("invert", (None, -1), (1, None))]
STARTS = {
    "fresh": [],
    "populated": [("reg", ("b1", "b2")), ("regc", "c1", ("x", "y"), None), ("regc", "c2", ("p", "q", "r", "s"), "p"),
                  ("cut", "b1", 1), ("cutc", "c1", 1), ("cutc", "c2", 2), ("cut", "energy", 2), ("cutc", "calibration", 1)],
    "fragmented": [("reg", ("b1", "b2", "b3")), ("unreg", ("pretrigger_mean", "timing", "b1", "postpeak_deriv")), ("cut", "energy", 1),
                   ("regc", "c2", ("p", "q", "r", "s"), "p"), ("cutc", "c2", 3)],
    "nearly-full": [("reg", tuple(f"f{i}" for i in range(12))), ("cut", "f11", 2), ("cut", "f0", 1)],
}


HOLES = [(), ("pretrigger_mean",), ("pretrigger_rms", "peak_time_ms", "smart_cuts"), ("timing", "energy")]


def shards(tier):
    out = []
    deep = 3 if tier == "thorough" else 2
    for s in STARTS:
        seqs = list(itertools.product(OPS, repeat=deep))
        seqs += [(a, b) for a in OPS for b in OPS] if deep > 2 else []
        seqs += [(a,) for a in OPS]
        for i, part in enumerate(chunks(seqs, 24 if tier == "thorough" else 6)):
            out.append((f"{s}-{i}", ("seq", s, part)))
    core = [OPS[0], OPS[4], OPS[6], OPS[8], OPS[9], OPS[11], OPS[13], OPS[15], OPS[19], OPS[21]]
    seqs = list(itertools.product(core, repeat=4 if tier == "thorough" else 3))
    for i, part in enumerate(chunks(seqs, 16 if tier == "thorough" else 8)):
        out.append((f"deep-{i}", ("seq", "fresh", part)))
    cuts = [o for o in OPS if o[0] in {"cut", "cutc", "cutd", "param"}]
    frees = [o for o in OPS if o[0] in {"unreg", "unregc"}] + [("unreg", ("energy", "timing", "pretrigger_rms")), ("unregc", "calibration")]
    seqs = [(a, b, ("fill",)) for a in cuts for b in frees] + [(a, b, ("fill",)) for a in frees for b in frees]
    for s in STARTS:
        out.append((f"fill-{s}", ("seq", s, seqs)))
    aside = [("bad", 1), ("bad", 3)] if tier == "thorough" else [("bad", 3)]
    seqs = []
    for b in aside:
        some = [o for o in OPS if o[0] in {"cut", "cutc", "param", "clear"}]
        seqs += [(a, b, f, ("fill",), ("good", b[1])) for a in cuts[:3] for f in frees]
        seqs += [(b, a, f, ("fill",), ("good", b[1])) for a in some for f in frees[:3]]
        seqs += [(b, f, ("good", b[1]), ("fill",)) for f in frees]
        seqs += [(b, o, ("reopen",)) for o in OPS]
    for s in ("populated", "fragmented"):
        for i, part in enumerate(chunks(seqs, 4 if tier == "thorough" else 2)):
            out.append((f"aside-{s}-{i}", ("seq", s, part)))
    out.append(("params", ("seq", "populated", [(("param", f, a), ("param", f, b)) for f in ("b1", "nosuch") for a in PARAM for b in PARAM[::3]])))
    out.append(("numbers", ("seq", "fragmented", [(("cutnum", k, w), ("reopen",)) for k in range(32) for w in (1, 3)])))
    for i, holes in enumerate(HOLES):
        out.append((f"sizes-{i}", ("sizes", holes)))
    return out


def run_shard(c, kind, *arg):
    if kind == "seq":
        start, seqs = arg
        for seq in seqs:
            d = c.newdir()
            w = World(c, d)
            hist = [(start,)]
            for op in STARTS[start]:
                w.apply(op, [*hist, op])
            ok = True
            for i, op in enumerate(seq):
                hist = [*hist, op]
                ok, _ = c.run(f"exception:{op[0]}", w.apply, op, hist)
                if not ok:
                    break
                c.trans()
                ok, _ = c.run("exception:compare", w.compare, hist, full=i == len(seq) - 1)
                c.state(w.m.key())
                if not ok:
                    break
            c.trace()
            c.outcome((len(w.m.bools), len(w.m.cats)))
            c.sample(seq, 2)
            w.close()
            for fn in os.listdir(d):
                os.unlink(os.path.join(d, fn))
    else:
        # category counts 1..17 at every alignment of the free bits, every default position
        for holes in arg:
            for ncat in (*range(1, 10), 16, 17):
                for default in (None, 0, ncat - 1, "other"):
                    if default not in {None, 0} and ncat > 9:
                        continue
                    w = World(c, c.newdir())
                    if holes:
                        w.apply(("unreg", holes), [("unreg",)])
                    ops = [("regc", "k", tuple(range(ncat)), default)] + [("cutc", "k", s) for s in range(0, ncat + 1, 1 if ncat < 5 else 4)]
                    ops += [("reopen",), ("regc", "k2", ("u", "v"), None), ("cutc", "k2", 1), ("unregc", "k"), ("reg", ("b1", "b2"))]
                    hist = [("holes", holes)]
                    for op in ops:
                        hist = [*hist, op]
                        w.apply(op, hist)
                        w.compare(hist, full=op[0] in {"reopen", "reg"})
                        c.trans()
                        c.state(w.m.key())
                    c.trace()
                    w.close()
