"""P05: OFF files. Every header/storage variant, every torn byte, every append/refresh history within bounds."""
import itertools
import os

import numpy as np

from vlib.offs import OffSpec

PROPERTY = "P05"
EXPLAIN = """A state is (header variant, bytes of the file on disk, number of records the reader has been told of).  Transitions are
open, append some bytes (any boundary, also inside a record), refresh.  Every prefix length of the file is opened; every pair (thorough: triple)
of prefix lengths is read as an open-append-refresh history; all access paths are compared with the independently written contents."""
ASSUMPTIONS = ["files grow only by appending", "records are little-endian packed as in the OFF format description"]

T0 = 1_600_000_000_123_456_789


def variants():
    out = []
    for version, storage, nb in itertools.product(["0.1.0", "0.2.0", "0.3.0"], ["b64", "bin"], [3, 4, 6]):
        out.append((f"{version}-{storage}-{nb}", dict(version=version, storage=storage, nbasis=nb)))
    out.append(("uni-bin", dict(version="0.3.0", nbasis=3, extra={"PulseFile": "/data/µ-Röntgen/x_chan1.ljh"}, ensure_ascii=False)))
    out.append(("uni-b64", dict(version="0.1.0", nbasis=4, extra={"PulseFile": "/data/日本/x_chan1.ljh"}, ensure_ascii=False)))
    out.append(("nested", dict(version="0.3.0", nbasis=3, extra={"Deep": {"a": {"b": ["}", {"c": "}\n"}]}}})))
    return out


def shards(tier):
    out = []
    for name, kw in variants():
        out.append((f"open-{name}", ("open", name, kw)))
        out.append((f"grow-{name}", ("grow", name, kw)))
    out.append(("bad", ("bad",)))
    for nb in (3, 5):
        out.append((f"group-{nb}", ("group", nb)))
    return out


def run_shard(c, kind, *args):
    globals()["do_" + kind](c, *args)


def recs_for(spec, n):
    out = []
    for i in range(n):
        out.append(spec.rec(i, unixnano=T0 + i * 1009, samples=spec.nsamp, presamples=spec.npre + (i % 2), framecount=(1 << 40) + i,
                            ptm=-3.25 * i, resid=0.125 + i, ptdelta=-2.5 * i))
    return out


def verify(c, off, spec, recs, where, **detail):
    """every access path against the reference"""
    n = len(recs)
    ck = lambda cond, sig, msg: c.check(cond, f"{sig}@{where}", msg, **detail)
    if not ck(len(off) == n and off.nRecords == n and tuple(off.shape) == (n,), "count",
              f"len {len(off)} nRecords {off.nRecords} shape {off.shape}, want {n} complete records"):
        return
    f32 = lambda x: np.float32(x)
    fields = {"recordSamples": "samples", "recordPreSamples": "presamples", "framecount": "framecount", "unixnano": "unixnano",
              "pretriggerMean": "ptm", "residualStdDev": "resid"}
    if spec.version == "0.3.0":
        fields["pretriggerDelta"] = "ptdelta"
    for f, k in fields.items():
        got = off[f].tolist()
        want = [(r[k] if isinstance(r[k], int) else float(f32(r[k]))) for r in recs]
        ck(got == want, f"field-{f}", f"{f} is {got}, want {want}")
    coefs = [[float(f32(x)) for x in r["coefs"]] for r in recs]
    for j, f in enumerate(["pulseMean", "derivativeLike", "filtValue"]):
        ck(off[f].tolist() == [x[j] for x in coefs], f"field-{f}", f"{f} is {off[f].tolist()}, want coefficient {j} of {coefs}")
    if spec.nbasis > 3:
        ck(np.reshape(off["extraCoefs"], (n, spec.nbasis - 3)).tolist() == [x[3:] for x in coefs], "extraCoefs",
           f"{off['extraCoefs'].tolist()}")
    ck(np.array_equal(off.projectors, spec.projectors) and np.array_equal(off.basis, spec.basis), "model", "projectors or basis differ")
    for i in range(n):
        r = off[i]
        ck(int(r["framecount"]) == recs[i]["framecount"], "index", f"off[{i}]")
        t = off.sampleTimes(i)
        want = [(k - recs[i]["presamples"]) * spec.frame for k in range(recs[i]["samples"])]
        ck(len(t) == len(want) and np.allclose(t, want, rtol=1e-12, atol=1e-15), "sampleTimes", f"sampleTimes({i})={t} want {want}")
        mp = off.modeledPulse(i)
        want = [sum(spec.basis[z, k] * coefs[i][k] for k in range(spec.nbasis)) for z in range(spec.nsamp)]
        ck(np.shape(mp) == (spec.nsamp,) and np.allclose(mp, want, rtol=1e-6, atol=1e-3), "modeledPulse", f"modeledPulse({i})={mp} want {want}")
        x, y = off.recordXY(i)
        ck(np.array_equal(x, t) and np.array_equal(y, mp), "recordXY", f"recordXY({i})")
    fc = [r["framecount"] for r in recs]
    for a in range(n + 1):
        for b in range(a, n + 1):
            ck(off[a:b]["framecount"].tolist() == fc[a:b], "slice", f"off[{a}:{b}]")
    for m in itertools.product([False, True], repeat=n):
        if n:
            ck(off[np.array(m)]["framecount"].tolist() == [x for x, y in zip(fc, m) if y], "mask", f"off[{m}]")


def mk(kw):
    return OffSpec(nsamp=4, npre=1, frame=1.28e-5, **kw)


def do_open(c, name, kw):
    import mass
    spec = mk(kw)
    recs = recs_for(spec, 3)
    head = spec.header()
    body = b"".join(spec.pack(r) for r in recs)
    path = os.path.join(c.newdir(), "x_chan1.off")
    for cut in range(len(body) + 1):
        data = head + body[:cut]
        with open(path, "wb") as f:
            f.write(data)
        c.trans()
        ok, off = c.run("open", mass.off.OffFile, path)
        if not ok:
            return
        n = cut // spec.recsize
        c.state(name, cut, n)
        verify(c, off, spec, recs[:n], "open", variant=name, body_bytes=cut)
        c.check(off.framePeriodSeconds == spec.frame, "frame", f"{off.framePeriodSeconds}")
        c.check(open(path, "rb").read() == data, "file-changed", "opening changed the file")
        c.trace()
        off.close()
    # a header torn at any byte must be refused, never read as something else
    for cut in range(0, len(head)):
        with open(path, "wb") as f:
            f.write(head[:cut])
        c.trans()
        try:
            off = mass.off.OffFile(path)
        except Exception:
            continue
        c.violate("torn-header", f"file of {cut} header bytes (of {len(head)}) opened with {len(off)} records", variant=name)


def do_grow(c, name, kw):
    import mass
    spec = mk(kw)
    nrec = 4 if c.thorough else 3
    recs = recs_for(spec, nrec)
    head = spec.header()
    body = b"".join(spec.pack(r) for r in recs)
    rs = spec.recsize
    path = os.path.join(c.newdir(), "x_chan1.off")
    # positions: every byte near boundaries and all bytes of the middle record; two or three appends
    allpos = list(range(len(body) + 1))
    near = sorted({min(max(k * rs + d, 0), len(body)) for k in range(nrec + 1) for d in (-4, -1, 0, 1, 7)})
    hists = set()
    for a in (allpos if c.thorough else near):
        for b in allpos:
            if b >= a:
                hists.add((a, b))
    for t in itertools.combinations(near, 3):
        hists.add(t)
    for h in sorted(hists):
        with open(path, "wb") as f:
            f.write(head + body[:h[0]])
        ok, off = c.run("open", mass.off.OffFile, path)
        if not ok:
            return
        old = off[0:len(off)]
        oldbytes = old.tobytes()
        prev = h[0]
        for pos in h[1:]:
            with open(path, "ab") as f:
                f.write(body[prev:pos])
            prev = pos
            c.trans()
            ok, _ = c.run("refresh", off._updateMmap)
            if not ok:
                return
            n = pos // rs
            c.state(name, pos, len(off))
            got = off["framecount"].tolist()
            if not c.check(len(off) == n and got == [r["framecount"] for r in recs[:n]], "refresh-count",
                           f"{h}: after refresh {len(off)} records {got}, want {n}", history=h):
                break
            c.check(off[0:n].tobytes() == body[:n * rs], "refresh-bytes", f"{h}: record contents differ", history=h)
        c.check(old.tobytes() == oldbytes, "old-changed", f"{h}: records read before the refresh changed", history=h)
        if prev == len(body) or prev % rs in (0, 1, rs - 1):
            verify(c, off, spec, recs[:prev // rs], "refresh", variant=name, history=h)
        c.trace()
        off.close()
    c.sample({"history": [0, rs - 1, 2 * rs + 3]})


def do_bad(c):
    """Inconsistent headers must be refused."""
    import mass
    path = os.path.join(c.newdir(), "x_chan1.off")
    for (ver, sto) in itertools.product(["0.1.0", "0.2.0", "0.3.0"], ["b64", "bin"]):
        for pr, pc, br, bc, nb in itertools.product([2, 3, 4], [4, 5], [4, 5], [2, 3, 4], [3, 4]):
            if nb < 3:
                continue
            spec = OffSpec(version=ver, storage=sto, nbasis=nb, nsamp=4, projectors=np.ones((pr, pc)), basis=np.ones((br, bc)))
            spec.write(path, [spec.rec(i) for i in range(2)])
            consistent = pr == nb and bc == nb and br == pc
            c.trans()
            c.state(ver, sto, pr, pc, br, bc, nb)
            try:
                off = mass.off.OffFile(path)
            except Exception as e:
                c.check(not consistent, "refused-good", f"{(pr, pc, br, bc, nb)} refused: {e}")
                continue
            c.check(consistent, "accepted-bad", f"projectors {(pr, pc)} basis {(br, bc)} NumberOfBases {nb} accepted ({len(off)} records)")
            off.close()
    spec = mk(dict(version="0.3.0", nbasis=3, extra={"FileFormat": "LJH"}))
    spec.write(path, [])
    try:
        mass.off.OffFile(path)
        c.violate("accepted-format", "a file whose FileFormat is not OFF was opened")
    except Exception:
        pass
    spec = mk(dict(version="0.3.0", nbasis=3, extra={"FileFormatVersion": "9.9.0"}))
    spec.write(path, [])
    try:
        mass.off.OffFile(path)
        c.violate("accepted-version", "a file of unknown version was opened")
    except Exception:
        pass


def do_group(c, nb):
    """Channels of a group grow at different, torn rates; each exposes exactly its own complete records, through every refresh."""
    import gc
    import mass
    gc.freeze()
    spec = mk(dict(version="0.3.0", nbasis=nb))
    recs = {ch: [spec.rec(i, unixnano=T0 + 1000 * i + ch, framecount=ch * 1000 + i) for i in range(4)] for ch in (1, 2)}
    body = {ch: b"".join(spec.pack(r) for r in recs[ch]) for ch in (1, 2)}
    rs = spec.recsize
    d = c.newdir()
    base = os.path.join(d, "20180101_run0001")
    open(base + "_experiment_state.txt", "w").write("# h\n0, A\n")
    steps = [rs, rs + 1, 2 * rs - 1, 2 * rs, 3 * rs + rs // 2, 4 * rs]
    for p1 in itertools.combinations(steps, 3):
        for p2 in itertools.combinations(steps, 3):
            for ch in (1, 2):
                with open(f"{base}_chan{ch}.off", "wb") as f:
                    f.write(spec.header() + body[ch][:(p1, p2)[ch - 1][0]])
            g = mass.off.ChannelGroup([f"{base}_chan{ch}.off" for ch in (1, 2)], verbose=False)
            for k in range(3):
                pos = {1: p1[k], 2: p2[k]}
                before = {1: p1[max(k - 1, 0)], 2: p2[max(k - 1, 0)]}
                if k:
                    for ch in (1, 2):
                        with open(f"{base}_chan{ch}.off", "ab") as f:
                            f.write(body[ch][before[ch]:pos[ch]])
                    ok, r = c.run("group-refresh", g.refreshFromFiles)
                    if not ok:
                        return
                    want = {ch: pos[ch] // rs - before[ch] // rs for ch in (1, 2)}
                    c.check(dict(r[1]) == want, "group-new", f"{p1}{p2} step {k}: new records {dict(r[1])}, want {want}")
                c.trans()
                for ch in (1, 2):
                    ds = g[ch]
                    n = pos[ch] // rs
                    fc = ds.getAttr("framecount", None, "cutNone").tolist()
                    fcA = ds.getAttr("framecount", "A", "cutNone").tolist()
                    cf = np.array(ds.getAttr("coefs", None, "cutNone")).tolist()
                    w = [r["framecount"] for r in recs[ch][:n]]
                    c.check(fc == w and fcA == w and len(ds) == n and ds.nRecords == n
                            and cf == [[float(np.float32(x)) for x in r["coefs"]] for r in recs[ch][:n]],
                            "group-records", f"{p1}{p2} step {k} channel {ch}: {fc} / {fcA}, want {w}")
                c.state(p1[k], p2[k])
            c.trace()
            del g
