"""P01: LJH reading vs a byte-level model: every header variant, torn length and access path in bounds."""
import hashlib
import itertools
import os
import pathlib

import numpy as np

from vlib.core import chunks
from vlib.ljh import Spec, pattern

PROPERTY = "P01"
EXPLAIN = """Each state is (header variant, bytes present on disk); each transition is one access of one path
(index, slice, list, mask, 2-d, timing, segments, inverted or not) whose result is compared with the byte model."""
ASSUMPTIONS = ["timebases are whole numbers of ns", "little-endian host"]

T22 = [(2**40 + 17, 1510871067891481), (2**40 + 18, 1510871067891482), (3, 7), (2**61, 2**52 + 1)]
T21 = [(0, 1), (249, 5), (0, 0), (1, 4294967295)]


def recs(old, nsamp, n, salt=0):
    t = T21 if old else T22
    p = pattern(nsamp, n, salt)
    return [(t[i % 4][0], t[i % 4][1] + (0 if i < 4 else i), p[i]) for i in range(n)]


def header_variants(thorough):
    out = []
    vers = ["2.2.0", "2.2.1", "2.1.0", "2.0.0"]
    clients = ["DASTARD version 0.2.11", "MATTER Client 1.0.0", None]
    tdm = [dict(), dict(rows=16, cols=8, row=2, col=3), dict(rows=16, cols=8, row=0, col=0),
           dict(rows=33, cols=1, row=13, col=0, source="Abaco"), dict(rows=4, cols=2, row=3, col=1, subdiv=64, suboff=5),
           dict(rows=33, cols=1, row=13, col=0, source="Abaco", subdiv=8, suboff=3),
           dict(rows=8, cols=4, row=7, col=2, source="Lancero"), dict(rows=8, row=7), dict(cols=8, col=7),
           dict(subdiv=5), dict(rows=6, row=2, suboff=1), dict(rows=0, cols=0), dict(rows=0, subdiv=4, suboff=2)]
    for v, c, t in itertools.product(vers, clients, tdm):
        out.append(dict(version=v, client=c, **t))
    for v, tb in itertools.product(("2.2.0", "2.1.0"), ("5.120000e-06", "7.68e-06", "0.00000192", "3.84e-6", "1e-5",
                                                        "4.096000e-06", "9.6E-06", "1e-6", "2e-6", "4e-6", "5e-06", "8.0e-6", "2.5e-5")):
        out.append(dict(version=v, timebase=tb, rows=8, row=3))
    for v, nl in itertools.product(("2.2.0", "2.1.0"), ("\n", "\r\n")):
        for extra in ((), ("Dummy: 0", "Dummy: 1"), ("Server Start Time: 26 Jun 2023, 12:56:09 MDT", "Pixel Name: "),
                      ("no colon in this line", "# a comment"), ("Weird: a: b: c", "Empty:"),
                      tuple(f"Key {i}: {i}" for i in range(150)), tuple(f"Key {i}: {i}" for i in range(235))):
            out.append(dict(version=v, newline=nl, extra=extra, rows=4, cols=2, row=3, col=1))
    for v, cl in itertools.product(vers, ("MASS-generated", "simulated by MASS-generated: 0.8", "MASS 0.8.6", "DASTARD version 0.2.19: 10:20:30", "MATTER: build 3", "not-DASTARD", "")):
        out.append(dict(version=v, client=cl, rows=4, cols=2, row=3, col=1))
    for off in ("1439485224.407454", "0.000000", None):
        out.append(dict(offset=off))
    for nsamp, npre in itertools.product((1, 2, 3, 4, 7), (0, 1, 3)):
        for v in ("2.2.0", "2.1.0"):
            out.append(dict(version=v, nsamp=nsamp, npre=npre))
            out.append(dict(version=v, nsamp=nsamp, npre=npre, client="MATTER Client"))
    return out


def shards(tier):
    out = []
    hv = list(enumerate(header_variants(tier == "thorough")))
    for i, part in enumerate(chunks(hv, 4)):
        out.append((f"headers-{i}", ("headers", part)))
    nrec = 4 if tier == "thorough" else 3
    for ver, client, nsamp in itertools.product(("2.2.0", "2.1.0"), ("DASTARD", "MATTER"), (1, 2, 3)):
        out.append((f"torn-{ver}-{client}-{nsamp}", ("torn", (ver, client, nsamp, nrec))))
    for ver in ("2.2.0", "2.1.0"):
        out.append((f"dataset-{ver}", ("dataset", (ver,))))
        out.append((f"segments-{ver}", ("segments", (ver, 9 if tier == "thorough" else 6))))
        out.append((f"large-{ver}", ("large", (ver,))))
    return out


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def indexers(n, nsamp):
    """All access paths for a file of n records."""
    for i in range(-n, n):
        yield ("int", i, i)
    for i in range(n):
        yield ("npint", i, np.int64(i))
    bounds = [None, *range(-n - 1, n + 2)]
    for a, b in itertools.product(bounds, bounds):
        for st in (None, 1, 2, -1):
            yield ("slice", (a, b, st), slice(a, b, st))
    for m in itertools.product((False, True), repeat=n):
        yield ("mask", m, np.array(m, dtype=bool))
    for k in range(0, 3):
        for lst in itertools.product(range(n), repeat=k):
            yield ("list", lst, np.array(lst, dtype=int))
    yield ("ellipsis", "...", Ellipsis)
    for i in range(n):
        for j in range(nsamp):
            yield ("2d-int", (i, j), (i, j))
    for a in range(nsamp + 1):
        for b in range(nsamp + 1):
            yield ("2d-slice", (a, b), (slice(None), slice(a, b)))
            yield ("2d-both", (a, b), (slice(0, 1), slice(a, b)))


def check_meta(c, f, spec, n, path, tag):
    want = {
        "nPulses": n, "nSamples": spec.nsamp, "nPresamples": spec.true_npre,
        "row_number": spec.row or 0, "column_number": spec.col or 0,
        "number_of_rows": 1 if spec.rows is None else spec.rows,
        "number_of_columns": 1 if spec.cols is None else spec.cols,
        "subframe_divisions": spec.divisions, "subframe_offset": spec.suboffset,
        "channum": 7, "timestamp_offset": float(spec.offset) if spec.offset is not None else -1.0,
    }
    for k, v in want.items():
        c.trans()
        got = getattr(f, k)
        c.check(got == v, f"meta:{k}", f"{k} is {got}, the file says {v}", file=tag)
    c.check(abs(f.timebase - spec.dt) <= 1e-12 * spec.dt, "meta:timebase", f"{f.timebase} vs {spec.timebase}", file=tag)
    su = (np.arange(spec.nsamp) - spec.true_npre) * spec.dt * 1e6
    c.check(np.allclose(f.sample_usec, su, rtol=1e-9, atol=1e-12), "meta:sample_usec", "sample times", file=tag)
    c.check(f.source == (spec.source if spec.source is not None else "Lancero (assumed)"), "meta:source", f.source, file=tag)
    c.check(str(f.filename) == path, "meta:filename", "", file=tag)


def check_times(c, f, spec, n, tag):
    c.trans(4)
    sub = spec.subframes(n)
    c.check(eq(f.subframecount, np.array(sub, dtype=np.int64)), "times:subframecount",
            lambda: f"subframe counts {np.asarray(f.subframecount).tolist()} want {sub}", file=tag)
    t = np.array(spec.times(n))
    got = np.asarray(f.datatimes_float)
    c.check(got.shape == t.shape and np.allclose(got, t, rtol=2e-15 if not spec.old else 1e-12, atol=0), "times:datatimes_float",
            lambda: f"{got.tolist()} want {t.tolist()}", file=tag)
    raw = np.asarray(f.datatimes_raw)
    if spec.old:
        c.check(raw.shape == t.shape and bool(np.all(np.abs(raw - t * 1e6) <= 0.51 + 1e-9 * t * 1e6 * 1e-3)),
                "times:datatimes_raw", lambda: f"{raw.tolist()} want {(t * 1e6).tolist()}", file=tag)
        return [int(x) for x in raw]
    c.check(eq(raw, np.array(spec.usec(n), dtype=np.int64)), "times:datatimes_raw",
            lambda: f"{raw.tolist()} want {spec.usec(n)}", file=tag)
    return spec.usec(n)


def check_access(c, f, spec, n, tag, full=True):
    data = spec.data(n)
    usec = check_times(c, f, spec, n, tag)
    for inv in (False, True, False):
        f.invert_data = inv
        want = (65535 - data.astype(int)).astype(np.uint16) if inv else data
        c.trans()
        c.check(eq(f.alldata, want) and np.asarray(f.alldata).dtype == np.uint16, f"access:alldata:inv={inv}",
                "the whole-file array differs", file=tag)
        for kind, label, idx in indexers(n, spec.nsamp):
            if not full and kind in {"slice", "mask"} and n > 3:
                continue
            c.trans()
            got = f[idx]
            c.check(eq(got, want[idx]), f"access:{kind}:inv={inv}",
                    lambda: f"index {label}: got {np.asarray(got).tolist()} want {want[idx].tolist()}", file=tag)
        for i in range(n):
            c.trans(2)
            c.check(eq(f.read_trace(i), want[i]), f"access:read_trace:inv={inv}", f"record {i}", file=tag)
            s, u, d = f.read_trace_with_timing(i)
            c.check(int(s) == spec.subframes(n)[i] and int(u) == usec[i] and eq(d, want[i]),
                    f"access:with_timing:inv={inv}", f"record {i}: got {int(s)},{int(u)}", file=tag)
        try:
            f.read_trace(n)
            c.violate("access:past-end", f"record {n} of {n} was returned", file=tag)
        except (IndexError, ValueError):
            pass
    return data


def check_segments(c, f, spec, n, tag, sizes):
    for size in sizes:
        c.trans()
        f.set_segment_size(size)
        per = f.pulses_per_seg
        c.check(per == max(1, size // spec.recsize), "segments:pulses_per_seg", f"{per} for {size} bytes", file=tag)
        got = [f[k * per:(k + 1) * per] for k in range(f.n_segments)]
        c.check(all(len(g) > 0 for g in got), "segments:empty", f"an empty segment, segment size {size}, {n} records", file=tag)
        allg = np.concatenate(got) if got else np.zeros((0, spec.nsamp), np.uint16)
        c.check(eq(allg, spec.data(n)), "segments:partition", f"segments of {size} bytes do not partition {n} records", file=tag)
    try:
        f.set_segment_size(spec.recsize - 1)
        c.violate("segments:toosmall", "a segment smaller than one record was accepted", file=tag)
    except ValueError:
        pass


def run_shard(c, kind, arg):
    import mass
    if kind == "headers":
        for i, hv in arg:
            nsamp = hv.get("nsamp", 4)
            for n in (0, 1, 2, 4 if 'timebase' in hv else 3):
                hv2 = dict(hv)
                spec = Spec(**hv2)
                spec.records = recs(spec.old, nsamp, n)
                # directory names may themselves look like channel names
                d = os.path.join(c.newdir(), "run_chan99.x" if i % 2 else "plain")
                os.makedirs(d)
                path = spec.write(os.path.join(d, "data_chan7.ljh"))
                digest = hashlib.sha256(open(path, "rb").read()).digest()
                tag = {"header": hv, "records": n}
                c.state("hdr", sorted(hv.items(), key=str), n)
                f = mass.LJHFile.open(pathlib.Path(path) if i % 3 == 0 else path)
                check_meta(c, f, spec, n, path, tag)
                check_access(c, f, spec, n, tag)
                check_segments(c, f, spec, n, tag, [spec.recsize, spec.recsize * 2 + 1, 2**24])
                g = f.copy()
                check_meta(c, g, spec, n, path, tag)
                check_access(c, g, spec, n, tag, full=False)
                c.check(hashlib.sha256(open(path, "rb").read()).digest() == digest, "file-modified", "reading changed the file", file=tag)
                c.trace()
                c.outcome(("pulses", n, "old" if spec.old else "new"))
                if i < 2:
                    c.sample(tag)
    elif kind == "torn":
        ver, client, nsamp, nmax = arg
        d = c.newdir()
        for npre, nl in ((0, "\n"), (1, "\r\n")):
            spec = Spec(version=ver, client=client, nsamp=nsamp, npre=npre, newline=nl, rows=4, row=2)
            spec.records = recs(spec.old, nsamp, nmax, salt=nsamp)
            total = len(spec.body())
            for cut in range(total + 1):
                path = spec.write(os.path.join(d, f"t{npre}_chan7.ljh"), cut=cut)
                before = open(path, "rb").read()
                n = spec.nrec(cut)
                tag = {"version": ver, "client": client, "nsamp": nsamp, "npre": npre, "cut": cut, "of": total}
                c.state("torn", ver, client, nsamp, npre, cut)
                f = mass.LJHFile.open(path)
                check_meta(c, f, spec, n, path, tag)
                check_access(c, f, spec, n, tag)
                check_segments(c, f, spec, n, tag,
                               [spec.recsize * k + e for k in range(1, nmax + 2) for e in (0, 1, spec.recsize - 1)])
                c.check(open(path, "rb").read() == before, "file-modified", "reading changed the file", file=tag)
                c.trace()
                c.outcome(("torn", n, (cut % spec.recsize) != 0))
                c.sample(tag, 1)
    elif kind == "segments":
        ver, nmax = arg
        d = c.newdir()
        for n in range(nmax + 1):
            for nsamp in (1, 2):
                spec = Spec(version=ver, nsamp=nsamp, npre=0)
                spec.records = recs(spec.old, nsamp, n)
                for tail in range(spec.recsize):
                    path = spec.write(os.path.join(d, "s_chan7.ljh"))
                    with open(path, "ab") as fp:
                        fp.write(b"\x55" * tail)
                    f = mass.LJHFile.open(path)
                    c.state("seg", ver, n, nsamp, tail)
                    check_segments(c, f, spec, n, {"n": n, "nsamp": nsamp, "tail": tail},
                                   range(spec.recsize, spec.recsize * (nmax + 2)))
                    c.trace()
    elif kind == "dataset":
        ver, = arg
        for n, nsamp, inv, tail in itertools.product((1, 2, 3), (4, 7), (False, True), (0, 1, 9)):
            d = c.newdir()
            spec = Spec(version=ver, nsamp=nsamp, npre=1, rows=4, cols=3, row=2, col=1)
            spec.records = recs(spec.old, nsamp, n)
            path = spec.write(os.path.join(d, "data_chan7.ljh"))
            with open(path, "ab") as fp:
                fp.write(b"\xaa" * tail)
            tag = {"n": n, "nsamp": nsamp, "inv": inv, "tail": tail, "via": "group"}
            c.state("ds", ver, n, nsamp, inv, tail)
            grp = mass.TESGroup([path], invert_data=inv)
            ds = grp.channel[7]
            for obj, what in ((ds, "channel"), (grp, "group"), (ds.pulse_records, "records")):
                for k, v in (("nPulses", n), ("nSamples", nsamp), ("nPresamples", spec.true_npre), ("timebase", spec.dt)):
                    c.check(getattr(obj, k) == v, f"dataset:{k}", f"{what}.{k} = {getattr(obj, k)}, file says {v}", file=tag)
            c.check(eq(ds.subframecount, np.array(spec.subframes(n))), "dataset:subframecount", "", file=tag)
            c.check(np.allclose(ds.times, spec.times(n), rtol=1e-12, atol=0), "dataset:times", "", file=tag)
            for flip in (inv, not inv, inv):
                ds.invert_data = flip
                want = spec.data(n)
                if flip:
                    want = (65535 - want.astype(int)).astype(np.uint16)
                c.check(eq(ds.alldata, want), f"dataset:alldata:inv={flip}", "", file=tag)
                for kind2, label, idx in indexers(n, nsamp):
                    c.trans()
                    c.check(eq(ds.data[idx], want[idx]), f"dataset:{kind2}:inv={flip}", lambda: f"index {label}", file=tag)
                for i in range(n):
                    c.check(eq(ds.read_trace(i), want[i]), f"dataset:read_trace:inv={flip}", f"record {i}", file=tag)
            c.trace()
            grp.hdf5_file.close()
    elif kind == "large":
        # Many records: indices beyond 8 and 16 bits, and more than one default segment.
        ver, = arg
        d = c.newdir()
        for n, nsamp in ((300, 3), (70000, 1), (66000, 120)):
            spec = Spec(version=ver, nsamp=nsamp, npre=0)
            hs = 6 if spec.old else 16
            arr = np.zeros(n, dtype=[("a", "u1"), ("b", "u1"), ("ms", "<u4"), ("d", "<u2", (nsamp,))] if spec.old
                           else [("s", "<i8"), ("u", "<i8"), ("d", "<u2", (nsamp,))])
            arr["d"] = ((np.arange(n)[:, None] * 31 + np.arange(nsamp)[None, :] * 7) % 65536).astype(np.uint16)
            if spec.old:
                arr["a"] = np.arange(n) % 250
                arr["ms"] = np.arange(n) * 3
            else:
                arr["s"] = np.arange(n) * 64 + 2**45
                arr["u"] = np.arange(n) * 1000 + 1510871067891481
            assert arr.dtype.itemsize == hs + 2 * nsamp
            path = os.path.join(d, f"big{n}_chan7.ljh")
            with open(path, "wb") as fp:
                fp.write(spec.header())
                arr.tofile(fp)
                fp.write(b"\1" * 5)
            f = mass.LJHFile.open(path)
            c.state("large", ver, n)
            tag = {"n": n, "nsamp": nsamp}
            c.check(f.nPulses == n, "large:nPulses", f"{f.nPulses}", file=tag)
            c.check(eq(f.alldata, arr["d"]), "large:alldata", "", file=tag)
            c.check(eq(f[n - 1], arr["d"][n - 1]), "large:last", "", file=tag)
            if not spec.old:
                c.check(eq(f.subframecount, arr["s"]) and eq(f.datatimes_raw, arr["u"]), "large:times", "", file=tag)
            else:
                T = 10000
                fr = 4 + (4000 * arr["a"].astype(int) + 1000000 * arr["ms"].astype(int) - 1) // T
                c.check(eq(f.subframecount, fr), "large:times", "", file=tag)
            per = f.pulses_per_seg
            got = sum(len(f[k * per:(k + 1) * per]) for k in range(f.n_segments))
            c.check(got == n, "large:segments", f"{got} of {n}", file=tag)
            c.trans(5)
            c.trace()
