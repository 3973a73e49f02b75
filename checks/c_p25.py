"""P25: file discovery. Every small directory listing and every small list of names x options, against set algebra."""
import itertools
import os

from vlib.core import chunks
from vlib.ljh import Spec
from vlib.mkoff import off_file, state_file

PROPERTY = "P25"
EXPLAIN = """A state is a directory listing (a set of files and folders over an alphabet of base names, channel numbers and suffixes) or a pair of
lists of names; transitions ask for the channels, the files of one data set, their order, pairing, limits and exclusions.  All listings and lists up to
a size are created for real, every question is asked of each, and the answers are compared with plain set algebra on independently parsed names.
Groups are then opened on every pair of pulse and noise sets with every option, and each channel must have its own pulse and noise file."""
ASSUMPTIONS = ["names handed to the sorting and pairing functions have a channel number"]


def parse(name):
    """(base, channel) of a path, by a plain scan: the last '_chan' followed by a digit, in the last component"""
    d, tail = os.path.split(name)
    best = None
    for i in range(len(tail)):
        if tail.startswith("_chan", i) and tail[i + 5:i + 6].isdigit():
            best = i
    if best is None:
        return os.path.splitext(name)[0], None
    j = best + 5
    while tail[j:j + 1].isdigit():
        j += 1
    return os.path.join(d, tail[:best]), int(tail[best + 5:j])


def order(names):
    return sorted(names, key=lambda n: (parse(n)[1], n))


POOL = ["x_chan1.off", "x_chan2.off", "x_chan10.off", "x_chan3.ljh", "x_chan10.ljh", "xy_chan4.off", "x_chan1_chan2.off", "x_chan2_extra.off",
        "x_chanabc.off", "x.off", "x_chan02.off", "ax_chan6.off"]
DIRS = ["data", "run[1]", "d_chan7", "a*b"]


def listing_shard(c, dirname, part, nparts):
    from mass.core import ljh_util
    import mass.off
    root = c.newdir()
    d = os.path.join(root, dirname)
    os.makedirs(d)
    os.makedirs(os.path.join(d, "x_chan5.off"))     # a folder is not a data file
    present = set()
    subsets = [s for k in range(len(POOL) + 1) for s in itertools.combinations(POOL, k)]
    for s in chunks(subsets, nparts)[part]:
        for f in present - set(s):
            os.unlink(os.path.join(d, f))
        for f in set(s) - present:
            open(os.path.join(d, f), "w").close()
        present = set(s)
        c.state("listing", dirname, s)
        full = [os.path.join(d, f) for f in s]
        for base in ("x", "xy", "ax", "x_chan1", "q"):
            b = os.path.join(d, base)
            mine = [f for f in full if parse(f)[0] == b and parse(f)[1] is not None]
            chans = sorted({parse(f)[1] for f in mine})
            for ask in (b + "_chan77.off", b + "_chan1.ljh"):
                ok, got = c.run("raises:ljh_get_channels", ljh_util.ljh_get_channels, ask)
                c.trans()
                if ok:
                    c.check(got == chans, "channels", f"channels {got}, expected {chans}", files=s, asked=ask)
            off = order([f for f in mine if f.endswith(".off")])
            for mx in (None, 0, 1, 2, 99):
                try:
                    got = mass.off.getOffFileListFromOneFile(b + "_chan1.off", maxChans=mx)
                except Exception as e:
                    c.check(not off, f"off-files:{type(e).__name__}", f"no files found: {e}", files=s, base=base)
                else:
                    want = off if mx is None else off[:mx]
                    c.check(off and got == want, "off-files", f"{got}, expected {want}", files=s, base=base, maxChans=mx)
                c.trans()
        if "[" not in dirname and "*" not in dirname:
            for pat in ("x_chan*.off", "xy_chan*.off", "*_chan?.off", "x_chan*.ljh"):
                import fnmatch
                m = [f for f in full + [os.path.join(d, "x_chan5.off")] if fnmatch.fnmatchcase(os.path.basename(f), pat)]
                if any(parse(f)[1] is None for f in m):
                    continue
                ok, got = c.run("raises:glob", ljh_util.filename_glob_expand, os.path.join(d, pat))
                c.trans()
                if ok:
                    c.check((got or []) == order(m), "glob", f"{pat} gives {got}, expected {order(m)}", files=s)
    c.trace(len(subsets))
    # relative names, from inside the directory
    os.chdir(d)
    here = {f for f in os.listdir(".") if os.path.isfile(f)}
    for base in ("x", "xy", "ax", "x_chan1", "q"):
        want = sorted({parse(f)[1] for f in here if parse(f)[0] == base and parse(f)[1] is not None})
        for pre in ("", "./"):
            ok, got = c.run("raises:ljh_get_channels-relative", ljh_util.ljh_get_channels, pre + base + "_chan1.ljh")
            if ok:
                c.check(got == want, "channels-relative", f"channels {got}, expected {want} for {pre}{base}")
            c.trans()
    for f, sub in ((ljh_util.output_basename_from_ljh_fname, "mass_output/x"), (ljh_util.mass_folder_from_ljh_fname, "mass/")):
        for ask in ("x_chan1.ljh", os.path.join(d, "x_chan1.ljh")):
            ok, got = c.run(f"raises:{f.__name__}", f, ask)
            if ok:
                want = os.path.join(os.path.dirname(ask), sub)
                c.check(os.path.normpath(got) == os.path.normpath(want) and os.path.isdir(os.path.dirname(os.path.join(d, want))), f"{f.__name__}", f"{got}, expected {want}")
        try:
            f(os.path.join(d, "nowhere", "x_chan1.ljh"))
            c.violate(f"{f.__name__}:missing", "a folder that does not exist was accepted")
        except ValueError:
            c.outcome("missing-refused")
        except Exception as e:
            c.violate(f"{f.__name__}:missing", f"raised {type(e).__name__} for a folder that does not exist")
    os.chdir(root)


def names_shard(c):
    """parsing and building names"""
    from mass.core import ljh_util
    import mass.off
    tops = ["", "/a/b/", "rel/", "/a/d_chan3/", "/a/x_chan12.ljh_dir/", "/a.b/c/"]
    stems = ["x", "x_noise", "x_chan", "x_chan5", "20240101_run_chan", "x.y", "_chan8x", ""]
    ends = ["_chan1", "_chan23", "_chan007", "_chan94932", "_chan1_chan2", "", "_chan5_b"]
    exts = [".ljh", ".off", ".noi", "", ".ljh.bak"]
    for t, s, e, x in itertools.product(tops, stems, ends, exts):
        name = t + s + e + x
        if not os.path.basename(name):
            continue
        c.state("name", name)
        want = parse(name)
        ok, got = c.run("raises:parse", ljh_util.ljh_basename_channum, name)
        c.trans(2)
        if ok:
            c.check(tuple(got) == want, "parse", f"{name!r} parsed as {got}, expected {want}")
            c.check(ljh_util.ljh_channum(name) == want[1], "channum", f"channel {ljh_util.ljh_channum(name)} of {name!r}, expected {want[1]}")
        if want[1] is not None:
            for chans in ((), (3,), (1, 10, 2), (7, 7)):
                got = ljh_util.ljh_chan_names(name, chans)
                c.check(got == [f"{want[0]}_chan{n}{os.path.splitext(name)[1]}" for n in chans], "chan_names", f"{got} for {name!r}, {chans}")
            ex = ljh_util.ljh_get_extern_trig_fnames(name)
            c.check(ex == {"binary": want[0] + "_external_trigger.bin", "hdf5": want[0] + "_external_trig.hdf5"}, "extern", f"{ex} for {name!r}")
            got = mass.off.ExperimentStateFile.experimentStateFilenameFromDatasetFilename(name)
            c.check(got == want[0] + "_experiment_state.txt", "state-file", f"{got} for {name!r}")
    # a folder holding files of its own name
    d = os.path.join(c.newdir(), "x")
    os.makedirs(d)
    for n in (1, 2, 10):
        open(os.path.join(d, f"x_chan{n}.ljh"), "w").close()
    for ask in (d, d + "/", d + "//"):
        ok, got = c.run("raises:folder", ljh_util.ljh_basename_channum, ask)
        c.check(ok and tuple(got) == (os.path.join(d, "x"), None), "folder:parse", f"{got} for {ask}")
        ok, got = c.run("raises:folder", ljh_util.ljh_get_channels, ask)
        c.check(ok and got == [1, 2, 10], "folder:channels", f"{got} for {ask}")
    ok, got = c.run("raises:both", ljh_util.ljh_get_channels_both, d, os.path.join(d, "x_chan1.ljh"))
    c.check(ok and got == [1, 2, 10], "both", f"{got}")
    c.trace()


def lists_shard(c, part, nparts):
    """sorting, pairing, limits on lists"""
    from mass.core import ljh_util
    names = ["/d/x_chan1.ljh", "/d/x_chan10.ljh", "/d/x_chan2.ljh", "/d/w_chan2.ljh", "/d/x_chan02.ljh"]
    if part == 0:
        for k in range(1, len(names) + 1):
            for perm in itertools.permutations(names, k):
                c.state("sort", perm)
                for inc in (None, [], [1], (2,), {2, 10}, range(3)):
                    for kind in (list, tuple):
                        x = kind(perm)
                        ok, got = c.run(f"raises:sort:{'all' if inc is None else 'inclusion'}", ljh_util.ljh_sort_filenames_numerically, x, inc)
                        c.trans()
                        if ok:
                            want = order([n for n in perm if inc is None or parse(n)[1] in inc])
                            c.check(list(got) == want, "sort", f"{got}, expected {want}", names=perm, inclusion=str(inc))
                        c.check(x == kind(perm), "sort:input", "the caller's list was changed", names=perm)
        for empty in (None, [], ()):
            c.check(not ljh_util.ljh_sort_filenames_numerically(empty), "sort:empty", "files from nothing")
        for x in (["b", "a"], ("q",), []):
            c.check(ljh_util.filename_glob_expand(x) is x, "glob:list", "a list of names was changed by glob expansion")
    # pairing
    A = ["/d/x_chan1.ljh", "/d/x_chan2.ljh", "/d/x_chan10.ljh", "/d/y_chan2.ljh"]
    B = ["/n/x_chan1.noi", "/n/x_chan2.noi", "/n/x_chan3.noi", "/n/z_chan1.noi"]
    la = [None] + [list(p) for k in range(5) for p in (itertools.permutations(A, k) if c.thorough or k < 3 else itertools.combinations(A, k))]
    lb = [None] + [list(p) for k in range(5) for p in (itertools.permutations(B, k) if c.thorough else itertools.combinations(B, k))]
    opts = [None, [], [1], [2, 10], (1, 2), {3, 99}]
    for a in chunks(la, nparts)[part]:
        for b in lb:
            for never, only in itertools.product(opts, opts):
                x, y = (None if a is None else list(a)), (None if b is None else list(b))
                ok, _ = c.run("raises:pair", ljh_util.remove_unpaired_channel_files, x, y, never_use=never, use_only=only)
                c.trans()
                if not ok:
                    continue
                ca, cb = [{parse(n)[1] for n in z or []} for z in (a, b)]
                valid = ca & cb if a and b else ca | cb
                if never is not None:
                    valid = valid - set(never)
                if only is not None:
                    valid = valid & set(only)
                for what, z0, z1 in (("first", a, x), ("second", b, y)):
                    want = None if z0 is None else [n for n in z0 if parse(n)[1] in valid]
                    c.check(z1 == want, f"pair:{what}", f"{what} list is {z1}, expected {want}", a=a, b=b, never_use=str(never), use_only=str(only))
            c.state("pair", a, b)
    c.trace()


def group_shard(c, part, nparts):
    """TES groups on every pair of pulse and noise sets, with every option"""
    import mass
    d0 = c.newdir()
    recs = [(k * 100, 1_600_000_000_000_000 + k * 10000, [100] * 10 + [300 + k] * 2) for k in range(3)]
    chans = (1, 2, 10)
    os.makedirs(os.path.join(d0, "all"))
    for n in chans:
        Spec(nsamp=12, npre=4, rows=1, row=0, records=recs).write(os.path.join(d0, "all", f"p_chan{n}.ljh"))
        Spec(nsamp=12, npre=4, rows=1, row=0, records=recs).write(os.path.join(d0, "all", f"n_chan{n}.ljh"))
    subs = [s for k in range(1, 4) for s in itertools.combinations(chans, k)]
    jobs = list(itertools.product(subs, [None] + subs))
    for ps, ns in jobs[part::nparts]:
        d = c.newdir()
        for n in ps:
            os.link(os.path.join(d0, "all", f"p_chan{n}.ljh"), os.path.join(d, f"p_chan{n}.ljh"))
        for n in ns or ():
            os.link(os.path.join(d0, "all", f"n_chan{n}.ljh"), os.path.join(d, f"n_chan{n}.ljh"))
        P = lambda n: os.path.join(d, f"p_chan{n}.ljh")
        N = lambda n: os.path.join(d, f"n_chan{n}.ljh")
        forms = [("glob", os.path.join(d, "p_chan*.ljh"), None if ns is None else os.path.join(d, "n_chan*.ljh"), ps)]
        for perm in itertools.permutations(ps) if len(ps) < 3 or c.thorough else [(10, 1, 2), (2, 10, 1)]:
            forms.append(("list", [P(n) for n in perm], None if ns is None else [N(n) for n in ns], perm))
            forms.append(("tuple", tuple(P(n) for n in perm), None if ns is None else tuple(N(n) for n in reversed(ns)), perm))
        options = [dict(), dict(never_use=[2]), dict(use_only=[1, 10]), dict(never_use=(1,), use_only=(1, 2, 3)), dict(max_chans=1), dict(max_chans=2),
                   dict(max_chans=2, never_use=[1])]
        for (form, pf, nf, given), opt in itertools.product(forms, options):
            valid = [n for n in given if (ns is None or n in ns) and n not in opt.get("never_use", ()) and n in opt.get("use_only", chans)]
            valid = valid[:opt.get("max_chans", 99)]
            c.state("group", ps, ns, form, given, str(opt))
            c.trans()
            before = (list(pf), list(nf)) if isinstance(pf, (list, tuple)) and isinstance(nf, (list, tuple)) else None
            for f in os.listdir(d):
                if f.endswith(".hdf5"):
                    os.unlink(os.path.join(d, f))
            if not valid:
                try:
                    g = mass.TESGroup(pf, nf, **opt)
                    c.violate("group:none", f"a group of {g.n_channels} channels though none qualifies", pulses=ps, noises=ns, options=str(opt))
                    g.hdf5_file.close()
                except Exception:
                    c.outcome("no-channels-refused")
                continue
            ok, g = c.run("raises:TESGroup", mass.TESGroup, pf, nf, **opt)
            if not ok:
                continue
            dd = dict(form=form, pulses=given, noises=ns, options=str(opt))
            c.check([ds.channum for ds in g.datasets] == valid, "group:channels", f"channels {[ds.channum for ds in g.datasets]}, expected {valid}", **dd)
            c.check(list(g.filenames) == [P(n) for n in valid], "group:files", f"files {g.filenames}", **dd)
            for ds in g.datasets:
                c.check(ds.filename == P(ds.channum), "group:pulse-file", f"channel {ds.channum} has file {ds.filename}", **dd)
                if ns is not None:
                    c.check(ds.noise_records.filename == N(ds.channum), "group:noise-file", f"channel {ds.channum} has noise file {ds.noise_records.filename}", **dd)
            c.check(os.path.samefile(g.hdf5_file.filename, os.path.join(d, "p_mass.hdf5")), "group:hdf5", f"results in {g.hdf5_file.filename}", **dd)
            if ns is not None:
                c.check(os.path.samefile(g.hdf5_noisefile.filename, os.path.join(d, "n_mass.hdf5")), "group:noise-hdf5", f"noise results in {g.hdf5_noisefile.filename}", **dd)
                g.hdf5_noisefile.close()
            g.hdf5_file.close()
            if before:
                c.check((list(pf), list(nf)) == before, "group:input", "the caller's lists were changed", **dd)
            c.outcome("group")
        if ns is None:
            for opt in options:
                valid = [n for n in ps if n not in opt.get("never_use", ()) and n in opt.get("use_only", chans)][:opt.get("max_chans", 99)]
                if not valid:
                    continue
                for kw in (dict(filenames=[P(n) for n in ps]), dict(filenames=(), noise_filenames=[P(n) for n in ps]), dict(filenames=os.path.join(d, "p_chan*.ljh"))):
                    for f in os.listdir(d):
                        if f.endswith(".hdf5"):
                            os.unlink(os.path.join(d, f))
                    ok, g = c.run("raises:noise-only", mass.TESGroup, noise_only=True, **kw, **opt)
                    c.trans()
                    if ok:
                        c.check([ds.channum for ds in g.datasets] == valid, "noise-only:channels", f"channels {[ds.channum for ds in g.datasets]}, expected {valid}", options=str(opt))
                        g.hdf5_noisefile.close()
    c.trace()


def offgroup_shard(c):
    """OFF groups hold each listed file under its own channel number"""
    from mass.off import ChannelGroup, getOffFileListFromOneFile
    d = c.newdir()
    chans = (1, 2, 10, 3)
    for n in chans:
        off_file(d, n)
    state_file(d, [(0, "START")])
    files = {n: os.path.join(d, f) for n in chans for f in os.listdir(d) if parse(f)[1] == n and f.endswith(".off")}
    got = getOffFileListFromOneFile(files[10])
    c.check(got == [files[n] for n in sorted(chans)], "off:list", f"{got}")
    for k in range(1, 5):
        for perm in itertools.permutations(chans, k):
            c.state("offgroup", perm)
            ok, g = c.run("raises:ChannelGroup", ChannelGroup, [files[n] for n in perm], verbose=False)
            c.trans()
            if ok:
                c.check(list(g.keys()) == list(perm), "offgroup:channels", f"channels {list(g.keys())}, expected {perm}")
                for n, ds in g.items():
                    c.check(ds.channum == n and ds.offFile.filename == files[n], "offgroup:file", f"channel {n} has {ds.offFile.filename}")
    c.trace()


def shards(tier):
    out = [("names", (names_shard, ())), ("offgroup", (offgroup_shard, ()))]
    n = 4
    out += [(f"listing-{d}-{i}", (listing_shard, (d, i, n))) for d in (DIRS if tier == "thorough" else DIRS[:3]) for i in range(n)]
    out += [(f"lists-{i}", (lists_shard, (i, 8))) for i in range(8)]
    out += [(f"group-{i}", (group_shard, (i, 8))) for i in range(8)]
    return out


def run_shard(c, fn, args):
    fn(c, *args)
