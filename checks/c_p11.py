"""P11: analysis histories (order of steps x repeat / force / reopen at every point) on a real channel and its HDF5 file."""
import itertools
import os

import numpy as np

from vlib import mkdata
from vlib.core import chunks

PROPERTY = "P11"
EXPLAIN = """A history is a sequence of analysis steps (summarize, auto cuts, noise, average pulse, filter, filter data,
drift, phase and time-drift correction, calibrate, convert) on a real one-channel data group with its HDF5 output.  Every
order of the steps that respects their needs is run, with the file closed and reopened after any or every step, with
every completed step repeated after every step, with every step forced again at once, and with all steps forced again in
the end (also after a first pass with other settings).  A state is the complete set of results readable from the channel."""
ASSUMPTIONS = ["one channel; 60 small pulses of two heights; steps are deterministic functions of their inputs"]

NEEDS = {"S": "", "C": "S", "N": "", "A": "S", "F": "SNA", "T": "SN", "D": "S", "R": "D", "P": "R", "L": "P", "K": "R", "E": "K", "Q": "C"}
#         summarize cuts noise avg 5lag ats filter-data drift phase time-drift calibrate energy; Q: clear cuts


class World:
    def __init__(self, pulse, noise, h5, cfg):
        import mass
        self.mass, self.pulse, self.noise, self.h5, self.cfg = mass, pulse, noise, h5, cfg
        self.open()

    def open(self):
        self.g = self.mass.TESGroup([self.pulse], [self.noise], hdf5_filename=self.h5 + ".hdf5",
                                    hdf5_noisefilename=self.h5 + "_noise.hdf5")
        self.ds = self.g.channel[1]

    def close(self):
        self.g.hdf5_file.close()
        self.g.hdf5_noisefile.close()

    def reopen(self):
        self.close()
        self.open()

    def do(self, op, force=False, alt=False):
        ds, cfg = self.ds, self.cfg
        if op == "S":
            kw = dict(cfg.get("S", {}))
            if alt:
                kw = dict(pretrigger_ignore_microsec=80, cut_pre=2)
            ds.summarize_data(forceNew=force, **kw)
        elif op == "C":
            ds.auto_cuts(forceNew=force, **(dict(nsigma_pt_rms=2.0) if alt else cfg.get("C", {})))
        elif op == "N":
            ds.compute_noise(forceNew=force, **(dict(max_excursion=16) if alt else cfg.get("N", {})))
        elif op == "A":
            ds.avg_pulses_auto_masks(forceNew=force, **(dict(max_pulses_to_use=9) if alt else cfg.get("A", {})))
        elif op == "F":
            ds.compute_5lag_filter(forceNew=force, **(dict(fmax=20000.0) if alt else cfg.get("F", {})))
        elif op == "T":
            ds.compute_ats_filter(forceNew=force, **(dict(shift1=False, f_3db=30000.0) if alt else cfg.get("T", {})))
        elif op == "D":
            ds.filter_data(forceNew=force)
        elif op == "R":
            ds.drift_correct(forceNew=force, **(dict(attr="p_pulse_rms") if alt else {}))
        elif op == "P":
            attr = cfg.get("P", "p_filt_value_dc")
            ph = getattr(ds, attr)
            pk = [np.median(v) for v in (ph[0::3], ph[1::3])]
            if alt:
                pk = [pk[0] * 1.006, pk[0], pk[1]]
            pk = np.array(pk[::-1])
            saved = pk.copy()
            ds.phase_correct(forceNew=force, ph_peaks=pk, attr=attr)
            if not np.array_equal(pk, saved):
                raise ValueError(f"phase_correct changed the caller's list of peaks from {saved} to {pk}")
            if ds.phaseCorrector.uncorrectedName != attr:
                raise ValueError(f"phase_correct of {attr} records that it corrects {ds.phaseCorrector.uncorrectedName}")
        elif op == "L":
            ds.time_drift_correct(forceNew=force)
        elif op == "K":
            kw = dict(size_related_to_energy_resolution=20, fit_range_ev=200, bin_size_ev=4, nextra=0, maxacc=.1)
            lines = [2000., 3000.]
            kw.update(cfg.get("K", {}))
            if alt:
                kw["curvetype"] = "linear"
            ds.calibrate("p_filt_value_dc", lines, forceNew=force, **kw)
        elif op == "Q":
            ds.clear_cuts()
        elif op == "E":
            ds.convert_to_energy("p_filt_value", "p_filt_value_dc")

    def view(self):
        ds = self.ds
        v = {}
        for k in sorted(ds.__dict__):
            if k.startswith("p_"):
                v[k] = np.array(ds.__dict__[k][:])
        v["peak_time"] = ds.p_peak_time
        v["average_pulse"], v["noise_autocorr"], v["noise_psd"] = (np.array(x[:]) for x in (ds.average_pulse, ds.noise_autocorr, ds.noise_psd))
        v["delta_f"] = ds.noise_psd.attrs.get("delta_f", None)
        v["peak_samplenumber"] = ds.peak_samplenumber
        f = ds.filter
        if f is not None:
            for k in ("values", "dt_values", "nominal_peak", "variance", "predicted_v_over_dv", "fmax", "f_3db",
                      "is_arrival_time_safe"):
                v["filter." + k] = getattr(f, k)
            if v["filter.dt_values"] is not None and not f.is_arrival_time_safe:
                v["filter.dt_values"] = None
        x = np.linspace(500, 6000, 12)
        for k, cal in sorted(ds.calibration.items()):
            v["calibration." + k] = np.asarray(cal.ph2energy(x))
            v["calibration_points." + k] = np.array(cal.cal_point_energies)
        pc = getattr(ds, "phaseCorrector", None)
        if pc is not None:
            ph = np.linspace(-.5, .5, 12)
            v["phase"] = np.asarray(pc(ph, np.linspace(500, 6000, 12)))
            v["phase.names"] = (pc.indicatorName, pc.uncorrectedName)
        v["drift_info"] = dict(ds.drift_correct_info)
        ac = ds.saved_auto_cuts
        if ac is not None:
            for k in ("peak_time_ms", "rise_time_ms", "pretrigger_rms", "postpeak_deriv"):
                lo, hi = ac.cuts_prm[k]
                v["auto_cuts." + k] = [np.nan if x is None else x for x in (lo, hi)]
        v["good"] = np.array(ds.good())
        for name in [n.decode() for n in self.g.boolean_cut_desc["name"] if n]:
            v["bad." + name] = np.array(ds.bad(name))
        return v


def same(a, b, tol=0.0):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (tuple, list)) and a and isinstance(a[0], str):
        return tuple(a) == tuple(b)
    if isinstance(a, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        return bool(np.allclose(a, b, rtol=1e-6 + tol, atol=1e-9 + tol * 1e-3, equal_nan=True))
    return bool(np.array_equal(a, b))


def diff(a, b, tol=0.0, keys=None):
    return [k for k in sorted(set(a) | set(b)) if (keys is None or k in keys)
            and (k not in a or k not in b or not same(a[k], b[k], tol))]


def short(v, ks):
    return {k: (np.asarray(v[k]).ravel()[:6].tolist() if k in v and not isinstance(v[k], dict) else v.get(k)) for k in ks[:4]}


def extensions(ops):
    """All orders of ops in which every step comes after the steps it needs."""
    ops = list(ops)

    def rec(done, left):
        if not left:
            yield "".join(done)
            return
        for o in left:
            need = [x for x in NEEDS[o] if x in ops]
            if o == "D":
                need = [x for x in "FT" if x in ops] or ["S"]
            if all(n in done for n in need):
                yield from rec(done + [o], [x for x in left if x != o])
    yield from rec([], ops)


CONFIGS = {
    "5lag": ("SCNAFDRPLKE", {}),
    "5lag-cut": ("SNAFDR", {"F": dict(cut_pre=2, cut_post=3, f_3db=20000.0), "S": dict(pretrigger_ignore_microsec=60)}),
    "5lag-fmax": ("SNAFD", {"F": dict(fmax=15000.0), "S": dict(peak_time_microsec=30)}),
    "ats": ("SCNATDRPLKE", {}),
    "ats-noshift": ("SNTDRK", {"T": dict(shift1=False, fmax=30000.0, cut_pre=2), "S": dict(cut_pre=3, cut_post=4)}),
    "clear": ("SCQNA", {}),
    "white": ("SAFDRP", {"white": 1, "P": "p_filt_value"}),
    "ats-f3db": ("SNTDRPK", {"T": dict(f_3db=20000.0, cut_post=2), "K": dict(curvetype="loglog")}),
}


def orders(name, tier):
    ops, _ = CONFIGS[name]
    return list(extensions(ops))


def shards(tier):
    out = []
    for name in CONFIGS:
        os_ = orders(name, tier)
        if tier == "quick" and len(os_) > 40:
            # every order of the first half (cuts/noise/average), and of the second half, one with the other's default
            first, second = {}, {}
            for o in os_:
                k1 = "".join(x for x in o if x in "SCNAFT")
                k2 = "".join(x for x in o if x in "CDRPLKE")
                first.setdefault(k1, o)
                second.setdefault(k2, o)
            os_ = sorted(set(first.values()) | set(second.values()))
        n = max(1, min(16, len(os_) // 3))
        for i, ch in enumerate(chunks(os_, n)):
            out.append((f"{name}/{i}", (name, ch, tier)))
    return out


def run_shard(c, name, histories, tier):
    d = c.newdir()
    pulse, noise = mkdata.pulse_files(d)
    ops, cfg = CONFIGS[name]
    n = [0]

    def world(label):
        n[0] += 1
        w = World(pulse, noise, os.path.join(d, f"h{n[0]}"), cfg)
        if "white" in cfg:
            w.ds.assume_white_noise(9.0)
        return w

    def drop(w):
        w.close()
        for s in (".hdf5", "_noise.hdf5"):
            os.remove(w.h5 + s)

    def compare(sig, what, a, b, tol=0.0):
        ks = diff(a, b, tol)
        c.check(not ks, f"{sig}:{ks[:2]}", lambda: f"{what}: {ks} differ: expected {short(a, ks)}, found {short(b, ks)}", config=name)
        return not ks

    def canonical(order, forced_after=None):
        w = world("canon")
        for o in order:
            w.do(o)
        v = w.view()
        drop(w)
        return v

    canon_order = {}
    for h in histories:
        c.sample({"config": name, "order": h})
        # 1. the plain run
        w = world("plain")
        views = [w.view()]
        ok = True
        for o in h:
            okk, _ = c.run(f"step-{o}", w.do, o)
            if not okk:
                ok = False
                break
            c.trans()
            views.append(w.view())
            c.state((name, h, len(views)))
        drop(w)
        if not ok:
            continue
        c.trace()
        if "D" in h and not np.any(views[-1]["p_filt_value"]) or np.isnan(views[-1]["p_filt_value"]).any():
            c.violate("vacuous", f"filtered values are {views[-1]['p_filt_value'][:5]}")
        # 2. close and reopen after every step
        w = world("reopen")
        for i, o in enumerate(h, 1):
            w.do(o)
            before = w.view()
            if not compare(f"reopened-continue:{o}", f"history {h}: result of step {i} ({o}) with the file reopened after each step", views[i], before):
                break
            w.reopen()
            c.trans(2)
            c.state((name, h, "r", i))
            if not compare(f"reload:{o}", f"history {h}: after step {i} ({o}) and reopening", before, w.view()):
                break
        drop(w)
        c.trace()
        # 3. repeat every completed step, without force, after every step (also right after reopening)
        for ro in (False, True):
            w = world("repeat")
            for i, o in enumerate(h, 1):
                w.do(o)
                if ro:
                    w.reopen()
                stop = False
                for p in h[:i]:
                    if p == "E" or p == "K" and "E" in h[:i]:
                        continue    # converting to energy has no notion of "already done"
                    if p == "C" and "Q" in h[:i]:
                        continue    # cleared, so no longer done
                    w.do(p)
                    c.trans()
                    c.state((name, h, "rep", ro, i, p))
                    if not compare(f"repeat:{p}", f"history {h}: step {p} repeated (unforced) after step {i} ({o}), reopened first: {ro}", views[i], w.view()):
                        stop = True
                        break
                if stop:
                    break
            drop(w)
            c.trace()
        # 4. force each step again immediately (once in memory, once after reopening)
        for ro in (False, True):
            w = world("force")
            for i, o in enumerate(h, 1):
                w.do(o)
                if ro:
                    w.reopen()
                w.do(o, force=True)
                c.trans(2)
                c.state((name, h, "force", ro, i))
                if not compare(f"force:{o}", f"history {h}: step {i} ({o}) forced again at once, reopened first: {ro}", views[i], w.view()):
                    break
            drop(w)
            c.trace()
        # 5. everything once with other settings, then everything forced, in a canonical order, equals doing it once
        co = ops
        if "canon" not in canon_order:
            canon_order["canon"] = canonical(co)
        for alt, ro in ((False, True), (True, False), (True, True)):
            w = world("alt")
            good = True
            for o in h:
                if alt and o in "KE":
                    try:     # the fits behind a calibration may fail on badly corrected data
                        w.do(o, False, True)
                    except Exception:
                        c.outcome("alternative calibration failed")
                    okk = True
                elif alt:
                    okk, _ = c.run(f"alt-step-{o}", w.do, o, False, True)
                else:
                    okk, _ = c.run(f"step-{o}", w.do, o)
                good = good and okk
                if not okk:
                    break
            if good:
                if ro:
                    w.reopen()
                for o in co:
                    w.do(o, force=True)
                    c.trans()
                v = w.view()
                compare(f"redo:{'alt' if alt else 'same'}", f"history {h} (other settings first: {alt}; reopened: {ro}), then all steps forced in order {co}", canon_order["canon"], v)
                w.reopen()
                compare(f"redo-reload:{'alt' if alt else 'same'}", f"history {h} (other settings first: {alt}; reopened: {ro}), all steps forced in order {co}, then reopened", canon_order["canon"], w.view())
                c.state((name, h, "redo", alt, ro))
            drop(w)
            c.trace()
        # 6. one reopening, at each point
        pts = range(1, len(h)) if tier == "thorough" else [i for i in range(1, len(h)) if (i + len(h[0:i].split("N")[0])) % 3 == 0]
        for i in pts:
            w = world("one")
            for k, o in enumerate(h, 1):
                w.do(o)
                c.trans()
                if k == i:
                    w.reopen()
            c.state((name, h, "one", i))
            compare("reopen-once", f"history {h} with one reopening after step {i}", views[-1], w.view())
            drop(w)
            c.trace()
