"""P26: filter stacks.  Every stack program up to a depth, every way of giving a film, against products of exponentials."""
import itertools
import math
import warnings

import numpy as np

from vlib.core import sequences

PROPERTY = "P26"
EXPLAIN = """A state is a set of filter stacks built so far with their layers; transitions add a layer (films of one or several materials, meshes, absorbers,
oxidised and polymer-backed aluminium, windows, or another stack) to one of two stacks, one of which may be put inside the other.  All such programs up to a depth are run;
after each step every stack and every layer made so far is evaluated and compared with the product, over the layers it should now contain, of
f exp(-sum mu rho t) + 1 - f (or f (1 - exp) for absorbers), with mu from the elemental tables, and the uncertain result with first-order propagation from each layer's own
uncertainties.  Further shards enumerate every way of stating a film (area density, thickness, density; numbers, arrays, uncertain or mixed; fill fractions; absorber or not;
kinds of energy argument), all parameter choices of the composite films, all orders and groupings of a set of layers, thickness ladders, plots and the ready-made instruments."""
ASSUMPTIONS = ["layers of one stack have different names (adding under a name already used replaces that layer, as in any dictionary)",
               "energies are numbers or one-dimensional lists or arrays between 100 eV and 800 keV, where the tables hold",
               "a scalar energy may give a one-element array",
               "thicknesses without an uncertainty count as exact when another thickness of the same film has one, and as 100 % uncertain otherwise (documented)"]

E0 = [400.0, 1559.0, 1561.0, 6000.0, 12000.0]
_m = {}


def em():
    if "em" not in _m:
        import matplotlib
        matplotlib.use("Agg")
        warnings.simplefilter("ignore")
        from mass.materials import efficiency_models
        import uncertainties
        import xraydb
        _m.update(em=efficiency_models, ufloat=uncertainties.ufloat, x=xraydb, mu={})
    return _m["em"]


def U(a, b):
    em()
    return _m["ufloat"](a, b)


# ------------------------------------------------------------------ oracle
def mu(el, e):
    """cm^2/g"""
    em()
    key = (el, float(e))
    if key not in _m["mu"]:
        _m["mu"][key] = float(_m["x"].mu_elam(el, float(e)))
    return _m["mu"][key]


class Leaf:
    """reference film: areal densities (g/cm2) with sigmas (and an identity for each, so shared ones stay correlated), fill fraction"""

    def __init__(self, parts, ff=(1.0, 1.0), absorber=False):
        self.parts = parts      # list of (element, areal density, dA/dv * sigma, variable id)
        self.ff = ff            # value, sigma
        self.absorber = absorber

    def T(self, e):
        return math.exp(-sum(mu(el, e) * a for el, a, _, _ in self.parts))

    def eff(self, e):
        f = self.ff[0]
        return f * (1 - self.T(e)) if self.absorber else f * self.T(e) + (1 - f)

    def grads(self, e):
        """{variable id: d eff * sigma}"""
        T = self.T(e)
        f = self.ff[0]
        sign = 1.0 if self.absorber else -1.0
        g = {}
        for el, a, s, vid in self.parts:
            g[vid] = g.get(vid, 0.0) + sign * f * T * mu(el, e) * s
        g[(id(self), "ff")] = ((1 - T) if self.absorber else (T - 1)) * self.ff[1]
        return g


def total(leaves, e):
    v = 1.0
    for q in leaves:
        v *= q.eff(e)
    return v


def total_sigma(leaves, e):
    g = {}
    for i, q in enumerate(leaves):
        others = 1.0
        for j, r in enumerate(leaves):
            if j != i:
                others *= r.eff(e)
        for k, v in q.grads(e).items():
            g[k] = g.get(k, 0.0) + v * others
    return math.sqrt(sum(v * v for v in g.values()))


# 100 % unless stated: that is how plain numbers enter
def film_ref(materials, areas, sig=None, ff=1.0, ffs=None, absorber=False):
    tag = object()
    parts = []
    for i, (m, a) in enumerate(zip(materials, areas)):
        s = a if sig is None else sig[i]
        parts.append((m, a, s, (id(tag), i)))
    r = Leaf(parts, (ff, ff if ffs is None else ffs), absorber)
    r.tag = tag
    return r


def dens(el):
    em()
    return float(_m["x"].atomic_density(el))


def compound(name):
    """elements (in the order C,H,N,O / Al,O), mass fractions, density"""
    em()
    formula, density = _m["x"].get_material(name)
    f = _m["x"].chemparse(formula)
    tot = sum(n * _m["x"].atomic_mass(el) for el, n in f.items())
    return {el: n * _m["x"].atomic_mass(el) / tot for el, n in f.items()}, density


def polymer_defect():
    """is AlFilmWithPolymer's composition the one recorded as a known finding (oxide oxygen as thick as the polymer, no oxygen in the polymer)?"""
    if "polydef" not in _m:
        f = em().AlFilmWithPolymer("probe", 100.0, 200.0)
        e = np.array([400.0, 1000.0, 6000.0])
        _m["polydef"] = bool(np.allclose(f(e), [al_ref(100.0, nsurf=1, poly=200.0, defect=True).eff(q) for q in e], rtol=1e-7, atol=0))
    return _m["polydef"]


def al_ref(t, rho=None, nsurf=2, ox_rho=None, ts=None, poly=None, ps=None, prho=None, pfrac=None, defect=None):
    """aluminium with oxide and perhaps polymer; thicknesses without uncertainty count as exact if another in the film has one, as 100 % uncertain otherwise"""
    if poly is not None and defect is None:
        defect = polymer_defect()
    some = ts is not None or ps is not None
    frac, d = compound("sapphire")
    rho = dens("Al") if rho is None else rho
    mats, areas, sig = ["Al"], [t * 1e-7 * rho], [(ts if ts is not None else 0.0 if some else t) * 1e-7 * rho]
    for el, w in frac.items():
        a = w * (d if ox_rho is None else ox_rho) * nsurf * 3e-7
        mats.append(el)
        areas.append(a)
        sig.append(0.0 if some else a)
    if defect and poly is not None:     # the second oxide element gets the polymer's thickness
        k = areas[-1] / (nsurf * 3e-7) * 1e-7
        areas[-1], sig[-1] = k * poly, k * (ps if ps is not None else 0.0 if some else poly)
    if poly is not None:
        frac, d = compound("kapton")
        order = [str(q) for q in _m["x"].material_mu_components("kapton", 5000.)["elements"]]
        for i, el in enumerate(order[:3] if defect else order):
            w = frac[el] if pfrac is None else pfrac[i]
            k = w * (d if prho is None else prho) * 1e-7
            mats.append(el)
            areas.append(k * poly)
            sig.append(k * (ps if ps is not None else 0.0 if some else poly))
    r = film_ref(mats, areas, sig)
    if ps is not None:      # one variable for all the polymer's elements
        n = 2 if defect else len(mats) - 4
        r.parts = r.parts[:n] + [(el, a, s, (id(r.tag), "poly")) for el, a, s, _ in r.parts[n:]]
    return r


def lex_ref():
    f = film_ref(["C", "H", "N", "O", "Al"], [6.7e-5, 2.6e-6, 7.2e-6, 1.7e-5, 1.7e-5], [0.03 * q for q in (6.7e-5, 2.6e-6, 7.2e-6, 1.7e-5, 1.7e-5)], ffs=0.0)
    a = [0.705 * .08, 0.19 * .08, 0.09 * .08, 0.01 * .08, 0.005 * .08]
    m = film_ref(["Fe", "Cr", "Ni", "Mn", "Si"], a, [0.02 * q for q in a], ff=0.19, ffs=0.01)
    return [f, m]


def compare(c, sig, obj, leaves, es=E0, what=None, energies=None, tol=1e-7, uncertain=True):
    """values, uncertain values, bounds"""
    arg = np.array(es, float) if energies is None else energies
    want = np.array([total(leaves, e) for e in es])
    for via in ("call", "get"):
        fn = obj if via == "call" else obj.get_efficiency
        ok, got = c.run(sig + "-exception", fn, arg)
        if not ok:
            return None
        got = np.atleast_1d(np.asarray(got))
        if not c.check(got.shape == want.shape and got.dtype.kind == "f" and bool(np.all(np.abs(got - want) <= tol * want + 1e-200)), sig + "-value",
                       "efficiency is not the product of its layers'", what=what, energies=es, got=got.tolist() if got.dtype.kind == "f" else str(got), want=want):
            return got
        c.check(bool(np.all((got >= 0) & (got <= 1 + 1e-12))), sig + "-bounds", "efficiency outside [0, 1]", what=what, got=got)
    if not uncertain:
        return got
    ok, gu = c.run(sig + "-uncertain-exception", obj.get_efficiency, arg, uncertain=True)
    if ok:
        gu = np.atleast_1d(gu)
        if c.check(len(gu) == len(want), sig + "-uncertain-shape", "uncertain efficiency has the wrong length", what=what, got=len(gu)):
            nv = np.array([q.nominal_value for q in gu])
            sd = np.array([q.std_dev for q in gu])
            ws = np.array([total_sigma(leaves, e) for e in es])
            c.check(bool(np.all(np.abs(nv - want) <= tol * want + 1e-200)), sig + "-uncertain-value", "uncertain efficiency has another nominal value", what=what, got=nv, want=want)
            c.check(bool(np.all(np.abs(sd - ws) <= 10 * tol * ws + 1e-250)), sig + "-uncertain-sigma", "uncertainty is not that propagated from the layers", what=what, got=sd, want=ws)
    return got


# ------------------------------------------------------------------ programs
LAYERS = ["al", "multi", "mesh", "abs", "oxide", "poly", "lex", "uncert"]


def make(kind, name, stack=None):
    """(layer or None when put in by a method, reference leaves); when stack is given the layer is added by the stack's own method"""
    M = em()
    if kind == "al":
        a = dict(material="Al", thickness_nm=250.0)
        ref = [film_ref(["Al"], [250e-7 * dens("Al")])]
        cls = "Film"
    elif kind == "multi":
        a = dict(material=["C", "O", "Al"], area_density_g_per_cm2=np.array([3e-5, 1e-5, 4e-6]))
        ref = [film_ref(["C", "O", "Al"], [3e-5, 1e-5, 4e-6])]
        cls = "Film"
    elif kind == "mesh":
        a = dict(material="Ni", thickness_nm=U(15000.0, 2000.0), fill_fraction=U(0.17, 0.01))
        k = 1e-7 * dens("Ni")
        ref = [film_ref(["Ni"], [15000 * k], [2000 * k], 0.17, 0.01)]
        cls = "Film"
    elif kind == "abs":
        a = dict(material="Au", thickness_nm=900.0, absorber=True, fill_fraction=U(0.95, 0.02))
        ref = [film_ref(["Au"], [900e-7 * dens("Au")], None, 0.95, 0.02, True)]
        cls = "Film"
    elif kind == "uncert":
        a = dict(material="Be", thickness_nm=U(2000.0, 30.0), density_g_per_cm3=1.8, fill_fraction=U(1.0, 0.1))
        ref = [film_ref(["Be"], [2000e-7 * 1.8], [30e-7 * 1.8], 1.0, 0.1)]
        cls = "Film"
    elif kind == "oxide":
        a = dict(Al_thickness_nm=110.0)
        ref = [al_ref(110.0)]
        cls = "AlFilmWithOxide"
    elif kind == "poly":
        a = dict(Al_thickness_nm=108.0, polymer_thickness_nm=206.0)
        ref = [al_ref(108.0, nsurf=1, poly=206.0)]
        cls = "AlFilmWithPolymer"
    elif kind == "lex":
        a = {}
        ref = lex_ref()
        cls = "LEX_HT"
    if stack is not None and cls == "Film" and "fill_fraction" not in a:
        ref[0].ff = (1.0, 0.0)      # films made by add_Film fill the area exactly unless told otherwise
    if stack is None:
        return getattr(M, cls)(name, **a), ref
    getattr(stack, "add_" + cls)(name, **a)
    return stack.components[name], ref


def sh_programs(c, part, nparts, depth):
    M = em()
    # operations: add layer k to stack 0/1 by its own method or with add(); put stack 1 into stack 0 (later additions to 1 show through);
    # share an existing layer
    ops = [("m", k, 0) for k in ("al", "mesh", "abs", "oxide", "lex")] + [("o", "al", 0), ("o", "lex", 1), ("m", "mesh", 1), ("m", "poly", 1), ("nest",), ("share",)]
    if depth > 3:
        ops += [("m", "uncert", 0), ("look",)]
    for pi, prog in enumerate(p for p in sequences(ops, depth) if len(p) == depth):
        if pi % nparts != part:
            continue
        c.trace()
        st = [M.FilterStack("top"), M.FilterStack("sub")]
        ref = [[], []]         # entries: ("leaf", [leaves]) or ("sub",)
        layers = []            # (object, leaves)
        for i, op in enumerate(prog):
            c.trans()
            if op[0] in "mo" and len(op) == 3:
                k, s = op[1], op[2]
                name = f"L{i}"
                try:
                    if op[0] == "m":
                        obj, leaves = make(k, name, st[s])
                    else:
                        obj, leaves = make(k, name)
                        st[s].add(obj)
                except Exception as ex:
                    c.violate("add-exception", f"adding a layer raised {type(ex).__name__}: {ex}", program=prog, layer=k)
                    break
                layers.append((obj, leaves))
                ref[s].append(leaves)
            elif op[0] == "nest":
                if "sub" in st[0].components:
                    continue
                st[0].add(st[1])
                ref[0].append("sub")
            elif op[0] == "share":
                # the first layer made goes into the other stack too
                if layers:
                    obj, leaves = layers[0]
                    for s in (0, 1):
                        if obj.name not in st[s].components:
                            st[s].add(obj)
                            ref[s].append(leaves)
            elif op[0] == "look":
                c.run("repr-exception", repr, st[0])
            flat1 = [q for L in ref[1] for q in L]
            flat0 = [q for L in ref[0] for q in (flat1 if isinstance(L, str) else L)]
            c.state((tuple(len(L) if not isinstance(L, str) else L for L in ref[0]), len(flat1), tuple(op)))
            last = i == len(prog) - 1
            es = [1559.0, 6000.0]
            if not last and i == 0:
                continue
            if flat0 and not ("sub" in ref[0] and not flat1):
                compare(c, "stack", st[0], flat0, es, prog, uncertain=last)
                c.outcome("nested" if "sub" in ref[0] else "flat")
            if flat1:
                compare(c, "substack", st[1], flat1, es, prog, uncertain=last)
            c.check(len(st[0].components) == len(ref[0]) and len(st[1].components) == len(ref[1]), "components", "a stack lost or gained a layer", program=prog)
            if last:
                for obj, leaves in layers:
                    compare(c, "layer-changed", obj, leaves, es, prog)
    c.sample({"ops": ops[:4], "depth": depth, "energies": [1559.0, 6000.0]})


# ------------------------------------------------------------------ ways of stating a film
def sh_films(c, part, nparts, thorough):
    M = em()
    mats = [["Al"], ["Au", "C"], ["C", "O", "Ni"]]
    cases = []
    for m in mats:
        n = len(m)
        base_t = [120.0, 40.0, 300.0][:n]
        base_a = [3e-5, 2e-4, 1e-6][:n]
        base_d = [2.0, 0.5, 7.0][:n]
        forms = {"list": list, "array": np.array, "tuple": tuple}
        for how, base in (("thickness_nm", base_t), ("area_density_g_per_cm2", base_a)):
            vals = []
            for fname, f in forms.items():
                vals.append((fname, f(base), base, base))
            if how == "thickness_nm":
                vals.append(("ints", np.array([int(b) for b in base]), base, base))
            else:
                vals.append(("f32", np.array(base, np.float32), [float(np.float32(b)) for b in base], [float(np.float32(b)) for b in base]))
            vals.append(("uncert", np.array([U(b, b * 0.1) for b in base]), base, [0.1 * b for b in base]))
            if n > 1:
                vals.append(("mixed1", [base[0]] + [U(b, b * 0.1) for b in base[1:]], base, [0.0] + [0.1 * b for b in base[1:]]))
                vals.append(("mixed2", [U(b, b * 0.1) for b in base[:-1]] + [base[-1]], base, [0.1 * b for b in base[:-1]] + [0.0]))
            vals.append(("scalar", base[0], [base[0]] * n, [base[0]] * n))
            vals.append(("zero", 0.0, [0.0] * n, [0.0] * n))
            if how == "thickness_nm":
                vals.append(("int", int(base[0]), [base[0]] * n, [base[0]] * n))
            if n == 1:
                vals.append(("u", U(base[0], 0.05 * base[0]), base, [0.05 * base[0]]))
            for v in vals:
                for dname, d in (("std", None), ("list", base_d), ("array", np.array(base_d))) + ((("scalar", base_d[0]),) if n == 1 else ()):
                    for ffn, ff, ffv, ffs in (("default", None, 1.0, 1.0), ("f", 0.25, 0.25, 0.25), ("u", "u", 0.3, 0.02), ("one", 1, 1.0, 1.0), ("zero", 0, 0.0, 0.0), ("np", np.float64(0.5), 0.5, 0.5)):
                        for ab in (False, True):
                            cases.append((m, how, v, dname, d, ffn, ff, ffv, ffs, ab))
    energies = {"array": np.array(E0), "list": list(E0), "ints": np.array([int(e) for e in E0]), "f32": np.array(E0, np.float32), "reversed": np.array(E0)[::-1], "scalar": 6000.0, "int": 6000,
                "np": np.float64(1559.0), "one": np.array([400.0]), "repeat": np.array([6000.0, 400.0, 6000.0])}
    ek = list(energies)
    for ci, (m, how, (vn, v, vals, sig), dname, d, ffn, ff, ffv, ffs, ab) in enumerate(cases):
        if ci % nparts != part:
            continue
        c.trace()
        c.state((tuple(m), how, vn, dname, ffn, ab))
        kw = {how: v, "absorber": ab}
        if d is not None:
            kw["density_g_per_cm3"] = d
        if ff is not None:
            kw["fill_fraction"] = U(0.3, 0.02) if ffn == "u" else ff
        rho = np.atleast_1d(d).tolist() if d is not None else [dens(q) for q in m]
        k = [1.0] * len(m) if how.startswith("area") else [1e-7 * r for r in rho]
        ref = film_ref(m, [a * b for a, b in zip(vals, k)], [a * b for a, b in zip(sig, k)], ffv, ffs, ab)
        keep = None
        if isinstance(v, np.ndarray):
            keep = v.copy()
        what = dict(material=m, how=how, value=vn, density=dname, fill=ffn, absorber=ab)
        material = m[0] if len(m) == 1 and ci % 2 else (np.array(m) if ci % 3 else m)
        ok, f = c.run(f"film-exception:{vn}:{dname}:{ffn}" if vn in ("scalar", "mixed1") or ffn in ("one", "zero") else "film-exception", M.Film, "f", material, **kw)
        if not ok:
            continue
        # correlated? no: every value is its own variable, except a single shared uncertain number
        names = ek if (thorough or ci % 7 == 0) else ["array", ek[ci % len(ek)]]
        for en in names:
            c.trans()
            arg = energies[en]
            before = np.array(arg).copy()
            es = [float(e) for e in np.atleast_1d(np.asarray(arg))]
            compare(c, f"film-{'absorber' if ab else 'filter'}", f, [ref], es, dict(what, energies=en), energies=arg, tol=1e-5 if "f32" in (en, vn) else 1e-7)
            c.check(bool(np.all(np.array(arg) == before)), "energies-changed", "the energies passed in were changed", case=what)
            c.outcome(en)
        if keep is not None:
            c.check(all(a is b or a == b for a, b in zip(keep.tolist(), v.tolist())), "argument-changed", "a thickness argument was changed", case=what)
        # reference thickness for the reader
        ok, th = c.run("thickness", lambda: [getattr(q, "nominal_value", q) for q in f.thickness_cm])
        if ok:
            wt = [a * b / r for a, b, r in zip(vals, k, rho)]
            c.check(len(th) == len(wt) and np.allclose(th, wt, rtol=1e-6, atol=0), "thickness-value", "stored thickness is not areal density / density", case=what, got=th, want=wt)
        c.run("film-repr", repr, f)
        if ci % 5 == 0:
            # same film through add_Film
            s = M.FilterStack("s")
            ok, _ = c.run("add_Film-exception", s.add_Film, "f", material, **kw)
            if ok:
                r2 = ref
                if ff is None:      # the stack's own default is an exactly known full film
                    r2 = film_ref(m, [a * b for a, b in zip(vals, k)], [a * b for a, b in zip(sig, k)], 1.0, 0.0, ab)
                compare(c, "add_Film", s, [r2], E0, what)
    if part == 0:
        bad = [dict(material="Al"), dict(material="Al", thickness_nm=1.0, area_density_g_per_cm2=1e-5), dict(material=["Al", "Au"], thickness_nm=[1.0, 2.0], density_g_per_cm3=[1.0]),
               dict(material=["Al", "Au", "C"], thickness_nm=[1.0, 2.0]), dict(material=["Al"], thickness_nm=[1.0, 2.0]), dict(material="Xx", thickness_nm=1.0),
               dict(material=["Al", "Au", "C"], area_density_g_per_cm2=[1e-5, 1e-5])]
        for kw in bad:
            c.trace()
            try:
                f = M.Film("f", **kw)
                c.violate("film-thickness-count" if np.ndim(kw.get("thickness_nm")) and "density_g_per_cm3" not in kw else "bad-film-accepted", "a film that is not fully stated was accepted", case=kw, got=repr(f))
            except Exception:
                c.outcome("rejected")
            s = M.FilterStack("s")
            s.add_Film("ok", "Al", thickness_nm=100.0)
            try:
                s.add_Film("f", **kw)
                continue
            except Exception:
                pass
            compare(c, "after-rejection", s, [film_ref(["Al"], [100e-7 * dens("Al")], None, 1.0, 0.0)], E0, kw)
        try:
            M.FilterStack("e").get_efficiency(E0)
            c.violate("empty-accepted", "a stack with no layers has an efficiency")
        except Exception:
            c.outcome("rejected")
    c.sample({"case": str(cases[part][:3]), "energies": ek})


# ------------------------------------------------------------------ composite films
def sh_composite(c, part, nparts, thorough):
    M = em()
    pf = [0.5, 0.1, 0.1, 0.3]
    if part == 0 and polymer_defect():
        c.violate("poly-oxide-thickness", "a polymer-backed film's oxygen has the wrong thickness", film=repr(M.AlFilmWithPolymer("x", 100.0, 200.0)))
    cases = []
    for t in (108.0, 5000, ("u", 112.5, 2.25), 0.0):
        for rho in (None, 2.5):
            for ns in (None, 1, 2):
                for ox in (None, 3.5, ("arr", 3.5)):
                    cases.append(("ox", t, rho, ns, ox, None, None, None))
                    for pt in (206.4, 300, ("u", 200.0, 5.0), ("arr", 150.0), ("iarr", 150)):
                        for pr in (None, 1.3, ("arr", 1.3)):
                            for fr in (None, pf, np.array(pf)):
                                cases.append(("po", t, rho, ns, ox, pt, pr, fr))
    for ci, (kind, t, rho, ns, ox, pt, pr, fr) in enumerate(cases):
        if ci % nparts != part:
            continue
        c.trace()
        c.state((kind, str(t), rho, ns, str(ox), str(pt), str(pr), str(fr)))
        kw = {}
        tv, ts = (t[1], t[2]) if isinstance(t, tuple) else (float(t), None)
        kw["Al_thickness_nm"] = U(tv, ts) if isinstance(t, tuple) else t
        if rho is not None:
            kw["Al_density_g_per_cm3"] = rho
        if ns is not None:
            kw["num_oxidized_surfaces"] = ns
        oxv = None
        if ox is not None:
            oxv = 3.5
            kw["oxide_density_g_per_cm3"] = np.array([3.5, 3.5]) if isinstance(ox, tuple) else ox
        what = dict(kind=kind, Al=t, rho=rho, ns=ns, ox=ox, poly=pt, prho=pr, frac=str(fr))
        if kind == "ox":
            cls = "AlFilmWithOxide"
            ref = al_ref(tv, rho, ns or 2, oxv, ts)
        else:
            cls = "AlFilmWithPolymer"
            if isinstance(pt, tuple) and pt[0] == "u":
                kw["polymer_thickness_nm"] = U(pt[1], pt[2])
                pv, ps = pt[1], pt[2]
            elif isinstance(pt, tuple):
                kw["polymer_thickness_nm"] = np.full(4, pt[1], dtype=float if pt[0] == "arr" else int)
                pv, ps = pt[1], None
            else:
                kw["polymer_thickness_nm"] = pt
                pv, ps = pt, None
            if pr is not None:
                kw["polymer_density_g_per_cm3"] = np.full(4, 1.3) if isinstance(pr, tuple) else pr
            if fr is not None:
                kw["polymer_fractions"] = fr
            ref = al_ref(tv, rho, ns or 1, oxv, ts, float(pv), ps, None if pr is None else 1.3, pf if fr is not None else None)
        keep = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
        why = "plain" if (ox is None and pr is None and fr is None) else "-".join(n for n, q in (("oxide_density", ox), ("polymer_density", pr), ("fractions", fr)) if q is not None)
        ok, f = c.run(f"{cls}-exception:{why}", getattr(M, cls), "n", **kw)
        if ok:
            compare(c, cls + ":" + why, f, [ref], [400.0, 6000.0], what)
            c.run("repr", repr, f)
        akw = dict(kw)
        if kind == "po":
            akw.pop("Al_density_g_per_cm3", None)
        if kind == "ox" or rho is None:
            s = M.FilterStack("s")
            s.add_Film("first", "C", thickness_nm=50.0)
            ok, _ = c.run(f"add_{cls}-exception:{why}", getattr(s, "add_" + cls), "n", **akw)
            if ok:
                compare(c, "add_" + cls, s, [film_ref(["C"], [50e-7 * dens("C")], None, 1.0, 0.0), ref], [400.0, 6000.0], what)
        for k, v in keep.items():
            c.check(np.array_equal(v, kw[k]) and v.dtype == kw[k].dtype, "argument-changed", f"argument {k} was changed", case=what)
        c.outcome(why)
    if part == 0:
        for ns in (0, 3):
            for cls, kw in (("AlFilmWithOxide", {}), ("AlFilmWithPolymer", {"polymer_thickness_nm": 1.0})):
                c.trace()
                try:
                    getattr(M, cls)("n", 100.0, num_oxidized_surfaces=ns, **kw)
                    c.violate("surfaces-accepted", "a film with other than one or two oxidised surfaces was accepted", cls=cls, ns=ns)
                except Exception:
                    c.outcome("rejected")
    c.sample({"case": str(cases[part])})


# ------------------------------------------------------------------ orders, groupings, ladders, plots, ready-made stacks
def groupings(items):
    """all ways to split a sequence into nested groups (every ordered tree with these leaves in this order)"""
    if len(items) == 1:
        return [items[0]]
    out = []

    def splits(rest):
        if not rest:
            yield []
            return
        for i in range(1, len(rest) + 1):
            for tail in splits(rest[i:]):
                yield [rest[:i]] + tail
    for sp in splits(list(items)):
        if len(sp) == 1:
            continue
        for combo in itertools.product(*[groupings(s) for s in sp]):
            out.append(list(combo))
    return out


def build(tree, made, counter):
    M = em()
    s = M.FilterStack(f"g{counter[0]}")
    counter[0] += 1
    for t in tree:
        s.add(build(t, made, counter) if isinstance(t, list) else made[t])
    return s


def sh_orders(c, thorough):
    sets = [("al", "mesh", "abs", "lex"), ("oxide", "multi", "uncert", "poly")]
    if thorough:
        sets.append(("al", "abs", "mesh", "oxide", "lex"))
    for names in sets:
        made, refs = {}, []
        for k in names:
            made[k], r = make(k, "n-" + k)
            refs += r
        for perm in itertools.permutations(names):
            for tree in groupings(perm):
                c.trace()
                c.state(str(tree))
                s = build(tree if isinstance(tree, list) else [tree], made, [0])
                compare(c, "order", s, refs, [1559.0, 6000.0], dict(tree=tree))
    c.sample({"sets": sets})


def sh_ladder(c, thorough):
    M = em()
    ts = [0.0, 1e-3, 1.0, 2.0, 10.0, 100.0, 1000.0, 1e4, 1e5, 1e6]
    es = np.array(E0)
    for el in ["Be", "C", "Al", "Si", "Ni", "Au", "Bi"]:
        for ab in (False, True):
            for ff in (1.0, 0.4, 0.0):
                prev = None
                for t in ts:
                    c.trace()
                    ok, got = c.run("ladder-exception", M.Film("f", el, thickness_nm=t, absorber=ab, fill_fraction=ff).get_efficiency, es)
                    if not ok:
                        break
                    c.state((el, ab, ff, t))
                    if prev is not None:
                        mono = (got >= prev - 1e-15) if ab else (got <= prev + 1e-15)
                        c.check(bool(np.all(mono)), "thickness-order", "a thicker film lets more through (or a thicker absorber stops less)", el=el, absorber=ab, ff=ff, t=t, got=got, before=prev)
                    if t > 0 and ff > 0 and prev is not None and t >= 1:
                        d = np.abs(got - prev)
                        c.check(bool(np.all((d > 0) | (np.abs(got - (1 - ff if not ab else ff)) < 1e-9))), "thickness-strict", "thickness has no effect", el=el, t=t, ff=ff)
                    filt = M.Film("f", el, thickness_nm=t, absorber=False, fill_fraction=ff).get_efficiency(es)
                    absb = M.Film("f", el, thickness_nm=t, absorber=True, fill_fraction=ff).get_efficiency(es)
                    c.check(np.allclose(filt + absb, 1.0, rtol=0, atol=1e-12), "absorber-complement", "absorber efficiency is not one minus the same film's transmission", el=el, t=t, ff=ff, filt=filt, absb=absb)
                    prev = got
    # adding any layer to any stack never raises its efficiency
    for base in LAYERS:
        for new in LAYERS:
            s = M.FilterStack("s")
            make(base, "b", s)
            e1 = s(es).copy()
            make(new, "n", s)
            c.trace()
            c.check(bool(np.all(s(es) <= e1 + 1e-12)), "layer-raises", "adding a layer raised the efficiency", base=base, new=new)
    # two thin films make one thick film
    for el in ["Be", "Al", "Au"]:
        for a, b in itertools.product([1.0, 30.0, 500.0], repeat=2):
            c.trace()
            s = M.FilterStack("s")
            s.add_Film("a", el, thickness_nm=a)
            s.add_Film("b", el, thickness_nm=b)
            one = M.Film("c", el, thickness_nm=a + b)
            c.check(np.allclose(s(es), one(es), rtol=1e-10, atol=0), "thickness-additive", "two films of a material are not one of the total thickness", el=el, a=a, b=b)
    c.sample({"thicknesses_nm": ts})


def leaves_of(obj):
    """reference leaves from the public attributes of any layer"""
    M = em()
    if isinstance(obj, M.Film):
        return [film_ref([str(q) for q in obj.material], [float(d) * getattr(t, "nominal_value", t) for d, t in zip(obj.density_g_per_cm3, obj.thickness_cm)], None,
                         obj.fill_fraction.nominal_value, obj.fill_fraction.std_dev, obj.absorber)]
    return [q for k in obj.components.values() for q in leaves_of(k)]


def sh_ready(c, thorough):
    M = em()
    import pylab as plt
    al = al_ref
    F = film_ref
    want = {
        "EBIT 2018": [F(["Au"], [965.5e-7 * dens("Au")], None, 1.0, 0.0, True), al(112.5), al(108.5), al(102.6), F(["Ni"], [15e3 * 1e-7 * dens("Ni")], None, 0.17, 0.01)] + lex_ref() + lex_ref(),
        "RAVEN1 2019": [F(["Bi"], [4400e-7 * dens("Bi")], None, 1.0, 0.0, True), al(108.4, nsurf=1, poly=206.4), al(108.4, nsurf=1, poly=206.4), al(1000.), F(["Be"], [200e-4 * dens("Be")]),
                        al(5000.), F(["Be"], [200e-4 * dens("Be")])],
        "Horton 2018": [F(["Au"], [965.5e-7 * dens("Au")], None, 1.0, 0.0, True), al(5000.), al(5000.), al(12700.)] + lex_ref(),
    }
    es = np.concatenate([np.array(E0), np.linspace(300., 20000., 198 if thorough else 40)])
    for k, leaves in want.items():
        c.trace()
        c.state(k)
        if not c.check(k in M.filterstack_models, "ready-missing", "a ready-made instrument is missing", name=k):
            continue
        m = M.filterstack_models[k]
        got = m(es)
        w = np.array([total(leaves, e) for e in es])
        c.check(got.shape == w.shape and bool(np.all(np.abs(got - w) <= 1e-8 * w + 1e-200)), "ready-value", "a ready-made instrument is not the product of its films", name=k, got=got[:4], want=w[:4])
        flat = leaves_of(m)
        w = np.array([total(flat, e) for e in es])
        c.check(bool(np.all(np.abs(got - w) <= 1e-8 * w + 1e-200)), "ready-flat", "an instrument is not the product of the films inside it", name=k)
        u = m(es, uncertain=True)
        c.check(np.allclose([q.nominal_value for q in u], got, rtol=1e-10, atol=0), "ready-uncertain", "uncertain and plain efficiencies differ", name=k)
        fig = plt.figure()
        ax = fig.add_subplot(111)
        ok, _ = c.run("plot-exception", m.plot_efficiency, es, ax)
        if ok:
            lines = {q.get_label(): q for q in ax.get_lines()}
            c.check(set(lines) == {"total"} | {v.name for v in m.components.values()}, "plot-lines", "plot does not show the total and each layer", name=k, got=sorted(lines))
            for lab, ln in lines.items():
                src = m if lab == "total" else m.components.get(lab)
                if src is not None:
                    c.check(np.array_equal(ln.get_xdata(), es) and np.allclose(ln.get_ydata(), 100 * src(es), rtol=1e-12, atol=0), "plot-data", "plotted efficiencies are not the efficiencies in %", name=k, line=lab)
            c.check("keV" not in ax.get_xlabel(), "plot-units", "energies in eV are plotted on a keV axis", label=ax.get_xlabel())
        plt.close(fig)
        c.check(np.array_equal(m(es), got), "plot-changes", "plotting changed the stack", name=k)
    # fresh dictionaries are independent
    d1, d2 = M.get_filter_stacks_dict(), M.get_filter_stacks_dict()
    for k in d1:
        before = d2[k](es).copy()
        d1[k].add_Film("extra", "Au", thickness_nm=500.)
        c.trans()
        c.check(np.array_equal(d2[k](es), before) and not np.allclose(d1[k](es), before, rtol=1e-6, atol=0), "ready-shared", "ready-made stacks share their layers", name=k)
    for mk in (lambda: M.LEX_HT("L"),):
        c.trace()
        compare(c, "lex", mk(), lex_ref(), es.tolist(), "LEX_HT")
    c.sample({"names": sorted(want)})


def shards(tier):
    th = tier == "thorough"
    out = [("ready", (sh_ready, (th,))), ("ladder", (sh_ladder, (th,))), ("orders", (sh_orders, (th,)))]
    n = 24 if th else 8
    out += [(f"programs{i}", (sh_programs, (i, n, 4 if th else 3))) for i in range(n)]
    n = 8 if th else 6
    out += [(f"films{i}", (sh_films, (i, n, th))) for i in range(n)]
    n = 8 if th else 6
    out += [(f"composite{i}", (sh_composite, (i, n, th))) for i in range(n)]
    return out


def run_shard(c, fn, args):
    em()
    fn(c, *args)
