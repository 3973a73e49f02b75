"""P19: function objects. Every expression tree up to a size, against truncated-power-series arithmetic."""
import itertools
import math

import numpy as np

from vlib.core import chunks

PROPERTY = "P19"
EXPLAIN = """A state is an expression tree; transitions build a larger expression (every operator, every pair of smaller ones, numbers
allowed on either side), evaluate it, differentiate it (derivative(n), repeated derivative(1), and der=n), print it.  All trees to the
size bound are built with the real operators and compared with independent truncated Taylor-series arithmetic at each site."""
ASSUMPTIONS = ["values are compared only where the expression is defined and finite (for logarithms, arguments at least 1e-6, as the code documents)"]

NDER = 4
SITES = [0.5, 1.0, 3.7, -1.5]
BIG = 1e7


class Undefined(Exception):
    pass


# ---- truncated Taylor series at a point: list of NDER+1 coefficients
def s_const(v):
    return [float(v)] + [0.0] * NDER


def s_add(a, b, sign=1):
    return [x + sign * y for x, y in zip(a, b)]


def s_mul(a, b):
    return [sum(a[j] * b[k - j] for j in range(k + 1)) for k in range(NDER + 1)]


def s_compose(outer, a):
    """outer: Taylor coefficients of the outer function at a[0]; a: inner series"""
    d = [0.0] + a[1:]
    out, p = s_const(0), s_const(1)
    for k in range(NDER + 1):
        out = [x + outer[k] * y for x, y in zip(out, p)]
        p = s_mul(p, d)
    return out


def t_pow(n, x):
    integer = float(n).is_integer()
    if (x < 0 and not integer) or (x == 0 and (n < 0 or not integer)):
        raise Undefined
    out, c = [], 1.0
    for k in range(NDER + 1):
        out.append(0.0 if c == 0 else c * x**(n - k))
        c = c * (n - k) / (k + 1)
    return out


def t_exp(x):
    if x > 40:
        raise Undefined
    return [math.exp(x) / math.factorial(k) for k in range(NDER + 1)]


def t_log(x):
    if x < 2e-6:
        raise Undefined
    return [math.log(x)] + [(-1)**(k + 1) / k / x**k for k in range(1, NDER + 1)]


KX, KY = [-4.0, 0.0, 2.0, 6.0], [1.0, 2.0, 0.5, 3.0]
_P = None


def t_spline(x):
    global _P
    from checks.c_p18 import dense
    if _P is None:
        _P = dense(np.array(KX), KY, None, None)
    if min(abs(x - k) for k in KX) < 1e-9:
        raise Undefined            # higher derivatives jump at the knots
    if x < KX[0]:
        return [KY[0] + (x - KX[0]) * _P[0][1], _P[0][1]] + [0.0] * (NDER - 1)
    if x > KX[-1]:
        h = KX[-1] - KX[-2]
        s = _P[-1][1] + 2 * h * _P[-1][2] + 3 * h * h * _P[-1][3]
        return [KY[-1] + (x - KX[-1]) * s, s] + [0.0] * (NDER - 1)
    i = max(k for k in range(3) if KX[k] <= x)
    u = x - KX[i]
    a, b, c, d = _P[i]
    return [a + u * (b + u * (c + u * d)), b + 2 * c * u + 3 * d * u * u, c + 3 * d * u, d] + [0.0] * (NDER - 3)


def leaves():
    import mass.mathstat.derivative as D
    from mass.mathstat.interpolate import CubicSplineFunction
    return {
        "x": (D.Identity(), None, lambda x: t_pow(1, x)),
        "c0": (D.ConstantFunction(0), 0, lambda x: s_const(0)),
        "c1": (D.ConstantFunction(1), 1, lambda x: s_const(1)),
        "c2": (D.ConstantFunction(2), 2, lambda x: s_const(2)),
        "c-1.5": (D.ConstantFunction(-1.5), -1.5, lambda x: s_const(-1.5)),
        "p2": (D.PowerFunction(2), None, lambda x: t_pow(2, x)),
        "p-1": (D.PowerFunction(-1), None, lambda x: t_pow(-1, x)),
        "p.5": (D.PowerFunction(0.5), None, lambda x: t_pow(0.5, x)),
        "p0": (D.PowerFunction(0), None, lambda x: t_pow(0, x)),
        "exp": (D.ExponentialFunction(), None, t_exp),
        "log": (D.LogFunction(), None, t_log),
        "S": (CubicSplineFunction(KX, KY), None, t_spline),
    }


OPS = ["+", "-", "*", "/", "<<"]
UN = ["neg", "**2", "**-1", "**0.5", "**3"]


def build(op, f, g):
    if op == "+":
        return f + g
    if op == "-":
        return f - g
    if op == "*":
        return f * g
    if op == "/":
        return f / g
    if op == "<<":
        return f << g
    if op == ">>":
        return f >> g
    raise ValueError(op)


def fseries(op, F, G):
    """series of the combination as a function of x"""
    if op == "+":
        return lambda x: s_add(F(x), G(x))
    if op == "-":
        return lambda x: s_add(F(x), G(x), -1)
    if op == "*":
        return lambda x: s_mul(F(x), G(x))
    if op == "/":
        def div(x):
            g = G(x)
            return s_mul(F(x), s_compose(t_pow(-1, g[0]), g))
        return div
    if op == "<<":
        def comp(x):
            g = G(x)
            return s_compose(F(g[0]), g)
        return comp
    raise ValueError(op)


def unary(u, f, F):
    if u == "neg":
        return -f, lambda x: s_add(s_const(0), F(x), -1)
    n = float(u[2:])
    n = int(n) if n.is_integer() else n

    def pw(x):
        a = F(x)
        return s_compose(t_pow(n, a[0]), a)
    return f**n, pw


def shards(tier):
    L = ["x", "c0", "c1", "c2", "c-1.5", "p2", "p-1", "p.5", "p0", "exp", "log", "S"]
    out = [(f"tree3-{a}-{op}", ("tree3", a, op)) for a in L for op in OPS]
    out += [(f"num-{k}", ("num", k)) for k in range(4)]
    if tier == "thorough":
        out += [(f"tree4-{a}-{op}", ("tree4", a, op)) for a in L for op in OPS]
    return out


def run_shard(c, kind, *args):
    np.seterr(all="ignore")
    globals()["do_" + kind](c, *args)


class Scale:
    """Follows the largest coefficient met, to set a fair tolerance."""


def reference(F, x):
    try:
        w = F(x)
    except (Undefined, OverflowError, ZeroDivisionError):
        return None
    if not all(map(math.isfinite, w)) or max(map(abs, w)) > BIG:
        return None
    return [w[k] * math.factorial(k) for k in range(NDER + 1)]


def examine(c, name, f, F, extra=True):
    from mass.mathstat.derivative import Function
    if not isinstance(f, Function):
        c.violate("not-function", f"{name} gives {f!r}, not a function")
        return
    refs = [(x, reference(F, x)) for x in SITES]
    refs = [(x, w) for x, w in refs if w is not None]
    if not refs:
        return
    xs = np.array([x for x, _ in refs])
    c.state(name)

    def cmp(vals, k, how):
        for (x, w), v in zip(refs, np.broadcast_to(vals, (len(refs),))):
            tol = 1e-6 * (1 + max(abs(t) for t in w[:k + 1]))
            if not abs(v - w[k]) <= tol:
                c.violate(f"{how}-der{k}", f"({name}) derivative {k} by {how} at x={x}: {v}, want {w[k]} [{f!r}]", expr=name, x=x)
                return False
        return True
    maxd = 3 if extra else 2
    d1 = f
    for k in range(maxd + 1):
        c.trans()
        if not cmp(f(xs, der=k) if k else f(xs), k, "call"):
            return
        if k:
            c.trans(2)
            if not cmp(f.derivative(k)(xs), k, "derivative"):
                return
            d1 = d1.derivative()
            if not cmp(d1(xs), k, "repeated"):
                return
    s = repr(f)
    x, w = refs[-1]
    v = f(x)
    if np.ndim(v) != 0 or not abs(v - w[0]) <= 1e-6 * (1 + abs(w[0])):
        c.violate("scalar", f"({name}) at the number {x}: {v!r} after printing {s}, want {w[0]}")
    v = f.derivative(0)(xs)
    cmp(v, 0, "derivative")


def do_tree3(c, a, op):
    L = leaves()
    fa, _, Fa = L[a]
    pairs = [(b, L[b][0], L[b][2]) for b in L]
    n = 0
    for b, fb, Fb in pairs:
        ok, f2 = c.run("build", build, op, fa, fb)
        if not ok:
            return
        F2 = fseries(op, Fa, Fb)
        n2 = f"({a} {op} {b})"
        examine(c, n2, f2, F2)
        c.trace()
        for u in UN:
            ok, r = c.run("unary", unary, u, f2, F2)
            if ok:
                examine(c, f"{u} {n2}", *r, extra=False)
        for op3, d in itertools.product(OPS, L):
            fd, _, Fd = L[d]
            for left in (False, True):
                g, h, G, H, nm = (f2, fd, F2, Fd, f"{n2} {op3} {d}") if left else (fd, f2, Fd, F2, f"{d} {op3} {n2}")
                ok, f3 = c.run("build", build, op3, g, h)
                if ok:
                    n += 1
                    examine(c, nm, f3, fseries(op3, G, H), extra=False)
                    c.trace()
    c.sample({"expression": nm, "trees": n})


def do_tree4(c, a, op):
    """(a op b) op4 (d op3 e): all pairs of two-leaf expressions"""
    L = leaves()
    fa, _, Fa = L[a]
    for b in L:
        f2, F2 = build(op, fa, L[b][0]), fseries(op, Fa, L[b][2])
        for op3, d, e in itertools.product(OPS, L, L):
            g2, G2 = build(op3, L[d][0], L[e][0]), fseries(op3, L[d][2], L[e][2])
            for op4 in OPS:
                ok, f = c.run("build", build, op4, f2, g2)
                if ok:
                    examine(c, f"({a} {op} {b}) {op4} ({d} {op3} {e})", f, fseries(op4, F2, G2), extra=False)
                    c.trace()


def do_num(c, k):
    """plain numbers (python and numpy) on either side of every operator, and argument types"""
    L = leaves()
    nums = [2, -1.5, 0, 1, np.float64(2.5)]
    names = list(L)[k::4]
    base = []
    for a in names:
        base.append((a, L[a][0], L[a][2]))
        for b in L:
            base.append((f"({a}*{b})", L[a][0] * L[b][0], fseries("*", L[a][2], L[b][2])))
            base.append((f"({a}+{b})", L[a][0] + L[b][0], fseries("+", L[a][2], L[b][2])))
    for name, f, F in base:
        for num in nums:
            N = (lambda num: lambda x: s_const(num))(num)
            for op in "+-*/":
                if op == "/" and num == 0:
                    continue
                ok, r = c.run("number-right", build, op, f, num)
                if ok:
                    ok = isinstance(r, object)
                    examine(c, f"{name} {op} {num!r}", r, fseries(op, F, N), extra=False)
                ok, r = c.run("number-left", build, op, num, f)
                if ok:
                    examine(c, f"{num!r} {op} {name}", r, fseries(op, N, F), extra=False)
            # evaluation by << and >>
            w = reference(F, float(num))
            if w is not None:
                for how, r in (("<<", f << num), (">>", num >> f if not isinstance(num, np.generic) else f << num)):
                    c.trans()
                    c.check(np.ndim(r) == 0 and abs(r - w[0]) <= 1e-6 * (1 + abs(w[0])), f"evaluate{how}", f"{name} {how} {num}: {r} want {w[0]}")
        # argument kinds
        for x in (1, [1, 2], np.array([1, 2]), np.array([[1.0, 2.0], [0.5, 3.7]]), np.array(2.0)):
            keep = np.array(x, copy=True)
            want = [reference(F, float(v)) for v in np.ravel(x)]
            if any(w is None for w in want) or isinstance(x, list) and "c" in name:
                continue
            for der in (0, 1):
                ok, r = c.run("argument", f, np.asarray(x) if isinstance(x, list) else x, der)
                c.trans()
                if ok:
                    w = np.reshape([v[der] for v in want], np.shape(x))
                    c.check(np.shape(r) == np.shape(x) and np.allclose(r, w, rtol=1e-6, atol=1e-6), "argument-value",
                            f"{name} der {der} of {x!r}: {r!r} want {w}")
            c.check(np.array_equal(keep, x), "argument-changed", f"{name} changed its argument")
        c.trace()
