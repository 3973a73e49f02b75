"""P17: Toeplitz solver and Toeplitz whitener. Every small system and whitener over an integer alphabet, against exact rational algebra."""
import itertools
from fractions import Fraction

import numpy as np

from vlib.core import chunks

PROPERTY = "P17"
EXPLAIN = """A state is a Toeplitz system (symmetric or general) or a whitener (its moving-average and autoregressive coefficients) together with
the calls made on it so far; transitions solve it or multiply by it for a right-hand side.  All systems up to a size over an integer alphabet are built,
and every sequence of calls up to a length is made on the same object; answers are compared with exact rational Gaussian elimination (small systems) or
dense linear algebra (long ones), for every number type, memory layout, vectors and matrices, and the inputs are compared with copies."""
ASSUMPTIONS = ["all leading principal minors are non-zero, as Levinson recursion needs (true of every noise autocorrelation)",
               "whiteners have non-zero leading coefficients; recursions of length up to 40 stay within a factor of 1e6"]


# ---- exact algebra
def solve_exact(A, B):
    """A x = B, exact. A: n x n integers, B: n x m.  None if a leading principal minor vanishes."""
    n = len(A)
    M = [[Fraction(v) for v in A[i]] + [Fraction(v) for v in B[i]] for i in range(n)]
    for k in range(n):
        if M[k][k] == 0:
            return None
        for i in range(n):
            if i != k and M[i][k] != 0:
                f = M[i][k] / M[k][k]
                M[i] = [a - f * b for a, b in zip(M[i], M[k])]
    return [[M[i][j] / M[i][i] for j in range(n, len(M[i]))] for i in range(n)]


def leading_ok(A):
    n = len(A)
    M = [[Fraction(v) for v in row] for row in A]
    for k in range(n):
        if M[k][k] == 0:
            return False
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            M[i] = [a - f * b for a, b in zip(M[i], M[k])]
    return True


def sym(T):
    n = len(T)
    return [[T[abs(i - j)] for j in range(n)] for i in range(n)]


def gen(T):
    n = (len(T) + 1) // 2
    return [[T[i - j + n - 1] for j in range(n)] for i in range(n)]


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0.0)))


DT = [float, np.float32, int, np.int16, np.uint8, np.int8, bool]


def variants(v, thorough):
    """the same right-hand side as every number type that can hold it, as a list, and in other memory layouts"""
    v = np.asarray(v, dtype=float)
    yield "float64", v.copy()
    for dt in DT[1:]:
        with np.errstate(all="ignore"):
            w = v.astype(dt)
        if np.array_equal(w.astype(float), v):
            yield np.dtype(dt).name, w
    yield "list", v.tolist()
    big = np.zeros(tuple(2 * s for s in v.shape))
    s = big[tuple(slice(None, None, 2) for _ in v.shape)]
    s[...] = v
    yield "strided", s
    yield "reversed", v[::-1].copy()[::-1]
    if v.ndim == 2:
        yield "fortran", np.asfortranarray(v)
    ro = v.copy()
    ro.flags.writeable = False
    yield "read-only", ro


def call(c, what, f, v, ref, tol=1e-8, **d):
    before = np.array(v, copy=True)
    ok, r = c.run(f"raises:{what}", f, v)
    c.trans()
    if not ok:
        return
    c.check(np.array_equal(before, np.asarray(v)) and before.dtype == np.asarray(v).dtype, f"{what}:input-changed", f"{what} changed its input", was=before, now=v, **d)
    c.check(close(r, ref, tol), f"{what}:value", f"{what} differs from dense linear algebra", got=r, want=ref, rhs=before, **d)


# ---- solver
def vectors(n):
    out = [[1 if i == j else 0 for i in range(n)] for j in range(n)]
    out.append([(3 * i + 1) % 5 for i in range(n)])
    out.append([-2 if i % 2 else 3 for i in range(n)])
    out.append([0.5 * i - 1 for i in range(n)])
    return out


def solver_case(c, T, symmetric, deep):
    from mass.mathstat.toeplitz import ToeplitzSolver
    A = sym(T) if symmetric else gen(T)
    n = len(A)
    eye = [[int(i == j) for j in range(n)] for i in range(n)]
    if not leading_ok(A):
        c.outcome("singular-minor")
        return
    inv = np.array([[float(x) for x in r] for r in solve_exact(A, eye)])
    # rounding grows with the conditioning of all leading blocks
    Af = np.array(A, dtype=float)
    cond = max(np.linalg.cond(Af[:k, :k]) for k in range(1, n + 1))
    tol = 1e-13 * cond**2 + 1e-9
    c.state(("solver", tuple(T), symmetric))
    d = dict(T=T, symmetric=symmetric)
    Tin = np.array(T)
    for Tform in ([Tin, list(T), Tin.astype(float)] if deep else [Tin]):
        ok, s = c.run(f"raises:ToeplitzSolver(n={'1' if n == 1 else '>1'})", ToeplitzSolver, Tform, symmetric=symmetric)
        if not ok:
            return
        V = vectors(n)
        for v in V:
            v = np.array(v, dtype=float)
            call(c, "solve", s, v, inv @ v, tol, **d)
        M = np.array(V, dtype=float).T
        call(c, "solve-matrix", s, M, inv @ M, tol, **d)
        call(c, "solve-matrix", s, M[:, :1], inv @ M[:, :1], tol, **d)
        if symmetric:
            for v in V:
                v = np.array(v, dtype=float)
                call(c, "mult", s.mult, v, Af @ v, **d)
            call(c, "mult-matrix", s.mult, M, Af @ M, **d)
            # round trip
            v = np.array(V[-1], dtype=float)
            call(c, "mult-solve", lambda x: s(s.mult(x)), v, v, tol, **d)
        c.check(np.array_equal(Tin, np.array(T)), "T-changed", "building or using the solver changed the caller's T", **d)
    if deep:
        for v in [np.array(V[-3]), np.array(V[-2]), np.array(V[-1]), np.ones(n), np.array(V[:3]).T]:
            for name, w in variants(v, True):
                call(c, f"solve[{'matrix,' if np.ndim(w) == 2 else ''}{name}]", s, w, inv @ v, tol, **d)
                if symmetric:
                    call(c, f"mult[{'matrix,' if np.ndim(w) == 2 else ''}{name}]", s.mult, w, Af @ v, **d)
        half = [t / 2 + 0.25 * (i == (0 if symmetric else n - 1)) for i, t in enumerate(T)]
        H = np.array(sym(half) if symmetric else gen(half))
        if all(abs(np.linalg.det(H[:k, :k])) > 1e-3 for k in range(1, n + 1)):
            s2 = ToeplitzSolver(half, symmetric=symmetric)
            hi = np.linalg.inv(H)
            for v in [np.array(V[-3]), np.array(V[-2], dtype=np.int16)]:
                call(c, "solve[int,fractional T]", s2, v, hi @ v, 1e-6, T=half, symmetric=symmetric)
                if symmetric:
                    call(c, "mult[int,fractional T]", s2.mult, v, H @ v, T=half)
        # the object may be used any number of times, in any order
        ops = [("solve", s, np.array(V[-3], dtype=float), inv), ("solveM", s, M, inv)] + ([("mult", s.mult, np.array(V[-2], dtype=float), Af)] if symmetric else [])
        for seq in itertools.product(range(len(ops)), repeat=3):
            c.state(("seq", tuple(T), symmetric, seq))
            for k in seq:
                name, f, v, R = ops[k]
                call(c, f"sequence:{name}", f, v, R @ v, tol, seq=seq, **d)
    c.outcome("solved" + ("-sym" if symmetric else "-gen"))


def solver_shard(c, symmetric, n, alpha, part, nparts, every):
    length = n if symmetric else 2 * n - 1
    diag = 0 if symmetric else n - 1
    pos = 0
    for idx, T in enumerate(itertools.product(alpha, repeat=length)):
        if idx % nparts != part or T[diag] == 0:
            continue
        pos += 1
        solver_case(c, list(T), symmetric, pos % every == 0 or n <= 2)


def long_shard(c):
    """long systems of the kind the filters use, every length"""
    from mass.mathstat.toeplitz import ToeplitzSolver
    top = 130 if c.thorough else 70
    fams = [("exp", lambda k: 0.9**abs(k), True), ("two-exp", lambda k: 2 * 0.8**abs(k) + 0.5 * (-0.6)**abs(k), True),
            ("osc", lambda k: np.cos(k / 3) * 0.9**abs(k) + (k == 0), True), ("white", lambda k: 4.0 * (k == 0), True),
            ("asym", lambda k: (0.7**k if k >= 0 else -(0.5**-k)) + (k == 0), False), ("lower", lambda k: 0.5**k if k >= 0 else 0.0, False),
            ("upper", lambda k: 0.5**-k if k <= 0 else 0.0, False)]
    for (name, f, symmetric), n in itertools.product(fams, range(1, top + 1)):
        c.state(("long", name, n))
        T = np.array([f(k) for k in (range(n) if symmetric else range(-n + 1, n))], dtype=float)
        A = np.array([[f(i - j) for j in range(n)] for i in range(n)], dtype=float)
        ok, s = c.run("raises:ToeplitzSolver(long)", ToeplitzSolver, T, symmetric=symmetric)
        if not ok:
            continue
        rng = (np.arange(n) * 7919 % 101).astype(float)
        M = np.array([rng, np.cos(np.arange(n)), np.arange(n) == n - 1, np.arange(n) == 0], dtype=float).T
        X = np.linalg.solve(A, M)
        for j in range(M.shape[1]):
            call(c, "solve-long", s, M[:, j].copy(), X[:, j], 1e-7, family=name, n=n)
        call(c, "solve-matrix-long", s, M, X, 1e-7, family=name, n=n)
        if symmetric:
            call(c, "mult-long", s.mult, M[:, 0].copy(), A @ M[:, 0], 1e-9, family=name, n=n)
            call(c, "mult-matrix-long", s.mult, M, A @ M, 1e-9, family=name, n=n)


# ---- whitener
def banded(co, N):
    return np.array([[co[i - j] if 0 <= i - j < len(co) else 0.0 for j in range(N)] for i in range(N)], dtype=float)


def whitener_case(c, theta, phi, N, deep, int_coeffs=False):
    from mass.core.optimal_filtering import ToeplitzWhitener
    c.state(("whitener", tuple(theta), tuple(phi), N))
    th, ph = np.array(theta, dtype=int if int_coeffs else float), np.array(phi, dtype=int if int_coeffs else float)
    d = dict(theta=theta, phi=phi, N=N)
    tw = ToeplitzWhitener(th, ph)
    AR, MA = banded(phi, N), banded(theta, N)
    W = np.linalg.solve(MA, AR)
    Winv = np.linalg.solve(AR, MA)
    if max(np.abs(W).max(), np.abs(Winv).max()) > 1e6:
        c.outcome("growth")
        return
    ok, w = c.run("raises:W", tw.W, N)
    if ok:
        c.check(close(w, W), "W:value", "W(N) is not the matrix of MA^-1 AR", got=w, want=W, **d)
    ops = {"whiten": (tw.whiten, W), "call": (tw, W), "solveW": (tw.solveW, Winv), "applyWT": (tw.applyWT, W.T), "solveWT": (tw.solveWT, Winv.T)}
    M = np.eye(N)
    mixed = np.array(vectors(N)[-3:], dtype=float).T
    for name, (f, R) in ops.items():
        for j in range(N):
            call(c, name, f, M[:, j].copy(), R[:, j], **d)
        call(c, name + "-matrix", f, M, R, **d)
        call(c, name + "-matrix", f, mixed, R @ mixed, **d)
        call(c, name + "-matrix", f, mixed[:, :1], R @ mixed[:, :1], **d)
    v = mixed[:, 0].copy()
    # inverses and transposes of one another
    call(c, "solveW(whiten)", lambda x: tw.solveW(tw.whiten(x)), v, v, 1e-6, **d)
    call(c, "whiten(solveW)", lambda x: tw.whiten(tw.solveW(x)), v, v, 1e-6, **d)
    call(c, "solveWT(applyWT)", lambda x: tw.solveWT(tw.applyWT(x)), v, v, 1e-6, **d)
    call(c, "applyWT(solveWT)", lambda x: tw.applyWT(tw.solveWT(x)), v, v, 1e-6, **d)
    c.check(tw.p == len(phi) - 1 and tw.q == len(theta) - 1, "pq", "p and q are not the orders", **d)
    if deep:
        for base in [mixed[:, 0], mixed[:, 1], np.ones(N), mixed]:
            for vn, x in variants(base, True):
                for name, (f, R) in ops.items():
                    call(c, f"{name}[{'matrix,' if np.ndim(x) == 2 else ''}{vn}]", f, x, R @ base, **d)
        for name, (f, R) in ops.items():
            try:
                f(np.zeros((N, 2, 2)))
                c.check(False, f"{name}:3d", "a 3-dimensional array was accepted", **d)
            except ValueError:
                c.outcome("3d-refused")
            except Exception as e:
                c.violate(f"{name}:3d", f"a 3-dimensional array raised {type(e).__name__}, not ValueError", **d)
    c.check(np.array_equal(th, theta) and np.array_equal(ph, phi), "coefficients-changed", "using the whitener changed its coefficients", **d)
    c.outcome("whitened")


def whitener_shard(c, p, q):
    lead = [1, 2, -1]
    rest = [-1, 0, 1, 2] if c.thorough and p + q <= 3 else [-1, 0, 1]
    Ns = range(1, 7)
    k = 0
    for t0, f0 in itertools.product(lead, lead):
        for tr in itertools.product(rest, repeat=q):
            for fr in itertools.product(rest, repeat=p):
                k += 1
                N = Ns[k % len(Ns)]
                whitener_case(c, [t0, *tr], [f0, *fr], N, k % 40 == 0)
                if p + q <= 2:
                    for N in Ns:
                        whitener_case(c, [t0, *tr], [f0, *fr], N, False)
    co = [1.5, -0.4, 0.2, 0.1]
    cp = [0.5, 0.2, -0.1, 0.05]
    for N in range(1, 41 if c.thorough else 21):
        whitener_case(c, co[:q + 1], cp[:p + 1], N, N <= 8)
    whitener_case(c, [2] + [1] * q, [1] + [-1] * p, 5, True, int_coeffs=True)


def shards(tier):
    t = tier == "thorough"
    out = [("long", (long_shard, ()))]
    for n, al, parts, every in [(1, [-2, 1, 3], 1, 1), (2, [-3, -2, -1, 0, 1, 2, 3], 1, 1), (3, [-2, -1, 0, 1, 2, 3], 1, 3),
                                (4, [-2, -1, 0, 1, 2], 2, 12)] + ([(5, [-2, -1, 0, 1, 2, 3], 4, 50)] if t else [(5, [-1, 0, 1, 2], 2, 25)]):
        for i in range(parts):
            out.append((f"sym-{n}-{i}", (solver_shard, (True, n, al, i, parts, every))))
    for n, al, parts, every in [(1, [-2, 1, 3], 1, 1), (2, [-2, -1, 0, 1, 2], 1, 1), (3, [-1, 0, 1, 2], 2, 10)] + (
            [(4, [-1, 0, 1, 2], 8, 100)] if t else [(4, [-1, 0, 1], 4, 50)]):
        for i in range(parts):
            out.append((f"gen-{n}-{i}", (solver_shard, (False, n, al, i, parts, every))))
    for p in range(4):
        for q in range(4):
            if p + q <= (5 if t else 4):
                out.append((f"whitener-p{p}q{q}", (whitener_shard, (p, q))))
    return out


def run_shard(c, fn, args):
    fn(c, *args)
