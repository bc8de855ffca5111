"""Seeded workload generators shared by the monitors (nothing here imports the code under test)."""
import numpy as np

from .oracles import fronts_by_peeling


def point_set(rng, n, m, style):
    """objective vectors; the style decides how hostile the set is"""
    if style == "general":  # no two coordinates equal on any axis, gaps bounded below
        base = np.stack([rng.permutation(n) for _ in range(m)], axis=1).astype(float)
        return base * 2.0 + rng.uniform(0.0, 0.8, size=(n, m))
    if style == "grid":  # many ties and duplicates
        return rng.integers(0, int(rng.integers(2, 6)), size=(n, m)).astype(float)
    if style == "binary":
        return rng.integers(0, 2, size=(n, m)).astype(float)
    if style == "front":  # a mutually non-dominated set on a simplex-like surface
        w = rng.dirichlet(np.ones(m), size=n)
        return w * (1 + 0.05 * rng.random((n, 1)))
    if style == "sphere":
        v = np.abs(rng.normal(size=(n, m))) + 1e-3
        return v / np.linalg.norm(v, axis=1, keepdims=True)
    if style == "chain":  # totally ordered by dominance
        return np.sort(rng.random((n, m)), axis=0)
    if style == "negative":
        return -rng.integers(0, 4, size=(n, m)).astype(float)
    if style == "scaled":
        return rng.normal(size=(n, m)) * 10.0 ** rng.integers(-4, 6, size=m)
    if style == "dups":
        P = rng.random((max(1, n // 2), m))
        return P[rng.integers(0, len(P), size=n)]
    if style == "shared":  # general position but one axis is shared by everybody
        P = rng.random((n, m))
        P[:, rng.integers(m)] = rng.random()
        return P
    raise KeyError(style)


STYLES = ["general", "grid", "binary", "front", "sphere", "chain", "negative", "scaled", "dups", "shared"]


def few(rng, lo, hi, big, share=0.05):
    """usually a small number, now and then one of the sizes met in practice"""
    return int(rng.integers(hi, big + 1)) if rng.random() < share else int(rng.integers(lo, hi))


def magnitude(rng, share=0.15):
    """1, or a power of two far from it (scaling by it is exact)"""
    return float(2.0 ** rng.integers(-60, 61)) if rng.random() < share else 1.0


def layout(rng, A):
    """the same values in another memory layout"""
    A = np.array(A)
    kind = int(rng.integers(6))
    if kind == 0:
        return np.asfortranarray(A)
    if kind == 1:
        return A[::-1].copy()[::-1]
    if kind == 2 and A.size:
        B = np.full([2 * k for k in A.shape], A.flat[0])
        B[tuple(slice(None, None, 2) for _ in A.shape)] = A
        return B[tuple(slice(None, None, 2) for _ in A.shape)]
    if kind == 3:
        A.flags.writeable = False
    return A


def quadratic_problem(rng, n_var, n_obj, convex=True, cubic=False):
    """random smooth multi-objective test problem with exact derivatives: (F, J, H) point functions"""
    A = np.zeros((n_obj, n_var, n_var))
    for k in range(n_obj):
        M = rng.normal(size=(n_var, n_var))
        A[k] = M @ M.T / n_var + 0.5 * np.eye(n_var) if convex else (M + M.T) / 2
    c = rng.uniform(-1, 1, size=(n_obj, n_var))
    s = rng.normal(size=(n_obj, n_var)) * (0.15 if cubic else 0.0)

    def F(x):
        x = np.asarray(x, dtype=float)
        return np.array([0.5 * (x - c[k]) @ A[k] @ (x - c[k]) + s[k] @ x**3 for k in range(n_obj)])

    def J(x):
        x = np.asarray(x, dtype=float)
        return np.array([A[k] @ (x - c[k]) + 3 * s[k] * x**2 for k in range(n_obj)])

    def H(x):
        x = np.asarray(x, dtype=float)
        return np.array([A[k] + np.diag(6 * s[k] * x) for k in range(n_obj)])

    return F, J, H


def nondominated_cloud(rng, n, m):
    """n mutually non-dominated points in general position"""
    while True:
        P = rng.random((n * 6, m))
        P = P / np.linalg.norm(P, axis=1, keepdims=True) * rng.uniform(0.9, 1.1, size=(len(P), 1))
        f = fronts_by_peeling(P)[0]
        if len(f) >= n:
            return P[f[:n]]


def rewritten(c, answer, fresh, draw, mech, what, rounds=4, tiny=None, rtol=1e-11):
    """answers belong to the contents of the argument, not to the array object: one array is rewritten in place between
    calls, with new contents or moved by a hair; `fresh` answers for a copy without a history"""
    buf = np.array(draw(), float)
    for k in range(rounds):
        if k:
            buf[...] = draw() if k % 2 else buf * (1 + (tiny or 10 ** c.rng.uniform(-8.5, -5)) * c.rng.uniform(0.5, 1, size=buf.shape))
        got, want = answer(buf), fresh(buf.copy())
        got, want = ([list(v) if isinstance(v, tuple) else [v]][0] for v in (got, want))
        c.saw(buf, what, k)
        for a, b in zip(got, want, strict=True):
            a, b = np.asarray(a, float), np.asarray(b, float)
            fin = np.isfinite(b)
            ok = a.shape == b.shape and np.array_equal(fin, np.isfinite(a)) and bool(np.all(np.abs(a - b)[fin] <= rtol * np.max(np.abs(b[fin]), initial=0)))
            if not ok:
                c.fail(mech, f"{what}: the answer for an array that was rewritten in place ({'moved slightly' if k and k % 2 == 0 else 'new contents'}) is not that of a copy", array=buf, answer=a, expected=b)
                return


def graze(rng, X, xl, xu, rate=0.25):
    """some coordinates close to (or on) a bound: at distances 1e-13 to 1e-2, away from the documented tolerance 1e-10"""
    X = np.array(X, dtype=float)
    if rng.random() > rate:
        return X
    for i, j in zip(*np.nonzero(rng.random(X.shape) < 0.3)):
        t = 0.0 if rng.random() < 0.2 else 10.0 ** (rng.uniform(-13, -11) if rng.random() < 0.2 else rng.uniform(-9, -2))
        X[i, j] = xl[j] + t if rng.integers(2) else xu[j] - t
    return X
