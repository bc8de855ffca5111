"""Reference models ("oracles") the monitors compare the real code against.

Nothing in this file imports the code under test.
"""
import itertools

import numpy as np


# ---------------------------------------------------------------- hypervolume
def hv_grid(P, ref):
    """Lebesgue measure of the union of boxes [p, ref] by coordinate compression."""
    P = np.atleast_2d(np.asarray(P, dtype=float))
    ref = np.asarray(ref, dtype=float)
    m = len(ref)
    if P.size == 0:
        return 0.0
    P = P[np.all(P < ref, axis=1)]
    if len(P) == 0:
        return 0.0
    axes = [np.unique(np.append(P[:, k], ref[k])) for k in range(m)]
    idx = np.stack([np.searchsorted(axes[k], P[:, k]) for k in range(m)], axis=1)
    covered = np.zeros([len(a) - 1 for a in axes], dtype=bool)
    for row in idx:
        covered[tuple(slice(r, None) for r in row)] = True
    vol = covered.astype(float)
    for k in range(m - 1, -1, -1):
        vol = vol @ np.diff(axes[k])
    return float(vol)


def hv_incl_excl(P, ref):
    """inclusion-exclusion, for tiny sets (a second, structurally different oracle)"""
    P = np.atleast_2d(np.asarray(P, dtype=float))
    ref = np.asarray(ref, dtype=float)
    P = P[np.all(P < ref, axis=1)] if P.size else P.reshape(0, len(ref))
    tot = 0.0
    for r in range(1, len(P) + 1):
        for c in itertools.combinations(range(len(P)), r):
            tot += (-1) ** (r + 1) * np.prod(ref - P[list(c)].max(axis=0))
    return float(tot)


def hv_slices(P, ref):
    """the same measure for larger sets: slabs along the last objective, staircases in the plane"""
    P, ref = np.asarray(P, dtype=float), np.asarray(ref, dtype=float)
    P = P[np.all(P < ref, axis=1)]
    if len(P) == 0:
        return 0.0
    if P.shape[1] == 1:
        return float(ref[0] - P.min())
    o = np.argsort(P[:, -1], kind="stable")
    P, z = P[o], np.append(P[o, -1], ref[-1])
    if P.shape[1] == 2:
        return float(np.sum(np.diff(z) * (ref[0] - np.minimum.accumulate(P[:, 0]))))
    return sum(w * hv_slices(P[: i + 1, :-1], ref[:-1]) for i, w in enumerate(np.diff(z)) if w > 0)


def coordinate_gap(P, ref):
    """smallest distance between two distinct coordinate values on any axis"""
    P, ref = np.atleast_2d(P), np.asarray(ref)
    g = np.inf
    for k in range(P.shape[1]):
        v = np.sort(np.append(P[:, k], ref[k]))
        g = min(g, np.min(np.diff(v))) if len(v) > 1 else g
    return g


def hv_grad_fd(P, ref, h):
    """HV is linear along each coordinate between ties: the difference quotient is exact"""
    P = np.array(P, dtype=float)
    G = np.zeros_like(P)
    for i, k in np.ndindex(*P.shape):
        Pp, Pm = P.copy(), P.copy()
        Pp[i, k] += h
        Pm[i, k] -= h
        G[i, k] = (hv_grid(Pp, ref) - hv_grid(Pm, ref)) / (2 * h)
    return G


def hv_onesided(P, ref, i, k, h):
    P = np.array(P, dtype=float)
    Pp, Pm = P.copy(), P.copy()
    Pp[i, k] += h
    Pm[i, k] -= h
    v = hv_grid(P, ref)
    return (hv_grid(Pp, ref) - v) / h, (v - hv_grid(Pm, ref)) / h


def hv_hess_fd(P, ref, h):
    """second mixed difference (exact in general position: HV is multi-linear between ties)"""
    P = np.array(P, dtype=float)
    n = P.size
    H = np.zeros((n, n))
    flat = P.ravel()
    for a in range(n):
        for b in range(a, n):
            s = 0.0
            for sa, sb in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                q = flat.copy()
                q[a] += sa * h
                q[b] += sb * h
                s += sa * sb * hv_grid(q.reshape(P.shape), ref)
            H[a, b] = H[b, a] = s / (4 * h * h)
    return H


def hv_mixed(P, ref, a, b, h, hv=hv_slices):
    """one second mixed difference"""
    flat, s = np.array(P, dtype=float).ravel(), 0.0
    for sa, sb in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
        q = flat.copy()
        q[a] += sa * h
        q[b] += sb * h
        s += sa * sb * hv(q.reshape(np.shape(P)), ref)
    return s / (4 * h * h)


# ------------------------------------------------------------------ dominance
def dominates(a, b):
    return bool(np.all(a <= b) and np.any(a < b))


def fronts_by_peeling(Y):
    """definition: front 0 = points no other point dominates; remove; repeat"""
    Y = np.asarray(Y, dtype=float)
    left = list(range(len(Y)))
    out = []
    while left:
        f = [i for i in left if not any(dominates(Y[j], Y[i]) for j in left if j != i)]
        out.append(sorted(f))
        left = [i for i in left if i not in f]
    return out


def ranks_of_many(Y):
    """the ranking of a larger set: the length of the longest chain of points dominating one another above a point"""
    Y = np.asarray(Y, dtype=float)
    le = np.all(Y[:, None] <= Y[None], axis=2)
    dom = le & ~le.T
    r = np.full(len(Y), -1)
    k = 0
    while np.any(r < 0):
        left = r < 0
        r[left & ~np.any(dom[left], axis=0)] = k
        k += 1
    return r
