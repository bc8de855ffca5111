"""P05: GD, IGD, Delta_p values and derivatives."""
import itertools

import numpy as np
from scipy.optimize import linear_sum_assignment

from . import gen
from .core import Skip, monitor


def dists(A, B):
    return np.sqrt(((A[:, None, :] - B[None, :, :]) ** 2).sum(-1))


def gd_p(Y, R, p):
    return np.mean(dists(Y, R).min(axis=1) ** p)


def optimal_cost(Y, R, power=1):
    C = dists(Y, R) ** power
    r, k = linear_sum_assignment(C)
    return C[r, k].sum()


def voronoi_margin(Y, R):
    """how far every member is from switching its nearest neighbour"""
    s = np.sort(dists(Y, R), axis=1)
    return np.inf if s.shape[1] < 2 else (s[:, 1] - s[:, 0]).min()


def setup(rng, nmax=8):
    d, m = int(rng.integers(1, 6)), int(rng.integers(2, 5))
    F, J, H = gen.quadratic_problem(rng, d, m, convex=bool(rng.integers(2)), cubic=True)
    N, M = int(rng.integers(1, nmax)), int(rng.integers(2, 14))
    X = rng.uniform(-1, 1, size=(N, d))
    Y = np.array([F(x) for x in X])
    R = Y[rng.integers(N, size=M)] + rng.normal(size=(M, m)) * rng.choice([0.05, 0.5, 2.0])
    if rng.random() < 0.15:  # the same reference point several times
        R[rng.integers(M, size=2)] = R[0]
    return d, m, F, J, H, gen.layout(rng, X), gen.layout(rng, Y), gen.layout(rng, R)


@monitor("P05", quick=7500, thorough=75000)
def values(c):
    """GD/IGD values (p in {1,1.5,2,3,5}; from X or from Y; plain arrays, one- and multi-component reference sets) vs. the
    definitions; zero iff covered; permutation-invariant; independent of earlier evaluations on the same object"""
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    d, m, F, J, H, X, Y, R = setup(rng)
    p = float(rng.choice([1, 1.5, 2, 3, 5, 10]))
    c.describe(X=X, Y=Y, R=R, p=p)
    multi = len(R) > 5 and rng.integers(2)
    ref = (lambda: ReferenceSet({0: R[:3].copy(), 1: R[3:].copy()})) if multi else (lambda: R.copy())
    kw = {} if p == 2 and rng.integers(2) else dict(p=p)  # 2 is the documented default
    gd = GenerationalDistance(ref(), F, J, H, **kw)
    igd = InvertedGenerationalDistance(ref(), F, J, H, **kw)
    want_gd, want_igd = gd_p(Y, R, p) ** (1 / p), gd_p(R, Y, p) ** (1 / p)
    c.saw(Y, R, p, n=4)
    c.close(gd.compute(Y=Y), want_gd, "gd-value", "GD(Y)", rtol=1e-10)
    c.close(gd.compute(X=X), want_gd, "gd-value-X", "GD(X)", rtol=1e-10)
    c.close(igd.compute(Y=Y), want_igd, "igd-value", "IGD(Y)", rtol=1e-10)
    c.close(igd.compute(X=X), want_igd, "igd-value-X", "IGD(X)", rtol=1e-10)
    Y2 = rng.normal(size=(int(rng.integers(1, 6)), m))
    gd.compute(Y=Y2), igd.compute(Y=Y2)
    q = rng.permutation(len(Y))
    c.close(gd.compute(Y=Y[q]), want_gd, "gd-permuted", "GD of a permuted set after another evaluation", rtol=1e-10)
    c.close(igd.compute(Y=Y[q]), want_igd, "igd-permuted", "IGD of a permuted set after another evaluation", rtol=1e-10)
    c.close(igd.compute(Y=np.vstack([R, Y])), 0.0, "igd-zero", "IGD of a superset of the reference", atol=1e-7)
    sub = R[rng.integers(len(R), size=3)]
    c.close(gd.compute(Y=sub), 0.0, "gd-zero", "GD of reference points", atol=1e-7)
    if len(R) >= len(Y) and not multi:
        # matched IGD: mean squared distance to a one-to-one matched selection of the reference points
        mi = InvertedGenerationalDistance(R.copy(), F, J, H, matching=True)
        v = mi.compute(Y=Y)
        T = mi.ref.reference_set
        c.close(v, np.mean(((Y - T) ** 2).sum(1)), "igd-matched-value", "matched IGD", rtol=1e-10)
    c.sample(Y=Y, R=R, p=p, gd=want_gd, igd=want_igd)


@monitor("P05", quick=1800, thorough=18000)
def homogeneous(c):
    """objectives and reference points multiplied by a (large or small) power of two: values are multiplied by it, the
    derivatives of the p-th power by its p-th power, in every digit"""
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance

    rng = c.rng
    d, m, F, J, H, X, Y, R = setup(rng, 6)
    k = 2.0 ** int(rng.integers(-50, 51))
    p = float(rng.choice([1, 2, 2, 3]))
    if rng.integers(2) and len(R) > len(X):
        R = R[: len(X)]
    c.describe(X=X, R=R, k=k, p=p)
    kF, kJ, kH = lambda x: k * F(x), lambda x: k * J(x), lambda x: k * H(x)
    for name, cls, kw in (("gd", GenerationalDistance, dict(p=p)), ("igd", InvertedGenerationalDistance, {}), ("matched", InvertedGenerationalDistance, dict(matching=True))):
        q = p if name == "gd" else 2.0
        if name == "matched" and len(R) != len(X) or name == "gd" and dists(Y, R).min() == 0:
            continue
        a, b = cls(R.copy(), F, J, H, **kw), cls(k * R, kF, kJ, kH, **kw)
        v, w = a.compute(Y=Y), b.compute(Y=k * Y)
        c.saw(Y, R, k, name, n=3)
        c.close(w, v * (k * k if name == "matched" else k), f"{name}-scaled", f"{name} of everything times {k}", rtol=1e-9, atol=0)
        g, Hs = a.compute_derivatives(X)
        g2, H2 = b.compute_derivatives(X)
        c.close(g2 / k**q, g, f"{name}-scaled-gradient", f"{name} gradient of everything times {k}", rtol=1e-9, atol=0)
        c.close(H2 / k**q, Hs, f"{name}-scaled-hessian", f"{name} Hessian of everything times {k}", rtol=1e-8, atol=0)


def _fd(val, X, h=1e-6):
    g = np.zeros(X.shape)
    for i, k in np.ndindex(*X.shape):
        E = np.zeros_like(X)
        E[i, k] = h
        g[i, k] = (val(X + E) - val(X - E)) / (2 * h)
    return g


def _check_derivatives(c, ind, X, Y, J, want_val, name, h=1e-6):
    """gradient = d(want_val)/dX ; per-point Hessian blocks = d(gradient_i)/dx_i"""
    N, d = X.shape
    YdX = np.array([J(x) for x in X])
    g, Hs = ind.compute_derivatives(X)
    c.saw(X, name, n=2)
    fd = _fd(want_val, X)
    c.close(g, fd, f"{name}-gradient", f"{name} gradient vs difference quotient of the definition", rtol=2e-5, atol=1e-6)
    c.require(np.shape(Hs) == (N, d, d), f"{name}-hessian-shape", f"Hessian has shape {np.shape(Hs)}")
    c.close(Hs, np.transpose(Hs, (0, 2, 1)), f"{name}-hessian-symmetry", "block symmetry", rtol=1e-10)
    fh = np.zeros_like(Hs)
    for k in range(d):
        E = np.zeros_like(X)
        E[:, k] = h
        fh[:, :, k] = (
            ind.compute_derivatives(X + E, compute_hessian=False) - ind.compute_derivatives(X - E, compute_hessian=False)
        ) / (2 * h)
    c.close(Hs, fh, f"{name}-hessian", f"{name} Hessian vs differences of the gradient", rtol=2e-5, atol=1e-5)
    Yc, Jc = Y.copy(), YdX.copy()
    g2, H2 = ind.compute_derivatives(X, Y=Y, Jacobian=YdX)
    g3 = ind.compute_derivatives(X, Y=Y, compute_hessian=False, Jacobian=YdX)
    c.close(g2, g, f"{name}-supplied", "gradient with Y and Jacobian supplied", rtol=1e-9)
    c.close(H2, Hs, f"{name}-supplied", "Hessian with Y and Jacobian supplied", rtol=1e-9)
    c.close(g3, g, f"{name}-supplied", "gradient-only path", rtol=1e-9)
    c.require(np.array_equal(Yc, Y) and np.array_equal(Jc, YdX), f"{name}-mutated", "inputs were modified")


@monitor("P05", quick=3000, thorough=30000)
def gd_derivatives(c):
    """GD^p derivatives (p from 1 to 8) away from Voronoi ties, vs. difference quotients of the definition"""
    from hvd.delta_p import GenerationalDistance

    rng = c.rng
    d, m, F, J, H, X, Y, R = setup(rng, 6)
    p = float(rng.choice([1, 1.5, 2, 2, 2.5, 3, 4, 5, 6, 8]))
    if voronoi_margin(Y, R) < 1e-3 or dists(Y, R).min() < 0.05:
        raise Skip("near a Voronoi tie")
    c.describe(X=X, R=R, p=p)
    c.count(f"p={p:g}")
    ind = GenerationalDistance(R.copy(), F, J, H, p=p)
    _check_derivatives(c, ind, X, Y, J, lambda Z: gd_p(np.array([F(z) for z in Z]), R, p), "gd")


@monitor("P05", quick=3000, thorough=30000)
def igd_derivatives(c):
    """IGD^2 derivatives away from Voronoi ties; members no reference point is assigned to have zero derivatives"""
    from hvd.delta_p import InvertedGenerationalDistance

    rng = c.rng
    d, m, F, J, H, X, Y, R = setup(rng, 6)
    if voronoi_margin(R, Y) < 1e-3:
        raise Skip("near a Voronoi tie")
    c.describe(X=X, R=R)
    ind = InvertedGenerationalDistance(R.copy(), F, J, H)
    _check_derivatives(c, ind, X, Y, J, lambda Z: gd_p(R, np.array([F(z) for z in Z]), 2), "igd")
    unused = [i for i in range(len(X)) if i not in dists(R, Y).argmin(axis=1)]
    g, Hs = ind.compute_derivatives(X)
    c.count("members without reference points", len(unused))
    c.require(np.all(g[unused] == 0) and np.all(Hs[unused] == 0), "igd-unassigned", f"members {unused} have derivatives")


@monitor("P05", quick=2400, thorough=24000)
def matched_derivatives(c):
    """one-to-one matched IGD: derivatives of the sum of squared distances to the matched targets, targets held fixed"""
    from hvd.delta_p import InvertedGenerationalDistance

    rng = c.rng
    d, m, F, J, H, X, Y, R = setup(rng, 6)
    N = len(X)
    R = np.vstack([R, Y + rng.normal(size=Y.shape)])[-max(N, int(rng.integers(N, N + 4))) :]
    ind = InvertedGenerationalDistance(R.copy(), F, J, H, matching=True)
    ind.compute(Y=Y)
    T = np.array(ind.ref.reference_set)
    # away from matching ties: the optimal assignment of T to Y must be unique with a margin
    C = dists(Y, T)
    if N > 1:
        best = np.trace(C)
        others = [
            sum(C[i, s[i]] for i in range(N)) for s in itertools.permutations(range(N)) if s != tuple(range(N))
        ]
        if min(others) - best < 1e-3:
            raise Skip("near a matching tie")
    c.describe(X=X, R=R, T=T)
    _check_derivatives(c, ind, X, Y, J, lambda Z: ((np.array([F(z) for z in Z]) - T) ** 2).sum(), "matched")


@monitor("P05", quick=900, thorough=9000)
def indicators_share_one_reference_object(c):
    """Delta_p use: GD and matched IGD on one ReferenceSet object, interleaved in random order with shifts of the targets;
    every value agrees with the definition on the reference set as it is at that moment"""
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    d, m, F, J, H, X, Y, R = setup(rng, 6)
    N = len(X)
    R = np.vstack([R, Y + rng.normal(size=Y.shape)])
    eta = {0: -rng.random(m)}
    ref = ReferenceSet(R.copy(), eta=eta)
    gd, igd = GenerationalDistance(ref, F, J, H), InvertedGenerationalDistance(ref, F, J, H, matching=True)
    trace = []
    for _ in range(8):
        op = str(rng.choice(["gd", "igd", "shift", "move", "dgd", "digd"]))
        trace.append(op)
        c.describe(trace=trace, X=X, R=R)
        if op == "move":
            X = X + 0.05 * rng.normal(size=X.shape)
            Y = np.array([F(x) for x in X])
        elif op == "shift":
            ref.shift(0.1, None if rng.integers(2) else np.arange(min(N, 2)))
        elif op == "gd":
            v = gd.compute(Y=Y)
            c.saw(Y, op, len(trace))
            c.close(v, np.sqrt(gd_p(Y, np.array(ref.reference_set), 2)), "shared-gd", "GD", rtol=1e-9)
        elif op == "igd":
            v = igd.compute(X=X)
            T = np.array(ref.reference_set)
            c.saw(Y, op, len(trace))
            c.require(T.shape == Y.shape, "shared-shape", f"{T.shape} targets for {Y.shape}")
            c.close(v, np.mean(((Y - T) ** 2).sum(1)), "shared-igd", "matched IGD", rtol=1e-9)
            c.require(
                dists(Y, T).trace() <= optimal_cost(Y, T) * (1 + 1e-9) + 1e-12, "shared-optimal", "assignment not optimal"
            )
        elif op == "dgd":
            g = gd.compute_derivatives(X, Y, compute_hessian=False)
            T = np.array(ref.reference_set)
            near = T[dists(Y, T).argmin(1)]
            want = 2 / N * np.einsum("ijk,ij->ik", np.array([J(x) for x in X]), Y - near)
            c.saw(Y, op, len(trace))
            c.close(g, want, "shared-dgd", "GD gradient", rtol=1e-8)
        else:
            g = igd.compute_derivatives(X, Y, compute_hessian=False)
            T = np.array(ref.reference_set)
            want = 2 * np.einsum("ijk,ij->ik", np.array([J(x) for x in X]), Y - T)
            c.saw(Y, op, len(trace))
            c.close(g, want, "shared-digd", "matched IGD gradient", rtol=1e-8)


@monitor("P05", quick=900, thorough=9000)
def rewritten_arrays(c):
    """points in one array that is rewritten in place between calls: values and derivatives are those of a fresh indicator"""
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance

    rng = c.rng
    d, m, F, J, H, X, Y, R = setup(rng, 6)
    N = len(X)
    if len(R) < N:
        R = np.vstack([R, Y + rng.normal(size=Y.shape)])[:N]
    c.describe(R=R)
    kinds = [("gd", GenerationalDistance, dict(p=float(rng.choice([1, 2, 3]))), R), ("igd", InvertedGenerationalDistance, {}, R), ("matched", InvertedGenerationalDistance, dict(matching=True), R[:N])]
    for name, cls, kw, ref in kinds:
        new = lambda: cls(ref.copy(), F, J, H, **kw)
        a = new()
        drawX = lambda: rng.uniform(-1, 1, size=(N, d))
        drawY = lambda: np.array([F(x) for x in drawX()])
        gen.rewritten(c, lambda Z: a.compute(Y=Z), lambda Z: new().compute(Y=Z), drawY, f"rewritten-{name}", f"{name}(Y)")
        gen.rewritten(c, lambda Z: a.compute(X=Z), lambda Z: new().compute(X=Z), drawX, f"rewritten-{name}", f"{name}(X)")
        gen.rewritten(c, lambda Z: a.compute_derivatives(Z), lambda Z: new().compute_derivatives(Z), drawX, f"rewritten-{name}-derivatives", f"{name} derivatives", rtol=1e-10)


@monitor("P05", quick=300, thorough=3000)
def large_sets(c):
    """populations of up to 120 members and reference sets of up to 1500 points: values, and derivatives against the
    closed forms"""
    from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    d, m = int(rng.integers(1, 12)), int(rng.integers(2, 5))
    F, J, H = gen.quadratic_problem(rng, d, m, convex=bool(rng.integers(2)), cubic=True)
    N, M = int(rng.integers(9, 121)), int(rng.integers(14, 1501))
    X = rng.uniform(-1, 1, size=(N, d))
    Y, YdX, YdX2 = (np.array([f(x) for x in X]) for f in (F, J, H))
    R = Y[rng.integers(N, size=M)] + rng.normal(size=(M, m)) * rng.choice([0.05, 0.5, 2.0])
    p = float(rng.choice([1, 2, 2, 3]))
    c.describe(X=X, R=R, p=p)
    parts = np.sort(rng.integers(0, M + 1, size=int(rng.integers(0, 4))))
    ref = (lambda: ReferenceSet({k: v for k, v in enumerate(q for q in np.split(R.copy(), parts) if len(q))})) if rng.integers(2) else (lambda: R.copy())
    gd, igd = GenerationalDistance(ref(), F, J, H, p=p), InvertedGenerationalDistance(ref(), F, J, H)
    D = dists(Y, R)
    c.saw(X, R, n=6)
    c.close(gd.compute(Y=Y), np.mean(D.min(1) ** p) ** (1 / p), "gd-large", f"GD of {N} members, {M} reference points", rtol=1e-10)
    c.close(igd.compute(X=X), np.sqrt(np.mean(D.min(0) ** 2)), "igd-large", f"IGD of {N} members, {M} reference points", rtol=1e-10)

    def chained(gy, Hy):
        return np.einsum("ia,iad->id", gy, YdX), np.einsum("iad,iab,ibe->ide", YdX, Hy, YdX) + np.einsum("ia,iade->ide", gy, YdX2)

    if voronoi_margin(Y, R) > 1e-9 and D.min() > 1e-3:
        diff, dist = Y - R[D.argmin(1)], D.min(1)
        gy = p / N * dist[:, None] ** (p - 2) * diff
        Hy = p / N * (dist[:, None, None] ** (p - 2) * np.eye(m) + (p - 2) * dist[:, None, None] ** (p - 4) * diff[:, :, None] * diff[:, None])
        g, h = gd.compute_derivatives(X)
        wg, wh = chained(gy, Hy)
        c.saw(X, "gd", n=2)
        c.close(g, wg, "gd-large-gradient", f"GD gradient of {N} members", rtol=1e-9)
        c.close(h, wh, "gd-large-hessian", f"GD Hessian of {N} members", rtol=1e-8)
    near = D.argmin(0)
    if voronoi_margin(R, Y) > 1e-9:
        gy, cnt = np.zeros((N, m)), np.bincount(near, minlength=N)
        np.add.at(gy, near, 2 / M * (Y[near] - R))
        g, h = igd.compute_derivatives(X)
        wg, wh = chained(gy, 2 / M * cnt[:, None, None] * np.eye(m))
        c.saw(X, "igd", n=2)
        c.close(g, wg, "igd-large-gradient", f"IGD gradient of {N} members", rtol=1e-9)
        c.close(h, wh, "igd-large-hessian", f"IGD Hessian of {N} members", rtol=1e-8)
    if M >= N:
        mi = InvertedGenerationalDistance(R[:N].copy(), F, J, H, matching=True)
        v = mi.compute(Y=Y)
        T = R[:N][linear_sum_assignment(dists(Y, R[:N]))[1]]
        g, h = mi.compute_derivatives(X)
        wg, wh = chained(2 * (Y - T), np.tile(2 * np.eye(m), (N, 1, 1)))
        c.saw(X, "matched", n=3)
        c.close(v, np.mean(((Y - T) ** 2).sum(1)), "matched-large", f"matched IGD of {N} members", rtol=1e-10)
        c.close(g, wg, "matched-large-gradient", f"matched IGD gradient of {N} members", rtol=1e-9)
        c.close(h, wh, "matched-large-hessian", f"matched IGD Hessian of {N} members", rtol=1e-8)
