"""P02: hypervolume gradient.  P03: hypervolume Hessian."""
import numpy as np

from . import gen
from .core import Skip, monitor
from .oracles import coordinate_gap, fronts_by_peeling, hv_grad_fd, hv_hess_fd, hv_onesided, hv_slices


def general_points(rng, n, m):
    """general position, all points dominate ref; a mix of dominated and non-dominated points"""
    style = rng.choice(["general", "front", "sphere", "cloud"])
    if style == "cloud":
        P = rng.random((n, m))
    else:
        P = gen.point_set(rng, n, m, style)
    P = P * 10.0 ** rng.integers(-2, 3) + rng.choice([0.0, -3.0, 7.0])
    ref = P.max(axis=0) + np.ptp(P, axis=0) * rng.uniform(0.05, 0.6, size=m) + 0.05 * np.abs(P).max()
    return P, ref


def smooth_map(rng, n_var, m):
    F, J, H = gen.quadratic_problem(rng, n_var, m, convex=bool(rng.integers(2)), cubic=True)
    return F, J, H


@monitor("P02", quick=2500, thorough=40000)
def objective_space_gradient(c):
    """identity map; points in general position (1-6 objectives), some dominated; reported gradient vs. the difference
    quotient of the measure (exact: HV is linear along each axis between ties); dominated points exactly zero"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    m = int(rng.integers(1, 7))
    n = int(rng.integers(1, {1: 8, 2: 12, 3: 8, 4: 6}.get(m, 4) + 1))
    P, ref = general_points(rng, n, m)
    gap = coordinate_gap(P, ref)
    if gap < 1e-4 * np.ptp(np.vstack([P, ref]), axis=0).max():
        raise Skip("near tie")
    k = gen.magnitude(rng)
    P, ref, gap, at = gen.layout(rng, P * k), ref * k, gap * k, 1e-10 * min(1.0, k ** (m - 1))
    c.describe(points=P, ref=ref)
    ind = HypervolumeDerivatives(m, m, ref)
    before = P.copy()
    G = ind.compute_derivatives(P, compute_hessian=False)
    want = hv_grad_fd(P, ref, gap / 4)
    fr = fronts_by_peeling(P)[0]
    dom = [i for i in range(n) if i not in fr]
    c.saw(P, ref)
    c.count(f"m={m}")
    c.count("dominated points", len(dom))
    c.close(G, want, "grad-objective", "dHV/dY", rtol=1e-6, atol=at)
    if m > 1:
        c.require(np.all(G[dom] == 0), "grad-dominated", f"dominated points {dom} have gradient {G[dom]}")
        # improving any coordinate of a contributing point can never decrease HV; strictly increases in general position
        c.require(np.all(G[fr] < 0), "grad-sign", f"non-dominated points without descent in some objective: {G[fr]}")
    c.require(np.array_equal(P, before), "input-mutated", "the point set was modified")
    # supplied objective values / values computed by the object agree; repeated calls agree; single order independence
    G2 = ind.compute_derivatives(P, Y=P.copy(), compute_hessian=False)
    c.close(G2, want, "grad-Y-supplied", "dHV/dY with Y supplied", rtol=1e-6, atol=at)
    perm = rng.permutation(n)
    G3 = ind.compute_derivatives(P[perm], compute_hessian=False)
    c.close(G3, want[perm], "grad-permuted", "gradient of a permuted set", rtol=1e-6, atol=at)
    c.sample(points=P, ref=ref, gradient=G)


@monitor("P02", quick=1200, thorough=20000)
def gradient_at_ties(c):
    """sets with ties, duplicates, weakly dominated points: every reported component must lie between the two one-sided
    derivatives of the measure (outside that interval it is not a derivative of anything)"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    m = int(rng.integers(2, 6))
    n = int(rng.integers(1, {2: 9, 3: 7, 4: 5}.get(m, 4) + 1))
    P = rng.integers(0, int(rng.integers(2, 6)), size=(n, m)).astype(float)
    ref = np.full(m, 5.5) + rng.random(m)
    c.describe(points=P, ref=ref)
    G = HypervolumeDerivatives(m, m, ref).compute_derivatives(P, compute_hessian=False)
    ties = 0
    for i, k in np.ndindex(n, m):
        a, b = hv_onesided(P, ref, i, k, 0.25)
        ties += a != b
        tol = 1e-7 * (1 + abs(a) + abs(b))
        c.require(
            min(a, b) - tol <= G[i, k] <= max(a, b) + tol,
            "grad-one-sided",
            f"component ({i},{k}) is {G[i, k]!r}, one-sided derivatives are {b!r} and {a!r}",
        )
    c.saw(P, ref, n=n * m, nontrivial=ties > 0)
    c.count("non-differentiable components", int(ties))


@monitor("P02", quick=1500, thorough=30000)
def decision_space_gradient(c):
    """random smooth maps R^d -> R^m (indefinite quadratic + cubic), min and max sense, Y/Jacobian supplied or computed:
    dHV/dX vs. central difference quotient of the measure of F(X), and the chain rule"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    m, d = int(rng.integers(2, 5)), int(rng.integers(1, 6))
    n = int(rng.integers(1, {2: 8, 3: 6}.get(m, 4) + 1))
    F, J, H = smooth_map(rng, d, m)
    X = rng.uniform(-1, 1, size=(n, d))
    Y = np.array([F(x) for x in X])
    ref = Y.max(axis=0) + 0.3 + rng.random(m)
    if coordinate_gap(Y, ref) < 2e-3:
        raise Skip("near tie")
    maximize = bool(rng.integers(3) == 0)
    c.describe(X=X, Y=Y, ref=ref, maximize=maximize)
    YdX = np.array([J(x) for x in X])
    dY = hv_grad_fd(Y, ref, coordinate_gap(Y, ref) / 4)
    want = np.einsum("ij,ijk->ik", dY, YdX)
    if maximize:
        ind = HypervolumeDerivatives(
            d, m, -ref, lambda x: -F(x), lambda x: -J(x), lambda x: -H(x), minimization=False
        )
        Yin, Jin = -Y, -YdX
    else:
        ind = HypervolumeDerivatives(d, m, ref, F, J, H)
        Yin, Jin = Y, YdX
    c.saw(X, ref, maximize)
    c.count("maximize" if maximize else "minimize")
    c.close(ind.compute_derivatives(X, compute_hessian=False), want, "grad-decision", "dHV/dX", rtol=1e-6)
    c.close(ind.compute_derivatives(X)[0], want, "grad-with-hessian", "dHV/dX returned along with the Hessian", rtol=1e-6)
    Yc, Jc = Yin.copy(), Jin.copy()
    c.close(ind.compute_derivatives(X, Yin, True, Jin)[0], want, "grad-with-hessian-supplied", "dHV/dX along with the Hessian, Y and Jacobian supplied", rtol=1e-6)
    g = ind.compute_derivatives(X, Yin, False, Jin)
    c.close(g, want, "grad-decision-supplied", "dHV/dX with Y and Jacobian supplied", rtol=1e-6)
    c.require(np.array_equal(Yc, Yin) and np.array_equal(Jc, Jin), "input-mutated", "Y or the Jacobian was modified")
    # against the measure itself
    fd = np.zeros_like(X)
    h = 1e-6
    for i, k in np.ndindex(n, d):
        Yp, Ym = Y.copy(), Y.copy()
        e = np.zeros(d)
        e[k] = h
        Yp[i], Ym[i] = F(X[i] + e), F(X[i] - e)
        from .oracles import hv_grid

        fd[i, k] = (hv_grid(Yp, ref) - hv_grid(Ym, ref)) / (2 * h)
    c.close(g, fd, "grad-decision-fd", "dHV/dX vs difference quotient of the measure", rtol=1e-4, atol=1e-5)


@monitor("P02", quick=400, thorough=4000)
def histories_on_one_object(c):
    """one indicator object used for a history of different sets / changed reference points: no state may leak from one
    evaluation into the next (every answer equals that of a fresh object and of the measure)"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    m = int(rng.integers(2, 5))
    ind = None
    for step in range(6):
        n = int(rng.integers(1, 6))
        P, ref = general_points(rng, n, m)
        gap = coordinate_gap(P, ref)
        if gap < 1e-4 * np.ptp(np.vstack([P, ref]), axis=0).max():
            continue
        c.describe(points=P, ref=ref, step=step)
        if ind is None:
            ind = HypervolumeDerivatives(m, m, ref)
        else:
            ind.ref = ref
        want = hv_grad_fd(P, ref, gap / 4)
        full = bool(rng.integers(2))
        out = ind.compute_derivatives(P, compute_hessian=full)
        c.saw(P, ref, step)
        c.close(out[0] if full else out, want, "grad-history", "gradient in a history", rtol=1e-6)
        if full:
            fresh = HypervolumeDerivatives(m, m, ref).compute_derivatives(P)
            c.close(out[1], fresh[1], "hess-history", "Hessian in a history", rtol=1e-9)


@monitor("P02", quick=3, thorough=3, min_obs=3)
def outside_reference(c):
    """known finding: a mutually non-dominated point that does not dominate the reference point contributes nothing to
    HV, so its gradient is zero and it must not influence the other points' gradients"""
    from hvd import HypervolumeDerivatives

    P, ref = [
        (np.array([[1.0, 5.0], [2.0, 1.0]]), np.array([3.0, 3.0])),
        (np.array([[1.0, 1.0, 9.0], [2.0, 2.0, 1.0]]), np.array([4.0, 4.0, 4.0])),
        (np.array([[5.0, 5.0]]), np.array([3.0, 3.0])),
    ][c.i]
    c.describe(points=P, ref=ref)
    G = HypervolumeDerivatives(P.shape[1], P.shape[1], ref).compute_derivatives(P, compute_hessian=False)
    c.saw(P)
    c.close(G, hv_grad_fd(P, ref, 0.1), f"outside-reference-{c.i}", "gradient with a point outside the reference box", rtol=1e-6)


@monitor("P02", quick=300, thorough=3000)
def rewritten_arrays(c):
    """decision points, objective points and Jacobians in arrays that are rewritten in place between calls: gradients
    are those of a fresh object"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    n, d, m = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(2, 5))
    F, J, H = smooth_map(rng, d, m)
    draw = lambda: rng.uniform(-1, 1, size=(n, d))
    ref = np.max([F(x) for x in rng.uniform(-1, 1, size=(200, d))], axis=0) + 50.0
    new = lambda: HypervolumeDerivatives(d, m, ref.copy(), func=F, jac=J, hessian=H)
    a = new()
    gen.rewritten(c, lambda Z: a.compute_derivatives(Z, compute_hessian=False), lambda Z: new().compute_derivatives(Z, compute_hessian=False), draw, "rewritten", "gradient", rtol=1e-10)
    X = draw()
    Y, YdX = np.array([F(x) for x in X]), np.array([J(x) for x in X])

    def given(i):
        def f(Z):
            Y[...] = [F(x) for x in Z]
            YdX[...] = [J(x) for x in Z]
            return i.compute_derivatives(Z, Y=Y, YdX=YdX, compute_hessian=False)

        return f

    gen.rewritten(c, given(a), lambda Z: new().compute_derivatives(Z, compute_hessian=False), draw, "rewritten-supplied", "gradient with supplied Y and YdX", rtol=1e-10)


@monitor("P02", quick=200, thorough=2000)
def large_sets(c):
    """populations of the sizes optimisers work with (up to 100 members for two objectives), in objective space and
    through a nonlinear map: a random sample of the members against difference quotients of the measure"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    m = int(rng.choice([2, 2, 3, 4]))
    n = int(rng.integers(10, {2: 101, 3: 41, 4: 13}[m]))
    d = int(rng.integers(1, 12))
    F, J, H = smooth_map(rng, d, m)
    X = rng.uniform(-1, 1, size=(n, d))
    Y = np.array([F(x) for x in X])
    if rng.integers(2):  # without a map: mutually non-dominated points
        Y = X = gen.point_set(rng, n, m, "sphere")
        F = J = H = None
    d = X.shape[1]
    ref = Y.max(axis=0) + np.ptp(Y, axis=0) * rng.uniform(0.05, 0.5, size=m)
    c.describe(X=X, Y=Y, ref=ref)
    ind = HypervolumeDerivatives(d, m, ref, func=F, jac=J, hessian=H) if F else HypervolumeDerivatives(m, m, ref)
    full = bool(rng.integers(2))
    out = ind.compute_derivatives(X, compute_hessian=full)
    G = np.asarray(out[0] if full else out).reshape(n, d)
    scale = np.prod(np.ptp(np.vstack([Y, ref]), axis=0))
    for i in rng.choice(n, size=8, replace=False):
        g = np.zeros(m)
        for k in range(m):
            v = np.sort(np.append(np.delete(Y[:, k], i), ref[k]))
            h = 0.4 * np.min(np.abs(v - Y[i, k]))  # linear up to the nearest coordinate of another point
            E = np.zeros_like(Y)
            E[i, k] = h
            g[k] = (hv_slices(Y + E, ref) - hv_slices(Y - E, ref)) / (2 * h) if h > 1e-5 * np.ptp(Y[:, k]) else np.nan
        if np.isnan(g).any():
            continue
        c.saw(X, i)
        want = J(X[i]).T @ g if F else g
        c.close(G[i], want, "grad-large", f"gradient of member {i} of {n}", rtol=1e-6, atol=1e-8 * scale * (1 + np.abs(want).max()))
