"""P03: the hypervolume Hessian."""
import numpy as np

from . import gen
from .core import Skip, monitor
from .oracles import coordinate_gap, fronts_by_peeling, hv_grad_fd, hv_hess_fd, hv_mixed
from .p02 import general_points, smooth_map


@monitor("P03", quick=700, thorough=12000)
def objective_space_hessian(c):
    """identity map, general position, 2-5 objectives: Hessian vs. second mixed difference of the measure (exact in
    general position); symmetric; zero for dominated points; zero for pairs that share no facet"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    m = int(rng.integers(2, 6))
    n = int(rng.integers(1, {2: 8, 3: 5, 4: 4}.get(m, 3) + 1))
    P, ref = general_points(rng, n, m)
    gap = coordinate_gap(P, ref)
    if gap < 2e-3 * np.ptp(np.vstack([P, ref]), axis=0).max():
        raise Skip("near tie")
    k = gen.magnitude(rng)
    P, ref, gap, at = gen.layout(rng, P * k), ref * k, gap * k, 1e-10 * min(1.0, k ** (m - 2))
    c.describe(points=P, ref=ref)
    g, H = HypervolumeDerivatives(m, m, ref).compute_derivatives(P)
    want = hv_hess_fd(P, ref, gap / 4)
    c.saw(P, ref)
    c.count(f"m={m}")
    c.close(H, want, "hess-objective", "d2HV/dY2", rtol=1e-5, atol=at)
    c.close(H, H.T, "hess-symmetric", "symmetry", rtol=1e-12, atol=at)
    c.close(g, hv_grad_fd(P, ref, gap / 4), "hess-grad", "gradient returned with the Hessian", rtol=1e-6, atol=at * k)
    fr = fronts_by_peeling(P)[0]
    dead = [i * m + k for i in range(n) if i not in fr for k in range(m)]
    c.require(
        np.all(H[dead] == 0) and np.all(H[:, dead] == 0), "hess-dominated", "a dominated point has second derivatives"
    )
    c.require(
        np.allclose(np.diag(H), 0, atol=1e-12 * (at / 1e-10 + np.abs(H).max())), "hess-diagonal", "HV is linear in each coordinate"
    )
    perm = rng.permutation(n)
    _, Hp = HypervolumeDerivatives(m, m, ref).compute_derivatives(P[perm])
    idx = (perm[:, None] * m + np.arange(m)).ravel()
    c.close(Hp, want[np.ix_(idx, idx)], "hess-permuted", "Hessian of a permuted set", rtol=1e-5, atol=at)
    c.sample(points=P, ref=ref, hessian=H)


@monitor("P03", quick=900, thorough=15000)
def decision_space_hessian(c):
    """random smooth maps R^d -> R^m, min/max sense, Y/Jacobian supplied or computed: d2HV/dX2 vs the chain rule applied
    to the oracle's objective-space derivatives, and vs. differences of the reported gradient"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    m, d = int(rng.integers(2, 5)), int(rng.integers(1, 5))
    n = int(rng.integers(1, {2: 6, 3: 4}.get(m, 3) + 1))
    F, J, H = smooth_map(rng, d, m)
    X = rng.uniform(-1, 1, size=(n, d))
    Y = np.array([F(x) for x in X])
    ref = Y.max(axis=0) + 0.3 + rng.random(m)
    gap = coordinate_gap(Y, ref)
    if gap < 5e-3:
        raise Skip("near tie")
    maximize = bool(rng.integers(3) == 0)
    c.describe(X=X, Y=Y, ref=ref, maximize=maximize)
    dY, dY2 = hv_grad_fd(Y, ref, gap / 4), hv_hess_fd(Y, ref, gap / 4)
    YdX, YdX2 = np.array([J(x) for x in X]), np.array([H(x) for x in X])
    want = np.zeros((n * d, n * d))
    for i in range(n):
        for j in range(n):
            want[i * d : i * d + d, j * d : j * d + d] = (
                YdX[i].T @ dY2[i * m : i * m + m, j * m : j * m + m] @ YdX[j]
            )
        want[i * d : i * d + d, i * d : i * d + d] += np.einsum("k,kab->ab", dY[i], YdX2[i])
    if maximize:
        ind = HypervolumeDerivatives(
            d, m, -ref, lambda x: -F(x), lambda x: -J(x), lambda x: -H(x), minimization=False
        )
        Yin, Jin = -Y, -YdX
    else:
        ind = HypervolumeDerivatives(d, m, ref, F, J, H)
        Yin, Jin = Y, YdX
    c.saw(X, ref, maximize)
    c.count("maximize" if maximize else "minimize")
    g, got = ind.compute_derivatives(X)
    c.close(got, want, "hess-decision", "d2HV/dX2", rtol=1e-5)
    g2, got2 = ind.compute_derivatives(X, Y=Yin.copy(), YdX=Jin.copy())
    c.close(got2, want, "hess-decision-supplied", "d2HV/dX2 with Y and Jacobian supplied", rtol=1e-5)
    c.close(g2, g, "hess-decision-supplied", "dHV/dX with Y and Jacobian supplied", rtol=1e-9)
    c.close(got, got.T, "hess-symmetric", "symmetry", rtol=1e-12)
    # differences of the reported gradient (no oracle involved): gradient and Hessian are mutually consistent
    h = 1e-6
    fd = np.zeros_like(want)
    for a in range(n * d):
        e = np.zeros(n * d)
        e[a] = h
        e = e.reshape(n, d)
        fd[:, a] = (
            ind.compute_derivatives(X + e, compute_hessian=False) - ind.compute_derivatives(X - e, compute_hessian=False)
        ).ravel() / (2 * h)
    c.close(got, fd, "hess-vs-grad", "Hessian vs differences of the gradient", rtol=1e-4, atol=1e-5)


@monitor("P03", quick=150, thorough=1500)
def automatic_differentiation(c):
    """the automatic-differentiation path of the same class is a second implementation: both must agree"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    m, d = int(rng.integers(2, 5)), int(rng.integers(1, 4))
    n = int(rng.integers(1, 5))
    F, J, H = smooth_map(rng, d, m)
    X = rng.uniform(-1, 1, size=(n, d))
    Y = np.array([F(x) for x in X])
    ref = Y.max(axis=0) + 0.3 + rng.random(m)
    gap = coordinate_gap(Y, ref)
    if gap < 1e-3:
        raise Skip("near tie")
    maxi, moved = bool(rng.integers(2)), bool(rng.integers(2))
    c.describe(X=X, Y=Y, ref=ref, maximisation=maxi, moved=moved)
    s = -1.0 if maxi else 1.0
    sgn = lambda f: (lambda x: -f(x)) if maxi else f
    first = s * ref + rng.random(m) * s if moved else s * ref
    ind = HypervolumeDerivatives(d, m, first, sgn(F), sgn(J), sgn(H), minimization=not maxi)
    if moved:  # used before with another reference point
        ind.compute_automatic_differentiation(X)
        ind.ref = s * ref
    ad = ind.compute_automatic_differentiation(X)
    g, h = ind.compute_derivatives(X)
    dY = s * hv_grad_fd(Y, ref, gap / 4)
    c.saw(X, ref)
    c.close(np.ravel(ad["HVdY"]), dY.ravel(), "ad-gradient-Y", "AD dHV/dY", rtol=1e-6)
    c.close(np.ravel(ad["HVdX"]), g.ravel(), "ad-gradient", "AD dHV/dX", rtol=1e-8)
    c.close(ad["HVdX2"], h, "ad-hessian", "AD d2HV/dX2", rtol=1e-8)


@monitor("P03", quick=1, thorough=1, min_obs=1)
def outside_reference(c):
    """known finding (see P02): second derivatives when a non-dominated point lies outside the reference box"""
    from hvd import HypervolumeDerivatives

    P, ref = np.array([[1.0, 5.0], [2.0, 1.0]]), np.array([3.0, 3.0])
    c.describe(points=P, ref=ref)
    _, H = HypervolumeDerivatives(2, 2, ref).compute_derivatives(P)
    c.saw(P)
    c.close(H, hv_hess_fd(P, ref, 0.1), "outside-reference-0", "Hessian with a point outside the reference box", rtol=1e-5)


@monitor("P03", quick=200, thorough=2000)
def rewritten_arrays(c):
    """decision points, objective points and Jacobians in arrays that are rewritten in place between calls: Hessians are
    those of a fresh object, on the analytical and the automatic-differentiation path"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    n, d, m = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(2, 4))
    F, J, H = smooth_map(rng, d, m)
    draw = lambda: rng.uniform(-1, 1, size=(n, d))
    ref = np.max([F(x) for x in rng.uniform(-1, 1, size=(200, d))], axis=0) + 50.0
    new = lambda: HypervolumeDerivatives(d, m, ref.copy(), func=F, jac=J, hessian=H)
    a = new()
    gen.rewritten(c, a.compute_derivatives, lambda Z: new().compute_derivatives(Z), draw, "rewritten", "Hessian", rtol=1e-10)
    X = draw()
    Y, YdX = np.array([F(x) for x in X]), np.array([J(x) for x in X])

    def given(Z):
        Y[...] = [F(x) for x in Z]
        YdX[...] = [J(x) for x in Z]
        return a.compute_derivatives(Z, Y=Y, YdX=YdX)

    gen.rewritten(c, given, lambda Z: new().compute_derivatives(Z), draw, "rewritten-supplied", "Hessian with supplied Y and YdX", rtol=1e-10)
    if c.i % 8 == 0:
        ad = lambda i: lambda Z: tuple(np.ravel(i.compute_automatic_differentiation(Z)[k]) for k in ("HVdX", "HVdX2"))
        gen.rewritten(c, ad(a), lambda Z: tuple(map(np.ravel, new().compute_derivatives(Z))), draw, "rewritten-automatic", "automatic derivatives", rounds=3, rtol=1e-8, tiny=1e-4)


def spread_points(rng, n, m):
    """general position with all coordinate gaps >= 1.2; about half of the sets mutually non-dominated"""
    r = np.stack([rng.permutation(n) for _ in range(m)], axis=1)
    if rng.integers(2):
        r[:, -1] = np.argsort(np.argsort(-r[:, :-1].sum(axis=1) + 1e-3 * rng.random(n)))
    return 2.0 * r + rng.uniform(0, 0.8, size=(n, m))


@monitor("P03", quick=150, thorough=1500)
def large_sets(c):
    """populations of up to 60 members: a random sample of entries against second mixed differences of the measure, the
    zero pattern (symmetry, dominated members), and the chain rule through a nonlinear map"""
    from hvd import HypervolumeDerivatives

    rng = c.rng
    m = int(rng.choice([2, 2, 3]))
    n = int(rng.integers(9, 61 if m == 2 else 25))
    P = spread_points(rng, n, m)
    ref = P.max(axis=0) + rng.uniform(1.0, 3.0, size=m)
    c.describe(points=P, ref=ref)
    g, H = HypervolumeDerivatives(m, m, ref).compute_derivatives(P)
    g, H = np.asarray(g).reshape(n, m), np.asarray(H)
    if not c.require(H.shape == (n * m, n * m), "hess-large-shape", f"Hessian of {n} members has shape {H.shape}"):
        return
    top = np.abs(H).max()
    c.close(H, H.T, "hess-large-symmetric", "symmetry", rtol=1e-12)
    live = np.nonzero(np.any(H != 0, axis=0))[0]
    scale = np.prod(np.ptp(np.vstack([P, ref]), axis=0))
    for t in range(30):
        a = int(rng.choice(live)) if len(live) and t % 2 else int(rng.integers(n * m))
        near = np.nonzero(H[a])[0]
        b = int(rng.choice(near)) if len(near) and t % 4 == 3 else int(rng.integers(n * m))
        if t % 4 == 1:  # a neighbour along an axis, or another coordinate of the same point
            k = int(rng.integers(m))
            o = np.argsort(P[:, k])
            p = int(np.nonzero(o == a // m)[0][0])
            b = int(o[min(max(p + int(rng.integers(-1, 2)), 0), n - 1)]) * m + int(rng.integers(m))
        if a == b:
            continue
        w = hv_mixed(P, ref, a, b, 0.3)
        c.saw(P, a, b)
        c.require(abs(H[a, b] - w) <= 1e-6 * (top + abs(w)) + 1e-13 * scale / 0.09, "hess-large", f"entry {a, b} of the Hessian of {n} members: {H[a, b]}, measure {w}")
    d = int(rng.integers(1, 5))
    F, J, D2 = smooth_map(rng, d, m)
    X = rng.uniform(-1, 1, size=(n, d))
    Y, YdX, YdX2 = (np.array([f(x) for x in X]) for f in (F, J, D2))
    r2 = Y.max(axis=0) + 1.0
    gy, Hy = HypervolumeDerivatives(m, m, r2).compute_derivatives(Y)
    gx, Hx = HypervolumeDerivatives(d, m, r2, func=F, jac=J, hessian=D2).compute_derivatives(X)
    gy, Hy = np.asarray(gy).reshape(n, m), np.asarray(Hy).reshape(n, m, n, m)
    W = np.einsum("iad,iajb,jbe->idje", YdX, Hy, YdX)
    W[np.arange(n), :, np.arange(n), :] += np.einsum("ia,iade->ide", gy, YdX2)
    c.saw(X, "chain", n=2)
    c.close(np.asarray(gx).reshape(n, d), np.einsum("ia,iad->id", gy, YdX), "grad-large-chain", f"gradient of {n} members through a map", rtol=1e-9)
    c.close(Hx, W.reshape(n * d, n * d), "hess-large-chain", f"Hessian of {n} members through a map", rtol=1e-9)
