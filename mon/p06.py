"""P06: MMD and matched MMD: values, gradients, Hessians."""
import itertools
from functools import partial

import numpy as np
from scipy.optimize import linear_sum_assignment

from . import gen
from .core import Skip, monitor
from .p05 import dists, optimal_cost


def kernels():
    import hvd.mmd as M

    return [("rbf", M.rbf), ("rq", M.rational_quadratic), ("laplace", M.laplace), ("rq2.5", partial(M.rational_quadratic, alpha=2.5)), ("user", user_kernel)]


def user_kernel(x, y, theta=1.0):
    """a kernel of the user's own (Cauchy), written with the array module of the arguments"""
    return 1.0 / (1.0 + theta * ((x - y) ** 2).sum())


# closed forms written independently of the repository: value, gradient wrt x, Hessian wrt x, cross Hessian
def k_all(name, x, y, theta):
    d = x - y
    n = len(d)
    if name == "laplace":
        k = np.exp(-theta * np.abs(d).sum())
        s = np.sign(d)
        return k, -theta * s * k, theta**2 * k * np.outer(s, s), -(theta**2) * k * np.outer(s, s)
    q = d @ d
    if name == "rbf":
        k = np.exp(-theta * q)
        f1, f2 = -theta * k, theta**2 * k  # d/dq, d2/dq2
    else:  # rational quadratic (1 + theta q / (2 alpha))^-alpha; the Cauchy kernel is the one with alpha = 1 and twice the scale
        al, t = {"rq": (1.0, theta), "rq2.5": (2.5, theta), "user": (1.0, 2 * theta)}[name]
        b = 1 + t * q / (2 * al)
        k = b**-al
        f1, f2 = -(t / 2) * b ** (-al - 1), (t / 2) ** 2 * (al + 1) / al * b ** (-al - 2)
    Hxx = 2 * f1 * np.eye(n) + 4 * f2 * np.outer(d, d)
    return k, 2 * f1 * d, Hxx, -Hxx


def kv(name, A, B, theta):
    return np.array([[k_all(name, a, b, theta)[0] for b in B] for a in A])


def mmd_value(name, Y, R, theta):
    return kv(name, R, R, theta).mean() + kv(name, Y, Y, theta).mean() - 2 * kv(name, R, Y, theta).mean()


def mmd_derivs(name, Y, R, theta):
    N, m = Y.shape
    M = len(R)
    g, H = np.zeros((N, m)), np.zeros((N, m, N, m))
    for i in range(N):
        for j in range(N):
            if i != j:
                _, a, b, x = k_all(name, Y[i], Y[j], theta)
                g[i] += 2 * a / N**2
                H[i, :, i] += 2 * b / N**2
                H[i, :, j] += 2 * x / N**2
        for r in R:
            _, a, b, _ = k_all(name, Y[i], r, theta)
            g[i] -= 2 * a / (N * M)
            H[i, :, i] -= 2 * b / (N * M)
    return g, H.reshape(N * m, N * m)


def matched_value(name, Y, T, theta, beta):
    return beta * kv(name, Y, Y, theta).mean() + np.mean([2 - 2 * k_all(name, y, t, theta)[0] for y, t in zip(Y, T)])


def matched_derivs(name, Y, T, theta, beta):
    N, m = Y.shape
    g, H = np.zeros((N, m)), np.zeros((N, m, N, m))
    for i in range(N):
        for j in range(N):
            if i != j:
                _, a, b, x = k_all(name, Y[i], Y[j], theta)
                g[i] += 2 * beta * a / N**2
                H[i, :, i] += 2 * beta * b / N**2
                H[i, :, j] += 2 * beta * x / N**2
        _, a, b, _ = k_all(name, Y[i], T[i], theta)
        g[i] -= 2 * a / N
        H[i, :, i] -= 2 * b / N
    return g, H.reshape(N * m, N * m)


def chain(g, H, YdX, YdX2):
    N, m, d = YdX.shape
    B = np.zeros((N * m, N * d))
    for i in range(N):
        B[i * m : i * m + m, i * d : i * d + d] = YdX[i]
    out = B.T @ H @ B
    for i in range(N):
        out[i * d : i * d + d, i * d : i * d + d] += np.einsum("k,kab->ab", g[i], YdX2[i])
    return np.einsum("ij,ijk->ik", g, YdX), out


def _config(c):
    rng = c.rng
    name, kern = kernels()[int(rng.choice([0, 0, 0, 1, 1, 2, 2, 3, 4]))]
    d, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    N = int(rng.integers(1, 6))
    theta = float(10 ** rng.uniform(-1.5, 1.0))
    return rng, name, kern, d, m, N, theta


def check_all(c, ind, X, Y, YdX, YdX2, dY, dY2, tag):
    N, m = Y.shape
    d = X.shape[1]
    gX, HX = chain(dY, dY2, YdX, YdX2)
    o = ind.compute_hessian(X)
    c.saw(X, tag, n=3)
    c.close(o["MMDdY"], dY, f"{tag}-dY", "gradient in objective space", rtol=1e-9, atol=1e-12)
    c.close(o["MMDdY2"], dY2, f"{tag}-dY2", "Hessian in objective space", rtol=1e-9, atol=1e-12)
    c.close(o["MMDdX"], gX, f"{tag}-dX", "gradient in decision space", rtol=1e-9, atol=1e-12)
    c.close(o["MMDdX2"], HX, f"{tag}-dX2", "Hessian in decision space", rtol=1e-9, atol=1e-12)
    c.close(o["MMDdX2"], np.asarray(o["MMDdX2"]).T, f"{tag}-symmetry", "symmetry", rtol=1e-12, atol=1e-14)
    c.close(o["Y"], Y, f"{tag}-Y", "reported objective points", rtol=1e-12)
    Yc, Jc = Y.copy(), YdX.copy()
    g, H = ind.compute_derivatives(X, Y, True, YdX)
    c.close(g, gX, f"{tag}-supplied", "gradient (Y and Jacobian supplied)", rtol=1e-9, atol=1e-12)
    c.close(H, HX, f"{tag}-supplied", "Hessian (Y and Jacobian supplied)", rtol=1e-9, atol=1e-12)
    g = ind.compute_derivatives(X, compute_hessian=False)
    c.close(g, gX, f"{tag}-gradient-only", "gradient-only path", rtol=1e-9, atol=1e-12)
    g = ind.compute_derivatives(X, Y, False, YdX)
    c.close(g, gX, f"{tag}-gradient-only", "gradient-only path (supplied)", rtol=1e-9, atol=1e-12)
    c.require(np.array_equal(Yc, Y) and np.array_equal(Jc, YdX), f"{tag}-mutated", "inputs were modified")


@monitor("P06", quick=120, thorough=1500)
def mmd(c):
    """3 kernels x length scales x shapes; a history of populations on one object; value vs. definition, non-negative,
    zero at the reference, symmetric under swapping the sets; derivatives vs. closed forms; chain rule"""
    from hvd.mmd import MMD
    from hvd.reference_set import ReferenceSet

    rng, name, kern, d, m, N, theta = _config(c)
    F, J, H = gen.quadratic_problem(rng, d, m, convex=bool(rng.integers(2)), cubic=True)
    M = int(rng.integers(1, 7))
    R = rng.normal(size=(M, m))
    refobj = ReferenceSet({0: R[: M // 2], 1: R[M // 2 :]}, eta={0: R[0], 1: R[1]}) if M > 3 and rng.integers(2) else (
        ReferenceSet(R.copy(), eta={0: R[0]})
    )
    ind = MMD(d, m, refobj, F, J, H, kernel=kern, theta=theta)
    c.count(f"kernel={name}")
    etas = [(slice(0, M), R[0].copy())] if refobj.n_components == 1 else [(slice(0, M // 2), R[0].copy()), (slice(M // 2, M), R[1].copy())]
    for t in range(4):
        if t and rng.random() < 0.4:  # the reference set moves between evaluations
            s = float(rng.uniform(0.1, 1.5))
            refobj.shift(s)
            R = R.copy()
            for part, e in etas:
                R[part] += s * e
            c.count("shifted reference set")
        X = gen.layout(rng, rng.uniform(-1, 1, size=(N, d)))
        Y = gen.layout(rng, np.array([F(x) for x in X]))
        if name == "laplace" and min(
            [np.abs(a - b).min() for a, b in itertools.combinations(Y, 2)] + [np.abs(y - r).min() for y in Y for r in R]
        ) < 1e-6:
            continue
        c.describe(kernel=name, theta=theta, X=X, Y=Y, R=R)
        want = mmd_value(name, Y, R, theta)
        c.saw(Y, R, name, n=3)
        v = ind.compute(Y=Y)
        c.close(v, want, "mmd-value", "MMD(Y)", rtol=1e-9, atol=1e-12)
        c.close(ind.compute(X=X), want, "mmd-value-X", "MMD(X)", rtol=1e-9, atol=1e-12)
        c.require(v >= -1e-12, "mmd-negative", f"squared MMD is {v}")
        if X.shape[0] == d and d > 1:
            pass
        dY, dY2 = mmd_derivs(name, Y, R, theta)
        check_all(c, ind, X, Y, np.array([J(x) for x in X]), np.array([H(x) for x in X]), dY, dY2, "mmd")
    c.close(ind.compute(Y=R[rng.permutation(M)]), 0.0, "mmd-zero", "MMD of the reference set itself", atol=1e-10)
    swapped = MMD(d, m, ReferenceSet(Y.copy(), eta={0: R[0]}), kernel=kern, theta=theta).compute(Y=R)
    c.close(swapped, mmd_value(name, R, Y, theta), "mmd-swap", "swapped sets", rtol=1e-9, atol=1e-12)
    c.sample(kernel=name, theta=theta, Y=Y, R=R, value=v)


@monitor("P06", quick=60, thorough=600)
def units(c):
    """objectives measured in other units (multiplied by a power of two, the length scale converted): same values,
    derivatives converted, with and without matching"""
    from hvd.mmd import MMD, MMDMatching
    from hvd.reference_set import ReferenceSet

    rng, name, kern, d, m, N, theta = _config(c)
    m = max(m, 2)
    F, J, H = gen.quadratic_problem(rng, d, m, convex=bool(rng.integers(2)), cubic=True)
    N = int(rng.integers(1, 9))
    X = rng.uniform(-1, 1, size=(N, d))
    Y = np.array([F(x) for x in X])
    R = rng.normal(size=(N, m))
    k = 2.0 ** int(rng.integers(-20, 21))
    t2 = theta / (k if name == "laplace" else k * k)
    if name == "laplace" and min([np.abs(a - b).min() for a, b in itertools.combinations(Y, 2)] + [np.abs(y - r).min() for y in Y for r in R]) < 1e-6:
        raise Skip("near a kink")
    c.describe(kernel=name, theta=theta, k=k, X=X, R=R)
    for cls in (MMD, MMDMatching):
        a = cls(d, m, ReferenceSet(R.copy(), eta={0: R[0]}), F, J, H, kernel=kern, theta=theta)
        b = cls(d, m, ReferenceSet(k * R, eta={0: R[0]}), lambda x: k * F(x), lambda x: k * J(x), lambda x: k * H(x), kernel=kern, theta=t2)
        tag = f"units-{cls.__name__}"
        c.saw(X, R, k, tag, n=5)
        c.close(b.compute(Y=k * Y), a.compute(Y=Y), tag, f"{cls.__name__} in units of {k}", rtol=1e-9, atol=1e-13)
        p, q = a.compute_hessian(X), b.compute_hessian(X)
        for key, e in (("MMDdY", 1), ("MMDdY2", 2), ("MMDdX", 0), ("MMDdX2", 0)):
            c.close(np.asarray(q[key]) * k**e, p[key], f"{tag}-{key}", f"{cls.__name__}: {key} in units of {k}", rtol=1e-9, atol=1e-12)


@monitor("P06", quick=100, thorough=1200)
def mmd_matching(c):
    """matched MMD, same oracle with the matched targets read back; the targets are an optimal one-to-one selection"""
    from hvd.mmd import MMDMatching
    from hvd.reference_set import ReferenceSet

    rng, name, kern, d, m, N, theta = _config(c)
    m = max(m, 2)
    F, J, H = gen.quadratic_problem(rng, d, m, convex=bool(rng.integers(2)), cubic=True)
    beta = float(rng.choice([0.5, 0.25, 1.0, 0.0, 0.07, 2.5]))
    M = int(rng.integers(N, N + 5))
    R = rng.normal(size=(M, m))
    kw = {} if beta == 0.5 and rng.integers(2) else dict(beta=beta)
    ind = MMDMatching(d, m, ReferenceSet(R.copy(), eta={0: R[0]}), F, J, H, kernel=kern, theta=theta, **kw)
    c.count(f"kernel={name}")
    for t in range(4):
        X = rng.uniform(-1, 1, size=(N, d))
        Y = np.array([F(x) for x in X])
        if t and rng.random() < 0.4:  # some targets move between evaluations
            ind.ref.shift(float(rng.uniform(0.1, 1.5)), np.nonzero(rng.random(N) < 0.5)[0])
            c.count("shifted targets")
        if t and rng.random() < 0.4:  # the weight of the spread changes, as it does when bootstrapping
            ind.beta = beta = float(rng.choice([0.8 * beta, 0.5, 0.25, 0.9]))
            c.count("changed weight")
        v = ind.compute(Y=Y)
        T = np.array(ind.ref.reference_set)
        if name == "laplace" and min(
            [np.abs(a - b).min() for a, b in itertools.combinations(Y, 2)] + [np.abs(Y - T).min()]
        ) < 1e-6:
            continue
        c.describe(kernel=name, theta=theta, beta=beta, X=X, Y=Y, R=R, T=T)
        c.require(T.shape == Y.shape, "matched-shape", f"{T.shape} targets for {Y.shape}")
        c.require(
            dists(Y, T).trace() <= optimal_cost(Y, T) + 1e-9, "matched-optimal", "targets are not optimally assigned"
        )
        c.saw(Y, R, name, n=2)
        c.close(v, matched_value(name, Y, T, theta, beta), "matched-value", "matched MMD(Y)", rtol=1e-9, atol=1e-12)
        c.close(ind.compute(X=X), v, "matched-value-X", "matched MMD(X)", rtol=1e-9, atol=1e-12)
        dY, dY2 = matched_derivs(name, Y, T, theta, beta)
        check_all(c, ind, X, Y, np.array([J(x) for x in X]), np.array([H(x) for x in X]), dY, dY2, "matched")


@monitor("P06", quick=40, thorough=400)
def default_values(c):
    """length scale 1, the default kernel and beta = 1/2 when nothing is given; kernels called directly"""
    from hvd.mmd import MMD, MMDMatching, laplace, rational_quadratic, rbf

    rng = c.rng
    m, N = int(rng.integers(1, 5)), int(rng.integers(1, 7))
    Y, R = rng.normal(size=(N, m)), rng.normal(size=(N, m))
    c.describe(Y=Y, R=R)
    c.saw(Y, R, n=6)
    c.close(MMD(m, m, R.copy()).compute(Y=Y), mmd_value("rbf", Y, R, 1.0), "default-mmd", "MMD with the defaults", rtol=1e-9, atol=1e-12)
    if m > 1:
        ind = MMDMatching(m, m, R.copy())
        v = ind.compute(Y=Y)
        c.close(v, matched_value("rbf", Y, np.array(ind.ref.reference_set), 1.0, 0.5), "default-matched", "matched MMD with the defaults", rtol=1e-9, atol=1e-12)
    x, y = Y[0], R[0]
    for name, f in (("rbf", rbf), ("rq", rational_quadratic), ("laplace", laplace)):
        c.close(float(f(x, y)), k_all(name, x, y, 1.0)[0], f"kernel-{name}", f"{name}(x, y)", rtol=1e-12)
        t = float(10 ** rng.uniform(-2, 1))
        c.close(float(f(x, y, t)), k_all(name, x, y, t)[0], f"kernel-{name}", f"{name}(x, y, {t})", rtol=1e-12)


@monitor("P06", quick=24, thorough=300)
def defaults_and_finite_differences(c):
    """identity map defaults and default kernel; gradient vs. difference quotient of the object's own value, Hessian vs.
    differences of its own gradient (no closed form involved)"""
    from hvd.mmd import MMD, MMDMatching

    rng = c.rng
    m, N = int(rng.integers(2, 4)), int(rng.integers(2, 5))
    if N == m:
        N += 2
    R = rng.normal(size=(N + int(rng.integers(0, 3)), m))
    Y = rng.normal(size=(N, m))
    cls = [MMD, MMDMatching][c.i % 2]
    ind = cls(m, m, R.copy(), theta=float(rng.uniform(0.2, 1.5)))
    c.describe(Y=Y, R=R, cls=cls.__name__)
    g, H = ind.compute_derivatives(Y)
    h = 1e-5
    fg, fh = np.zeros_like(Y), np.zeros((N * m, N * m))
    T0 = np.array(ind.ref.reference_set)
    for a, (i, k) in enumerate(np.ndindex(N, m)):
        E = np.zeros_like(Y)
        E[i, k] = h
        fg[i, k] = (ind.compute(Y=Y + E) - ind.compute(Y=Y - E)) / (2 * h)
        fh[:, a] = (
            np.asarray(ind.compute_derivatives(Y + E, compute_hessian=False))
            - np.asarray(ind.compute_derivatives(Y - E, compute_hessian=False))
        ).ravel() / (2 * h)
    if not np.array_equal(T0, ind.ref.reference_set):
        raise Skip("the matching switched")
    c.saw(Y, R, n=2)
    c.close(g, fg, "own-gradient", "gradient vs differences of the value", rtol=1e-5, atol=1e-7)
    c.close(H, fh, "own-hessian", "Hessian vs differences of the gradient", rtol=1e-5, atol=1e-7)


@monitor("P06", quick=24, thorough=240)
def rewritten_arrays(c):
    """points in one array that is rewritten in place between calls: values and derivatives are those of a new object"""
    from hvd.mmd import MMD, MMDMatching
    from hvd.reference_set import ReferenceSet

    rng, name, kern, d, m, N, theta = _config(c)
    m = max(m, 2)
    F, J, H = gen.quadratic_problem(rng, d, m, convex=bool(rng.integers(2)), cubic=True)
    R = rng.normal(size=(N, m))
    c.describe(kernel=name, theta=theta, R=R)
    for cls in (MMD, MMDMatching):
        new = lambda: cls(d, m, ReferenceSet(R.copy(), eta={0: R[0]}), F, J, H, kernel=kern, theta=theta)
        a, b = new(), new()
        drawX = lambda: rng.uniform(-1, 1, size=(N, d))
        drawY = lambda: np.array([F(x) for x in drawX()])
        if cls is MMD:
            value = lambda Y: mmd_value(name, Y, R, theta)
        else:
            value = lambda Y: matched_value(name, Y, R[linear_sum_assignment(dists(Y, R))[1]], theta, 0.5)
        tag = f"rewritten-{cls.__name__}"
        gen.rewritten(c, lambda Z: a.compute(Y=Z), value, drawY, tag, f"{cls.__name__}(Y)", tiny=1e-4, rtol=1e-8)
        gen.rewritten(c, lambda Z: a.compute(X=Z), lambda Z: value(np.array([F(x) for x in Z])), drawX, tag, f"{cls.__name__}(X)", tiny=1e-4, rtol=1e-8)
        # `b` sees other populations in between, and every time in a new array
        gen.rewritten(c, a.compute_derivatives, lambda Z: (b.compute_derivatives(drawX()), b.compute_derivatives(Z))[1], drawX, tag + "-derivatives", f"{cls.__name__} derivatives", rtol=1e-10)


@monitor("P06", quick=12, thorough=120)
def large_sets(c):
    """populations of up to 60 members and reference sets of up to 300 points, decision vectors of up to 30 variables"""
    from hvd.mmd import MMD, MMDMatching

    rng, name, kern, d, m, N, theta = _config(c)
    name, kern = [k for k in kernels() if k[0] != "laplace"][c.i % 4]
    m, N, M, d = max(m, 2), int(rng.integers(10, 61)), int(rng.integers(60, 301)), int(rng.choice([1, 3, 10, 30]))
    theta = float(10 ** rng.uniform(-1.5, 0))
    F, J, H = gen.quadratic_problem(rng, d, m, convex=bool(rng.integers(2)), cubic=True)
    X = rng.uniform(-1, 1, size=(N, d))
    Y = np.array([F(x) for x in X])
    Y0, sd = Y.mean(0), Y.std(0).max()
    G = [lambda x, f=f: f(x) / sd for f in (F, J, H)]
    Y = Y / sd
    R = Y[rng.integers(N, size=M)] + rng.normal(size=(M, m)) * 0.3
    c.describe(kernel=name, theta=theta, X=X, R=R)

    def K(A, B):
        q = ((A[:, None] - B[None]) ** 2).sum(-1)
        al, t = {"rbf": (None, theta), "rq": (1.0, theta), "rq2.5": (2.5, theta), "user": (1.0, 2 * theta)}[name]
        if al is None:
            k = np.exp(-theta * q)
            return k, -theta * k, theta**2 * k
        b = 1 + t * q / (2 * al)
        return b**-al, -(t / 2) * b ** (-al - 1), (t / 2) ** 2 * (al + 1) / al * b ** (-al - 2)

    def grad_hess(T, matched):
        """derivatives of mean k(Y,Y) * b - 2 * (mean k(R,Y) or mean k(t_i,y_i))"""
        b = 0.5 if matched else 1.0
        D = Y[:, None] - Y[None]
        k, f1, f2 = K(Y, Y)
        g = b * 2 / N**2 * np.einsum("ij,ijk->ik", 2 * f1, D)
        S = 2 * f1[..., None, None] * np.eye(m) + 4 * f2[..., None, None] * D[..., :, None] * D[..., None, :]
        S[np.arange(N), np.arange(N)] = 0
        B = -2 * b / N**2 * S
        B[np.arange(N), np.arange(N)] = 2 * b / N**2 * S.sum(1)
        if matched:
            E = (Y - T)[:, None]
            _, e1, e2 = (np.diag(v)[:, None] for v in K(Y, T))
            w = 2 / N
        else:
            E = Y[:, None] - T[None]
            _, e1, e2 = K(Y, T)
            w = 2 / (N * len(T))
        g -= w * np.einsum("ij,ijk->ik", 2 * e1, E)
        B[np.arange(N), np.arange(N)] -= w * (2 * e1.sum(1)[:, None, None] * np.eye(m) + 4 * np.einsum("ij,ijk,ijl->ikl", e2, E, E))
        return g, B.transpose(0, 2, 1, 3)

    YdX, YdX2 = np.array([G[1](x) for x in X]), np.array([G[2](x) for x in X])
    for cls in (MMD, MMDMatching):
        matched = cls is MMDMatching
        ref = R[:N] if matched else R
        ind = cls(d, m, ref.copy(), *G, kernel=kern, theta=theta)
        T = ref[linear_sum_assignment(dists(Y, ref))[1]] if matched else ref
        want = 0.5 * K(Y, Y)[0].mean() + 2 - 2 * np.diag(K(Y, T)[0]).mean() if matched else K(R, R)[0].mean() + K(Y, Y)[0].mean() - 2 * K(R, Y)[0].mean()
        tag = f"large-{cls.__name__}"
        c.saw(X, R, tag, n=3)
        c.close(ind.compute(Y=Y), want, tag, f"{cls.__name__} of {N} members", rtol=1e-9, atol=1e-12)
        g, B = grad_hess(T, matched)
        W = np.einsum("iad,iajb,jbe->idje", YdX, B, YdX)
        W[np.arange(N), :, np.arange(N), :] += np.einsum("ia,iade->ide", g, YdX2)
        gx, Hx = ind.compute_derivatives(X)
        c.close(gx, np.einsum("ia,iad->id", g, YdX), f"{tag}-gradient", f"{cls.__name__} gradient of {N} members", rtol=1e-8, atol=1e-12)
        c.close(Hx, W.reshape(N * d, N * d), f"{tag}-hessian", f"{cls.__name__} Hessian of {N} members", rtol=1e-8, atol=1e-12)
