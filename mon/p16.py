"""P16: numerical building blocks: regularisation, packing, reflection, bounds."""
import numpy as np

from . import gen
from .core import Skip, monitor


@monitor("P16", quick=12000, thorough=120000)
def regularisation(c):
    """random symmetric matrices of every inertia (definite, indefinite, singular, zero, diagonal with zero/negative entries,
    tiny and large scales): positive definite input is returned as it is, otherwise the result is positive (semi)definite up to
    rounding and differs from the input by a multiple of the identity that is at most about twice what is needed"""
    from hvd.utils import precondition_hessian

    rng = c.rng
    n = gen.few(rng, 1, 9, 60)
    style = str(rng.choice(["pd", "nd", "indefinite", "singular", "zero", "diag", "posdiag-indefinite", "near", "identity"]))
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    scale = 10.0 ** (rng.uniform(-3, 3) if rng.random() < 0.7 else rng.uniform(-10, 5))
    if style == "pd":
        w = rng.uniform(0.1, 5, size=n)
    elif style == "nd":
        w = -rng.uniform(0.1, 5, size=n)
    elif style == "singular":
        w = rng.uniform(0.1, 5, size=n) * (rng.random(n) < 0.5)
    elif style == "near":
        w = rng.uniform(0.1, 5, size=n)
        w[0] = rng.choice([-1, 1]) * 10.0 ** rng.uniform(-9, -4)
    else:
        w = rng.normal(size=n) * 2
    H = Q @ np.diag(w * scale) @ Q.T
    if style == "zero":
        H = np.zeros((n, n))
    elif style == "diag":
        H = np.diag(rng.integers(-2, 3, size=n).astype(float)) * scale
    elif style == "identity":
        H = np.eye(n) * rng.choice([-1.0, 1.0]) * scale
    elif style == "posdiag-indefinite":
        np.fill_diagonal(H, np.abs(np.diag(H)) + 0.01 * scale)
    H = (H + H.T) / 2
    H0 = H.copy()
    lam = np.linalg.eigvalsh(H)
    norm = max(np.abs(lam).max(), 1e-300)
    out = np.asarray(precondition_hessian(H))
    c.describe(H=H0, style=style, eig=lam)
    c.saw(H0)
    c.require(np.array_equal(H, H0), "input-altered", "the matrix passed in was altered")
    if not c.require(out.shape == (n, n) and np.all(np.isfinite(out)), "shape", f"result {out.shape}"):
        return
    c.require(np.abs(out - out.T).max() <= 1e-12 * max(norm, 1), "asymmetric", "the result is not symmetric")
    mu = np.linalg.eigvalsh(out)
    D = out - H0
    tau = np.trace(D) / n
    tol = 1e-12 * (norm + abs(tau))
    c.require(np.abs(D - tau * np.eye(n)).max() <= tol, "not-a-shift", f"the result differs from the input by more than a multiple of the identity: {D.tolist()}")
    if lam[0] > 1e-13 * norm * n:
        c.count("positive definite")
        c.require(abs(tau) <= tol, "changed-pd", f"a positive definite matrix was shifted by {tau}")
    elif lam[0] < -1e-13 * norm * n or lam[0] == 0:
        c.count(f"not positive definite: {style}")
        c.require(mu[0] > -tol, "not-definite", f"smallest eigenvalue {mu[0]} after regularisation (before: {lam[0]})")
        c.require(tau >= -lam[0] - tol, "shift-too-small", f"shift {tau}, smallest eigenvalue {lam[0]}")
        c.require(tau <= max(2 * -lam[0], -np.diag(H0).min() + 1e-6, 1e-6) * (1 + 1e-6) + 1e-6 + tol, "shift-too-large", f"shift {tau}, smallest eigenvalue {lam[0]}, smallest diagonal entry {np.diag(H0).min()}")
    c.sample(style=style, H=H0, tau=tau)


@monitor("P16", quick=5000, thorough=50000)
def packing(c):
    """primal-dual matrices <-> stacked vectors: round trip for every pattern of active constraints; the vector lists all
    primal parts row by row, then the active multipliers row by row; inactive ones are zero in the matrix"""
    from hvd.utils import Nd_vector_to_matrix, matrix_to_Nd_vector

    rng = c.rng
    N, d, q = gen.few(rng, 1, 6, 60), gen.few(rng, 1, 5, 30), gen.few(rng, 0, 4, 12)
    act = rng.random((N, q)) < rng.choice([0.0, 0.3, 0.7, 1.0])
    X = rng.normal(size=(N, d + q))
    want = np.r_[X[:, :d].ravel(), [X[i, d + j] for i in range(N) for j in range(q) if act[i, j]]]
    c.describe(X=X, act=act)
    c.saw(X)
    v = np.asarray(matrix_to_Nd_vector(X, d, act))
    c.close(v.ravel(), want, "pack", "stacked vector", rtol=0, atol=0)
    M = Nd_vector_to_matrix(want.copy(), N, d + q, d, act)
    Z = X.copy()
    Z[:, d:][~act] = 0
    c.close(M, Z, "unpack", "matrix from the stacked vector", rtol=0, atol=0)
    from hvd import mmd_newton

    f = getattr(mmd_newton, "Nd_vector_to_matrix", None)
    if f is not None and f is not Nd_vector_to_matrix:
        full = np.c_[np.ones((N, d), bool), act]
        c.close(f(want.copy(), N, d + q, d, full), Z, "unpack-mmd", "matrix from the stacked vector (MMD)", rtol=0, atol=0)


@monitor("P16", quick=5000, thorough=50000)
def reflection(c):
    """box handling by reflection: inside points stay, others fold back like a triangle wave (by an explicit fold loop);
    unbounded coordinates untouched"""
    from hvd.utils import handle_box_constraint

    rng = c.rng
    d = gen.few(rng, 1, 5, 30)
    lb = rng.normal(size=d) * (1.0 if rng.random() < 0.8 else 100.0)
    ub = lb + rng.uniform(0.1, 3, size=d)
    n = gen.few(rng, 1, 5, 60)
    if n == d:
        n += 1
    far = 4 if rng.random() < 0.8 else 100
    x = rng.uniform(lb - far, ub + far, size=(n, d)) if n > 1 else rng.uniform(lb - far, ub + far)
    if rng.random() < 0.3:  # on the boundary, or a whole number of widths away
        k = rng.random(x.shape) < 0.4
        x = np.where(k, lb + (ub - lb) * rng.integers(-3, 5, size=x.shape), x)
    free = rng.random(d) < 0.15
    lb_, ub_ = np.where(free, -np.inf, lb), np.where(free, np.inf, ub)
    want = np.atleast_2d(x).copy()
    for i in range(len(want)):
        for j in range(d):
            while not free[j] and not lb[j] <= want[i, j] <= ub[j]:
                want[i, j] = 2 * lb[j] - want[i, j] if want[i, j] < lb[j] else 2 * ub[j] - want[i, j]
    c.describe(x=x, lb=lb_, ub=ub_)
    c.saw(x)
    got = handle_box_constraint(x.copy(), lb_, ub_)
    c.close(got, want.reshape(np.shape(x)), "reflection", "point folded into the box", rtol=1e-9, atol=1e-9)


@monitor("P16", quick=1500, thorough=15000)
def bounds(c):
    """bounds given as a number, a string, a one-element or a full sequence all mean one bound per variable; a wrong length is
    refused"""
    from hvd.utils import set_bounds

    rng = c.rng
    d = int(rng.integers(1, 8))
    b = float(np.round(rng.normal(), 3))
    full = rng.normal(size=d)
    for arg, want in [(b, np.full(d, b)), (3, np.full(d, 3)), ([b], np.full(d, b)), (np.array([b]), np.full(d, b)), (full, full), (full.tolist(), full), (tuple(full), full), (f"[{b}] * {d}", np.full(d, b))]:
        got = set_bounds(arg, d)
        c.saw(repr(arg), d)
        c.close(got, want, "bounds", f"bounds from {arg!r}", rtol=0, atol=0)
    try:
        set_bounds(np.zeros(d + 1 if d != 1 else 3), d)
        c.fail("accepted", f"bounds of length {d + 1} accepted for {d} variables")
    except AssertionError:
        c.saw("refused", d)
    src = rng.normal(size=d)
    out = set_bounds(src, d)
    out[0] += 1
    c.require(src[0] != out[0], "aliased", "bounds share memory with the caller's array")
