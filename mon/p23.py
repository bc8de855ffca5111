"""P23: the multi-gradient method (Lara)."""
import numpy as np

from . import gen
from .core import monitor
from .models import drop_duplicates, random_problem
from .p13 import Rough
from .p14 import boxed, points


def build(P, X, **kw):
    from hvd.gradient_based import Lara

    return Lara(n_var=P.d, n_obj=P.m, func=P.F, jac=P.J, xl=P.xl.copy(), xu=P.xu.copy(), X0=X, verbose=False, **kw)


@monitor("P23", quick=600, thorough=15000)
def iteration(c):
    """iterations against a model: near-duplicates merged, every member moves along the sum of the normalised negative gradients
    (stationary objectives contribute nothing), components pointing out of the box at an active bound dropped, one common
    step length: the largest in [0, 1] that keeps everyone in the box"""
    rng = c.rng
    P = random_problem(rng, constrained="none", nonconvex=rng.random() < 0.3, bent=rng.random() < 0.5)
    if rng.random() < 0.3:
        P = Rough(rng, P)
    boxed(rng, P)
    n = gen.few(rng, 1, 7, 60)
    X, style = points(rng, P, n)
    if rng.random() < 0.3 and not hasattr(P, "amp"):
        P.C = np.clip(P.C, P.xl, P.xu)
        X[0] = P.C[rng.integers(P.m)]
        c.count("member at the optimum of an objective")
    if n > 1 and rng.random() < 0.3:
        i, j = rng.choice(n, 2, replace=False)
        X[i] = X[j]
        c.count("duplicates")
    c.describe(X=X, xl=P.xl, xu=P.xu, A=P.A, C=P.C)
    opt = build(P, X.copy(), max_iters=9)
    X = np.clip(X, P.xl, P.xu)
    for it in range(gen.few(rng, 1, 6, 30)):
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        if np.any((D > 1e-9) & (D < 1e-7)):
            return
        X = X[drop_duplicates(X)]
        opt.iteration()
        opt.log()
        X1 = opt.state.primal
        if not c.require(X1.shape == X.shape, "size", f"{len(X1)} members after iteration {it}, {len(X)} distinct ones before"):
            return
        S = np.zeros_like(X)
        for i, x in enumerate(X):
            J = P.J(x)
            nn = np.linalg.norm(J, axis=1)
            if np.any((nn > 0) & (nn < 1e-9)):
                return
            S[i] = -sum((J[k] / nn[k] for k in range(P.m) if nn[k] > 0), np.zeros(P.d))
        lo, up = X - P.xl, P.xu - X
        if np.any((np.abs(np.r_[lo, up] - 1e-10) < 1e-11) | (np.abs(np.r_[S, S]) < 1e-12) & (np.r_[lo, up] < 1e-10) & (np.r_[S, S] != 0)):
            return
        S[(lo <= 1e-10) & (S < 0)] = 0
        S[(up <= 1e-10) & (S > 0)] = 0
        t = np.where(S < 0, lo / np.abs(S), np.where(S > 0, up / np.abs(S), np.inf))
        s = min(1.0, float(t.min()))
        c.saw(X, it, n=2)
        c.count("blocked by a bound" if s < 1 else "full step")
        if not c.close(X1, X + s * S, "step", f"population after iteration {it} (common step length {s})", rtol=0, atol=1e-9):
            return
        c.close(opt.state.Y, np.array([P.F(x) for x in X1]), "Y", "objective values", rtol=1e-11)
        X = X1.copy()
    c.sample(X=X, style=style)


@monitor("P23", quick=200, thorough=4000)
def descent(c):
    """with two objectives the direction does not increase any of them to first order: short multiples of the step do not
    worsen either objective"""
    rng = c.rng
    P = random_problem(rng, constrained="none", mmax=2)
    P.xl, P.xu = np.full(P.d, -50.0), np.full(P.d, 50.0)
    n = gen.few(rng, 1, 6, 60)
    X = rng.uniform(-2, 2, size=(n, P.d))
    c.describe(X=X, A=P.A, C=P.C)
    opt = build(P, X.copy(), max_iters=3)
    opt.iteration()
    V = opt.state.primal - X
    c.saw(X, n=n)
    for i in range(n):
        if np.linalg.norm(V[i]) < 1e-6:
            continue
        g = P.J(X[i]) @ V[i]
        c.require(np.all(g <= 1e-9 * np.linalg.norm(V[i]) * np.linalg.norm(P.J(X[i]))), "ascent", f"member {i} moves along {V[i]}, which increases an objective: slopes {g}")
