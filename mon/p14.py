"""P14: box constraints."""
import numpy as np

from . import gen
from .core import monitor
from .models import Prob, random_problem
from .p10 import make as make_hvn
from .p11 import make as make_dpn
from .p11 import reference
from .p13 import Rough

TOL = 1e-7


class Watched:
    """the user's callbacks, recording where the optimiser evaluates them"""

    def __init__(self, P):
        self.P = P
        self.out = 0.0
        self.n = 0

    def _see(self, x):
        x = np.asarray(x)
        self.n += 1
        v = float(np.max(np.r_[self.P.xl - x, x - self.P.xu]))
        if not np.isfinite(v):
            v = np.inf
        self.out = max(self.out, v)

    def wrap(self, f):
        def g(x):
            self._see(x)
            return f(x)

        return g


def boxed(rng, P):
    """asymmetric boxes around or beside the optima, so that bounds become active"""
    c = rng.uniform(-0.7, 0.7, size=P.d)
    w = rng.uniform(0.1, 1.5, size=P.d)
    P.xl, P.xu = c - w, c + w
    if rng.random() < 0.2:
        P.xl, P.xu = np.zeros(P.d), np.ones(P.d)


def points(rng, P, n):
    X = rng.uniform(P.xl, P.xu, size=(n, P.d))
    k = rng.integers(0, 5)
    if k == 1:  # on faces / in corners
        M = rng.random((n, P.d))
        X = np.where(M < 0.35, P.xl, np.where(M > 0.65, P.xu, X))
    elif k == 2:  # outside: has to be clipped
        X = X + rng.normal(size=X.shape) * 2
    elif k == 3:  # very close to the bounds
        M = rng.random((n, P.d))
        e = 10.0 ** rng.uniform(-14, -3, size=X.shape)
        X = np.where(M < 0.4, P.xl + e, np.where(M > 0.6, P.xu - e, X))
    return X, ["interior", "faces", "outside", "close", "interior"][k]


def bounds_arg(rng, P):
    """bounds as arrays or lists; scalars for uniform boxes"""
    if np.ptp(P.xl) == 0 and np.ptp(P.xu) == 0 and rng.random() < 0.5:
        return float(P.xl[0]), float(P.xu[0])
    return (P.xl.tolist(), P.xu.tolist()) if rng.random() < 0.3 else (P.xl.copy(), P.xu.copy())


def watch(P):
    W = Watched(P)
    for k in ("F", "J", "H", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess"):
        setattr(P, k, W.wrap(getattr(P, k)))
    return W


def _observe(c, opt, W, P, who, it, n):
    X = opt.state.primal
    c.saw(X, it, n=n)
    if not c.require(np.all(np.isfinite(X)), "non-finite", f"{who}: population not finite after iteration {it}", X=X):
        return False
    v = float(np.max(np.r_[(P.xl - X).ravel(), (X - P.xu).ravel()]))
    c.require(v <= TOL, "outside", f"{who}: member {v} outside the box after iteration {it}", X=X)
    c.require(W.out <= TOL, "evaluated-outside", f"{who}: the problem was evaluated {W.out} outside the box in iteration {it}")
    return v <= TOL and W.out <= TOL


def _start(c, opt, W, P, X, who):
    c.close(opt.state.primal, np.clip(X, P.xl, P.xu), "initial", f"{who}: initial population, clipped to the box", rtol=0, atol=0)
    c.saw(X, n=1)
    c.require(W.out <= 0, "evaluated-outside", f"{who}: the problem was evaluated {W.out} outside the box at the start")


@monitor("P14", quick=350, thorough=8000)
def dpn(c):
    """DpN: population and every evaluation (line-search trials too) stay in the box; points on a bound slide along it: the
    displacement is zero only if the projected Newton step is"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    P = random_problem(rng, nonconvex=rng.random() < 0.3)
    if rng.random() < 0.4:
        P = Rough(rng, P)
    boxed(rng, P)
    n = gen.few(rng, 1, 6, 30)
    X, style = points(rng, P, n)
    R = reference(rng, P, n)
    c.describe(X=X, xl=P.xl, xu=P.xu, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq, R=R)
    c.count(style)
    W = watch(P)
    xl, xu = bounds_arg(rng, P)
    P_xl, P_xu = P.xl, P.xu
    from hvd.newton import DpN

    opt = DpN(dim=P.d, n_obj=P.m, func=P.F, jac=P.J, hessian=P.H, ref=ReferenceSet(R), xl=xl, xu=xu, x0=X.copy(), verbose=False, type=str(rng.choice(["gd", "igd", "deltap"])), **P.kwargs())
    _start(c, opt, W, P, X, "DpN")
    for it in range(gen.few(rng, 1, 8, 30)):
        X0 = opt.state.primal.copy()
        opt.newton_iteration()
        opt.log()
        if not _observe(c, opt, W, P, "DpN", it, n):
            return
        X1, S = opt.state.primal, np.asarray(opt.step)[:, : P.d]
        if np.abs(X1).max() > 1e6 or not np.all(np.isfinite(S)):
            return
        on = np.minimum(X0 - P_xl, P_xu - X0) <= 1e-10
        c.count("members on a bound", int(on.any(1).sum()))
        for i in range(n):
            if np.abs(S[i]).max() > 1e-6 and on[i].any():
                t = np.where(S[i] < 0, (X0[i] - P_xl) / np.abs(S[i]), np.where(S[i] > 0, (P_xu - X0[i]) / np.abs(S[i]), np.inf)).min()
                if t > 1e-6:
                    c.count("slides along a bound")
                    c.require(np.abs(X1[i] - X0[i]).max() > 0, "stuck", f"member {i} on a bound does not move although its step {S[i]} stays in the box")
    c.sample(X=X, style=style, xl=P_xl, xu=P_xu, final=opt.state.primal)


@monitor("P14", quick=350, thorough=8000)
def hvn_limited(c):
    """HVN with limited step size: population and every evaluation stay in the box; each layer takes at most a quarter of the
    way to the nearest bound"""
    rng = c.rng
    P = random_problem(rng, nonconvex=rng.random() < 0.3)
    if rng.random() < 0.4:
        P = Rough(rng, P)
    boxed(rng, P)
    n = gen.few(rng, 1, 6 if P.m == 2 else 4, 30 if P.m == 2 else 9)
    X, style = points(rng, P, n)
    ref = np.array([P.F(x) for x in np.clip(X, P.xl, P.xu)]).max(0) + rng.uniform(0.1, 2.0, size=P.m)
    c.describe(X=X, xl=P.xl, xu=P.xu, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq, ref=ref)
    c.count(style)
    W = watch(P)
    xl, xu = bounds_arg(rng, P)
    from hvd.newton import HVN

    opt = HVN(n_var=P.d, n_obj=P.m, func=P.F, jac=P.J, hessian=P.H, ref=ref, X0=X.copy(), xl=xl, xu=xu, verbose=False, limit_max_step_size=True, preconditioning=bool(rng.random() < 0.3), **P.kwargs())
    _start(c, opt, W, P, X, "HVN")
    for it in range(gen.few(rng, 1, 8, 30)):
        X0 = opt.state.primal.copy()
        opt.iterate()
        opt.log()
        if not _observe(c, opt, W, P, "HVN", it, n):
            return
        X1 = opt.state.primal
        if len(X1) == len(X0):
            V = X1 - X0
            room = np.where(V < 0, X0 - P.xl, P.xu - X0)
            c.require(np.all(np.abs(V) <= 0.25 * room + 1e-9), "quarter", f"a member moved more than a quarter of the way to a bound in iteration {it}")
    c.sample(X=X, style=style, final=opt.state.primal)


@monitor("P14", quick=350, thorough=8000)
def lara(c):
    """gradient descent: population and every evaluation stay in the box, also from members with a vanishing gradient of one
    objective or of all of them"""
    from hvd.gradient_based import Lara

    rng = c.rng
    P = random_problem(rng, constrained="none", nonconvex=rng.random() < 0.2)
    if rng.random() < 0.4:
        P = Rough(rng, P)
    boxed(rng, P)
    n = gen.few(rng, 1, 7, 30)
    X, style = points(rng, P, n)
    if rng.random() < 0.4 and not hasattr(P, "amp"):  # members at the optimum of an objective
        P.C = np.clip(P.C, P.xl, P.xu)
        X[0] = P.C[rng.integers(P.m)]
        c.count("member at the optimum of an objective")
        if rng.random() < 0.3:
            P.C[:] = P.C[0]
            X[0] = P.C[0]
    c.describe(X=X, xl=P.xl, xu=P.xu, A=P.A, C=P.C)
    c.count(style)
    W = watch(P)
    xl, xu = bounds_arg(rng, P)
    opt = Lara(n_var=P.d, n_obj=P.m, func=P.F, jac=P.J, xl=xl, xu=xu, X0=X.copy(), verbose=False)
    _start(c, opt, W, P, X, "Lara")
    for it in range(gen.few(rng, 1, 12, 30)):
        opt.iteration()
        opt.log()
        if not _observe(c, opt, W, P, "Lara", it, n):
            return
    c.sample(X=X, style=style, final=opt.state.primal)


@monitor("P14", quick=120, thorough=2000)
def clipping_and_sampling(c):
    """all four optimisers: a given initial population is clipped to the box (MMD Newton and unrestricted HVN too), a missing
    one is drawn inside the box with the requested size; bounds given as numbers, lists or arrays mean the same"""
    from hvd.gradient_based import Lara
    from hvd.mmd_newton import MMDNewton
    from hvd.newton import HVN, DpN
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    P = random_problem(rng)
    boxed(rng, P)
    n = gen.few(rng, 1, 6, 30)
    X, style = points(rng, P, n)
    given = bool(rng.integers(2))
    R = reference(rng, P, n)
    who = str(rng.choice(["HVN", "DpN", "MMD", "Lara"]))
    c.describe(X=X, xl=P.xl, xu=P.xu, who=who, given=given)
    W = watch(P)
    xl, xu = bounds_arg(rng, P)
    c.seed_global()
    X0 = X.copy() if given else None
    kw = dict(func=P.F, jac=P.J, xl=xl, xu=xu, N=n, verbose=False)
    if who == "HVN":
        o = HVN(n_var=P.d, n_obj=P.m, hessian=P.H, ref=np.full(P.m, 99.0), X0=X0, **kw, **P.kwargs())
    elif who == "DpN":
        o = DpN(dim=P.d, n_obj=P.m, hessian=P.H, ref=ReferenceSet(R), x0=X0, **kw, **P.kwargs())
    elif who == "MMD":
        o = MMDNewton(n_var=P.d, n_obj=P.m, hessian=P.H, ref=ReferenceSet(R), X0=X0, **kw, **P.kwargs(hess=False))
    else:
        o = Lara(n_var=P.d, n_obj=P.m, X0=X0, **kw)
    Z = o.state.primal
    c.saw(X, who, given, n=2)
    c.count(f"{who} {'given' if given else 'sampled'}")
    if given:
        c.close(Z, np.clip(X, P.xl, P.xu), "initial", f"{who}: initial population", rtol=0, atol=0)
        c.require(np.array_equal(X0, X), "input-altered", f"{who}: the caller's initial population was altered")
    else:
        c.require(Z.shape == (n, P.d), "size", f"{who}: sampled population has shape {Z.shape}")
        c.require(np.all(Z >= P.xl) and np.all(Z <= P.xu), "sampled-outside", f"{who}: sampled members outside the box")
        if n > 1:
            c.require(np.linalg.norm(Z[0] - Z[1]) > 0, "sampled-identical", f"{who}: sampled members are identical")
    c.require(W.out <= 0, "evaluated-outside", f"{who}: evaluated outside the box at the start by {W.out}")
    c.close(o.xl, P.xl, "bounds", f"{who}: lower bounds", rtol=0, atol=0)
    c.close(o.xu, P.xu, "bounds", f"{who}: upper bounds", rtol=0, atol=0)
