"""P12: the MMD Newton method."""
import numpy as np

from . import gen
from .core import monitor
from .models import MMDNModel, Prob, armijo, random_problem
from .p10 import start
from .p11 import reference


def make(P, X, rs, matching, name, theta, **kw):
    import hvd.mmd as K
    from hvd.mmd_newton import MMDNewton

    kernel = dict(rbf=K.rbf, rq=K.rational_quadratic, laplace=K.laplace)[name]
    cs = P.kwargs(hess=False)
    return MMDNewton(
        n_var=P.d, n_obj=P.m, func=P.F, jac=P.J, hessian=P.H, ref=rs, xl=P.xl.copy(), xu=P.xu.copy(), X0=X, verbose=False,
        matching=matching, kernel=kernel, theta=theta, **cs, **kw,
    )


def assignment(Y, T):
    from scipy.optimize import linear_sum_assignment

    C = np.sqrt(((Y[:, None] - T[None]) ** 2).sum(-1))
    return linear_sum_assignment(C)[1], C


@monitor("P12", quick=240, thorough=5000)
def iteration(c):
    """iterations with and without matching against a model of the method: indicator value, which targets move and where to,
    joint Newton-KKT step of the whole population, accepted step length; also converged members (targets move on)"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    P = random_problem(rng, nonconvex=rng.random() < 0.25, dmax=3, bent=rng.random() < 0.5)
    n = gen.few(rng, 1, 5, 16)
    X, mode = start(rng, P, n)
    X = np.clip(X, P.xl, P.xu)
    n = len(X)
    matching = bool(rng.random() < 0.6)
    name = str(rng.choice(["rbf", "rq", "laplace"], p=[0.5, 0.35, 0.15]))
    theta = float(rng.choice([1.0, 0.2, 2.5]))
    pre = bool(rng.random() < 0.4)
    R = reference(rng, P, n)
    if not matching and rng.random() < 0.3:
        R = R[: max(1, int(rng.integers(1, n + 1)))]  # fewer reference points than members
        c.count("reference smaller than the population")
    eta = -np.abs(rng.normal(size=P.m))
    rs = ReferenceSet(R.copy(), eta={0: eta})
    c.describe(X=X, R=R, eta=eta, matching=matching, kernel=name, theta=theta, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq, pre=pre)
    opt = make(P, X.copy(), rs, matching, name, theta, preconditioning=pre, max_iters=9)
    M = MMDNModel(P, matching, name, theta, pre)
    L = np.zeros((n, P.n_eq + P.n_ieq))
    T, last = R.copy(), None
    reweigh = matching and rng.random() < 0.3  # the weight of the spread term changes during the run
    for it in range(gen.few(rng, 1, 4, 8)):
        Y = np.array([P.F(x) for x in X])
        if reweigh:
            opt.indicator.beta = M.beta = float(rng.choice([0.25, 0.5, 0.1, 0.8 * M.beta]))
            c.count("changed weight")
        opt.newton_iteration()
        opt.log()
        st = opt.state
        X1, L1, T1 = st.primal.copy(), st.dual.copy(), np.array(rs.reference_set)
        # --- targets
        if it == 0:
            shifted = np.ones(n, bool)
            T0 = T1 - 0.08 * eta
            if not matching:
                c.close(T1, R + 0.08 * eta, "targets", "reference set after the initial shift", rtol=1e-12)
            else:
                c.require(len(T1) == n and all(np.min(np.abs(R - t).sum(1)) < 1e-9 for t in T0), "targets", "initial targets are not (shifted) reference points")
        else:
            T0 = T
        if matching:
            k, C = assignment(Y, T0)
            T0 = T0[k]
        val = M.value(Y, T0)
        c.saw(X, L, it, n=3)
        c.close(opt.history_indicator_value[-1], val, "indicator", f"indicator value of iteration {it}", rtol=1e-8, atol=1e-9)
        if it > 0:
            dist = np.sqrt(((Y[:, None] - T0[None]) ** 2).sum(-1)).min(1)
            sn = np.linalg.norm(last[:, : P.d], axis=1)
            if np.min(np.abs(np.r_[dist, sn] - 1e-8)) < 1e-10:
                return
            shifted = (dist <= 1e-8) & (sn <= 1e-8)
            want = T0 + 0.08 * eta * (shifted[:, None] if matching else shifted.any())
            if matching:
                got = T1[np.lexsort(T1.T)]
                want = want[np.lexsort(want.T)]
                if not c.close(got, want, "targets", f"targets in iteration {it}", rtol=1e-8, atol=1e-8):
                    return
            elif not c.close(T1, want, "targets", f"reference set in iteration {it}", rtol=1e-9, atol=1e-12):
                return
        if matching:
            k, C = assignment(Y, T1)
            own = C[np.arange(n), np.arange(n)].sum()
            c.require(own <= C[np.arange(n), k].sum() * (1 + 1e-9) + 1e-12, "assignment", f"targets of iteration {it} are not optimally assigned")
        # --- step
        A, b, Rm, where = M.step(X, L, T1)
        c.close(opt.R, Rm, "residual", f"residual of iteration {it}", rtol=1e-7, atol=1e-9)
        cond = np.linalg.cond(A)
        if np.linalg.norm(A[: n * P.d, : n * P.d], -2) < 1e-7:  # the kernel vanishes: derivatives below rounding of the self-interaction
            c.count("outside the range of the kernel")
            return
        if not cond < 1e8:
            c.count("ill-conditioned")
            if cond > 1e13 and np.all(np.isfinite(A)):
                S = opt.step
                z = np.r_[S[:, : P.d].ravel(), [S[i, P.d + j] for i, j in where]]
                best = np.linalg.norm(A @ np.linalg.lstsq(A, -b, rcond=None)[0] + b)
                c.count("singular systems")
                c.require(np.linalg.norm(A @ z + b) <= best * (1 + 1e-6) + 1e-6 * (1 + np.linalg.norm(b)), "singular-step", "the step of a singular system is not a least-squares solution")
            return
        S = M.unpack(-np.linalg.solve(A, b), n, L.shape[1], where)
        tol = 1e-13 * cond + 1e-8
        scale = max(1.0, np.abs(S).max())
        if not c.close(opt.step, S, "newton-step", f"Newton step in iteration {it} (matching={matching})", rtol=0, atol=tol * scale):
            return
        phi = lambda s: np.linalg.norm(M.residual(X + s * S[:, : P.d], L + s * S[:, P.d :], T1)[0])
        phi0 = np.linalg.norm(Rm)
        if np.abs(S).max() < 1e-7:
            c.require(np.abs(X1 - X).max() <= 2e-7, "spurious-move", "the population moved although the step vanishes")
        elif phi0 > 1e-7:
            s, margin = armijo(phi0, phi, 1.0, 1e-6, 6)
            c.count(f"{round(-np.log2(s))} halvings")
            if margin > 1e-7 and np.isfinite(margin):
                c.close(np.c_[X1, L1], np.c_[X, L] + s * S, "position", f"population after iteration {it} (step size {s})", rtol=0, atol=tol * scale)
        c.close(st.Y, np.array([P.F(x) for x in X1]), "Y", "objective values of the new points", rtol=1e-12)
        last, T, X, L = opt.step.copy(), T1, X1, L1
    c.sample(matching=matching, kernel=name, mode=mode, X=X, targets=T)


@monitor("P12", quick=60, thorough=800)
def targets_move_on(c):
    """a member that sits on its target with a vanishing step: exactly its target moves (matching), and the whole set moves
    exactly then without matching; other targets stay"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    m = int(rng.integers(2, 4))
    P = Prob(rng, m, m)
    # F(x) = x: members can hit their targets
    P.F = lambda x: np.asarray(x, float).copy()
    P.J = lambda x: np.eye(m)
    P.H = lambda x: np.zeros((m, m, m))
    matching = bool(rng.integers(2))
    n = int(rng.integers(2, 5)) if matching else 1
    R = (np.arange(n)[:, None] * np.r_[1.0, -1.0, np.zeros(m - 2)] * 12.0) + rng.normal(size=(n, m)) * 0.3
    P.xl, P.xu = np.full(m, -99.0), np.full(m, 99.0)
    eta = -np.abs(rng.normal(size=m)) - 0.1
    rs = ReferenceSet(R.copy(), eta={0: eta})
    close_ = rng.random(n) < 0.5
    if not matching:
        close_[:] = rng.integers(2)
    # members start near their shifted target; far ones too far for the kernel to attract within the iterations
    X = R + 0.08 * eta + np.where(close_[:, None], rng.normal(size=(n, m)) * 0.02, 0.45 * rng.choice([-1, 1], size=(n, m)) / np.sqrt(m))
    c.describe(X=X, R=R, eta=eta, matching=matching)
    opt = make(P, X.copy(), rs, matching, "rbf", 1.0, max_iters=30)
    T = None
    for it in range(12):
        Y = opt.state.Y.copy()
        step = None if it == 0 else opt.step.copy()
        opt.newton_iteration()
        opt.log()
        T1 = np.array(rs.reference_set)
        if it > 0:
            dist = np.linalg.norm(Y - T, axis=1)
            sn = np.linalg.norm(step, axis=1)
            if np.min(np.abs(np.r_[dist, sn] - 1e-8)) < 1e-10:
                return
            moved = (dist <= 1e-8) & (sn <= 1e-8)
            c.saw(Y, it, n=1)
            c.count("targets moved", int(moved.sum()))
            if not c.close(T1, T + 0.08 * eta * moved[:, None], "targets-move-on", f"targets in iteration {it}; reached: {moved}", rtol=0, atol=1e-12):
                return
        T = T1
    c.sample(matching=matching, R=R, X=X, final=opt.state.primal)


@monitor("P12", quick=50, thorough=600)
def convergence(c):
    """a fixed target configuration: near a non-degenerate minimiser of the (matched) MMD the residual drops to rounding level,
    and the converged set is stationary for the closed-form MMD, tangentially to the equality constraint"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    P = random_problem(rng, constrained=str(rng.choice(["none", "eq"])), dmax=3)
    n = gen.few(rng, 1, 4, 16)
    X, _ = start(rng, P, n)
    X = np.clip(X, -0.9, 0.9)
    n = len(X)
    matching = bool(rng.integers(2))
    R = np.array([P.F(x) for x in X + rng.normal(size=X.shape) * 0.1]) - 0.2
    rs = ReferenceSet(R.copy(), eta={0: np.full(P.m, -1.0)})
    c.describe(X=X, R=R, matching=matching, A=P.A, C=P.C, eq=P.eq)
    opt = make(P, X.copy(), rs, matching, "rbf", 0.5, preconditioning=True, max_iters=50)
    for _ in range(30):
        opt.newton_iteration()
        opt.log()
        if np.linalg.norm(opt.R) < 1e-10:
            break
    full = np.linalg.norm(opt.R)
    c.count(f"converged: {full < 1e-9}")
    if not full < 1e-9:
        c.saw(X, n=0)
        return
    Xs, T = opt.state.primal.copy(), np.array(rs.reference_set)
    c.saw(Xs, n=n)
    M = MMDNModel(P, matching, "rbf", 0.5)
    f = lambda Z: M.value(np.array([P.F(z) for z in Z]), T)
    e = 1e-5
    for i in range(n):
        g = np.zeros(P.d)
        for k in range(P.d):
            U = np.zeros_like(Xs)
            U[i, k] = e
            g[k] = (f(Xs + U) - f(Xs - U)) / (2 * e)
        if P.n_eq:
            c.require(np.abs(P.h(Xs[i])).max() < 1e-6, "constraint", f"converged member {i} violates the equality: {P.h(Xs[i])}")
            g = P.tangential(Xs[i], g)
        c.require(np.linalg.norm(g) < 1e-6, "not-stationary", f"converged member {i}: the indicator still changes along {g}")
