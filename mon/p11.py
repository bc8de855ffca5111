"""P11: the Delta_p Newton method."""
import numpy as np
from scipy.spatial.distance import directed_hausdorff

from . import gen
from .core import Skip, monitor
from .models import DpNModel, Prob, random_problem
from .p10 import feasible_start, start


def reference(rng, P, n, extra=8):
    """reference points around the image of the box's central part, in general position"""
    X = rng.uniform(-0.8, 0.8, size=(n + int(rng.integers(0, extra)), P.d))
    Y = np.array([P.F(x) for x in X])
    return Y - P.u * rng.uniform(0.0, 0.6) * np.abs(rng.normal(size=Y.shape))


def make(P, X, rs, kind, **kw):
    from hvd.newton import DpN

    return DpN(
        dim=P.d, n_obj=P.m, func=P.F, jac=P.J, hessian=P.H, ref=rs, xl=P.xl.copy(), xu=P.xu.copy(), type=kind, x0=X,
        verbose=False, **P.kwargs(), **kw,
    )


@monitor("P11", quick=500, thorough=10000)
def iteration(c):
    """iterations against a model of the method: indicator values, matching and shifts of the targets, choice of the larger
    indicator, per-point Newton-KKT step, projection at the box, accepted step length; one- and multi-component references"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    P = random_problem(rng, nonconvex=rng.random() < 0.25, bent=rng.random() < 0.5)
    if rng.random() < 0.4:  # tight box: bounds become active
        P.xl, P.xu = np.full(P.d, -0.9), np.full(P.d, 0.9)
        c.count("tight box")
    if rng.random() < 0.2:
        P.u = float(10.0 ** rng.uniform(-2, 3))
    n = gen.few(rng, 1, 6, 40)
    X, mode = start(rng, P, n)
    X = gen.graze(rng, np.clip(X, P.xl, P.xu), P.xl, P.xu)
    kind = str(rng.choice(["gd", "igd", "deltap"]))
    pre = bool(rng.random() < 0.3)
    R = reference(rng, P, n)
    near = rng.random() < 0.2
    if near:  # population close to the reference: GD and IGD both small
        R = np.r_[np.array([P.F(x) for x in X]) + rng.normal(size=(n, P.m)) * 0.02, R[: len(R) - n]]
    multi = n > 1 and rng.random() < 0.4
    if multi:  # two components; the members belong to the closest one
        w = rng.normal(size=P.m)
        w -= w.mean()
        R1 = reference(rng, P, n) + w * rng.choice([1.0, 4.0])
        D = np.array([np.sqrt(((np.array([P.F(x) for x in X])[:, None] - r[None]) ** 2).sum(-1)).min(1) for r in (R, R1)])
        comp = D.argmin(0)
        multi = 0 < comp.sum() < n and np.abs(D[0] - D[1]).min() > 1e-6
    if multi:
        ref = {0: R, 1: R1}
        eta = {k: -np.abs(rng.normal(size=P.m)) for k in ref}
        rs = ReferenceSet(ref, eta=eta, Y_idx=None if rng.integers(2) else [np.nonzero(comp == k)[0] for k in (0, 1)])
        eta_of = None
        pool = np.concatenate([R, R1])
        c.count("two components")
    else:
        comp = np.zeros(n, int)
        eta = -np.abs(rng.normal(size=P.m))
        rs = ReferenceSet(R.copy(), eta={0: eta})
        eta_of = lambda t: eta
        pool = R
    c.describe(X=X, R=R, kind=kind, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq, pre=pre, multi=multi, comp=comp, xl=P.xl, xu=P.xu)
    opt = make(P, X.copy(), rs, kind, preconditioning=pre, max_iters=9)
    M = DpNModel(P, pool, eta_of, kind, pre)
    L = np.zeros((n, P.n_eq + P.n_ieq))
    for it in range(gen.few(rng, 1, 5, 20)):
        Y = np.array([P.F(x) for x in X])
        if multi:  # the clusters must keep their component (P07) for the model to apply
            hd = np.array([[directed_hausdorff(ref[k], Y[comp == j])[0] for j in (0, 1)] for k in (0, 1)])
            if not hd[0, 0] + hd[1, 1] < hd[0, 1] + hd[1, 0] - 1e-9:
                c.count("components and clusters cross")
                return
        opt.newton_iteration()
        opt.log()
        st = opt.state
        X1, L1, T1 = st.primal.copy(), st.dual.copy(), rs.reference_set.copy()
        if it == 0:
            # the selection of targets is P07's business: undo the first shift to recover it
            e = np.array([eta[k] for k in comp]) if multi else np.tile(eta, (n, 1))
            chosen = T1 - 0.08 * e
        if multi:
            ok = begin_multi(M, Y, chosen if it == 0 else None, comp, eta, it)
        else:
            M.begin(Y, chosen if it == 0 else None)
        c.saw(X, L, it, n=4)
        c.count(f"{kind}->{M.active}")
        c.close(opt.history_indicator_value[-1], max(M.gd, M.igd), "indicator", f"indicator value of iteration {it}", rtol=1e-9)
        if abs(M.gd - M.igd) < 1e-9 * max(1, M.gd) or (it > 0 and M.shift_margin < 1e-10):
            return
        if not c.close(np.sort(T1.ravel()), np.sort(M.T.ravel()), "targets", f"matched targets in iteration {it}", rtol=1e-8, atol=1e-8):
            return
        if not np.allclose(T1, M.T, rtol=1e-7, atol=1e-8):
            # an equally good or better assignment is fine
            c.require(np.linalg.norm(Y - T1, axis=1).sum() <= np.linalg.norm(Y - M.T, axis=1).sum() * (1 + 1e-9) or M.active == "gd", "assignment", f"targets of iteration {it} are not optimally assigned")
            if M.active == "igd":
                return
        c.close(st.Y, np.array([P.F(x) for x in X1]), "Y", "objective values of the new points", rtol=1e-12)
        steps = np.zeros((n, P.d))
        clean = True
        for i in range(n):
            A, r, act = M.newton(i, X[i], L[i])
            cond = np.linalg.cond(A)
            move, dmove = X1[i] - X[i], L1[i] - L[i]
            c.require(not np.any(dmove[~act]), "inactive-multiplier", f"multiplier of an inactive constraint of member {i} changed", dmove=dmove, act=act)
            if cond > 1e8:
                clean = False
                c.count("ill-conditioned")
                # singular systems: least-squares step (full step, no bound active)
                continue
            z = -np.linalg.solve(A, r)
            p, q = z[: P.d], np.zeros(L.shape[1])
            q[act] = z[P.d :]
            p, smax = M.project(X[i], p)
            full = np.r_[p, q]
            nn = full @ full
            if nn < 1e-16:
                c.require(np.linalg.norm(np.r_[move, dmove]) < 1e-7, "spurious-move", f"member {i} moved although its Newton step vanishes")
                steps[i] = p
                continue
            s = float(np.r_[move, dmove] @ full / nn)
            tol = 1e-12 * cond + 1e-9
            c.saw(X[i], L[i], it)
            if not c.close(np.r_[move, dmove], s * full, "newton-step", f"member {i}, iteration {it}, {M.active}: displacement vs. multiple of the Newton step", rtol=0, atol=tol * max(1.0, np.abs(full).max())):
                return
            # step length: full if it satisfies the sufficient decrease, else a contraction that does (or the last one tried)
            phi0 = np.linalg.norm(r)
            if phi0 < 1e-7:
                steps[i] = p
                continue
            phi = lambda a: np.linalg.norm(M.residual(i, X[i] + a * p, L[i] + a * q)[0])
            c.count("bound active" if smax < 1 else "free")
            if smax == 0:
                c.require(abs(s) < 1e-9, "blocked", f"member {i} moved through a bound")
                continue
            m = phi(smax) - (1 - 1e-4 * smax) * phi0
            stable = np.sign(m) == np.sign(phi(smax * (1 - 1e-9)) - (1 - 1e-4 * smax) * phi0) and abs(m) > 1e-8 * phi0
            et = 1e-6 + tol / np.sqrt(nn)
            if m <= 0 and stable:
                c.count("full step")
                c.require(abs(s - smax) <= et, "step-length", f"member {i}: step length {s}, although {smax} gives a sufficient decrease")
            elif stable:
                c.count("contracted")
                dec = phi(s) <= (1 - 1e-4 * s) * phi0 + 1e-6 * phi0
                last = 0.4**8 * smax * 0.99 <= s + et and s <= 0.6**8 * smax * 1.01 + et
                c.require(s <= 0.6 * smax + et and (dec or last), "step-length-contracted", f"member {i}: step length {s} (largest {smax}): no sufficient decrease, nor the end of the contractions")
            steps[i] = p
        if not clean:
            return
        M.step = steps
        M.it += 1
        M.T, M.T_eta = T1, (np.array([eta[k] for k in comp]) if multi else M.T_eta)
        X, L = X1, L1
    c.sample(kind=kind, mode=mode, X=X, targets=M.T)


def begin_multi(M, Y, chosen, comp, eta, it):
    """as DpNModel.begin, with the matching confined to the components"""
    from scipy.optimize import linear_sum_assignment

    E = np.array([eta[k] for k in comp])
    d = lambda A, B: np.sqrt(((A[:, None] - B[None]) ** 2).sum(-1))
    ref = M.pool if it == 0 else M.T
    M.gd = np.sqrt(np.mean(d(Y, ref).min(1) ** 2))
    if it == 0:
        M.T = chosen.copy()
    M.T_eta = E

    def match():
        for k in (0, 1):
            sel = np.nonzero(comp == k)[0]
            if len(sel):
                a = linear_sum_assignment(d(Y[sel], M.T[sel]))[1]
                M.T[sel] = M.T[sel][a]

    match()
    M.igd = np.mean(((Y - M.T) ** 2).sum(1))
    if it == 0:
        shifted, cc = np.ones(len(Y), bool), 0.08
        M.shift_margin = np.inf
    else:
        dist = np.linalg.norm(Y - M.T, axis=1)
        sn = np.linalg.norm(M.step, axis=1)
        shifted, cc = (dist <= 1e-8) & (sn <= 1e-8), 0.05
        M.shift_margin = np.min(np.abs(np.r_[dist, sn] - 1e-8))
    M.T = M.T + cc * E * shifted[:, None]
    M.active = M.kind if M.kind != "deltap" else ("gd" if M.gd > M.igd else "igd")
    if M.active == "igd":
        match()


@monitor("P11", quick=80, thorough=1000)
def convergence(c):
    """near a solution the method converges quadratically; the solution is a first-order optimal answer to its target:
    no feasible direction (finite differences) decreases the distance, and constraints hold"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    P = random_problem(rng, constrained=str(rng.choice(["none", "eq"])))
    n = gen.few(rng, 1, 5, 40)
    X = feasible_start(rng, P, n)
    kind = str(rng.choice(["igd", "gd", "deltap"]))
    R = reference(rng, P, n, extra=1) - 0.3
    c.describe(X=X, R=R, kind=kind, A=P.A, C=P.C, eq=P.eq)
    opt = make(P, X.copy(), ReferenceSet(R), kind, max_iters=40)
    for _ in range(40):
        opt.newton_iteration()
        opt.log()
        if np.linalg.norm(opt.R) < 1e-9:
            break
    ok = np.linalg.norm(opt.R) < 1e-9
    c.count(f"converged: {ok}")
    if not ok:
        c.saw(X, n=0)
        return
    Xs, T = opt.state.primal.copy(), opt.ref.reference_set.copy()
    act = opt.active_indicator.__class__.__name__
    c.saw(Xs, n=n)
    if np.any(np.abs(Xs - P.xl) < 1e-3) or np.any(np.abs(P.xu - Xs) < 1e-3):
        return
    for i in range(n):
        y = P.F(Xs[i])
        t = T[i] if "Inverted" in act else T[np.argmin(((T - y) ** 2).sum(1))]
        f = lambda x: ((P.F(x) - t) ** 2).sum()
        e = 1e-5
        g = np.array([(f(Xs[i] + e * u) - f(Xs[i] - e * u)) / (2 * e) for u in np.eye(P.d)])
        if P.n_eq:
            c.require(np.abs(P.h(Xs[i])).max() < 1e-6, "constraint", f"converged member {i} violates the equality: {P.h(Xs[i])}")
            g = P.tangential(Xs[i], g)
        c.require(np.linalg.norm(g) < 1e-4, "not-stationary", f"converged member {i}: the distance to its target still changes along {g}")
    # perturb and come back
    if P.n_eq == 0 and n and np.min(np.linalg.norm(opt.state.Y - T, axis=1)) > 1e-3:
        Hs = opt.active_indicator.compute_derivatives(X=Xs, Y=opt.state.Y.copy())[1]
        if max(np.linalg.cond(h) for h in Hs) < 1e3 and min(np.linalg.eigvalsh(h).min() for h in Hs) > 1e-2:
            opt.state.update(np.c_[Xs + rng.normal(size=Xs.shape) * 1e-4, opt.state.dual])
            r = []
            for _ in range(5):
                opt.newton_iteration()
                opt.log()
                r.append(np.linalg.norm(opt.R))
            c.count("perturbed")
            c.require(r[-1] < 1e-7 and np.abs(opt.state.primal - Xs).max() < 1e-5, "local-rate", f"residuals after a perturbation of 1e-4: {r}")


@monitor("P11", quick=80, thorough=1500)
def attained_targets(c):
    """members that sit on their targets and do not move (although multipliers may still change) get new targets further
    along the shift direction in the next iteration, nobody else does"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    P = random_problem(rng, constrained=str(rng.choice(["none", "eq", "eq", "ieq", "both"])), bent=rng.random() < 0.5)
    n = gen.few(rng, 1, 6, 40)
    X = feasible_start(rng, P, n)
    Y = np.array([P.F(x) for x in X])
    gap = np.sqrt(((Y[:, None] - Y[None]) ** 2).sum(-1))[np.triu_indices(n, 1)]
    if len(gap) and gap.min() < 0.05:
        raise Skip("members too close")
    eta = -np.abs(rng.normal(size=P.m)) - 0.1
    eta /= np.linalg.norm(eta)
    on = rng.random(n) < 0.6
    off = rng.normal(size=(n, P.m)) * 0.004
    T = np.where(on[:, None], Y, Y + off)
    kind = str(rng.choice(["igd", "gd", "deltap"]))
    rs = ReferenceSet(T - 0.08 * eta, eta={0: eta.copy()})
    opt = make(P, X.copy(), rs, kind, max_iters=5)
    dual = rng.normal(size=(n, P.n_eq + P.n_ieq)) * rng.integers(0, 2, size=(n, 1))
    for i in range(n):
        dual[i, ~P.cstr(X[i])[1]] = 0
    if dual.size:
        opt.state.update(np.c_[X, dual])
    c.describe(X=X, T=T, on=on, dual=dual, kind=kind, eta=eta, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq)
    opt.newton_iteration()
    opt.log()
    T1 = rs.reference_set.copy()
    if not c.close(T1, T, "first-shift", "targets after the first iteration (all shifted by 0.08 along the direction)", atol=1e-9):
        return
    X1 = opt.state.primal.copy()
    move = np.linalg.norm(X1 - X, axis=1)
    dist = np.linalg.norm(opt.state.Y - T1, axis=1)
    want = (move <= 1e-8) & (dist <= 1e-8)
    if np.any((np.abs(move - 1e-8) < 9e-9) & (move > 1e-15)) or np.any((np.abs(dist - 1e-8) < 9e-9) & (dist > 1e-15)):
        return
    # a member at rest that the line search did not move for another reason is outside this observation
    if np.any((move <= 1e-8) & ~on):
        return
    opt.newton_iteration()
    opt.log()
    T2 = rs.reference_set.copy()
    c.saw(X, T, dual, n=n)
    c.count("members at rest", int(want.sum()))
    c.count("at rest with changing multipliers", int((want & np.any(np.abs(dual) > 1e-6, axis=1)).sum()))
    exp = T1 + 0.05 * eta * want[:, None]
    key = lambda A: A[np.lexsort(np.round(A, 7).T)]
    got = np.sqrt(((T2[:, None] - exp[None]) ** 2).sum(-1)).min(1)
    back = np.sqrt(((T2[:, None] - exp[None]) ** 2).sum(-1)).min(0)
    c.require(max(got.max(), back.max()) < 1e-7, "shift-mask", f"targets after the second iteration; members to be shifted: {want.tolist()}", got=T2, want=exp)
