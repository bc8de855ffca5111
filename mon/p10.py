"""P10: the hypervolume Newton method."""
import numpy as np

from . import gen
from .core import Skip, monitor
from .models import HVNModel, Prob, drop_duplicates, random_problem
from .oracles import dominates, hv_grid


def feasible_start(rng, P, n):
    X = []
    for _ in range(4000):
        x = rng.uniform(-1.2, 1.2, size=P.d)
        if P.eq is not None:
            kind, a, b = P.eq
            x = a + (x - a) / np.linalg.norm(x - a) * b if kind == "sphere" else x - a * (a @ x - b)
            for _ in range(8 if P.th or P.n_eq > 1 else 0):
                x = x - np.linalg.pinv(P.h_jac(x)) @ P.h(x)
            if np.abs(P.h(x)).max() > 1e-9:
                continue
        if np.all(x > P.xl) and np.all(x < P.xu) and (P.n_ieq == 0 or np.all(P.g(x) < -1e-3)):
            X.append(x)
            if len(X) == n:
                return np.array(X)
    raise Skip("no feasible start found")


def start(rng, P, n):
    mode = str(rng.choice(["random", "feasible", "mixed"]))
    if mode == "random":
        return rng.uniform(-1.2, 1.2, size=(n, P.d)), mode
    X = feasible_start(rng, P, n)
    if mode == "mixed":
        k = int(rng.integers(n))
        X[:k] = rng.uniform(-1.2, 1.2, size=(k, P.d))
    return X, mode


def make(P, X, ref, **kw):
    from hvd.newton import HVN

    return HVN(
        n_var=P.d, n_obj=P.m, func=P.F, jac=P.J, hessian=P.H, ref=ref, X0=X, xl=P.xl.copy(), xu=P.xu.copy(), verbose=False,
        **P.kwargs(), **kw,
    )


@monitor("P10", quick=700, thorough=15000)
def iteration(c):
    """one or more iterations against a reference model of the method: duplicate removal, feasibility/dominance partition,
    Newton-KKT system of each partition, common Armijo step length per partition; objective values refreshed"""
    rng = c.rng
    P = random_problem(rng, nonconvex=rng.random() < 0.3, bent=rng.random() < 0.5)
    n = gen.few(rng, 1, 7 if P.m == 2 else 5, 25 if P.m == 2 else 9)
    X, mode = start(rng, P, n)
    limit = bool(rng.random() < 0.3)
    if limit:
        X = gen.graze(rng, np.clip(X, P.xl, P.xu), P.xl, P.xu)
    if rng.random() < 0.2:
        P.u = float(10.0 ** rng.uniform(-3, 3))
    dup = rng.random() < 0.25 and n > 1
    if dup:
        i, j = rng.choice(n, 2, replace=False)
        X[i] = X[j] + (0 if rng.integers(2) else 1e-10)
        c.count("with duplicates")
    Y = np.array([P.F(x) for x in X])
    ref = Y.max(0) + P.u * rng.uniform(0.1, 2.0, size=P.m)
    pre = bool(rng.random() < 0.3)
    c.describe(X=X, ref=ref, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq, pre=pre, limit=limit)
    opt = make(P, X.copy(), ref.copy(), max_iters=4, preconditioning=pre, limit_max_step_size=limit)
    model = HVNModel(P, ref, pre, limit)
    Xm, Lm = X.copy(), np.full((n, P.n_eq + P.n_ieq), 1.0 / n)
    for it in range(gen.few(rng, 1, 4, 15)):
        keep = drop_duplicates(Xm)
        Xm, Lm = Xm[keep], Lm[keep]
        X1, L1, info = model.iterate(Xm, Lm)
        # where the model itself reacts to a perturbation far below the tolerances, no comparison is possible
        X2, L2, info2 = model.iterate(Xm + rng.normal(size=Xm.shape) * 1e-10, Lm)
        stable = len(info) == len(info2) and all(
            np.array_equal(q["idx"], r["idx"]) and q["usable"] and r["usable"] and q["s"] == r["s"] and q["gap"] > 1e-7 * P.u
            and np.abs(X1[q["idx"]] - X2[q["idx"]]).max() < 1e-6 for q, r in zip(info, info2)
        )
        opt.iterate()
        st = opt.state
        if not c.require(len(st.primal) == len(Xm), "duplicates", f"{len(st.primal)} points remain, {len(Xm)} are distinct (to 1e-8)"):
            return
        c.require(opt.N == len(Xm), "N", f"N={opt.N} with {len(Xm)} points")
        c.close(st.Y, np.array([P.F(x) for x in st.primal]), "Y", "objective values of the new points", rtol=1e-12)
        good = True
        for q in info:
            if not q["usable"]:
                good = False
                continue
            idx = q["idx"]
            c.saw(Xm[idx], Lm[idx], n=1)
            c.count(f"partition of {len(idx)}, cond<1e8: {q['cond'] < 1e8}")
            if q["cond"] < 1e8 and stable:
                c.count(f"step {round(np.log2(q['s'] / q['smax'])) if q['smax'] > 0 else 0} halvings")
                tol = 1e-13 * q["cond"] + 1e-9
                scale = max(1.0, np.abs(X1[idx] - Xm[idx]).max(), np.abs(L1[idx]).max() if L1.size else 0)
                c.close(st.primal[idx], X1[idx], "newton-step", f"points of partition {idx.tolist()} after iteration {it} ({mode})", rtol=0, atol=tol * scale)
                c.close(st.dual[idx], L1[idx], "newton-step-dual", f"multipliers of partition {idx.tolist()} after iteration {it}", rtol=0, atol=tol * scale)
            else:
                good = False
                c.count("unstable" if not stable else "ill-conditioned")
                # singular system: the step is a least-squares solution
                step = getattr(opt, "step", None)
                if step is not None and q["cond"] > 1e13:
                    z = np.r_[step[idx, : P.d].ravel(), [step[idx[i], P.d + j] for i, j in q["where"]]]
                    best = np.linalg.norm(q["A"] @ np.linalg.lstsq(q["A"], -q["b"], rcond=None)[0] + q["b"])
                    got = np.linalg.norm(q["A"] @ z + q["b"])
                    c.count("singular systems")
                    c.require(got <= best * (1 + 1e-6) + 1e-6 * (1 + np.linalg.norm(q["b"])), "singular-step", f"residual {got} of the step of a singular system, least squares attains {best}")
        if not good:
            return
        Xm, Lm = st.primal.copy(), st.dual.copy()
    c.sample(X0=X, mode=mode, ref=ref, final=Xm)


@monitor("P10", quick=80, thorough=800)
def convergence(c):
    """started close to a hypervolume-optimal set the method converges: the residual drops to rounding level, the result is
    stationary (finite differences of the hypervolume itself, tangentially to the constraints), feasible, and not worse"""
    rng = c.rng
    kind = str(rng.choice(["none", "eq"]))
    P = random_problem(rng, constrained=kind, mmax=2)
    n = gen.few(rng, 1, 6, 25)
    if kind == "none":
        W = np.sort(rng.uniform(0.05, 0.95, size=n))
        X = np.array([np.linalg.solve(w * P.A[0] + (1 - w) * P.A[1], w * P.A[0] @ P.C[0] + (1 - w) * P.A[1] @ P.C[1]) for w in np.linspace(0.15, 0.85, n)])
    else:
        X = feasible_start(rng, P, n)
    Y = np.array([P.F(x) for x in X])
    ref = Y.max(0) + 3.0
    c.describe(X=X, ref=ref, A=P.A, C=P.C, eq=P.eq)
    opt = make(P, X.copy(), ref, max_iters=40)
    opt.run()
    hist = np.array(opt.history_R_norm)
    Xf = opt.state.primal
    c.count(f"{kind}: converged {hist[-1] < 1e-8}")
    # every converged run must really be stationary
    full = np.linalg.norm(opt.R)
    if not full < 1e-8:
        # close starts of unconstrained convex problems must converge
        c.saw(X, n=0)
        return
    c.saw(X, n=2)
    if kind == "eq":
        c.require(max(np.abs(P.h(x)).max() for x in Xf) < 1e-6, "converged-infeasible", "converged point violates the equality constraint")
    Yf = np.array([P.F(x) for x in Xf])
    nd = [i for i in range(len(Yf)) if not any(dominates(Yf[j], Yf[i]) for j in range(len(Yf)))]
    eps = 1e-5
    for i in nd:
        if np.any(Yf[i] >= ref):
            continue
        g = np.zeros(P.d)
        for k in range(P.d):
            v = []
            for s in (eps, -eps):
                Z = Xf.copy()
                Z[i, k] += s
                v.append(hv_grid(np.array([P.F(z) for z in Z]), ref))
            g[k] = (v[0] - v[1]) / (2 * eps)
        if kind == "eq":
            g = P.tangential(Xf[i], g)
        c.require(np.linalg.norm(g) < 1e-4, "not-stationary", f"member {i} of a converged set: hypervolume still changes along {g}", Xf=Xf)


@monitor("P10", quick=60, thorough=600)
def locality(c):
    """quadratic convergence near a solution: perturbing a converged set slightly, the residual contracts quadratically"""
    rng = c.rng
    P = random_problem(rng, constrained="none", mmax=2)
    n = gen.few(rng, 1, 5, 25)
    X = np.array([np.linalg.solve(w * P.A[0] + (1 - w) * P.A[1], w * P.A[0] @ P.C[0] + (1 - w) * P.A[1] @ P.C[1]) for w in np.linspace(0.2, 0.8, n)])
    ref = np.array([P.F(x) for x in X]).max(0) + 3.0
    c.describe(A=P.A, C=P.C, ref=ref, n=n)
    opt = make(P, X, ref, max_iters=60)
    opt.run()
    if not np.linalg.norm(opt.R) < 1e-9 or opt.N != n:
        raise Skip("no solution to perturb")
    S = opt.state.primal.copy()
    _, Hs = opt.indicator.compute_derivatives(S)
    if np.linalg.cond(Hs) > 1e3:
        raise Skip("degenerate solution")
    eps = 1e-3
    o2 = make(P, S + rng.normal(size=S.shape) * eps, ref, max_iters=6)
    R = []
    for _ in range(6):
        o2.iterate()
        o2.log()
        R.append(np.linalg.norm(o2.R))
    c.saw(S, n=1)
    c.require(np.linalg.norm(o2.state.primal - S) < 1e-6, "local-convergence", f"perturbed by {eps}, residuals {R}: did not return to the solution")
    c.require(R[2] < 1e-3 * R[0] and R[4] < 1e-8, "local-rate", f"residuals {R}")


@monitor("P10", quick=120, thorough=1500)
def dominated_points(c):
    """without constraints every dominance layer moves on its own: a layer's step does not depend on the other layers, and the
    order of the population is irrelevant"""
    rng = c.rng
    P = random_problem(rng, constrained="none")
    n = int(rng.integers(2, 7))
    X = rng.uniform(-1.2, 1.2, size=(n, P.d))
    Y = np.array([P.F(x) for x in X])
    ref = Y.max(0) + 1.0
    c.describe(X=X, ref=ref, A=P.A, C=P.C)
    model = HVNModel(P, ref)
    parts = model.partitions(X)
    whole = make(P, X.copy(), ref, max_iters=1)
    whole.iterate()
    if any(np.linalg.cond(model.system(X[p], np.zeros((len(p), 0)))[0]) > 1e8 for p in parts):
        raise Skip("singular")
    q = rng.permutation(n)
    perm = make(P, X[q].copy(), ref, max_iters=1)
    perm.iterate()
    c.saw(X, n=1 + len(parts))
    c.close(perm.state.primal, whole.state.primal[q], "permutation", "iteration of the permuted population", rtol=1e-6, atol=1e-6)
    for p in parts:
        alone = make(P, X[p].copy(), ref, max_iters=1)
        alone.iterate()
        c.close(alone.state.primal, whole.state.primal[p], "layer", f"layer {p.tolist()} iterated on its own", rtol=1e-6, atol=1e-6)
