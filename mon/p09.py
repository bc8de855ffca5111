"""P09: feasibility flags and first-order optimality certificates."""
import numpy as np
from scipy.optimize import linprog

from .core import Skip, monitor


def make_state(F, J, H=None, DH=None, G=None, DG=None, X=None, n_eq=0, n_ieq=0):
    from hvd.base import State

    kw = {}
    if n_eq:
        kw.update(h=H, h_jac=DH)
    if n_ieq:
        kw.update(g=G, g_jac=DG)
    st = State(X.shape[1], n_eq, n_ieq, F, J, **kw)
    st.update(np.c_[X, np.zeros((len(X), n_eq + n_ieq))])
    return st


@monitor("P09", quick=1500, thorough=30000)
def feasibility(c):
    """flags: feasible iff every |h| <= 1e-4 and no inequality is active (g >= -1e-4); equalities always active"""
    rng = c.rng
    d, n = int(rng.integers(1, 4)), int(rng.integers(1, 7))
    n_eq, n_ieq = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    near = np.array([0, 1e-4, -1e-4, 9e-5, -9e-5, 1.1e-4, -1.1e-4, 5e-5, -5e-5, 1e-3, -1e-3, 1, -1, -10, 2, 1e-9, -1e-9])
    VH = rng.choice(near, size=(n, n_eq), p=np.r_[0.4, np.full(16, 0.6 / 16)])
    VG = rng.choice(near, size=(n, n_ieq), p=np.r_[np.full(13, 0.5 / 13), 0.5, np.full(3, 0.0)])
    X = np.arange(n)[:, None] + np.zeros((n, d))
    tab = lambda V: (lambda x: V[int(round(x[0]))])
    st = make_state(
        lambda x: np.zeros(2), lambda x: np.zeros((2, d)), tab(VH), lambda x: np.zeros((n_eq, d)), tab(VG),
        lambda x: np.zeros((n_ieq, d)), X=X, n_eq=n_eq, n_ieq=n_ieq,
    )
    got = st.is_feasible()
    c.describe(H=VH, G=VG)
    c.saw(VH, VG, n=n)
    c.require(np.shape(got) == (n,), "shape", f"feasibility flags have shape {np.shape(got)}")
    for i in range(n):
        if np.any(np.isclose(np.abs(VH[i]), 1e-4, rtol=1e-9)) or np.any(np.isclose(VG[i], -1e-4, rtol=1e-9)):
            c.count("on the threshold")
            if np.any(np.isclose(VG[i], -1e-4, rtol=1e-9)):
                continue
            if np.any(np.isclose(np.abs(VH[i]), 1e-4, rtol=1e-9)):
                continue
        want = bool(np.all(np.abs(VH[i]) <= 1e-4) and np.all(VG[i] < -1e-4))
        c.count("feasible" if want else "infeasible")
        c.require(bool(got[i]) == want, "flag", f"point with h={VH[i]}, g={VG[i]} is flagged {bool(got[i])}")
        c.require(
            np.array_equal(st.active_indices[i], np.r_[np.ones(n_eq, bool), VG[i] >= -1e-4]), "active",
            f"active set of g={VG[i]}: {st.active_indices[i]}",
        )
    c.sample(H=VH, G=VG, flags=got)


def residual(JF, JH, JG):
    """minimal inf-norm stationarity residual: independent formulation (different LP layout and solver)"""
    m, d = JF.shape
    p, q = len(JH), len(JG)
    # variables: lambda(m), mu+(p), mu-(p), nu(q), t
    A = np.c_[JF.T, JH.T.reshape(d, p), -JH.T.reshape(d, p), JG.T.reshape(d, q)]
    n = A.shape[1]
    Aub = np.r_[np.c_[A, -np.ones(d)], np.c_[-A, -np.ones(d)]]
    r = linprog(
        np.r_[np.zeros(n), 1.0], A_ub=Aub, b_ub=np.zeros(2 * d), A_eq=np.r_[np.ones(m), np.zeros(n - m + 1)][None],
        b_eq=[1.0], bounds=[(0, None)] * (n + 1), method="highs-ipm",
    )
    return r.x[-1] if r.success else np.nan


@monitor("P09", quick=700, thorough=12000)
def kkt(c):
    """flag set iff feasible (within tolerance) and the best convex combination of objective gradients plus multipliers of
    equalities (any sign) and active inequalities (non-negative) is stationary: certificates constructed to hold, to fail
    by sign / by an inactive constraint / by infeasibility, and random ones against an independent linear program"""
    rng = c.rng
    d, m = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    p, q = int(rng.integers(0, min(3, d))), int(rng.integers(0, 3))
    n = int(rng.integers(1, 5))
    JF, JH, JG = rng.normal(size=(n, m, d)), rng.normal(size=(n, p, d)), rng.normal(size=(n, q, d))
    VH, VG = np.zeros((n, p)), np.zeros((n, q))
    kinds, tols = [], [1e-4, 1e-4, 1e-4]
    if rng.random() < 0.3:
        tols = [float(10 ** rng.uniform(-6, -1)) for _ in range(3)]
    elif rng.random() < 0.3:  # tolerances met exactly
        tols = [float(rng.choice([0.0, 0.25, 2.0**-12])) for _ in range(3)]
        tols[0] = max(tols[0], 2.0**-12) if rng.random() < 0.8 else 0.0
    exact = tols[1] in (0.0, 0.25, 2.0**-12)
    for i in range(n):
        kind = str(rng.choice(["edge", "edge", "kkt", "kkt", "infeasible-h", "infeasible-g"] if exact else ["kkt", "random", "wrong-sign", "inactive", "infeasible-h", "infeasible-g", "nan", "residual"]))
        lam = rng.dirichlet(np.ones(m))
        if rng.random() < 0.3:
            lam = np.eye(m)[rng.integers(m)]
        mu, nu = rng.normal(size=p), rng.random(q) + 0.1
        VG[i] = rng.choice([0.0, -tols[2] * 0.5], size=q)
        if kind != "random":
            # choose the first used objective so that the combination vanishes
            k = int(np.argmax(lam))
            rest = sum(lam[j] * JF[i, j] for j in range(m) if j != k) + mu @ JH[i] + nu @ JG[i]
            JF[i, k] = -rest / lam[k]
        if kind == "residual":  # off stationarity by a controlled amount in one coordinate, single objective
            JF[i] = JF[i, int(np.argmax(lam))] + np.r_[float(rng.choice([0.2, 0.5, 2.0, 5.0])) * tols[0], np.zeros(d - 1)]
        if kind == "edge":  # constraint values sit on the tolerances; a vanishing gradient is stationary even at tolerance 0
            VH[i] = rng.choice([-1.0, 1.0, 0.0], size=p) * tols[1]
            VG[i] = rng.choice([tols[1], -tols[2], 0.0], size=q)
            if tols[0] == 0:
                JF[i], JH[i], JG[i] = 0.0, 0.0, 0.0
        if kind == "kkt" and tols[0] == 0:
            JF[i], JH[i], JG[i] = 0.0, 0.0, 0.0
        if kind == "wrong-sign" and q:
            JG[i] *= -1
        if kind == "inactive" and q:
            VG[i, rng.integers(q)] = -tols[2] * 3
        if kind == "infeasible-h" and p:
            VH[i, rng.integers(p)] = (tols[1] or 1e-9) * rng.choice([2.0, -2.0])
        if kind == "infeasible-g" and q:
            VG[i, rng.integers(q)] = (tols[1] or 1e-9) * 2
        if kind == "nan":
            if q and rng.integers(2):
                VG[i, 0] = np.nan
            else:
                JF[i, 0, 0] = np.nan
        kinds.append(kind)
    X = np.arange(n)[:, None] + np.zeros((n, d))
    tab = lambda V: (lambda x: V[int(round(x[0]))])
    st = make_state(lambda x: np.zeros(m), tab(JF), tab(VH), tab(JH), tab(VG), tab(JG), X=X, n_eq=p, n_ieq=q)
    got = st.check_KKT() if tols == [1e-4] * 3 else st.check_KKT(*tols)
    c.describe(kinds=kinds, tols=tols, JF=JF, JH=JH, JG=JG, VH=VH, VG=VG)
    c.require(np.shape(got) == (n,), "shape", f"KKT flags have shape {np.shape(got)}")
    for i in range(n):
        with np.errstate(invalid="ignore"):
            feas = np.all(np.abs(VH[i]) <= tols[1]) and np.all(VG[i] <= tols[1])
        act = VG[i] >= -tols[2]
        if not feas or not np.all(np.isfinite(JF[i])):
            want = False
        else:
            r = residual(JF[i], JH[i], JG[i][act])
            if kinds[i] in ("kkt", "edge") and not np.any(JF[i], axis=1).all():
                r = 0.0  # the weight can sit on a vanishing gradient
            elif not np.isfinite(r) or abs(r - tols[0]) < max(0.1 * tols[0], 1e-9):
                c.count("too close to the tolerance")
                continue
            want = r <= tols[0]
        c.count(f"{kinds[i]}:{want}")
        c.saw(JF[i], JH[i], JG[i], VH[i], VG[i])
        if kinds[i] == "kkt":
            c.require(want, "harness", "constructed certificate is not one for the oracle")
        c.require(bool(got[i]) == bool(want), f"kkt-{kinds[i]}", f"{kinds[i]} point flagged {bool(got[i])}, oracle says {bool(want)}", i=i)
    c.sample(kinds=kinds, flags=got, JF=JF, JH=JH, JG=JG)


@monitor("P09", quick=150, thorough=2000)
def kkt_problems(c):
    """on problems with known efficient sets: points of the set are certified, points moved off it are not; negative
    tolerances and missing derivatives are refused"""
    from hvd.base import State

    rng = c.rng
    d, m = int(rng.integers(2, 5)), int(rng.integers(2, 4))
    C = rng.normal(size=(m, d)) * 2
    F = lambda x: ((x - C) ** 2).sum(1)
    J = lambda x: 2 * (x - C)
    n = 6
    W = rng.dirichlet(np.ones(m), size=n)
    P = W @ C  # the efficient set is the convex hull of the minimisers
    if d >= m:
        Q, _ = np.linalg.qr((C[1:] - C[0]).T, mode="complete")
        off = P + Q[:, -1] * rng.choice([-0.3, 0.3])
    else:
        off = None
    h = None
    eq = bool(rng.integers(2)) and d > 1
    c.describe(C=C, P=P, eq=eq)
    if eq:  # sphere through the origin's neighbourhood: the constrained efficient set contains projections of hull points
        r = float(rng.uniform(0.5, 1.5))
        P = P / np.linalg.norm(P, axis=1, keepdims=True) * r
        st = make_state(F, J, lambda x: np.array([x @ x - r * r]), lambda x: 2 * x[None], X=P, n_eq=1)
        got = st.check_KKT()
        c.saw(P, n=n)
        # projecting a convex combination radially keeps stationarity: grad = 2(x - y), y parallel to x
        c.require(np.all(got), "known-set-eq", "radial projections of hull points are stationary on the sphere", got=got)
        st = make_state(F, J, lambda x: np.array([x @ x - r * r]), lambda x: 2 * x[None], X=P * 1.01, n_eq=1)
        c.require(not np.any(st.check_KKT()), "known-set-infeasible", "points off the sphere are certified")
        return
    st = make_state(F, J, X=P)
    got = st.check_KKT()
    c.saw(P, n=n)
    c.require(np.all(got), "known-set", "efficient points are not certified", got=got)
    if off is not None:
        st = make_state(F, J, X=off)
        c.require(not np.any(st.check_KKT()), "known-set-off", "points off the efficient set are certified")
    for k in range(3):
        t = [1e-4] * 3
        t[k] = -1e-3
        try:
            st.check_KKT(*t)
            c.fail("negative-tolerance", "a negative tolerance was accepted")
        except ValueError:
            pass
    st = State(d, 0, 0, F, J)
    st.update(P, compute_gradient=False)
    try:
        st.check_KKT()
        c.fail("missing-jacobian", "KKT flags were computed without Jacobians")
    except RuntimeError:
        pass
