"""P13: step-size control."""
import numpy as np

from . import gen
from .core import Skip, monitor
from .models import HVNModel, MMDNModel, DpNModel, Prob, random_problem
from .oracles import coordinate_gap
from .p10 import start
from .p10 import make as make_hvn
from .p11 import make as make_dpn
from .p11 import reference
from .p12 import make as make_mmd


class Rough(Prob):
    """strongly nonlinear: quadratic plus oscillation; full Newton steps frequently fail"""

    def __init__(self, rng, base):
        self.__dict__.update(base.__dict__)
        self.amp = rng.uniform(0.0, 1.0, size=self.m) * rng.choice([0.0, 0.3, 1.0])
        self.w = rng.normal(size=(self.m, self.d)) * 3.0
        self.b = rng.uniform(0, 6, size=self.m)

    def F(self, x):
        return super().F(x) + self.u * self.amp * np.sin(self.w @ x + self.b)

    def J(self, x):
        return super().J(x) + self.u * (self.amp * np.cos(self.w @ x + self.b))[:, None] * self.w

    def H(self, x):
        return super().H(x) - self.u * (self.amp * np.sin(self.w @ x + self.b))[:, None, None] * self.w[:, :, None] * self.w[:, None, :]


@monitor("P13", quick=2500, thorough=60000)
def routine(c):
    """the shared routine on synthetic merit functions (smooth, noisy, constant, NaN/inf beyond some step, residual at rounding
    level): trial points are the successive halvings starting at the maximum, the first acceptable one is returned, at most 6"""
    from hvd.line_search import backtracking_line_search

    rng = c.rng
    n = gen.few(rng, 1, 5, 30)
    R = rng.normal(size=(n, int(rng.integers(1, 4)))) * 10.0 ** rng.integers(-6, 4)
    style = str(rng.choice(["random", "smooth", "barrier", "increasing", "tiny", "edge", "sixth"]))
    smax = float(rng.choice([1.0, 0.5, 0.123, 1e-3, rng.uniform(0.01, 1)]))
    if style == "tiny":
        R = R * 0 + 1e-12
    phi0 = float(np.linalg.norm(R))
    if 0.9e-8 < phi0 < 2.1e-8:  # at the edge of the rounding level
        raise Skip("residual at the edge")
    k0 = int(rng.integers(0, 8))
    vals = phi0 * rng.uniform(0.9, 1.1, size=12)
    slope = rng.uniform(-2, 1)

    def phi(s):
        k = int(round(-np.log2(s / smax)))
        if style == "random":
            return vals[min(k, 11)]
        if style == "smooth":
            return phi0 * abs(1 + slope * s + rng_c * s * s)
        if style == "barrier":
            return float(bad) if k < k0 else phi0 * (1 - 0.5 * s)
        if style == "edge":
            return phi0 * (1 - (1e-5 * s) * (0.9 if k < k0 else 1.1))
        if style == "sixth":
            return phi0 * 2 if k < k0 else phi0 * 0.5
        if style == "tiny":
            return phi0 * 100
        return phi0 * (1 + s)

    rng_c, bad = rng.uniform(-3, 6), rng.choice([np.nan, np.inf, 1e300])
    trials = []

    def f(s):
        trials.append(float(s))
        return phi(float(s))

    R0 = R.copy()
    s = backtracking_line_search(R, f, smax)
    c.describe(style=style, smax=smax, R=R, k0=k0, trials=trials, returned=s)
    c.saw(R, smax, style, k0)
    ok = lambda a: phi(a) <= (1 - 1e-5 * a) * phi0
    want = smax
    if phi0 > 2e-8:
        for _ in range(6):
            if ok(want):
                break
            want *= 0.5
    m = [abs(phi(smax * 0.5**k) - (1 - 1e-5 * smax * 0.5**k) * phi0) / phi0 for k in range(7)]
    if phi0 > 2e-8 and min([x for x in m if np.isfinite(x)], default=1.0) < 1e-13:
        return
    c.count(f"{style}: {round(-np.log2(want / smax))} halvings")
    c.close(s, want, "step-size", f"accepted step size ({style}, maximum {smax}, trials {trials})", rtol=1e-12)
    c.require(all(0 < t <= smax * (1 + 1e-12) for t in trials), "trial-range", f"trial step sizes {trials} leave (0, {smax}]")
    c.require(np.array_equal(R, R0), "input-altered", "the residual passed in was altered")
    c.require(len(trials) <= 7, "budget", f"{len(trials)} trials")


def _halving(c, s, smax, phi, phi0, c1, who):
    """oracle for the step-halving searches: s = smax 2^-k, every larger trial is rejected, s itself accepted unless k = 6"""
    if smax == 0:
        return c.require(s == 0, "step-size", f"{who}: step size {s} although the largest admissible one is 0")
    k = -np.log2(s / smax)
    if not c.require(abs(k - round(k)) < 1e-9 and 0 <= k <= 6, "step-size-grid", f"{who}: step size {s} is not {smax} halved at most 6 times"):
        return
    k = int(round(k))
    if phi0 < 2e-8:
        return
    for j in range(k + 1):
        a = smax * 0.5**j
        v = phi(a)
        lim = (1 - c1 * a) * phi0
        if abs(v - lim) < 1e-9 * phi0 or not np.isfinite(v):
            return
        if j < k:
            c.require(v > lim, "too-cautious", f"{who}: step {a} gives sufficient decrease ({phi0} -> {v}) but {s} was taken")
        elif k < 6:
            c.require(v <= lim, "no-decrease", f"{who}: accepted step {a} does not decrease the residual sufficiently ({phi0} -> {v})")
    c.count(f"{who}: {k} halvings")


def units(rng, P):
    """objectives in small or large units: residuals close to (but above) the rounding level, or huge"""
    if rng.random() < 0.3:
        P.u = float(10.0 ** rng.uniform(-7, 4))


@monitor("P13", quick=250, thorough=5000)
def hvn(c):
    """HVN on strongly nonlinear problems: common step size of every layer, regardless of the conditioning of the step"""
    rng = c.rng
    P = Rough(rng, random_problem(rng, nonconvex=rng.random() < 0.5))
    units(rng, P)
    n = gen.few(rng, 1, 6 if P.m == 2 else 4, 30 if P.m == 2 else 9)
    X, mode = start(rng, P, n)
    n = len(X)
    Y = np.array([P.F(x) for x in X])
    ref = Y.max(0) + P.u * rng.uniform(0.1, 2.0, size=P.m)
    limit = bool(rng.random() < 0.4)
    if limit:
        X = gen.graze(rng, np.clip(X, P.xl, P.xu), P.xl, P.xu)
    c.describe(X=X, ref=ref, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq, amp=P.amp, w=P.w, b=P.b, limit=limit)
    opt = make_hvn(P, X.copy(), ref.copy(), max_iters=4, limit_max_step_size=limit)
    M = HVNModel(P, ref, limit=limit)
    L = np.full((n, P.n_eq + P.n_ieq), 1.0 / n)
    for it in range(gen.few(rng, 1, 4, 15)):
        parts = M.partitions(X)
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1)) + np.eye(n)
        if D.min() < 1e-6:
            return
        opt.iterate()
        opt.log()
        X1, L1 = opt.state.primal.copy(), opt.state.dual.copy()
        S, ss = np.asarray(opt.step), np.broadcast_to(np.asarray(opt.step_size).ravel(), (n,))
        if not np.all(np.isfinite(S)):
            return
        c.saw(X, it, n=len(parts))
        c.close(np.c_[X1, L1], np.c_[X, L] + ss[:, None] * S, "update", "new point = old point + step size * step", rtol=1e-12)
        for idx in parts:
            if not c.require(np.ptp(ss[idx]) == 0, "common", f"members {idx.tolist()} of one layer have step sizes {ss[idx]}"):
                return
            gaps = []

            def phi(a):
                Z = X[idx] + a * S[idx, : P.d]
                gaps.append(coordinate_gap(np.array([P.F(z) for z in Z]), ref))
                return np.linalg.norm(M.residual(Z, L[idx] + a * S[idx, P.d :])[0])

            smax = 1.0
            if limit:
                V = S[idx, : P.d]
                t = np.where(V < 0, (X[idx] - P.xl) / -V, np.where(V > 0, (P.xu - X[idx]) / V, np.inf))
                smax = min(1.0, 0.25 * float(np.min(t)))
            phi0 = phi(0.0)
            stub = type("stub", (), {})()
            rec = []
            stub.count = c.count
            stub.require = lambda ok, *a, **k: rec.append((ok,) + a) or ok
            _halving(stub, ss[idx[0]], smax, phi, phi0, 1e-5, "HVN")
            if min(gaps) > 1e-7 * P.u:  # away from ties, where the residual jumps
                for r in rec:
                    c.require(*r)
        if np.abs(X1).max() > 50:
            return
        X, L = X1, L1
    c.sample(X=X, mode=mode)


@monitor("P13", quick=250, thorough=5000)
def mmd(c):
    """MMD Newton on strongly nonlinear problems, symmetric populations included (signed step components cancel)"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    P = Rough(rng, random_problem(rng, nonconvex=rng.random() < 0.5, dmax=3))
    n = gen.few(rng, 1, 5, 30)
    X, mode = start(rng, P, n)
    n = len(X)
    if P.n_eq + P.n_ieq == 0 and rng.random() < 0.3:  # symmetric configuration
        c.count("symmetric")
        P.A[:], P.amp, P.C = np.eye(P.d), P.amp * 0, np.zeros((P.m, P.d))
        P.C[0, 0], P.C[1, 0] = -0.5, 0.5
        for k in range(2, P.m):
            P.C[k, :2] = 0, 0.5
        x = rng.uniform(0.05, 0.9, size=P.d)
        X = np.array([x, x])
        X[1, 0] *= -1
        n = 2
        R = reference(rng, P, 2, extra=1)[:1]
        R = np.r_[R, R[:, [1, 0] + list(range(2, P.m))]] - 0.1
    else:
        R = reference(rng, P, n)
    matching = bool(rng.random() < 0.5)
    rs = ReferenceSet(R.copy(), eta={0: -np.ones(P.m) / np.sqrt(P.m)})
    c.describe(X=X, R=R, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq, amp=P.amp, w=P.w, b=P.b, matching=matching)
    opt = make_mmd(P, X.copy(), rs, matching, "rbf", 0.5, max_iters=9, preconditioning=bool(rng.random() < 0.3))
    M = MMDNModel(P, matching, "rbf", 0.5)
    L = np.zeros((n, P.n_eq + P.n_ieq))
    for it in range(gen.few(rng, 1, 4, 15)):
        opt.newton_iteration()
        opt.log()
        X1, L1, T = opt.state.primal.copy(), opt.state.dual.copy(), np.array(rs.reference_set)
        S = np.asarray(opt.step)
        if not np.all(np.isfinite(S)) or np.abs(S).max() > 1e6:
            return
        s = np.ravel(opt.step_size)
        c.saw(X, it)
        c.require(np.ptp(s) == 0, "common", f"step sizes {s} differ between members")
        s = float(s[0])
        c.close(np.c_[X1, L1], np.c_[X, L] + s * S, "update", "new point = old point + step size * step", rtol=1e-12)
        if np.all(np.abs(S) <= 1e-7):
            return
        phi = lambda a: np.linalg.norm(M.residual(X + a * S[:, : P.d], L + a * S[:, P.d :], T)[0])
        phi0 = phi(0.0)
        if phi0 < 1e-6:
            return
        _halving(c, s, 1.0, phi, phi0, 1e-6, "MMD")
        if np.abs(X1).max() > 50:
            return
        X, L = X1, L1
    c.sample(X=X, matching=matching)


@monitor("P13", quick=250, thorough=5000)
def dpn(c):
    """DpN on strongly nonlinear problems: every member's own step size is the largest admissible one if that decreases the
    member's residual sufficiently, else it is contracted by factors in [0.4, 0.6] until it does, at most 8 times; targets
    stay put during the search"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    P = Rough(rng, random_problem(rng, nonconvex=rng.random() < 0.5))
    if rng.random() < 0.4:
        P.xl, P.xu = np.full(P.d, -0.9), np.full(P.d, 0.9)
    units(rng, P)
    n = gen.few(rng, 1, 6, 30)
    X, mode = start(rng, P, n)
    X = gen.graze(rng, np.clip(X, P.xl, P.xu), P.xl, P.xu)
    n = len(X)
    R = reference(rng, P, n)
    kind = str(rng.choice(["gd", "igd"]))
    rs = ReferenceSet(R.copy(), eta={0: -np.ones(P.m) / np.sqrt(P.m)})
    c.describe(X=X, R=R, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq, amp=P.amp, w=P.w, b=P.b, kind=kind, xl=P.xl)
    opt = make_dpn(P, X.copy(), rs, kind, max_iters=9)
    L = np.zeros((n, P.n_eq + P.n_ieq))
    M = DpNModel(P, R, None, kind)
    M.active = kind
    for it in range(gen.few(rng, 1, 4, 15)):
        Y = np.array([P.F(x) for x in X])
        opt.newton_iteration()
        opt.log()
        X1, L1 = opt.state.primal.copy(), opt.state.dual.copy()
        M.T = np.array(rs.reference_set)
        S = np.asarray(opt.step)
        if not np.all(np.isfinite(S)) or np.abs(S).max() > 1e6:
            return
        ss = np.ravel(opt.step_size)
        c.saw(X, it, n=n)
        c.close(np.c_[X1, L1], np.c_[X, L] + ss[:, None] * S, "update", "new point = old point + step size * step", rtol=1e-12)
        if kind == "igd":  # matched to the population before the step, not to a trial point
            from scipy.optimize import linear_sum_assignment

            C = np.sqrt(((Y[:, None] - M.T[None]) ** 2).sum(-1))
            k = linear_sum_assignment(C)[1]
            c.require(np.trace(C) <= C[np.arange(n), k].sum() * (1 + 1e-9) + 1e-12, "targets-moved", f"after iteration {it} the targets are not matched to the population the iteration started from")
        if np.all(np.abs(S) <= 1e-7):
            return
        for i in range(n):
            p, smax = M.project(X[i], S[i, : P.d])
            c.require(np.array_equal(p, S[i, : P.d]), "outward", f"step of member {i} points out of the box at an active bound", step=S[i], x=X[i])
            phi = lambda a: np.linalg.norm(M.residual(i, X[i] + a * S[i, : P.d], L[i] + a * S[i, P.d :])[0])
            phi0 = phi(0.0)
            s = ss[i]
            if phi0 < 3e-8 or smax < 1e-9:
                continue
            ok = lambda a: phi(a) <= (1 - 1e-4 * a) * phi0
            edge = abs(phi(smax) - (1 - 1e-4 * smax) * phi0) < 1e-8 * phi0 or ok(smax) != ok(smax * (1 - 1e-9))
            if edge or abs(smax - s) < 1e-9 and ok(smax):
                c.count("DpN: full step" if not edge else "edge")
                continue
            c.require(not ok(smax), "too-cautious", f"member {i}: step {smax} gives sufficient decrease, but {s} was taken")
            if not c.require(s <= 0.6 * smax + 1e-12 and s >= 0.4**8 * smax * 0.999, "step-size-range", f"member {i}: step size {s}, largest {smax}, is no sequence of contractions by 0.4..0.6"):
                continue
            lim = (1 - 1e-4 * s) * phi0
            exhausted = s <= 0.6**8 * smax * 1.001
            c.count("DpN: exhausted" if exhausted else "DpN: contracted")
            if not exhausted and abs(phi(s) - lim) > 1e-9 * phi0 and ok(s * (1 - 1e-9)) == ok(s * (1 + 1e-9)):
                c.require(ok(s), "no-decrease", f"member {i}: accepted step {s} of at most {smax} does not decrease the residual sufficiently ({phi0} -> {phi(s)})")
        if np.abs(X1).max() > 50:
            return
        X, L = X1, L1
    c.sample(X=X, kind=kind)
