"""Reference models of one iteration of each optimiser, and problem generators for them.

The models use only the problem's exact functions, the public indicator classes (checked on their own by P02/P03, P05, P06)
and the documented update rules; they share no code with the optimisers."""
import numpy as np

from .oracles import coordinate_gap, fronts_by_peeling


class Prob:
    """smooth multi-objective problem on a box, optionally with equality / inequality constraints (exact derivatives)"""

    def __init__(self, rng, d, m, eq=None, ieq=None, nonconvex=False, spread=0.6, eq2=None):
        A = np.zeros((m, d, d))
        for k in range(m):
            M = rng.normal(size=(d, d)) * 0.4
            A[k] = (M @ M.T / d + np.eye(d)) if not nonconvex else np.eye(d) + (M + M.T)
        self.A, self.C = A, rng.uniform(-spread, spread, size=(m, d))
        self.d, self.m = d, m
        self.xl, self.xu = np.full(d, -2.0), np.full(d, 2.0)
        self.eq, self.ieq = eq, ieq
        self.eq2 = eq2  # a second equality q |x|^2 + a.x = b
        self.n_eq = 0 if eq is None else 1 + (eq2 is not None)
        self.n_ieq = 0 if ieq is None else len(ieq[1])
        self.calls = {}
        self.u = 1.0  # units of the objectives
        # cubic terms (off by default), so that no second derivative is constant
        self.tF, self.wF = np.zeros(m), np.zeros((m, d))
        self.th, self.wh = 0.0, np.zeros(d)
        self.tg, self.wg = np.zeros(self.n_ieq), np.zeros((self.n_ieq, d))

    def bend(self, rng):
        self.tF, self.wF = rng.uniform(-0.4, 0.4, size=self.m), rng.normal(size=(self.m, self.d)) * 0.7
        self.th, self.wh = float(rng.uniform(-0.3, 0.3)), rng.normal(size=self.d) * 0.7
        self.tg, self.wg = rng.uniform(-0.3, 0.3, size=self.n_ieq), rng.normal(size=(self.n_ieq, self.d)) * 0.7
        return self

    def _count(self, k):
        self.calls[k] = self.calls.get(k, 0) + 1

    def F(self, x):
        self._count("F")
        z = x - self.C
        return self.u * (0.5 * np.einsum("ki,kij,kj->k", z, self.A, z) + self.tF * (self.wF @ x) ** 3 / 6)

    def J(self, x):
        self._count("J")
        return self.u * (np.einsum("kij,kj->ki", self.A, x - self.C) + (self.tF * (self.wF @ x) ** 2 / 2)[:, None] * self.wF)

    def H(self, x):
        self._count("H")
        return self.u * (self.A + (self.tF * (self.wF @ x))[:, None, None] * self.wF[:, :, None] * self.wF[:, None, :])

    # equality: sphere |x - c|^2 = r^2, or hyperplane a.x = b
    def h(self, x):
        kind, a, b = self.eq
        v = (x - a) @ (x - a) - b * b if kind == "sphere" else a @ x - b
        v = v + self.th * (self.wh @ x) ** 3 / 6
        return np.array([v]) if self.eq2 is None else np.array([v, self.eq2[0] * (x @ x) + self.eq2[1] @ x - self.eq2[2]])

    def h_jac(self, x):
        kind, a, b = self.eq
        v = 2 * (x - a) if kind == "sphere" else a.copy()
        v = v + self.th * (self.wh @ x) ** 2 / 2 * self.wh
        return v[None] if self.eq2 is None else np.array([v, 2 * self.eq2[0] * x + self.eq2[1]])

    def h_hess(self, x):
        kind, a, b = self.eq
        v = 2 * np.eye(self.d) if kind == "sphere" else np.zeros((self.d, self.d))
        v = v + self.th * (self.wh @ x) * np.outer(self.wh, self.wh)
        return v[None] if self.eq2 is None else np.array([v, 2 * self.eq2[0] * np.eye(self.d)])

    def tangential(self, x, g):
        """the part of a gradient along the equality constraints"""
        A = self.h_jac(x)
        return g - np.linalg.pinv(A) @ (A @ g)

    # inequalities: a_i.x + q_i |x|^2 - b_i <= 0
    def g(self, x):
        a, b, q = self.ieq
        return a @ x + q * (x @ x) - b + self.tg * (self.wg @ x) ** 3 / 6

    def g_jac(self, x):
        a, b, q = self.ieq
        return a + 2 * q[:, None] * x + (self.tg * (self.wg @ x) ** 2 / 2)[:, None] * self.wg

    def g_hess(self, x):
        a, b, q = self.ieq
        return 2 * q[:, None, None] * np.eye(self.d) + (self.tg * (self.wg @ x))[:, None, None] * self.wg[:, :, None] * self.wg[:, None, :]

    def kwargs(self, hess=True, names=("h_hessian", "g_hessian")):
        kw = {}
        if self.n_eq:
            kw.update(h=self.h, h_jac=self.h_jac)
            if hess:
                kw[names[0]] = self.h_hess
        if self.n_ieq:
            kw.update(g=self.g, g_jac=self.g_jac)
            if hess:
                kw[names[1]] = self.g_hess
        return kw

    # exact evaluations for the model
    def cstr(self, x):
        h = self.h(x) if self.n_eq else np.zeros(0)
        g = self.g(x) if self.n_ieq else np.zeros(0)
        dh = self.h_jac(x) if self.n_eq else np.zeros((0, self.d))
        dg = self.g_jac(x) if self.n_ieq else np.zeros((0, self.d))
        ddh = self.h_hess(x) if self.n_eq else np.zeros((0, self.d, self.d))
        ddg = self.g_hess(x) if self.n_ieq else np.zeros((0, self.d, self.d))
        v = np.r_[h, g]
        act = np.r_[np.ones(self.n_eq, bool), g >= -1e-4]
        return v, act, np.concatenate([dh, dg]), np.concatenate([ddh, ddg])

    def feasible(self, x):
        v, _, _, _ = self.cstr(x)
        return bool(np.all(np.abs(v[: self.n_eq]) <= 1e-4) and np.all(v[self.n_eq :] < -1e-4))


def random_problem(rng, constrained=None, dmax=4, mmax=3, nonconvex=False, bent=False):
    d, m = int(rng.integers(2, dmax + 1)), int(rng.integers(2, mmax + 1))
    if rng.random() < 0.05:
        d = int(rng.integers(dmax + 1, 13))
    kind = constrained or str(rng.choice(["none", "eq", "ieq", "both"]))
    eq = ieq = None
    if kind in ("eq", "both"):
        a = rng.normal(size=d)
        eq = ("sphere", rng.normal(size=d) * 0.2, float(rng.uniform(0.7, 1.2))) if rng.integers(2) else ("plane", a / np.linalg.norm(a), float(rng.uniform(-0.5, 0.5)))
    if kind in ("ieq", "both"):
        q = int(rng.choice([1, 1, 2, 2, 3, 5]))
        a = rng.normal(size=(q, d))
        ieq = (a / np.linalg.norm(a, axis=1, keepdims=True), rng.uniform(-0.3, 0.5, size=q), rng.choice([0.0, 0.2, 0.5], size=q))
    eq2 = None
    if eq is not None and d > 2 and rng.random() < 0.4:
        a = rng.normal(size=d)
        eq2 = (float(rng.choice([0.0, 0.1])), a / np.linalg.norm(a), float(rng.uniform(-0.2, 0.2)))
    P = Prob(rng, d, m, eq, ieq, nonconvex=nonconvex, eq2=eq2)
    return P.bend(rng) if bent else P


def drop_duplicates(X):
    """indices of the first representative of every group of (near-)identical points"""
    keep = []
    for i in range(len(X)):
        if all(np.linalg.norm(X[i] - X[j]) > 1e-8 for j in keep):
            keep.append(i)
    return np.array(keep)


def armijo(phi0, phi, s, c1, tries):
    """step-halving: returns (step size, smallest decision margin)"""
    margin = np.inf
    for _ in range(tries):
        v = phi(s)
        if abs(phi0 - np.finfo(float).eps) <= 1e-8 + 1e-5 * np.finfo(float).eps:
            return s, margin
        margin = min(margin, abs(v - (1 - c1 * s) * phi0) / max(phi0, 1e-300)) if np.isfinite(v) else margin
        if v <= (1 - c1 * s) * phi0:
            return s, margin
        s = s * 0.5
    return s, margin


class HVNModel:
    def __init__(self, P, ref, preconditioning=False, limit=False):
        from hvd.hypervolume_derivatives import HypervolumeDerivatives

        self.P, self.ref, self.pre, self.limit = P, ref, preconditioning, limit
        self.ind = HypervolumeDerivatives(P.d, P.m, ref, P.F, P.J, P.H)

    def partitions(self, X):
        P = self.P
        feas = np.array([P.feasible(x) for x in X])
        fi, ii = np.nonzero(feas)[0], np.nonzero(~feas)[0]
        if not len(fi):
            return [np.arange(len(X))]
        Y = np.array([P.F(x) for x in X[fi]])
        parts = [fi[np.asarray(f)] for f in fronts_by_peeling(Y)]
        parts[0] = np.r_[parts[0], ii]
        return [np.sort(p) for p in parts]

    def residual(self, X, L):
        P = self.P
        grad = self.ind.compute_derivatives(X, np.array([P.F(x) for x in X]), False, np.array([P.J(x) for x in X]))
        R = np.zeros((len(X), P.d + L.shape[1]))
        R[:, : P.d] = grad
        acts = []
        for i, x in enumerate(X):
            v, act, dv, _ = P.cstr(x)
            R[i, : P.d] += L[i, act] @ dv[act]
            R[i, P.d :][act] = v[act]
            acts.append(act)
        return R, np.array(acts)

    def system(self, X, L):
        P, n, d = self.P, len(X), self.P.d
        _, Hs = self.ind.compute_derivatives(X, np.array([P.F(x) for x in X]), True, np.array([P.J(x) for x in X]))
        R, acts = self.residual(X, L)
        Hs = np.array(Hs, dtype=float)
        if self.pre:
            from hvd.utils import precondition_hessian

            Hs = -precondition_hessian(-Hs)
        k = int(acts.sum())
        A = np.zeros((n * d + k, n * d + k))
        A[: n * d, : n * d] = Hs
        b = np.zeros(n * d + k)
        b[: n * d] = R[:, :d].ravel()
        r = n * d
        where = []
        for i, x in enumerate(X):
            v, act, dv, ddv = P.cstr(x)
            sl = slice(i * d, (i + 1) * d)
            A[sl, sl] += np.einsum("k,kij->ij", L[i, act], ddv[act])
            for j in np.nonzero(act)[0]:
                A[r, sl] = dv[j]
                A[sl, r] = dv[j]
                b[r] = v[j]
                where.append((i, j))
                r += 1
        return A, b, R, where

    def iterate(self, X, L):
        """returns new (X, L), and diagnostics per partition; X without near-duplicates"""
        P, d = self.P, self.P.d
        Xn, Ln = X.copy(), L.copy()
        info = []
        for idx in self.partitions(X):
            A, b, R, where = self.system(X[idx], L[idx])
            if not np.all(np.isfinite(A)):
                info.append(dict(idx=idx, usable=False))
                continue
            cond = np.linalg.cond(A)
            z = -np.linalg.lstsq(A, b, rcond=None)[0] if cond > 1e12 else -np.linalg.solve(A, b)
            n = len(idx)
            step = np.zeros((n, d + L.shape[1]))
            step[:, :d] = z[: n * d].reshape(n, d)
            for (i, j), t in zip(where, z[n * d :]):
                step[i, d + j] = t
            smax = 1.0
            if self.limit:
                V = step[:, :d]
                with np.errstate(all="ignore"):
                    t = np.where(V < 0, (X[idx] - P.xl) / -V, np.where(V > 0, (P.xu - X[idx]) / V, np.inf))
                smax = min(1.0, 0.25 * float(np.min(t)))
            if smax is None:
                info.append(dict(idx=idx, usable=False))
                continue
            gaps = []

            def phi(s):
                Z = X[idx] + s * step[:, :d]
                gaps.append(coordinate_gap(np.array([P.F(z) for z in Z]), self.ref))
                return np.linalg.norm(self.residual(Z, L[idx] + s * step[:, d:])[0])

            s, margin = armijo(np.linalg.norm(R), phi, smax, 1e-5, 6)
            Xn[idx] = X[idx] + s * step[:, :d]
            Ln[idx] = L[idx] + s * step[:, d:]
            info.append(dict(idx=idx, usable=True, cond=cond, s=s, margin=margin, gap=min(gaps), A=A, b=b, R=R, where=where, smax=smax))
        return Xn, Ln, info


class DpNModel:
    """one iteration of the Delta_p Newton method, from the documented rules; the targets are tracked independently"""

    def __init__(self, P, targets, eta, kind, preconditioning=False):
        self.P, self.kind, self.pre = P, kind, preconditioning
        self.eta = eta  # callable: index of a target in `targets` -> shift direction
        self.T = None  # matched targets (row i belongs to member i)
        self.T_eta = None
        self.it = 0
        self.step = None
        self.pool = targets

    def match(self, Y):
        from scipy.optimize import linear_sum_assignment

        C = np.sqrt(((Y[:, None] - self.T[None]) ** 2).sum(-1))
        k = linear_sum_assignment(C)[1]
        self.T, self.T_eta = self.T[k], self.T_eta[k]

    def begin(self, Y, chosen):
        """indicator values at the start of an iteration, matching and shifting; `chosen`: the targets selected at the very
        first matching (medoids: the selection itself is checked by P07)"""
        d = lambda A, B: np.sqrt(((A[:, None] - B[None]) ** 2).sum(-1))
        ref = self.pool if self.it == 0 else self.T
        gd = np.sqrt(np.mean(d(Y, ref).min(1) ** 2))
        if self.it == 0:
            self.T = chosen.copy()
            self.T_eta = np.array([self.eta(t) for t in chosen])
        self.match(Y)
        igd = np.mean(((Y - self.T) ** 2).sum(1))
        if self.it == 0:
            shifted = np.ones(len(Y), bool)
            c = 0.08
        else:
            dist = np.linalg.norm(Y - self.T, axis=1)
            shifted = (dist <= 1e-8) & (np.linalg.norm(self.step, axis=1) <= 1e-8)
            self.shift_margin = np.min(np.abs(np.r_[dist, np.linalg.norm(self.step, axis=1)] - 1e-8))
            c = 0.05
        self.T = self.T + c * self.T_eta * shifted[:, None]
        self.active = self.kind if self.kind != "deltap" else ("gd" if gd > igd else "igd")
        self.gd, self.igd = gd, igd
        if self.active == "igd":
            self.match(Y)
        return shifted

    def target(self, i, y):
        if self.active == "igd":
            return self.T[i]
        return self.T[np.argmin(((self.T - y) ** 2).sum(1))]

    def residual(self, i, x, lam):
        P = self.P
        N = len(self.T)
        w = 2.0 if self.active == "igd" else 2.0 / N
        y, J = P.F(x), P.J(x)
        v, act, dv, ddv = P.cstr(x)
        r = w * J.T @ (y - self.target(i, y)) + lam[act] @ dv[act]
        return np.r_[r, v[act]], act

    def newton(self, i, x, lam):
        P = self.P
        N = len(self.T)
        w = 2.0 if self.active == "igd" else 2.0 / N
        y, J = P.F(x), P.J(x)
        t = self.target(i, y)
        Hs = w * (J.T @ J + np.einsum("kij,k->ij", P.H(x), y - t))
        if self.pre:
            from hvd.utils import precondition_hessian

            Hs = precondition_hessian(Hs)
        v, act, dv, ddv = P.cstr(x)
        r, _ = self.residual(i, x, lam)
        k = int(act.sum())
        A = np.block([[Hs + np.einsum("k,kij->ij", lam[act], ddv[act]), dv[act].T], [dv[act], np.zeros((k, k))]])
        return A, r, act

    def project(self, x, p):
        """drop outward components on the boundary; largest step inside the box"""
        P = self.P
        p = p.copy()
        lo, up = x - P.xl <= 1e-10, P.xu - x <= 1e-10
        p[(lo & (p < 0)) | (up & (p > 0))] = 0
        with np.errstate(all="ignore"):
            t = np.where(p < 0, (x - P.xl) / -p, np.where(p > 0, (P.xu - x) / p, np.inf))
        return p, min(1.0, float(np.min(t)))


class MMDNModel:
    """one iteration of the MMD Newton method, from the documented rules (closed-form kernels, own chain rule)"""

    def __init__(self, P, matching, name, theta, preconditioning=False, beta=0.25):
        self.P, self.matching, self.name, self.theta, self.pre, self.beta = P, matching, name, theta, preconditioning, beta

    def value(self, Y, T):
        from .p06 import matched_value, mmd_value

        return matched_value(self.name, Y, T, self.theta, self.beta) if self.matching else mmd_value(self.name, Y, T, self.theta)

    def derivs(self, X, T):
        from .p06 import matched_derivs, mmd_derivs

        P, n, d, m = self.P, len(X), self.P.d, self.P.m
        Y = np.array([P.F(x) for x in X])
        g, H = matched_derivs(self.name, Y, T, self.theta, self.beta) if self.matching else mmd_derivs(self.name, Y, T, self.theta)
        J = np.array([P.J(x) for x in X])
        H = H.reshape(n, m, n, m)
        A = np.zeros((n, d, n, d))
        for i in range(n):
            for j in range(n):
                A[i, :, j] = J[i].T @ H[i, :, j] @ J[j]
            A[i, :, i] += np.einsum("k,kij->ij", g[i], P.H(X[i]))
        return np.einsum("ik,ikd->id", g, J), A.reshape(n * d, n * d)

    def residual(self, X, L, T, grad=None):
        P = self.P
        if grad is None:
            grad = self.derivs(X, T)[0]
        R = np.zeros((len(X), P.d + L.shape[1]))
        acts = []
        for i, x in enumerate(X):
            v, act, dv, _ = P.cstr(x)
            R[i, : P.d] = grad[i] + L[i, act] @ dv[act]
            R[i, P.d :][act] = v[act]
            acts.append(act)
        return R, np.array(acts).reshape(len(X), -1)

    def step(self, X, L, T):
        P, n, d = self.P, len(X), self.P.d
        grad, H = self.derivs(X, T)
        if self.pre:
            from hvd.utils import precondition_hessian

            H = precondition_hessian(H)
        R, acts = self.residual(X, L, T, grad)
        k = int(acts.sum())
        A, b = np.zeros((n * d + k, n * d + k)), np.zeros(n * d + k)
        A[: n * d, : n * d] = H
        b[: n * d] = R[:, :d].ravel()
        r, where = n * d, []
        for i, x in enumerate(X):
            v, act, dv, _ = P.cstr(x)
            for j in np.nonzero(act)[0]:
                A[r, i * d : (i + 1) * d] = A[i * d : (i + 1) * d, r] = dv[j]
                b[r] = v[j]
                where.append((i, j))
                r += 1
        return A, b, R, where

    def unpack(self, z, n, dual, where):
        d = self.P.d
        S = np.zeros((n, d + dual))
        S[:, :d] = z[: n * d].reshape(n, d)
        for (i, j), t in zip(where, z[n * d :]):
            S[i, d + j] = t
        return S
