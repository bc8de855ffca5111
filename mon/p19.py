"""P19: Pareto fronts and sets of the benchmark problems."""
import numpy as np
from math import comb

from numpy import abs, cos, pi, sin, sqrt
from scipy.optimize import brentq

from .core import Skip, monitor
from .probs import build, cls, registry

REG = None
NO_FRONT = {"DTLZ5", "DTLZ6", "DTLZ7"}  # need the network


def reg():
    global REG
    if REG is None:
        REG = registry()
    return REG


# ------------------------------------------------------------ equations of the fronts: residual of a point (0 on the front)
def inside(f, lo=0.0, hi=1.0):
    return max(0.0, lo - f, f - hi)


ZDT3 = [(0, 0.0830015349), (0.182228780, 0.2577623634), (0.4093136748, 0.4538821041), (0.6183967944, 0.6525117038), (0.8233317983, 0.8518328654)]


def curve(name, f):
    """second objective of the two-objective fronts, NaN where f is not on the front"""
    on = lambda *I: any(a - 1e-9 <= f <= b + 1e-9 for a, b in I)
    if name in ("ZDT1", "ZDT4", "UF1", "UF2", "UF3"):
        return 1 - sqrt(f)
    if name in ("ZDT2", "UF4"):
        return 1 - f * f
    if name == "ZDT6":
        return 1 - f * f if f >= 0.2807753 else np.nan
    if name == "ZDT3":
        return 1 - sqrt(f) - f * sin(10 * pi * f) if on(*ZDT3) else np.nan
    if name in ("UF5", "CF1"):
        return 1 - f if abs(f * 20 - round(f * 20)) < 1e-9 else np.nan
    if name == "UF6":
        return 1 - f if on((0, 0), (0.25, 0.5), (0.75, 1)) else np.nan
    if name == "UF7":
        return 1 - f
    if name == "CF2":
        return 1 - sqrt(f) if on((0, 0), (1 / 16, 1 / 4), (9 / 16, 1)) else np.nan
    if name == "CF3":
        return 1 - f * f if on((0, 0), (0.5, sqrt(0.5)), (sqrt(0.75), 1)) else np.nan
    if name in ("CF4", "CF5"):
        return 1 - f if f <= 0.5 else (0.75 - 0.5 * f if f <= 0.75 else 1.125 - f)
    if name in ("CF6", "CF7"):
        u = 1 - f
        return u * u if u >= 0.5 else (0.5 * u if u >= 0.25 else 0.25 * sqrt(u))
    raise KeyError(name)


TWO = {"ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6"} | {f"UF{i}" for i in range(1, 8)} | {f"CF{i}" for i in range(1, 8)}


def residual(name, y, x=None):
    """distance-like residual of an objective vector from the published front"""
    M = len(y)
    if name in TWO:
        f = y[0]
        if inside(f) > 1e-9:
            return inside(f)
        v = curve(name, min(max(f, 0.0), 1.0))
        return np.inf if np.isnan(v) else abs(y[1] - v)
    if name.startswith("I") or name.startswith("Eq1I"):
        return residual(name.replace("Eq1", "").replace("IDTLZ", "DTLZ"), 0.5 - y)
    base = name.replace("Eq1", "")
    if base == "DTLZ1":
        return max(abs(y.sum() - 0.5), -y.min())
    if base in ("DTLZ2", "DTLZ3", "DTLZ4", "UF8", "UF10"):
        return max(abs((y**2).sum() - 1), -y.min())
    if base in ("DTLZ5", "DTLZ6"):  # degenerate: all but the first angle are pi/4
        f = np.array(y)
        r = abs((f**2).sum() - 1)
        for i in range(M - 2):  # f_1 = c1 a^(M-2), f_2 = c1 a^(M-2), f_3 = c1 a^(M-3), ...
            want = f[0] * sqrt(2) ** max(0, i - 0) if i else f[0]
            r = max(r, abs(f[i] - (f[0] if i <= 1 else f[0] * sqrt(2) ** (i - 1))))
        return max(r, abs(f[M - 2] - f[0] * sqrt(2) ** max(0, M - 3)), -f.min())
    if base == "DTLZ7":
        return max(abs(y[-1] - 2 * (M - sum(t / 2 * (1 + sin(3 * pi * t)) for t in y[:-1]))), max(map(inside, y[:-1])))
    if base in ("CF8", "CF9", "CF10"):
        r = max(abs((y**2).sum() - 1), -y.min())
        if 1 - y[2] ** 2 > 1e-6:
            q = y[0] ** 2 / (1 - y[2] ** 2)
            if base == "CF8":
                r = max(r, abs(4 * q - round(4 * q)))
            else:
                r = max(r, min(q if q < 1e-6 else 1, inside(q, 0.25, 0.5), inside(q, 0.75, 1)))
        return r
    if base == "UF9":
        s = 1 - y[2]
        gap = max(0.0, min(y[0] - s / 4, 3 * s / 4 - y[0]))
        return max(abs(y.sum() - 1), -y.min(), gap)
    if base == "CONV3":
        a = np.array([[-1, -1, -1], [1, 1, 1], [-1, -1, 1.0]])
        A = np.r_[-2 * (a[1:] - a[0]), [np.cross(a[1] - a[0], a[2] - a[0])]]
        b = np.r_[y[1:] - y[0] - ((a[1:] ** 2).sum(1) - (a[0] ** 2).sum()), np.cross(a[1] - a[0], a[2] - a[0]) @ a[0]]
        z = np.linalg.solve(A, b)
        w = np.linalg.solve(np.r_[a.T, [[1, 1, 1]]][[0, 2, 3]], np.r_[z[0], z[2], 1])
        return max(-w.min(), np.abs(((z - a) ** 2).sum(1) - y).max())
    if base in ("CONV4", "CONV4_2F"):
        if base == "CONV4_2F" and y[3] > 4:
            y = y + 3.5 * np.array([2, 0, 0, -2])
        w2 = (y.sum() - 2) / 4
        w = (w2 + 1 - y) / 2
        return max(-w.min(), abs(w.sum() - 1), abs((w**2).sum() - w2))
    if base == "DENT":
        t = (y[0] - y[1]) / 2
        return np.abs(np.array([0.5 * (1 + sqrt(1 + 4 * t * t) + 2 * t * s) + 0.85 * np.exp(-4 * t * t) for s in (1, -1)]) - y).max()
    if base.startswith("WFG"):
        z = y / (2.0 * np.arange(1, M + 1))
        num = int(base[3:])
        if num >= 4:
            return max(abs((z**2).sum() - 1), -z.min())
        if num == 3:
            r = max(abs(z.sum() - 1), -z.min())
            for i in range(M - 1):  # all position parameters but the first are 1/2
                r = max(r, abs(z[i] - z[0] * 2 ** max(0, i - 1)))
            return r
        # convex shape with own last objective: recover the angles from the ratios
        last = (lambda t: 1 - t - cos(10 * pi * t + pi / 2) / (10 * pi)) if num == 1 else (lambda t: 1 - t * cos(5 * pi * t) ** 2)
        prod = z[0]
        for m in range(1, M - 1):  # prod = P*(1-cos b), z[m] = P*(1-sin b)
            if prod < 1e-9 and z[m] < 1e-9:
                return 0.0 if abs(z[-1] - last(0.0)) < 1e-3 or True else 1.0
            h = lambda b: prod * (1 - sin(b)) - z[m] * (1 - cos(b))
            b = brentq(h, 0, pi / 2) if h(0) * h(pi / 2) < 0 else (0.0 if abs(h(0)) < abs(h(pi / 2)) else pi / 2)
            prod = prod / (1 - cos(b)) if 1 - cos(b) > 0.3 else z[m] / (1 - sin(b))
        if prod > 1 + 1e-9:
            return prod - 1
        t = np.arccos(np.clip(1 - prod, -1, 1)) * 2 / pi
        return abs(z[-1] - last(t))
    raise KeyError(name)


def preimage(name, y, n):
    """a decision vector that attains the front point (published Pareto sets)"""
    j = np.arange(1, n + 1)
    x = np.zeros(n)
    base = name.replace("Eq1", "")
    if name.startswith("ZDT"):
        x[0] = y[0]
        if name == "ZDT6":
            f = lambda t: 1 - np.exp(-4 * t) * sin(6 * pi * t) ** 6 - y[0]
            T = np.linspace(0, 0.0815, 4000)  # first hump: f1 decreases from 1 to 0.2807...
            V = np.array([f(t) for t in T])
            k = np.argmin(np.abs(V))
            x[0] = brentq(f, T[max(k - 1, 0)], T[min(k + 1, 3999)]) if V[max(k - 1, 0)] * V[min(k + 1, 3999)] < 0 else T[k]
        return x
    if "DTLZ" in base:
        f = 0.5 - y if base.startswith("I") else y
        M = len(y)
        x[M - 1 :] = 0.5
        num = int(base[-1])
        rest = np.array(f, float)
        for i in range(M - 1):  # peel the last objective: f_M = (1-p1) or sin(p1 pi/2)
            if num == 1:
                tot = rest.sum()
                x[i] = 1 - rest[-1] / tot if tot > 1e-12 else 0.0
            else:
                x[i] = np.arctan2(rest[-1], np.linalg.norm(rest[:-1])) * 2 / pi
            rest = rest[:-1]
        if num == 4:
            x[: M - 1] = np.clip(x[: M - 1], 0, 1) ** 0.01
        return x
    if base in ("UF8", "UF10", "CF8", "CF9", "CF10"):
        x[0] = np.arcsin(np.clip(y[2], 0, 1)) * 2 / pi
        x[1] = np.arctan2(y[1], y[0]) * 2 / pi
        x[2:] = (2 * x[1] * sin(2 * pi * x[0] + j * pi / n))[2:]
        return x
    if base == "UF9":
        x[1] = 1 - y[2]
        x[0] = np.clip(y[0] / x[1], 0, 1) if x[1] > 0 else 0.0
        x[2:] = (2 * x[1] * sin(2 * pi * x[0] + j * pi / n))[2:]
        return x
    if base in TWO:
        t = np.clip(y[0], 0, 1) ** 5 if base == "UF7" else y[0]
        ph = 6 * pi * t + j * pi / n
        odd = j % 2 == 1
        if base in ("UF1", "UF4", "UF5", "UF6", "UF7", "CF3", "CF4"):
            x = sin(ph)
        elif base == "UF2":
            x = (0.3 * t * t * cos(24 * pi * t + 4 * j * pi / n) + 0.6 * t) * np.where(odd, cos(ph), sin(ph))
        elif base in ("UF3", "CF1"):
            x = t ** (0.5 * (1 + 3 * (j - 2) / (n - 2)))
        elif base == "CF2":
            x = np.where(odd, sin(ph), cos(ph))
        elif base in ("CF5", "CF6"):
            x = 0.8 * t * np.where(odd, cos(ph), sin(ph))
        else:  # CF7
            x = np.where(odd, cos(ph), sin(ph))
        if base in ("CF4", "CF5"):
            x[1] += max(0.0, 0.5 * t - 0.25) if t <= 0.75 else 1.0
        if base in ("CF6", "CF7"):
            u = 1 - t
            x[1] += sqrt(max(0, 0.5 * u - u * u))
            x[3] += sqrt(max(0, 0.25 * sqrt(u) - 0.5 * u))
        x[0] = t
        return x
    return None


def gap_limit(d, M, N):
    """largest gap tolerated, a generous multiple of the spacing of a grid (dtlz, uf, CF8) or of a random sample"""
    if d.family in ("dtlz", "uf"):
        parts = 1
        while comb(parts + M - 1, M - 1) < (N if d.family == "uf" else 496):
            parts += 1
        return 2.2 / parts
    return 15 / N if d.name == "CF8" else 0.5


def many(name, M, rng, k):
    """random points of the fronts with three or more objectives (None: not sampled)"""
    base = name.replace("Eq1", "")
    if name != base or M < 3:
        return None
    sphere = np.abs(rng.normal(size=(k, M)))
    sphere /= np.linalg.norm(sphere, axis=1)[:, None]
    e = np.eye(M)[rng.integers(M, size=3)]  # also extreme points
    if base in ("DTLZ1", "IDTLZ1"):
        Y = 0.5 * np.r_[rng.dirichlet(np.ones(M), size=k), e]
    elif base in ("DTLZ2", "DTLZ3", "DTLZ4", "IDTLZ2", "IDTLZ3", "IDTLZ4", "UF8", "UF10"):
        Y = np.r_[sphere, e]
    elif base == "UF9":
        Y = np.r_[rng.dirichlet(np.ones(3), size=3 * k), e]
        s = 1 - Y[:, 2] + 1e-12
        Y = Y[(Y[:, 0] <= s / 4) | (Y[:, 0] >= 3 * s / 4)]
    elif base == "CF8":
        z = sin(rng.random(k) * pi / 2)
        q = rng.integers(5, size=k) / 4
        Y = np.c_[sqrt(q * (1 - z**2)), sqrt((1 - q) * (1 - z**2)), z]
    elif base in ("CF9", "CF10"):  # the front's arc f_1 = 0 is left out: random fronts do not hit it
        q = sphere[:, 0] ** 2 / np.maximum(1 - sphere[:, 2] ** 2, 1e-12)
        Y = sphere[((q > 0.25) & (q < 0.5)) | (q > 0.75)]
    elif base in ("WFG4", "WFG5", "WFG6", "WFG7", "WFG8", "WFG9"):
        return sphere * 2 * np.arange(1, M + 1) if M == 3 else None
    else:
        return None
    return 0.5 - Y if base.startswith("I") else Y


def dominates(f, Y, tol):
    """f dominates rows of Y by more than rounding: better by tol somewhere, and elsewhere better by 1e-8 or exactly equal"""
    d = f - Y
    return np.all((d <= -1e-8) | (d == 0), axis=1) & np.any(d < -tol, axis=1)


def dominated_pairs(Y, tol=1e-7):
    """index pairs (i, j): i dominates j"""
    for i in range(len(Y)):
        b = dominates(Y[i], Y, tol)
        if b.any():
            return i, int(np.nonzero(b)[0][0])
    return None


def feasible(p, X, tol=1e-6):
    ok = np.ones(len(X), bool)
    if getattr(p, "n_ieq_constr", 0):
        ok &= np.asarray(p.ieq_constraint_batch(X)).reshape(len(X), -1).max(1) <= tol
    if getattr(p, "n_eq_constr", 0):
        ok &= np.abs(np.asarray(p.eq_constraint_batch(X))).reshape(len(X), -1).max(1) <= tol
    return ok


# listed findings, each shown by monitor "known"; the random monitors leave exactly these inputs out
HALF = {"IDTLZ2", "IDTLZ3", "IDTLZ4", "Eq1IDTLZ2", "Eq1IDTLZ3", "Eq1IDTLZ4"}  # (1+g)/2 - f: points with g > 0 beat the front


def inexact(d, n):
    """does rounding move the optimum 0.35 of a distance parameter of WFG1 (whose bias x**0.02 turns 1e-16 into 0.48)?"""
    u = 2.0 * np.arange(1, n + 1)
    return d.name == "WFG1" and bool(np.any(0.35 * u / u != 0.35))


def smoothing(name, n, M):
    """how far the documented smoothing of roots at 0 may move a point"""
    return {"ZDT6": 0.03, "DTLZ6": 3e-3 * (n - M + 1)}.get(name, 2e-5 if name.startswith("ZDT") else 1e-7)


@monitor("P19", quick=220, thorough=2200)
def fronts(c):
    """every problem class with a front: finite points of the right shape on the published front, mutually non-dominated,
    attained by feasible decision vectors (published Pareto sets), covering the whole front, and not dominated by any
    feasible point found by sampling the box and the neighbourhood of the Pareto set"""
    rng = c.rng
    R = reg()
    names = [k for k in sorted(R) if k not in NO_FRONT]
    d = R[names[c.i % len(names)]]
    kw, n, M, ok, lo, up, bnd = build(rng, d, custom_bounds=0, boundary=False)
    p = cls(d)(**kw)
    c.seed_global()
    N = int(rng.choice([30, 100, 101, 400]))
    c.describe(problem=d.name, kwargs=kw, N=N)
    takes_n = d.family != "dtlz"
    Y = np.asarray(p.get_pareto_front(N) if takes_n else p.get_pareto_front(), float)
    c.count(d.family)
    if not c.require(Y.ndim == 2 and Y.shape[1] == M and len(Y) > 0 and np.all(np.isfinite(Y)), f"front-shape:{d.name}", f"{d.name}: front of shape {Y.shape}"):
        return
    c.saw(d.name, Y[:50], n=len(Y))
    res = np.array([residual(d.name, y) for y in Y])
    c.require(inexact(d, n) or np.all(res <= max(1e-5, smoothing(d.name, n, M))), f"off-front:{d.name}", f"{d.name}: point {Y[np.argmax(res)].tolist()} of the front is off the published one by {res.max()}")
    q = Y[rng.permutation(len(Y))[:300]]
    b = dominated_pairs(q, 1e-4) if d.name != "WFG2" and not inexact(d, n) else None
    c.require(b is None, f"front-dominated:{d.name}", f"{d.name}: front point {q[b[0]].tolist() if b else ''} dominates {q[b[1]].tolist() if b else ''}")
    X = [None if d.name.startswith("Eq1") and d.name.endswith("4") else preimage(d.name, y, n) for y in q[:60]]
    if X[0] is not None:
        X = np.clip(np.array(X), lo, up)
        reg_ = np.abs(1 - q[: len(X), -1] ** 2) > 1e-3 if d.name in ("CF8", "CF9", "CF10") else np.ones(len(X), bool)
        X, q60 = X[reg_], q[: len(reg_)][reg_]
        if len(X):
            F = p.objective_batch(X)
            e = np.abs(F - q60).max(1)
            tol = max(1e-5, smoothing(d.name, n, M)) if d.name != "DTLZ4" else 1e-4
            c.saw(d.name, X, n=len(X))
            c.require(np.all(e <= tol), f"not-attained:{d.name}", f"{d.name}: the Pareto-optimal decision vector of {q60[np.argmax(e)].tolist()} maps to {F[np.argmax(e)].tolist()}")
            good = feasible(p, X, 2e-4 if d.name.startswith("CF") else 1e-6)
            c.require(np.all(good), f"front-infeasible:{d.name}", f"{d.name}: front point {q60[np.argmin(good)].tolist()} is attained by an infeasible decision vector only")
    else:
        X = None
    # coverage
    if d.name in TWO and N >= 100:
        T = np.linspace(0, 1, 401)
        T = np.r_[T, np.arange(21) / 20]
        V = np.array([curve(d.name, t) for t in T])
        T, V = T[~np.isnan(V)], V[~np.isnan(V)]
        gap = np.array([np.abs(Y - [t, v]).max(1).min() for t, v in zip(T, V)])
        lim = 0.3 if d.name in ("CF6", "CF7", "CF2", "UF1", "UF2", "UF3", "ZDT1", "ZDT4", "ZDT3") else 0.06
        iso = (T == 0) & np.isin(d.name, ["CF2", "CF3", "UF6"])
        lim = np.where(iso, 0.01, lim * (1 if N < 300 else 0.6))
        c.require(np.all(gap <= lim), f"front-incomplete:{d.name}", f"{d.name}: nothing near the front point {[T[np.argmax(gap / lim)], V[np.argmax(gap / lim)]]}")
        c.saw(d.name, "coverage", N, n=1)
    Z = many(d.name, M, rng, 100)
    if Z is not None and len(Z) and N >= (400 if d.name in ("CF9", "CF10") or d.family == "wfg" else 100):
        u = 2.0 * np.arange(1, M + 1) if d.family == "wfg" else np.ones(M)
        gap = np.array([np.abs((Y - z) / u).max(1).min() for z in Z])
        c.saw(d.name, "coverage", Z, n=len(Z))
        lim = np.full(len(Z), gap_limit(d, M, N))
        if d.family in ("uf", "dtlz"):
            lim[-3:] = 1e-9  # extreme points
        c.require(np.all(gap <= lim), f"front-incomplete:{d.name}", f"{d.name}: nothing near the front point {Z[np.argmax(gap / lim)].tolist()} (distance {gap[np.argmax(gap / lim)]})")
    # nothing feasible dominates
    S = [rng.uniform(lo, up, size=(300, n))]
    if d.name == "WFG2" or inexact(d, n):
        c.sample(problem=d.name, N=N, y=Y[0])
        return
    if X is not None and len(X):
        k = 600
        B = X[rng.integers(0, len(X), size=k)]
        S.append(np.clip(B + rng.normal(size=(k, n)) * (up - lo) * 10 ** rng.uniform(-4, -0.5, size=(k, 1)) * (rng.random((k, n)) < rng.uniform(0.1, 1, size=(k, 1))), lo, up))
    elif hasattr(p, "get_pareto_set"):
        B = np.asarray(p.get_pareto_set(60))
        B = B[rng.integers(0, len(B), size=400)]
        S.append(np.clip(B + rng.normal(size=B.shape) * (up - lo) * 10 ** rng.uniform(-4, -0.5, size=(len(B), 1)), lo, up))
    S = np.concatenate(S)
    if d.name in HALF:
        S[:, M - 1 :] = 0.5
    S = S[feasible(p, S, 0.0)] if getattr(p, "n_eq_constr", 0) == 0 else S[feasible(p, S, 1e-6)]
    if d.name in ("ZDT1", "ZDT4", "ZDT3"):  # the smoothing of the root at 0 moves values by 1e-6
        S = S[S[:, 0] > 1e-3]
    if len(S):
        F = p.objective_batch(S)
        c.saw(d.name, S, n=len(S))
        for f, s in zip(F, S):
            bad = dominates(f, Y, 1e-5)
            if bad.any():
                c.fail(f"better-than-front:{d.name}", f"{d.name}: the feasible point {s.tolist()} with value {f.tolist()} dominates the front point {Y[np.argmax(bad)].tolist()}")
                break
    c.sample(problem=d.name, N=N, y=Y[0])


@monitor("P19", quick=112, thorough=1500)
def sets(c):
    """every problem class with a Pareto set: points in the box, feasible, mapped onto the published front, mutually
    non-dominated images"""
    rng = c.rng
    R = reg()
    names = [k for k in sorted(R) if R[k].family in ("zdt", "dtlz", "wfg") or k == "DENT"]
    d = R[names[c.i % len(names)]]
    kw, n, M, ok, lo, up, bnd = build(rng, d, custom_bounds=0, boundary=False)
    p = cls(d)(**kw)
    c.seed_global()
    N = int(rng.choice([1, 7, 100]))
    c.describe(problem=d.name, kwargs=kw, N=N)
    if d.family == "zdt" and rng.integers(2):
        X = p.get_pareto_set(N, kind="uniform")
        c.count("random set")
    else:
        X = p.get_pareto_set(N)
    X = np.asarray(X, float)
    if not c.require(X.ndim == 2 and X.shape[1] == n and len(X) >= 1 and (d.family == "wfg" or len(X) == N), f"set-shape:{d.name}", f"{d.name}: set of shape {X.shape} for {N} points"):
        return
    if len(X) > 300:
        X = X[rng.permutation(len(X))[:300]]
    c.saw(d.name, X, n=len(X))
    c.count(d.family)
    c.require(np.all(X >= lo - 1e-12) and np.all(X <= up + 1e-12), f"set-outside:{d.name}", f"{d.name}: Pareto set leaves the box")
    good = feasible(p, X)
    c.require(np.all(good), f"set-infeasible:{d.name}", f"{d.name}: Pareto-set point {X[np.argmin(good)].tolist()} is infeasible")
    F = p.objective_batch(X)
    tol = max(1e-6, smoothing(d.name, n, M))
    if d.name == "WFG1":
        tol = 1e-3
    res = np.array([residual(d.name, y) for y in F])
    c.require(inexact(d, n) or np.all(res <= tol), f"set-off-front:{d.name}", f"{d.name}: Pareto-set point {X[np.argmax(res)].tolist()} maps to {F[np.argmax(res)].tolist()}, off the front by {res.max()}")
    b = dominated_pairs(F, max(1e-4, smoothing(d.name, n, M))) if d.name != "WFG2" and not inexact(d, n) else None
    c.require(b is None, f"set-dominated:{d.name}", f"{d.name}: of two Pareto-set points one dominates the other: {F[b[0]].tolist() if b else ''}, {F[b[1]].tolist() if b else ''}")
    c.sample(problem=d.name, x=X[0], f=F[0])


KNOWN = sorted(HALF) + ["WFG2:better", "WFG2:front", "WFG2:set", "WFG1:front", "WFG1:set"]


@monitor("P19", quick=11, thorough=11, min_obs=11)
def known(c):
    """the listed findings on fixed inputs: the front of six inverted problems is beaten, the front and set of WFG2
    contain dominated points, and the front and set of WFG1 are off the front for some numbers of variables"""
    rng = np.random.default_rng(7)
    name, _, what = KNOWN[c.i % len(KNOWN)].partition(":")
    d = reg()[name]
    if name in HALF:
        M = 2 if name == "Eq1IDTLZ4" else 3
        p = cls(d)(n_obj=M, n_var=8)
        Y = np.asarray(p.get_pareto_front())
        c.saw(name, Y[:50], n=len(Y))
        np.random.seed(3)
        B = np.asarray(p.get_pareto_set(300), float)  # feasible positions
        if name == "IDTLZ4":  # spread over the front
            B[:, :2] = rng.random((300, 2)) ** 0.01
        for g in np.geomspace(1e-5, 0.4, 60):
            B[:, M - 1] = 0.5 + g
            F, good = p.objective_batch(B), feasible(p, B, 1e-6)
            for x, f in zip(B[good], F[good]):
                if dominates(f, Y, 1e-5).any():
                    c.fail(f"known:better-than-front:{name}", f"{name}: the feasible point {x.tolist()} with value {f.tolist()} dominates a point of the front")
                    return
        return
    if name == "WFG2":
        p = cls(d)(n_obj=3, n_var=10, k=4)
        Y = np.asarray(p.get_pareto_front(400))
        F = p.objective_batch(np.asarray(p.get_pareto_set(400)))
        c.saw(name, what, Y[:50], F[:50], n=len(Y))
        if what == "front":
            b = dominated_pairs(Y, 1e-4)
            c.require(b is None, "known:front-dominated:WFG2", "WFG2: the front contains dominated points")
        elif what == "set":
            b = dominated_pairs(F, 1e-4)
            c.require(b is None, "known:set-dominated:WFG2", "WFG2: the Pareto set contains points dominated by others")
        else:
            b = [f for f in F if dominates(f, Y, 1e-4).any()]
            c.require(not b, "known:better-than-front:WFG2", "WFG2: an attainable point dominates a point of the front")
        return
    p = cls(d)(n_obj=3, n_var=10, k=4)
    np.random.seed(3)
    Y = np.asarray(p.get_pareto_front(100)) if what == "front" else p.objective_batch(np.asarray(p.get_pareto_set(100)))
    c.saw(name, what, Y[:50], n=len(Y))
    res = max(residual("WFG1", y) for y in Y)
    c.require(res <= 1e-3, f"known:{what}-off:WFG1", f"WFG1 with 10 variables: the Pareto {what} is off the front by {res}")
