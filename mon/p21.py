"""P21: reference set generation and bootstrapping."""
import os
import shutil
import tempfile

import numpy as np

from .core import Skip, monitor


# ------------------------------------------------------------------------------- oracle of the filling
def clusters(P, eps, minpts):
    """density-connected components, by definition; None if the clustering is ambiguous"""
    n = len(P)
    D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1))
    if np.any(np.abs(D - eps) < 1e-9):
        return None
    near = D <= eps
    core = near.sum(1) >= minpts
    label = -np.ones(n, int)
    k = 0
    for i in range(n):
        if core[i] and label[i] < 0:
            todo = [i]
            label[i] = k
            while todo:
                j = todo.pop()
                for m in np.flatnonzero(near[j] & core & (label < 0)):
                    label[m] = k
                    todo.append(m)
            k += 1
    for i in range(n):
        if not core[i]:
            owners = set(label[near[i] & core].tolist())
            if len(owners) > 1:
                return None
            if owners:
                label[i] = owners.pop()
    return [P[label == j] for j in range(k)]


def arc(Q):
    """polyline through the points in the order of the first objective: nodes, arc length at the nodes"""
    Q = Q[np.lexsort(Q.T[::-1])]
    Q = Q[np.r_[True, np.any(np.diff(Q, axis=0) != 0, axis=1)]]
    return Q, np.r_[0.0, np.cumsum(np.linalg.norm(np.diff(Q, axis=0), axis=1))]


def project(Q, s, y):
    """(distance to the polyline, arc length of the closest point)"""
    best = (np.linalg.norm(y - Q[0]), 0.0)
    for a, b, t in zip(Q[:-1], Q[1:], s[:-1]):
        d = b - a
        u = np.clip((y - a) @ d / (d @ d), 0, 1)
        r = np.linalg.norm(y - a - u * d)
        if r < best[0]:
            best = (r, t + u * np.sqrt(d @ d))
    return best


def judge_fill(c, P, Nf, out, eps, minpts, mech, what):
    comps = clusters(P, eps, minpts)
    if comps is None:
        c.count("ambiguous clustering")
        return False
    for Q in comps:  # ties in the first objective leave the order open
        U = np.unique(Q, axis=0)
        if len(np.unique(U[:, 0])) < len(U):
            c.count("ties")
            return False
    out = np.asarray(out)
    want = Nf if comps else 0
    if not c.require(out.shape == (want, 2), mech + "size", f"{what}: {out.shape} points instead of {want} ({len(comps)} components)"):
        return True
    if not comps:
        return True
    c.require(bool(np.all(np.isfinite(out))), mech + "finite", f"{what}: points that are not finite")
    lines = [arc(Q) for Q in comps]
    L = np.array([s[-1] for _, s in lines])
    scale = 1 + np.max(np.abs(P))
    share = Nf * L / L.sum() if L.sum() > 0 else None
    got = [[] for _ in comps]
    for y in out:
        pr = [project(Q, s, y) for Q, s in lines]
        j = int(np.argmin([r for r, _ in pr]))
        if pr[j][0] > 1e-9 * scale:
            c.fail(mech + "off-line", f"{what}: point {y.tolist()} is {pr[j][0]:.3g} away from every component's polyline")
            return True
        got[j].append(pr[j][1])
    for j, (Q, s) in enumerate(lines):
        m = len(got[j])
        if share is not None:
            c.require(abs(m - share[j]) < 1 + 1e-9, mech + "share", f"{what}: component {j} of length {L[j]:.4g} (of {L.sum():.4g}) received {m} of {Nf} points")
        if m >= 2:
            t = np.sort(got[j])
            ref = np.linspace(0, s[-1], m)
            c.require(bool(np.all(np.abs(t - ref) <= 1e-7 * scale)), mech + "spacing", f"{what}: points of component {j} sit at arc lengths {t[:6]}..., evenly spaced would be {ref[:6]}...")
            c.require(min(np.linalg.norm(out - Q[0], axis=1)) < 1e-9 * scale and min(np.linalg.norm(out - Q[-1], axis=1)) < 1e-9 * scale, mech + "ends", f"{what}: end points of component {j} are missing")
        elif m == 1:
            c.count("components with one point")
        else:
            c.count("components without points")
    return True


def front(rng):
    """components of a 2-D front, plus noise, duplicates, dominated points; shuffled"""
    parts, f1 = [], float(rng.uniform(-1, 1))
    top = float(rng.uniform(0.5, 3))
    for _ in range(int(rng.integers(1, 6))):
        n = int(rng.choice([1, 2, 2, 3, 5, 10, 25]))
        w = float(rng.choice([0.001, 0.01, 0.1, 0.5, 1.0]) * rng.uniform(0.5, 1))
        t = np.sort(rng.uniform(0, 1, n)) if rng.integers(2) else np.linspace(0, 1, n)
        shape = rng.integers(3)
        h = w * rng.uniform(0.1, 1.5)
        y = {0: 1 - t, 1: (1 - t) ** 2, 2: np.sqrt(np.clip(1 - t**2, 0, 1))}[int(shape)]
        parts.append(np.c_[f1 + w * t, top - h + h * y])
        gap = rng.choice([0.02, 0.2, 0.5])
        f1, top = f1 + w + gap, top - h - gap * rng.uniform(0.2, 1.5)
    P = np.vstack(parts)
    if rng.random() < 0.3:
        P = np.r_[P, P[rng.integers(0, len(P), size=int(rng.integers(1, 4)))]]
    if rng.random() < 0.3:
        P = P + rng.normal(size=P.shape) * 0.01
    if rng.random() < 0.2:  # level pieces
        P[:, 1] = np.round(P[:, 1] * 20) / 20
    if rng.random() < 0.1:
        P = np.repeat(P[:1], int(rng.integers(1, 5)), axis=0)
    return P[rng.permutation(len(P))]


@monitor("P21", quick=1200, thorough=15000)
def filling(c):
    """RSG on random disconnected 2-D fronts (noise, duplicates, collapsed and tiny components, all clustering parameters):
    number of points, membership in the components' polylines, shares proportional to length, even spacing, end points"""
    from hvd.rsg import RSG

    rng = c.rng
    P = front(rng)
    Nf = int(rng.choice([1, 2, 5, 10, 30, 100]))
    kw = {}
    if rng.random() < 0.5:
        kw = dict(eps=float(rng.choice([0.02, 0.05, 0.15, 0.4])), minpts=int(rng.integers(2, 5)))
    c.describe(P=P, Nf=Nf, **kw)
    keep = P.copy()
    out = RSG(P, Nf, **kw)
    c.require(np.array_equal(P, keep), "input-modified", "RSG changed the caller's points")
    if judge_fill(c, P, Nf, out, kw.get("eps", 0.08), kw.get("minpts", 2), "fill:", "RSG"):
        c.saw(P, Nf, sorted(kw.items()), n=max(1, len(out)))
        c.count("components", len(clusters(P, kw.get("eps", 0.08), kw.get("minpts", 2))))
    again = RSG(P[::-1].copy(), Nf, **kw)
    if clusters(P, kw.get("eps", 0.08), kw.get("minpts", 2)) is not None:
        c.require(len(again) == len(out), "order", f"RSG of the reversed set has {len(again)} instead of {len(out)} points")
    c.sample(P=P[:4], Nf=Nf, out=np.asarray(out)[:4])


@monitor("P21", quick=500, thorough=6000)
def interpolation(c):
    """interpolate_tst: evenly spaced points on the polyline from the first to the last point, in order"""
    from hvd.rsg import interpolate_tst

    rng = c.rng
    n = int(rng.integers(1, 12))
    X = np.c_[np.sort(rng.choice(np.arange(1000), size=n, replace=False)) / 500.0, rng.normal(size=(n, int(rng.integers(1, 3))))]
    if rng.random() < 0.4:  # level pieces
        X[:, 1] = np.round(X[:, 1])
    X = X[rng.permutation(n)]
    if rng.random() < 0.3:
        X = np.r_[X, X[rng.integers(0, n, size=2)]]
    Nf = int(rng.choice([0, 1, 2, 3, 7, 40]))
    c.describe(X=X, Nf=Nf)
    keep = X.copy()
    out = interpolate_tst(X, Nf)
    c.require(np.array_equal(X, keep), "input-modified", "interpolate_tst changed the caller's points")
    if not c.require(out.shape == (Nf, X.shape[1]), "size", f"interpolate_tst: shape {out.shape} instead of {(Nf, X.shape[1])}"):
        return
    Q, s = arc(X)
    t = np.linspace(0, s[-1], Nf) if Nf != 1 else None
    if Nf == 1:
        c.require(project(Q, s, out[0])[0] < 1e-9, "off-line", "interpolate_tst: the single point is off the polyline")
    elif Nf:
        want = np.stack([np.interp(t, s, Q[:, j]) for j in range(Q.shape[1])], 1) if len(Q) > 1 else np.repeat(Q, Nf, 0)
        c.close(out, want, "interpolate", "interpolate_tst", rtol=1e-9, atol=1e-10)
    c.saw(X, Nf)


# ------------------------------------------------------------------------------- shift direction, filter
def chim(Y):
    Z = Y[Y.argmin(axis=0)]
    M = Z[1:] - Z[0]
    u, s, vt = np.linalg.svd(M)
    if s[-1] < 1e-6 * max(s[0], 1e-300):
        return None  # extreme points coincide or are in line: no hyperplane
    return -np.abs(vt[-1])


@monitor("P21", quick=500, thorough=6000)
def direction(c):
    """compute_chim: unit vector perpendicular to the hyperplane of the individual minima, pointing towards the ideal point;
    filter_outliers: (X, Y) pairs stay together, exactly the mutually non-dominated inliers survive"""
    from sklearn.neighbors import LocalOutlierFactor

    from hvd.bootstrap import filter_outliers
    from hvd.utils import compute_chim

    rng = c.rng
    m = int(rng.integers(2, 6))
    Y = rng.uniform(size=(int(rng.integers(m, 40)), m)) * rng.choice([0.1, 1, 50])
    if rng.integers(2):
        Y = np.abs(rng.normal(size=Y.shape))
        Y /= np.linalg.norm(Y, axis=1, keepdims=True)
    c.describe(Y=Y)
    keep = Y.copy()
    v = compute_chim(Y)
    want = chim(Y)
    if want is not None:
        c.close(v, want, "chim", "compute_chim", rtol=1e-6, atol=1e-7)
        c.saw("chim", Y)
    if len(Y) >= 12:
        X = rng.normal(size=(len(Y), 3))
        dom = np.array([any(np.all(a <= b) and np.any(a < b) for a in Y) for b in Y])
        if (~dom).sum() >= 5:
            idx = np.flatnonzero(~dom)
            idx = idx[LocalOutlierFactor(n_neighbors=3).fit_predict(Y[idx]) == 1]
            X_, Y_ = filter_outliers([X, Y])
            c.require(np.array_equal(X_, X[idx]) and np.array_equal(Y_, Y[idx]), "filter", f"filter_outliers kept {len(Y_)} pairs, expected {len(idx)} (non-dominated and inlying)")
            c.saw("filter", Y)
    c.require(np.array_equal(Y, keep), "input-modified", "the caller's points changed")


# ------------------------------------------------------------------------------- bootstrapping
def rows_in(A, B, tol=1e-9):
    """for every row of A the index of the closest row of B and the distance"""
    D = np.sqrt(((A[:, None] - B[None]) ** 2).sum(-1))
    return D.argmin(1), D.min(1)


@monitor("P21", quick=40, thorough=300, timeout=600)
def bootstrapping(c):
    """bootstrap_reference_set around real MMDNewton runs, recorded at every entry to newton_iteration: when and from what
    the reference set is rebuilt, shift, spread weight, books, files, and what is returned"""
    import pandas as pd
    from sklearn.neighbors import LocalOutlierFactor

    from hvd.bootstrap import bootstrap_reference_set
    from hvd.mmd import MMDMatching, laplace, rational_quadratic, rbf
    from hvd.mmd_newton import MMDNewton
    from hvd.problems import DTLZ2, ZDT1, ZDT2, ZDT3
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    c.seed_global()
    name = ["ZDT1", "ZDT3", "ZDT2", "DTLZ2"][c.i % 4]
    matching = bool(c.i // 4 % 2 == 0)
    rsg = name != "DTLZ2" and bool(rng.random() < 0.75)
    N = int(rng.integers(12, 30)) if matching else int(rng.integers(10, 16))
    p = {"ZDT1": ZDT1, "ZDT2": ZDT2, "ZDT3": ZDT3}[name](n_var=4) if name != "DTLZ2" else DTLZ2(n_var=4, n_obj=3)
    n, m = p.n_var, p.n_obj
    X0 = np.zeros((N, n))
    if name == "ZDT3":
        S = p.get_pareto_set(500)[:, 0]
        X0[:, 0] = np.sort(rng.choice(S, N)) + 1e-4 * rng.random(N)
    elif m == 2:
        X0[:, 0] = np.linspace(0.02, 0.98, N) + 1e-3 * rng.random(N)
    else:
        X0[:, :2] = rng.uniform(0.05, 0.95, size=(N, 2))
    X0[:, m - 1 :] = (0.5 if name == "DTLZ2" else 0.02) + rng.uniform(0, 0.03, size=(N, n - m + 1))
    pf = p.get_pareto_front(120) if m == 2 else p.get_pareto_front()[:: 3]
    R0 = np.asarray(pf) - 0.03
    ref = ReferenceSet(ref=R0.copy())
    iters, interval, last_n = int(rng.integers(1, 8)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    files = bool(rng.random() < 0.4)
    kwargs = dict(interval=interval, with_rsg=rsg, save_reference_set=files, save_population=files, last_n=last_n)
    if rsg and rng.random() < 0.25:  # everything left at its default
        iters, interval, last_n, files, kwargs = int(rng.integers(6, 8)), 5, 3, False, {}
        c.count("defaults")
    kernel = [rbf, laplace, rational_quadratic][int(rng.integers(3))]
    theta = float(rng.choice([1.0, 10.0]))
    c.describe(problem=name, N=N, iters=iters, interval=interval, last_n=last_n, rsg=rsg, matching=matching, files=files, kernel=kernel.__name__)
    opt = MMDNewton(n_var=n, n_obj=m, ref=ref, func=p.objective, jac=p.objective_jacobian, hessian=p.objective_hessian, N=N, X0=X0.copy(), xl=p.xl, xu=p.xu, max_iters=iters, verbose=False, matching=matching, preconditioning=True, theta=theta, kernel=kernel)
    log = []
    inner = opt.newton_iteration

    def rec():
        log.append(dict(X=opt.state.X[:, :n].copy(), Y=opt.state.Y.copy(), R=np.array(opt.ref.reference_set), same=opt.indicator.ref is opt.ref, beta=getattr(opt.indicator, "beta", None), N=opt.ref.N))
        return inner()

    opt.newton_iteration = rec
    beta0 = getattr(opt.indicator, "beta", None)
    # inputs on which the procedure is not defined
    cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix="vp21_")
    try:
        os.chdir(tmp)
        try:
            res = bootstrap_reference_set(opt, p, plot=False, **kwargs)
        except Exception:
            if log and rsg and len(log) < iters:
                Y = opt.state.Y
                Z = 0.95 * Y + 0.05 * Y.mean(axis=1, keepdims=True)
                cl = clusters(Z, 0.08, 2)
                if cl is not None and not cl:
                    raise Skip("no component to fill")
            if len(log) == iters and min(np.sum(~dominated(e["Y"])) for e in log[-last_n:]) < 5:
                raise Skip("too few points for the outlier filter")
            raise
        csv = {f: pd.read_csv(f, header=None).values for f in os.listdir(tmp)}
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    Xb, Yb, last, refs = res
    if matching:  # the indicator the run ends with is one of the reference points and the weight it shows
        X = opt.state.X[:, :n]
        g = opt.indicator.compute_derivatives(X)[0]
        T = np.array(opt.indicator.ref.reference_set)
        if T.shape == opt.state.Y.shape:
            new = MMDMatching(n, m, ReferenceSet(T, eta={0: T[0]}), p.objective, p.objective_jacobian, p.objective_hessian, kernel=kernel, theta=theta, beta=opt.indicator.beta)
            c.close(g, new.compute_derivatives(X)[0], "bootstrap:gradient", "gradient of the indicator after bootstrapping", rtol=1e-7, atol=1e-9)
            c.saw("gradient", X)
    c.require(len(log) == iters, "iterations", f"{len(log)} Newton iterations instead of {iters}")
    when = [i for i in range(1, iters) if i % interval == 0]
    if not c.require(len(refs) == len(when), "when", f"{len(refs)} reference sets recorded, the interval {interval} asks for {len(when)} in {iters} iterations"):
        return
    for k, i in enumerate(when):
        e = log[i]
        Z = 0.95 * e["Y"] + 0.05 * e["Y"].mean(axis=1, keepdims=True)
        if rsg:
            judge_fill(c, Z, N, refs[k], 0.08, 2, "bootstrap:", f"bootstrapped reference set of iteration {i}")
        else:
            c.close(refs[k], Z, "bootstrap:population", f"bootstrapped reference set of iteration {i}", rtol=1e-10, atol=1e-12)
        c.require(e["same"], "bootstrap:indicator", f"iteration {i}: indicator and optimiser use different reference sets")
        eta = chim(refs[k])
        if eta is not None:
            j, d = rows_in(e["R"], refs[k] + 0.05 * eta)
            scale = 1 + np.max(np.abs(refs[k]))
            c.require(bool(np.all(d < 1e-8 * scale)), "bootstrap:shift", f"iteration {i}: the optimiser works with reference points that are not the bootstrapped ones shifted by 0.05 along the normal (off by {d.max():.3g})")
            # all of them, each once (duplicates aside)
            if len(np.unique(np.round(refs[k], 7), axis=0)) == len(refs[k]) == len(e["R"]):
                c.require(len(set(j.tolist())) == len(j), "bootstrap:all", f"iteration {i}: some bootstrapped reference points are unused, others used twice")
        c.saw("bootstrap", name, e["Y"])
    for i, e in enumerate(log):
        k = sum(w <= i for w in when)
        if matching:
            c.require(np.isclose(e["beta"], beta0 * 0.8**k), "beta", f"iteration {i}: spread weight {e['beta']}, expected {beta0}*0.8^{k}")
        c.saw("iteration", e["X"])
    # result
    pool = []
    for e in log[-last_n:]:
        idx = np.flatnonzero(~dominated(e["Y"]))
        if len(idx) < 4:
            pool = None
            break
        idx = idx[LocalOutlierFactor(n_neighbors=3).fit_predict(e["Y"][idx]) == 1]
        pool += [(x, y) for x, y in zip(e["X"][idx], e["Y"][idx])]
    if pool is not None:
        c.require(len(Xb) == len(Yb) == min(N, len(pool)), "result-size", f"{len(Xb)} points returned, expected {min(N, len(pool))}")
        A = np.array([np.r_[x, y] for x, y in pool])
        j, d = rows_in(np.c_[Xb, Yb], A)
        c.require(bool(np.all(d < 1e-12)), "result-member", f"returned pairs that are not among the filtered pairs of the last {last_n} populations")
        if len(np.unique(A, axis=0)) == len(A):
            c.require(len(set(j.tolist())) == len(j), "result-repeated", "the same pair is returned twice")
    for x, y in zip(Xb, Yb):
        c.close(y, p.objective(x), "result-pair", "returned objective vector of the returned point", rtol=1e-9, atol=1e-9)
    c.require(last is opt.ref, "last", "the returned reference set is not the optimiser's")
    c.require(np.array_equal(R0, np.asarray(pf) - 0.03), "caller", "the caller's reference set changed")
    want = {}
    if files:
        for i, e in enumerate(log):
            want[f"X_MMDNewton_{name}_iteration{i}.csv"] = e["X"]
            want[f"Y_MMDNewton_{name}_iteration{i}.csv"] = e["Y"]
        for k, i in enumerate(when):
            want[f"ref_MMDNewton-iteration{i}.csv"] = refs[k]
    if c.require(set(csv) == set(want), "files", f"files {sorted(csv)[:6]}..., expected {sorted(want)[:6]}..."):
        for f in want:
            c.require(csv[f].shape[0] == len(want[f]) and np.allclose(csv[f][:, : want[f].shape[1]], want[f], rtol=1e-9, atol=1e-12), "file-content", f"content of {f}")
            c.saw(f, csv[f])
    c.count(name + (" rsg" if rsg else "") + (" matched" if matching else ""))
    c.count("bootstrapped", len(when))
    c.sample(problem=name, N=N, iterations=iters, interval=interval, sizes=[len(r) for r in refs])


def dominated(Y):
    return np.array([any(np.all(a <= b) and np.any(a < b) for a in Y) or sum(np.array_equal(a, b) for a in Y) > 1 for b in Y])
