"""P18: the benchmark problems are the published ones."""
import numpy as np

from .core import monitor
from .probs import build, cls, registry

REG = None


def reg():
    global REG
    if REG is None:
        REG = registry()
    return REG


def points(rng, lo, up, k):
    X = rng.uniform(lo, up, size=(k, len(lo)))
    for x in X:
        u = rng.random()
        if u < 0.25:  # some coordinates at the bounds
            sel = rng.random(len(x)) < 0.5
            x[sel] = np.where(rng.integers(0, 2, size=sel.sum()), lo[sel], up[sel])
        elif u < 0.35:  # a corner
            x[:] = np.where(rng.integers(0, 2, size=len(x)), lo, up)
        elif u < 0.45:  # round numbers
            x[:] = lo + np.round((x - lo) / (up - lo) * 4) / 4 * (up - lo)
    return X


def agree(c, got, f, x, lo, up, mech, what, **kw):
    """equal up to rounding, unless the function is discontinuous or infinitely steep there"""
    got, want = np.asarray(got, float).ravel(), np.asarray(f(x), float).ravel()
    if got.shape != want.shape:
        return c.fail(mech, f"{what}: {len(got)} values instead of {len(want)}", x=x, **kw)
    with np.errstate(all="ignore"):
        tol = 1e-8 * (1 + np.abs(want))
        bad = ~((np.abs(got - want) <= tol) | (got == want) | (np.isnan(want) & ~np.isfinite(got)))
        bad &= np.isfinite(want)
    if not bad.any():
        return True
    r = np.random.default_rng(0)
    V = [want]
    for s in (1e-13, 1e-12):
        for _ in range(8):
            V.append(np.asarray(f(np.clip(x + s * (up - lo) * r.choice([-1, 0, 1], size=len(x)), lo, up)), float).ravel())
    V = np.array(V)
    with np.errstate(all="ignore"):
        spread = np.nanmax(V, 0) - np.nanmin(V, 0)
    if np.all(spread[bad] > np.abs(got - want)[bad] * 0.2) or not np.all(np.isfinite(V)):
        c.count("discontinuity")
        return True
    c.fail(mech, f"{what}: got {got.tolist()}, by definition {want.tolist()}", x=x, **kw)
    return False


@monitor("P18", quick=360, thorough=5000)
def definitions(c):
    """objectives and constraints, single and batched, of every problem class with random dimensions, bounds and points
    (interior, bounds, corners, round values) against the formulas of the papers"""
    rng = c.rng
    R = reg()
    names = sorted(R)
    d = R[names[c.i % len(names)]]
    kw, n, M, ok, lo, up, bnd = build(rng, d)
    p = cls(d)(**kw)
    c.describe(problem=d.name, kwargs=kw)
    c.require((p.n_var, p.n_obj) == (n, M), "dimensions", f"{d.name}: n_var={p.n_var}, n_obj={p.n_obj} instead of {n}, {M}")
    c.require(np.array_equal(p.xl, lo) and np.array_equal(p.xu, up), "bounds", f"{d.name}: bounds {p.xl}, {p.xu} instead of {lo}, {up}")
    n_g = d.n_g + 2 * n * bnd
    if hasattr(p, "n_ieq_constr") or n_g or d.n_h:
        c.require((p.n_eq_constr, p.n_ieq_constr) == (d.n_h, n_g), "counts", f"{d.name}: constraint counts {p.n_eq_constr}, {p.n_ieq_constr} instead of {d.n_h}, {n_g}")
    X = points(rng, lo, up, 12)
    small = lambda x: d.name in ("ZDT1", "ZDT3", "ZDT4") and x[0] < 1e-9 or d.name == "ZDT6" and x[1:].mean() < 1e-9 or d.name == "DTLZ6" and np.any(np.abs(x[M - 1 :]) < 1e-12)
    X = np.array([x for x in X if not small(x)]).reshape(-1, n)  # documented smoothing of roots at 0
    if not len(X):
        X = rng.uniform(lo + 0.1 * (up - lo), up, size=(2, n))
    keep = X.copy()
    Fb = p.objective_batch(X)
    c.require(np.shape(Fb) == (len(X), M), "shape", f"{d.name}: objective_batch has shape {np.shape(Fb)}")
    for i, x in enumerate(X):
        f = lambda z: d.F(z, M, **ok)
        agree(c, p.objective(x), f, x, lo, up, "objective", f"{d.name} objectives")
        agree(c, Fb[i], f, x, lo, up, "objective-batch", f"{d.name} batched objectives")
        c.saw(d.name, x, n=2)
    if n_g:
        G = p.ieq_constraint_batch(X)
        for i, x in enumerate(X):
            g = lambda z: np.r_[d.g(z, M) if d.g else [], np.r_[lo - z, z - up] if bnd else []]
            agree(c, p.ieq_constraint(x), g, x, lo, up, "inequality", f"{d.name} inequalities")
            agree(c, G[i], g, x, lo, up, "inequality-batch", f"{d.name} batched inequalities")
            c.saw(d.name, x, "g", n=2)
    if d.n_h:
        H = p.eq_constraint_batch(X)
        for i, x in enumerate(X):
            h = lambda z: d.h(z, M)
            agree(c, p.eq_constraint(x), h, x, lo, up, "equality", f"{d.name} equalities")
            agree(c, H[i], h, x, lo, up, "equality-batch", f"{d.name} batched equalities")
            c.saw(d.name, x, "h", n=2)
    c.require(np.array_equal(keep, X), "input-modified", f"{d.name}: evaluation changed the caller's points")
    c.count(d.family)
    c.sample(problem=d.name, kwargs=kw, x=X[0], f=Fb[0])
