"""P17: derivatives of the benchmark problems."""
import numpy as np

from . import gen
from .core import Skip, monitor
from .probs import build, cls, registry

REG = None


def reg():
    global REG
    if REG is None:
        REG = registry()
    return REG


def fd(f, x, h, scale):
    """central differences of f at x along every coordinate, step h*scale_j"""
    cols = []
    for j in range(len(x)):
        e = np.zeros(len(x))
        e[j] = h * scale[j]
        cols.append((np.asarray(f(x + e), float) - np.asarray(f(x - e), float)) / (2 * e[j]))
    return np.stack(cols, axis=-1)


def judge(c, got, f, x, scale, mech, what):
    """compare where two step sizes agree on the difference quotient (elsewhere the function has a kink or is too wild)"""
    got = np.asarray(got, float)
    with np.errstate(all="ignore"):
        a, b, e = fd(f, x, 1e-5, scale), fd(f, x, 2.5e-6, scale), fd(f, x, 1.3e-5, scale)
        mag = np.maximum(np.abs(a), np.abs(b))
        noise = 1e-10 / scale * (1 + np.abs(np.asarray(f(x), float)))[..., None] / 1e-5 * 1e-4
        smooth = (np.abs(a - b) <= 1e-4 * (mag + 1)) & (np.abs(a - e) <= 1e-4 * (mag + 1)) & np.isfinite(a)
        bad = smooth & ~(np.abs(got - b) <= 1e-3 * (mag + 1) + noise)
    if got.shape != a.shape:
        c.fail("shape:" + mech, f"{what}: shape {got.shape}, expected {a.shape}")
        return
    c.count("compared", int(smooth.sum()))
    c.count("not smooth", int((~smooth).sum()))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        c.fail(mech, f"{what}: entry {i} is {got[i]}, difference quotient {b[i]} ({bad.sum()} entries differ)", x=x)


@monitor("P17", quick=114, thorough=2500)
def derivatives(c):
    """Jacobians and Hessians of objectives and constraints of every problem class (random dimensions, bounds, points)
    against difference quotients; batched = single; boundary constraints appended as [g, xl-x, x-xu]"""
    rng = c.rng
    R = reg()
    names = sorted(R)
    d = R[names[c.i % len(names)]]
    kw, n, M, ok, lo, up, bnd = build(rng, d)
    p = cls(d)(**kw)
    c.describe(problem=d.name, kwargs=kw)
    w = up - lo
    X = rng.uniform(lo + 0.02 * w, up - 0.02 * w, size=(4, n))
    if d.name == "CF8" or d.name == "CF9" or d.name == "CF10":
        X[:, 0] = rng.uniform(lo[0] + 0.02 * w[0], lo[0] + 0.5 * w[0], size=4)
    scale = w * 1.0
    if d.family != "wfg" and rng.random() < 0.5:  # where optimisers end up: coordinates exactly in the middle of their range
        sel = rng.random(X.shape) < 0.5
        sel[:, 0] = False
        X = np.where(sel, (lo + up) / 2, X)
        c.count("middle coordinates")
    if d.name.endswith("DTLZ4"):
        X[:, : M - 1] = (lo + w * rng.uniform(0.93, 0.99, size=(4, n)))[:, : M - 1]
        scale = w * 0.05
    if d.family in ("wfg",) or d.name.endswith("DTLZ3") or d.name.endswith("DTLZ1"):
        scale = w * 0.1
    kinds = [("objective", M, p.objective, p.objective_batch, p.objective_jacobian, p.objective_jacobian_batch, p.objective_hessian, p.objective_hessian_batch)]
    n_g = d.n_g + 2 * n * bnd
    if n_g:
        kinds.append(("inequality", n_g, p.ieq_constraint, p.ieq_constraint_batch, p.ieq_jacobian, p.ieq_jacobian_batch, p.ieq_hessian, p.ieq_hessian_batch))
    if d.n_h:
        kinds.append(("equality", 1, p.eq_constraint, p.eq_constraint_batch, p.eq_jacobian, p.eq_jacobian_batch, p.eq_hessian, p.eq_hessian_batch))
    for kind, q, f, fb, J, Jb, H, Hb in kinds:
        F1 = np.array([np.asarray(f(x), float).ravel() for x in X])
        Fb = np.asarray(fb(X), float).reshape(len(X), -1)
        J1, H1 = np.array([J(x) for x in X]), np.array([H(x) for x in X])
        JB, HB = np.asarray(Jb(X)), np.asarray(Hb(X))
        c.require(J1.shape == JB.shape == (4, q, n), "shape:" + kind, f"{d.name} {kind}: Jacobian shapes {J1.shape}, {JB.shape}")
        if not c.require(H1.shape == HB.shape == (4, q, n, n), "shape:" + kind, f"{d.name} {kind}: Hessian shapes {H1.shape}, {HB.shape}"):
            continue
        c.saw(d.name, X, kind, n=3 * len(X))
        for a, b, nm in ((F1, Fb, "value"), (J1, JB, "Jacobian"), (H1, HB, "Hessian")):
            ok_ = np.isclose(a, b, rtol=1e-8, atol=1e-8 * (1 + np.nanmax(np.abs(a), initial=0))) | (np.isnan(a) & np.isnan(b)) | ~np.isfinite(a)
            c.require(bool(ok_.all()), f"batch:{kind}", f"{d.name} {kind}: batched {nm} differs from the single ones", x=X)
        if bnd and kind == "inequality":
            c.close(F1[:, d.n_g :], np.c_[lo - X, X - up], "box-values", f"{d.name}: box constraints", rtol=1e-12)
            c.close(J1[:, d.n_g :], np.tile(np.r_[-np.eye(n), np.eye(n)], (4, 1, 1)), "box-jacobian", f"{d.name}: Jacobian of the box constraints", rtol=1e-12)
            c.require(not np.any(H1[:, d.n_g :]), "box-hessian", f"{d.name}: Hessian of the box constraints is not zero")
        for i in range(3):
            flat = lambda z: np.asarray(f(z), float).ravel()
            jac = lambda z: np.asarray(J(z), float)
            judge(c, J1[i], flat, X[i], scale, f"jacobian:{kind}", f"{d.name} {kind} Jacobian")
            judge(c, H1[i], jac, X[i], scale, f"hessian:{kind}", f"{d.name} {kind} Hessian")
    c.count(d.family)
    c.sample(problem=d.name, kwargs=kw, x=X[0])


@monitor("P17", quick=30, thorough=300)
def histories(c):
    """answers do not depend on what was evaluated before, on other instances of the class;
    the caller may write to returned single answers"""
    rng = c.rng
    R = reg()
    names = sorted(R)
    d = R[str(rng.choice(names))]
    kw, n, M, ok, lo, up, bnd = build(rng, d)
    kw2, n2, M2, _, lo2, up2, _ = build(rng, d)
    p, other = cls(d)(**kw), cls(d)(**kw2)
    c.describe(problem=d.name, kwargs=kw, other=kw2)
    x = rng.uniform(lo, up)
    first = [p.objective(x), p.objective_jacobian(x), p.objective_hessian(x)]
    keep = [a.copy() for a in first]
    for a in first:
        if a.flags.writeable:
            a[...] = -77.0
    for _ in range(3):
        other.objective(rng.uniform(lo2, up2))
        other.objective_jacobian(rng.uniform(lo2, up2))
        p.objective_batch(rng.uniform(lo, up, size=(int(rng.integers(1, 5)), n)))
    again = [p.objective(x), p.objective_jacobian(x), p.objective_hessian(x)]
    c.saw(d.name, x, n=3)
    for a, b in zip(keep, again):
        c.require(np.array_equal(a, b, equal_nan=True), "history", f"{d.name}: the same point gave another answer later")
    fresh = cls(d)(**kw)
    c.require(np.array_equal(fresh.objective(x), keep[0], equal_nan=True), "instance", f"{d.name}: a fresh instance answers differently")
    y = p.objective(np.asfortranarray(x)) if rng.integers(2) else p.objective(np.r_[x, x][: len(x)])
    c.require(np.array_equal(y, keep[0], equal_nan=True), "container", f"{d.name}: another copy of the same point gives another answer")


def answers(p, d, bnd):
    """(name, function, batched function) of everything a problem answers"""
    out = [("objective", p.objective, p.objective_batch), ("objective_jacobian", p.objective_jacobian, p.objective_jacobian_batch), ("objective_hessian", p.objective_hessian, p.objective_hessian_batch)]
    if d.n_g or bnd:
        out += [("ieq", p.ieq_constraint, p.ieq_constraint_batch), ("ieq_jacobian", p.ieq_jacobian, p.ieq_jacobian_batch), ("ieq_hessian", p.ieq_hessian, p.ieq_hessian_batch)]
    if d.n_h:
        out += [("eq", p.eq_constraint, p.eq_constraint_batch), ("eq_jacobian", p.eq_jacobian, p.eq_jacobian_batch), ("eq_hessian", p.eq_hessian, p.eq_hessian_batch)]
    return out


@monitor("P17", quick=32, thorough=320)
def batches(c):
    """populations of all sizes, in changing order of size: every row of a batched answer is the single answer of that row"""
    rng = c.rng
    R = reg()
    d = R[str(rng.choice(sorted(R)))]
    kw, n, M, ok, lo, up, bnd = build(rng, d)
    p = cls(d)(**kw)
    sizes = [int(v) for v in rng.choice([1, 2, 3, 31, 50, 64, 65, 100, 129, 200, 257, 500], size=2, replace=False)]
    c.describe(problem=d.name, kwargs=kw, sizes=sizes)
    fs = answers(p, d, bnd)
    for m in sizes:
        X = rng.uniform(lo + 0.02 * (up - lo), up - 0.02 * (up - lo), size=(m, n))
        if m > 2 and rng.integers(2):
            X[rng.integers(m, size=m // 3)] = X[0]
        rows = np.unique(np.r_[0, m - 1, rng.integers(m, size=6)])
        for nm, f, fb in [fs[i] for i in np.unique(rng.integers(len(fs), size=4))]:
            B = np.asarray(fb(X), float)
            if not c.require(len(B) == m, f"batch-length:{nm}", f"{d.name}.{nm}_batch: {len(B)} rows for {m} points"):
                continue
            for i in rows:
                a = np.asarray(f(X[i]), float)
                b = B[i].reshape(a.shape)
                good = np.isclose(a, b, rtol=1e-8, atol=1e-8 * (1 + np.nanmax(np.abs(a), initial=0))) | ~np.isfinite(a)
                c.require(bool(good.all()), f"batch-row:{nm}", f"{d.name}.{nm}_batch of {m} points: row {i} differs from the single answer", x=X[i])
            c.saw(d.name, nm, m, X[:2], n=len(rows))
            c.count(f"size>{64}" if m > 64 else "small")


@monitor("P17", quick=40, thorough=400)
def siblings(c):
    """two instances of a class with equal sizes but other bounds, position parameters or constraint settings, used in
    turns: each one's derivatives belong to its own functions"""
    rng = c.rng
    R = reg()
    names = sorted(R)
    fam = str(rng.choice(["wfg", "any"], p=[0.35, 0.65]))
    names = [k for k in names if fam == "any" or R[k].family == fam]
    d = R[str(rng.choice(names))]
    kw, n, M, ok, lo, up, bnd = build(rng, d)
    kw2 = dict(kw)
    lo2, up2, bnd2 = lo, up, bnd
    if d.family == "wfg":
        ks = [k for k in range(M - 1, n, M - 1) if k >= 4 and (d.name not in ("WFG2", "WFG3") or (n - k) % 2 == 0)]
        kw2["k"] = int(rng.choice(ks))
        c.count("other position parameters", int(kw2["k"] != kw["k"]))
    else:
        w = up - lo
        lo2, up2 = lo + w * rng.uniform(0, 0.3, n), up - w * rng.uniform(0, 0.3, n)
        kw2.update(xl=lo2, xu=up2)
        if d.box_arg and rng.integers(2):
            bnd2 = not bnd
            kw2["boundary_constraints"] = bnd2
    args = [(cls(d)(**kw), lo, up, bnd, kw), (cls(d)(**kw2), lo2, up2, bnd2, kw2)]
    c.describe(problem=d.name, kwargs=kw, sibling=kw2)
    L, U = np.maximum(lo, lo2), np.minimum(up, up2)
    for t in rng.permutation(2).tolist() * 2:
        p, l, u, b, k = args[t]
        x = rng.uniform(L + 0.05 * (U - L), U - 0.05 * (U - L))
        if d.name.endswith("DTLZ4"):
            x[: M - 1] = (U - (U - L) * 0.03)[: M - 1]
        if d.name in ("CF8", "CF9", "CF10"):
            x[0] = L[0] + 0.3 * (U - L)[0]
        scale = (u - l) * (0.1 if d.family in ("wfg", "dtlz") else 1.0)
        fs = {nm: f for nm, f, _ in answers(p, d, b)}
        for nm in [q for q in fs if "_" not in q]:
            flat = lambda z: np.asarray(fs[nm](z), float).ravel()
            jac = lambda z: np.asarray(fs[nm + "_jacobian"](z), float)
            judge(c, jac(x), flat, x, scale, f"sibling-jacobian:{nm}", f"{d.name} {k}: {nm} Jacobian next to a sibling")
            judge(c, fs[nm + "_hessian"](x), jac, x, scale, f"sibling-hessian:{nm}", f"{d.name} {k}: {nm} Hessian next to a sibling")
        if b:
            v = np.asarray(p.ieq_constraint(x), float).ravel()[d.n_g :]
            c.close(v, np.r_[l - x, x - u], "sibling-box", f"{d.name}: box constraints next to a sibling with other bounds", rtol=1e-12)
        c.saw(d.name, t, x, n=2)


@monitor("P17", quick=40, thorough=400)
def rewritten_arrays(c):
    """one decision vector (and one population array) rewritten in place between evaluations: every answer is that of a
    copy given to another instance without a history"""
    rng = c.rng
    R = reg()
    d = R[str(rng.choice(sorted(k for k in R if R[k].n_h or rng.random() < 0.5)))]
    kw, n, M, ok, lo, up, bnd = build(rng, d)
    p, q = cls(d)(**kw), cls(d)(**kw)
    c.describe(problem=d.name, kwargs=kw)
    w = up - lo
    m = int(rng.integers(1, 5))
    fs, gs = answers(p, d, bnd), answers(q, d, bnd)
    for k in np.unique(rng.integers(len(fs), size=3)):
        nm = fs[k][0]
        gen.rewritten(c, fs[k][1], gs[k][1], lambda: rng.uniform(lo + 0.05 * w, up - 0.05 * w), f"rewritten:{nm}", f"{d.name}.{nm}")
        gen.rewritten(c, fs[k][2], gs[k][2], lambda: rng.uniform(lo + 0.05 * w, up - 0.05 * w, size=(m, n)), f"rewritten-batch:{nm}", f"{d.name}.{nm}_batch")
