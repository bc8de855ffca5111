"""P01: the hypervolume value is the Lebesgue measure of the dominated region."""
import numpy as np

from . import gen
from .core import Skip, monitor
from .oracles import fronts_by_peeling, hv_grid, hv_incl_excl, hv_slices


def _case(c):
    rng = c.rng
    m = int(rng.integers(1, 8))
    n = int(rng.integers(0, {1: 30, 2: 24, 3: 16, 4: 11, 5: 8}.get(m, 6) + (4 if c.thorough else 0) // m + 1))
    style = gen.STYLES[int(rng.integers(len(gen.STYLES)))]
    P = gen.point_set(rng, n, m, style).reshape(n, m)
    r = rng.integers(5)
    span = np.ptp(P, axis=0) + 1 if n else np.ones(m)
    hi = P.max(axis=0) if n else np.zeros(m)
    if r == 0:
        ref = hi + span * 0.1
    elif r == 1:
        ref = hi - span * rng.uniform(0.0, 0.6, size=m)  # many points outside
    elif r == 2:
        ref = hi.copy()  # points exactly on the boundary
    elif r == 3:
        ref = np.zeros(m)
    else:
        ref = np.array([rng.choice(P[:, k]) if n else 1.0 for k in range(m)]) + rng.integers(0, 2, size=m)
    k = gen.magnitude(rng, 0.1)
    return P * k, ref.astype(float) * k, style


def _tol(P, ref):
    span = np.abs(ref - P[np.all(P <= ref, axis=1)]).max(axis=0, initial=0.0) if len(P) else np.zeros(len(ref))
    return 1e-9 * max(np.prod(span), 1e-300) + 1e-300


@monitor("P01", quick=32000, thorough=400000)
def value_against_measure(c):
    """random point sets (10 styles incl. ties, duplicates, dominated, out-of-reference, empty; 1-7 objectives)
    vs. coordinate-compression measure of the union of boxes"""
    from hvd.hypervolume import HyperVolume, hypervolume

    P, ref, style = _case(c)
    c.describe(points=P, ref=ref, style=style)
    before = P.copy()
    arg = [P, P.tolist(), [tuple(p) for p in P], gen.layout(c.rng, P)][c.i % 4]
    got = hypervolume(arg, ref if c.i // 4 % 2 else ref.tolist())
    want = hv_grid(P, ref)
    c.saw(P, ref, nontrivial=want > 0)
    c.count(f"style={style}")
    c.count(f"m={P.shape[1]}")
    c.require(abs(got - want) <= _tol(P, ref), "hv-value", f"hypervolume {got!r}, measure {want!r}")
    c.require(np.array_equal(P, before), "input-mutated", "the point set was modified")
    if len(P) <= 5:
        w2 = hv_incl_excl(P, ref)
        assert abs(w2 - want) <= 10 * _tol(P, ref) + 1e-9 * abs(want), "oracles disagree"
    c.sample(points=P, ref=ref, hypervolume=got, measure=want)
    if c.i % 4 == 0:
        solver = HyperVolume(ref)
        a, b = solver.compute(P), solver.compute(P)
        c.require(a == b == got or max(abs(a - got), abs(b - got)) <= _tol(P, ref), "hv-reuse", f"{a} {b} {got}")


@monitor("P01", quick=6000, thorough=60000)
def history_of_edits(c):
    """a history of insert/duplicate/delete/permute/translate/scale edits of one set: after every edit the value obeys
    the metamorphic law of that edit (monotone, idempotent, symmetric, equivariant) and the measure oracle"""
    from hvd.hypervolume import hypervolume

    rng = c.rng
    m = int(rng.integers(2, 7))
    P = gen.point_set(rng, int(rng.integers(1, 5)), m, gen.STYLES[int(rng.integers(len(gen.STYLES)))])
    ref = P.max(axis=0) + np.ptp(P, axis=0) * rng.choice([0.0, 0.3]) + rng.integers(0, 2)
    v = hypervolume(P, ref)
    log = []
    for _ in range(6):
        op = rng.choice(["insert", "duplicate", "delete", "permute", "axes", "translate", "scale", "dominated"])
        Q, r2, want = P, ref, None
        tol = 20 * _tol(P, ref) + 1e-9 * abs(v)
        if op == "insert":
            p = np.array([rng.choice(P[:, k]) for k in range(m)]) - rng.integers(0, 2, size=m) * rng.random()
            Q = np.vstack([P, p])
        elif op == "duplicate":
            Q, want = np.vstack([P, P[rng.integers(len(P))]]), v
        elif op == "delete":
            if len(P) == 1:
                continue
            Q = np.delete(P, rng.integers(len(P)), axis=0)
        elif op == "permute":
            Q, want = P[rng.permutation(len(P))], v
        elif op == "axes":
            o = rng.permutation(m)
            Q, r2, want = P[:, o], ref[o], v
        elif op == "translate":
            t = rng.integers(-8, 9, size=m).astype(float)
            Q, r2, want = P + t, ref + t, v
            tol += 1e-11 * (np.abs(t).max() + 1) * m * (1 + abs(v)) * 10 + 1e-7 * _tol(P, ref) / 1e-9
        elif op == "scale":
            s = 2.0 ** rng.integers(-2, 3, size=m)
            Q, r2, want = P * s, ref * s, v * np.prod(s)
            tol *= np.prod(s)
        elif op == "dominated":
            Q, want = np.vstack([P, P[rng.integers(len(P))] + rng.integers(0, 2, size=m) * 0.5]), v
        nv = hypervolume(Q, r2)
        log.append((str(op), float(nv)))
        c.describe(points=Q, ref=r2, before=P, ref_before=ref, op=str(op), log=log)
        c.saw(Q, r2, nontrivial=nv > 0)
        c.count(f"op={op}")
        if want is not None:
            c.require(abs(nv - want) <= tol, f"hv-{op}", f"after {op}: {nv!r}, expected {want!r}")
        elif op == "insert":
            c.require(nv >= v - tol, "hv-monotone", f"inserting a point decreased the value {v!r} -> {nv!r}")
        else:
            c.require(nv <= v + tol, "hv-monotone", f"deleting a point increased the value {v!r} -> {nv!r}")
        if len(Q) <= 9:
            w = hv_grid(Q, r2)
            c.require(abs(nv - w) <= tol + _tol(Q, r2), "hv-value", f"{nv!r} vs measure {w!r}")
        if op != "scale":
            P, ref, v = Q, r2, nv


@monitor("P01", quick=6000, thorough=60000)
def indicator_and_improvement(c):
    """HypervolumeDerivatives.compute (X or Y, min and max sense) and hypervolume_improvement vs. the measure"""
    from hvd import HypervolumeDerivatives
    from hvd.hypervolume_derivatives import hypervolume_improvement

    rng = c.rng
    m = int(rng.integers(1, 6))
    n = int(rng.integers(1, 8))
    P = gen.point_set(rng, n, m, gen.STYLES[int(rng.integers(len(gen.STYLES)))])
    ref = P.max(axis=0) + rng.choice([-0.3, 0.0, 0.5, 1.0])
    k = gen.magnitude(rng, 0.1)
    P, ref = gen.layout(rng, P * k), ref * k
    c.describe(points=P, ref=ref)
    tol = 10 * _tol(P, ref)
    want = hv_grid(P, ref)
    W = rng.normal(size=(m, m)) + 2 * np.eye(m)
    f = lambda x: W @ np.asarray(x)
    X = np.linalg.solve(W, P.T).T
    ind = HypervolumeDerivatives(m, m, ref, func=f)
    c.saw(P, ref, "min", nontrivial=want > 0)
    got = ind.compute(Y=P)
    c.require(abs(got - want) <= tol, "indicator-Y", f"{got!r} vs {want!r}")
    fx = np.array([f(x) for x in X])
    got, w = ind.compute(X=X), hv_grid(fx, ref)
    c.require(abs(got - w) <= 10 * _tol(fx, ref), "indicator-X", f"{got!r} vs {w!r}")
    mx = HypervolumeDerivatives(m, m, -ref, func=lambda x: -f(x), minimization=False)
    c.saw(P, ref, "max", nontrivial=want > 0)
    got = mx.compute(X=X)
    c.require(abs(got - w) <= 10 * _tol(fx, ref), "indicator-max-X", f"{got!r} vs {w!r}")
    got = mx.compute(Y=-P)
    c.require(abs(got - want) <= tol, "indicator-max-Y", f"{got!r} vs {want!r}")
    x = P[rng.integers(n)] + rng.integers(-1, 2, size=m) * rng.random() * k
    got, w = hypervolume_improvement(x, P, ref), hv_grid(np.vstack([P, x]), ref) - want
    c.saw(P, x, "improvement", nontrivial=w > 0)
    c.require(abs(got - w) <= 3 * tol + 10 * _tol(np.vstack([P, x]), ref), "improvement", f"{got!r} vs {w!r}")
    got = hypervolume_improvement(x, np.zeros((0, m)), ref)
    w = hv_grid(x[None], ref)
    c.require(abs(got - w) <= 10 * _tol(x[None], ref), "improvement-empty", f"{got!r} vs {w!r}")


@monitor("P01", quick=3000, thorough=30000)
def rewritten_arrays(c):
    """a point set kept in one array that is rewritten in place between calls"""
    from hvd import HypervolumeDerivatives
    from hvd.hypervolume import HyperVolume, hypervolume

    rng = c.rng
    m, n = int(rng.integers(2, 6)), int(rng.integers(1, 9))
    ref = np.full(m, 1.2)
    solver, ind = HyperVolume(ref.copy()), HypervolumeDerivatives(m, m, ref.copy(), func=lambda x: x)
    fresh = lambda Z: hypervolume(Z, ref)
    draw = lambda: rng.random((n, m))
    gen.rewritten(c, lambda Z: hypervolume(Z, ref), fresh, draw, "rewritten", "hypervolume")
    gen.rewritten(c, solver.compute, fresh, draw, "rewritten-solver", "HyperVolume.compute")
    gen.rewritten(c, lambda Z: ind.compute(Y=Z), fresh, draw, "rewritten-indicator", "compute(Y)")
    gen.rewritten(c, lambda Z: ind.compute(X=Z), fresh, draw, "rewritten-indicator", "compute(X)")
    P = rng.random((n, m))
    gen.rewritten(c, lambda r: hypervolume(P, r), lambda r: hypervolume(P.copy(), r), lambda: 1 + rng.random(m), "rewritten-reference", "hypervolume with one reference array")


@monitor("P01", quick=400, thorough=6000)
def large_sets(c):
    """sets of the sizes optimisers work with (hundreds of points for two objectives, tens for four) against slab sums"""
    from hvd import HypervolumeDerivatives
    from hvd.hypervolume import hypervolume
    from hvd.hypervolume_derivatives import hypervolume_improvement

    rng = c.rng
    m = int(rng.choice([1, 2, 2, 3, 3, 4, 5]))
    n = int(rng.integers(2, {1: 400, 2: 400, 3: 130, 4: 36, 5: 16}[m]))
    style = gen.STYLES[int(rng.integers(len(gen.STYLES)))]
    P = gen.point_set(rng, n, m, style)
    if rng.integers(2):
        P = np.vstack([gen.point_set(rng, n // 2 + 1, m, "sphere"), P])
    span = np.ptp(P, axis=0) + 1e-3
    ref = P.max(axis=0) + span * rng.choice([0.1, 0.0, -0.2], size=m)
    c.describe(points=P, ref=ref, style=style)
    want = hv_slices(P, ref)
    tol = _tol(P, ref)
    c.saw(P, ref, n=3, nontrivial=want > 0)
    c.count(f"m={m}")
    c.count("points>100", int(len(P) > 100))
    got = hypervolume(P, ref)
    c.require(abs(got - want) <= tol, "hv-large", f"hypervolume of {len(P)} points {got!r}, measure {want!r}")
    v = HypervolumeDerivatives(m, m, ref).compute(Y=P)
    c.require(abs(v - want) <= tol, "hv-large-indicator", f"compute of {len(P)} points {v!r}, measure {want!r}")
    x = P[rng.integers(len(P))] - span * rng.uniform(-0.1, 0.2, size=m)
    hi = hypervolume_improvement(x, P, ref)
    w = hv_slices(np.vstack([P, x]), ref) - want
    c.require(abs(hi - w) <= 4 * tol + 1e-9 * np.prod(np.maximum(ref - x, 0)), "hvi-large", f"improvement {hi!r}, measure {w!r}")
