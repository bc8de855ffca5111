"""P04: Pareto dominance, non-dominated sorting, non-dominated filtering."""
import numpy as np

from . import gen
from .core import monitor
from .oracles import dominates, fronts_by_peeling, ranks_of_many


def _points(c, nmax=40):
    rng = c.rng
    m = int(rng.integers(2, 8))
    n = int(rng.integers(1, nmax + 1))
    style = gen.STYLES[int(rng.integers(len(gen.STYLES)))]
    P = gen.layout(rng, gen.point_set(rng, n, m, style) * gen.magnitude(rng, 0.1))
    c.describe(points=P, style=style)
    c.count(f"style={style}")
    return P


@monitor("P04", quick=16000, thorough=160000)
def sort_against_peeling(c):
    """random sets (2-7 objectives, up to 40 points, 10 styles) vs. the definition of the ranking (peel the undominated
    points, repeat); index form and value form; every input index in exactly one front"""
    from hvd.utils import non_domin_sort

    P = _points(c)
    want = fronts_by_peeling(P)
    arg = [P, P.tolist(), [tuple(p) for p in P]][c.i % 3]
    got = non_domin_sort(arg, only_front_indices=True)
    flat = sorted(int(i) for v in got.values() for i in v)
    c.saw(P, nontrivial=len(want) > 1)
    c.count("fronts", len(want))
    c.require(flat == list(range(len(P))), "partition", f"indices {flat} are not a partition of the input")
    c.require(sorted(got) == list(range(len(want))), "front-labels", f"labels {sorted(got)}, expected 0..{len(want)-1}")
    g = [sorted(int(i) for i in got[k]) for k in sorted(got)]
    c.require(g == want, "fronts", f"fronts {g}, expected {want}")
    c.sample(points=P, fronts=g)
    # the value form, and a key function
    vals = non_domin_sort(arg)
    gv = [sorted(tuple(map(float, p)) for p in vals[k]) for k in sorted(vals)]
    wv = [sorted(tuple(map(float, P[i])) for i in f) for f in want]
    c.require(gv == wv, "fronts-values", f"{gv} vs {wv}")
    keyed = non_domin_sort(list(range(len(P))), get_objectives=lambda i: P[i], only_front_indices=True)
    c.require([sorted(map(int, keyed[k])) for k in sorted(keyed)] == want, "fronts-key", "with a key function")


@monitor("P04", quick=4000, thorough=40000)
def filter_and_relation(c):
    """get_non_dominated / is_dominate vs. the definitions: kept = points that no other member weakly dominates"""
    from hvd.utils import get_non_dominated, is_dominate

    P = _points(c, 20)
    n = len(P)
    want = [i for i in range(n) if not any(np.all(P[j] <= P[i]) for j in range(n) if j != i)]
    idx = get_non_dominated(P, return_index=True)
    c.saw(P, nontrivial=0 < len(want) < n)
    c.require(sorted(map(int, idx)) == want, "filter-index", f"kept {list(idx)}, expected {want}")
    Q = get_non_dominated(P.copy())
    c.require(np.array_equal(Q, P[want]), "filter-values", "kept points differ from the kept indices")
    strict = set(map(int, get_non_dominated(P, return_index=True, weakly_dominated=False)))
    c.require(strict <= set(want), "strict-filter-extra", f"the strict filter kept {sorted(strict)}, non-dominated are {want}")
    apart = lambda i: not any(np.any(np.abs(P[j] - P[i]) <= 1e-3 * np.abs(P[i]) + 1e-7) for j in range(n) if j != i)
    missing = [i for i in want if i not in strict and apart(i)]
    c.require(not missing, "strict-filter-missing", f"the strict filter dropped the non-dominated points {missing}, which share no coordinate with any other point")
    for _ in range(10):
        i, j = c.rng.integers(n, size=2)
        c.saw(P[i], P[j], "rel")
        c.require(
            bool(is_dominate(P[i], P[j])) == dominates(P[i], P[j]), "relation", f"is_dominate({P[i]}, {P[j]})"
        )
        c.require(bool(is_dominate(list(P[i]), list(P[i]))) is False, "irreflexive", f"{P[i]}")


@monitor("P04", quick=3000, thorough=30000)
def invariances(c):
    """ranking is invariant under permutation (equivariant), monotone coordinate maps, axis permutation; adding a copy of
    a point puts the copy in the same front; adding a point dominated by all leaves every other rank unchanged"""
    from hvd.utils import non_domin_sort

    P = _points(c, 30)
    rng, n = c.rng, len(P)
    rank = lambda Q: _ranks(non_domin_sort(Q, only_front_indices=True), len(Q))
    r = rank(P)
    perm = rng.permutation(n)
    c.saw(P)
    c.require(np.array_equal(rank(P[perm]), r[perm]), "perm", "permutation equivariance")
    c.require(np.array_equal(rank(P[:, rng.permutation(P.shape[1])]), r), "axes", "axis permutation")
    order = np.stack([np.unique(P[:, k], return_inverse=True)[1] for k in range(P.shape[1])], axis=1).astype(float)
    c.require(np.array_equal(rank(order * 3 - 7), r), "monotone", "monotone transformation")
    i = int(rng.integers(n))
    r2 = rank(np.vstack([P, P[i]]))
    c.require(np.array_equal(r2[:-1], r) and r2[-1] == r[i], "copy", "a copy changed the ranking")
    r3 = rank(np.vstack([np.nextafter(P.max(axis=0), np.inf), P]))
    c.require(np.array_equal(r3[1:], r) and r3[0] == r.max() + 1, "worst", "a worst point changed the ranking")


def _ranks(fronts, n):
    r = np.full(n, -1)
    for k, v in fronts.items():
        r[np.asarray(v, dtype=int)] = k
    return r


@monitor("P04", quick=2000, thorough=20000)
def rewritten_arrays(c):
    """a population kept in one array that is rewritten in place between calls is sorted and filtered as it is now"""
    from hvd.utils import get_non_dominated, non_domin_sort

    rng = c.rng
    n, m = int(rng.integers(1, 20)), int(rng.integers(2, 5))
    draw = lambda: gen.point_set(rng, n, m, str(rng.choice(["general", "grid", "front", "dups"])))
    rank = lambda P: _ranks(non_domin_sort(P, only_front_indices=True), n)

    def definition(P):
        r = np.full(n, -1)
        for k, f in enumerate(fronts_by_peeling(P)):
            r[f] = k
        return r

    kept = lambda P: np.isin(np.arange(n), [i for i in range(n) if not any(np.all(P[j] <= P[i]) for j in range(n) if j != i)])
    gen.rewritten(c, rank, definition, draw, "rewritten-sort", "ranks", rounds=6)
    gen.rewritten(c, lambda P: np.isin(np.arange(n), get_non_dominated(P, return_index=True)), kept, draw, "rewritten-filter", "kept points", rounds=6)


@monitor("P04", quick=400, thorough=4000)
def large_sets(c):
    """populations of up to 300 points, 2-9 objectives, against the chain lengths of the dominance order"""
    from hvd.utils import get_non_dominated, non_domin_sort

    rng = c.rng
    n, m = int(rng.integers(41, 301)), int(rng.integers(2, 10))
    style = gen.STYLES[int(rng.integers(len(gen.STYLES)))]
    P = gen.point_set(rng, n, m, style)
    if rng.integers(2):
        P = np.round(P, int(rng.integers(1, 3)))
    c.describe(points=P, style=style)
    want = ranks_of_many(P)
    c.saw(P, nontrivial=want.max() > 0)
    c.count("fronts", int(want.max()) + 1)
    got = non_domin_sort(P, only_front_indices=True)
    c.require(sum(len(v) for v in got.values()) == n, "large-partition", f"{n} points, {sum(len(v) for v in got.values())} in fronts")
    r = _ranks(got, n)
    c.require(np.array_equal(r, want), "large-fronts", f"ranks of {np.sum(r != want)} of {n} points differ from the definition")
    le = np.all(P[:, None] <= P[None], axis=2)
    np.fill_diagonal(le, False)
    kept = np.nonzero(~le.any(axis=0))[0]
    c.require(sorted(map(int, get_non_dominated(P, return_index=True))) == kept.tolist(), "large-filter", f"the kept points of {n} differ from the definition")
