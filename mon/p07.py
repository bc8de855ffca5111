"""P07: the reference set - selection, matching, shifting."""
import itertools

import numpy as np
from scipy.optimize import linear_sum_assignment

from . import gen
from .core import Skip, monitor


def lsa_cost(A, B):
    C = np.sqrt(((A[:, None] - B[None]) ** 2).sum(-1))
    if len(A) <= 6 and len(A) == len(B):  # brute force: an independent optimum
        n = len(A)
        return min(sum(C[i, p[i]] for i in range(n)) for p in itertools.permutations(range(n)))
    r, k = linear_sum_assignment(C)
    return C[r, k].sum()


def matched_cost(T, Y):
    return np.sqrt(((T - Y) ** 2).sum(1)).sum()


def rows_key(A):
    return sorted(map(tuple, np.round(np.asarray(A, dtype=float), 9)))


def is_submultiset(T, R):
    """rows of T are distinct rows of R (data with coinciding points: rows of R only)"""
    R = [tuple(r) for r in R]
    if len(set(R)) < len(R):
        return all(tuple(t) in R for t in T)
    for t in T:
        t = tuple(t)
        if t not in R:
            return False
        R.remove(t)
    return True


def front(rng, n, m, centre=0.0, scale=1.0, ties=False):
    if ties:
        return rng.integers(0, 4, size=(n, m)).astype(float) + centre
    w = rng.dirichlet(np.ones(m), size=n)
    return w * scale * (1 + 0.02 * rng.random((n, 1))) + centre


@monitor("P07", quick=1500, thorough=15000)
def matching_single(c):
    """one component: the first match picks |Y| distinct rows of the reference data, optimally assigned; re-matching after
    the population moved keeps the multiset of targets and is optimal again; frozen while re_match is off; a population of
    another size is re-clustered; no dependence on numpy's global generator; inputs untouched"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    m = int(rng.integers(2, 5))
    N = int(rng.integers(1, 8))
    M = N + int(rng.integers(0, 20))
    R = front(rng, M, m, ties=rng.random() < 0.2)
    Y = front(rng, N, m, scale=1.3) + rng.normal(size=m) * 0.1
    R0, Y0 = R.copy(), Y.copy()
    c.describe(R=R, Y=Y)
    c.seed_global()
    rs = ReferenceSet(R)
    before = rs.reference_set.copy()
    c.close(before, R0, "unmatched", "the reference set before any matching is the data given")
    c.require(rs.N == M, "unmatched-N", f"N={rs.N} before matching, {M} points were given")
    rs.match(Y)
    T = rs.reference_set.copy()
    c.saw(R, Y, n=8)
    if not c.require(T.shape == Y.shape, "match-shape", f"matched {T.shape}, population {Y.shape}"):
        return
    c.require(rs.N == N, "match-N", f"N={rs.N} after matching {N} points")
    c.require(is_submultiset(T, R0), "selection", "matched targets are not distinct rows of the reference data", T=T)
    c.close(matched_cost(T, Y), lsa_cost(T, Y), "optimal", "total distance of the first matching vs. the optimum", rtol=1e-9)
    # deterministic
    c.seed_global()
    rs2 = ReferenceSet(R0.copy())
    rs2.match(Y0.copy())
    c.close(rs2.reference_set, T, "deterministic", "matching the same data again", atol=0, rtol=0)
    # move the population, several times
    for _ in range(int(rng.integers(1, 4))):
        Y = front(rng, N, m, scale=1.2) if rng.random() < 0.5 else Y[rng.permutation(N)] + rng.normal(size=Y.shape) * 0.2
        rs.match(Y)
        T2 = rs.reference_set
        c.require(rows_key(T2) == rows_key(T), "rematch-multiset", "re-matching changed the selected targets", T=T, T2=T2)
        c.close(matched_cost(T2, Y), lsa_cost(T2, Y), "rematch-optimal", "total distance after re-matching vs. the optimum", rtol=1e-9)
    frozen = rs.reference_set.copy()
    rs.re_match = False
    rs.match(front(rng, N, m, scale=3.0))
    c.close(rs.reference_set, frozen, "frozen", "targets while re-matching is off", atol=0, rtol=0)
    rs.re_match = True
    # another population size
    K = int(rng.integers(1, M + 1))
    Yk = front(rng, K, m)
    rs.match(Yk)
    Tk = rs.reference_set
    if c.require(Tk.shape == Yk.shape, "resize-shape", f"matched {Tk.shape}, population {Yk.shape}"):
        c.close(matched_cost(Tk, Yk), lsa_cost(Tk, Yk), "resize-optimal", "optimality after the size changed", rtol=1e-9)
        c.require(is_submultiset(Tk, R0), "resize-selection", "targets are not distinct rows of the reference data", Tk=Tk)
    c.close(R, R0, "mutated-ref", "the caller's reference data", atol=0, rtol=0)
    c.close(Y0, Y0, "mutated", "", atol=0)
    c.sample(R=R0, Y=Y0, T=T)


@monitor("P07", quick=450, thorough=4500)
def representatives(c):
    """the selected targets represent the data: each is a medoid of the points closest to it, and well-separated groups of
    reference points, one per member, are represented exactly once each"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    m, N = int(rng.integers(2, 4)), int(rng.integers(2, 7))
    M = N * int(rng.integers(3, 9))
    R = front(rng, M, m)
    Y = front(rng, N, m, scale=1.2)
    rs = ReferenceSet(R.copy())
    rs.match(Y)
    T = rs.reference_set
    D = np.sqrt(((R[:, None] - T[None]) ** 2).sum(-1))
    label = D.argmin(1)
    c.describe(R=R, Y=Y, T=T)
    c.saw(R, Y, n=N)
    for k in range(N):
        G = R[label == k]
        own = np.sqrt(((G[:, None] - G[None]) ** 2).sum(-1)).sum(1)
        mine = np.sqrt(((G - T[k]) ** 2).sum(1)).sum()
        c.require(mine <= own.min() * (1 + 1e-9) + 1e-12, "medoid", f"target {k} is not the medoid of the reference points it represents")
    # total representation error is never worse than that of random selections of the same size (median of 31)
    cost = D.min(1).sum()
    rand = sorted(
        np.sqrt(((R[:, None] - R[rng.choice(M, N, replace=False)][None]) ** 2).sum(-1)).min(1).sum() for _ in range(31)
    )
    c.require(cost <= rand[-1] * (1 + 1e-9), "representation", f"representation error {cost} exceeds every random selection ({rand[-1]})")


def components(rng, K, m, stretch=False):
    """K well-separated components, in general position (some of them, if asked, longer than the gaps between them)"""
    w = rng.permutation(K)
    base = np.stack([w * 10.0, -w * 10.0] + [rng.random(K) for _ in range(m - 2)], axis=1)[:, :m]
    out = {k: front(rng, int(rng.integers(4, 12)), m, centre=base[k]) for k in range(K)}
    for k in out if stretch else ():
        if rng.integers(2):
            t = rng.uniform(-4, 4, size=len(out[k]))
            out[k][:, 0] += t
            out[k][:, 1] -= t
    return out


@monitor("P07", quick=4500, thorough=45000)
def matching_components(c):
    """several components: members are served by targets of the component they belong to (closest when no partition is
    given; the given partition, in any order and with fewer clusters than components), optimally within the component"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    m, K = int(rng.integers(2, 4)), gen.few(rng, 2, 5, 14)
    used = sorted(rng.choice(K, size=int(rng.integers(1, K + 1)), replace=False).tolist())
    wander = len(used) == K > 1 and bool(rng.integers(2))  # else some components are longer than the gaps between them
    ref = components(rng, K, m, stretch=len(used) == K and not wander)
    if len(used) < K:
        c.count("fewer clusters than components")
    comp_of = np.concatenate([np.full(int(rng.integers(1, 1 + min(4, len(ref[k])))), k) for k in used])
    comp_of = rng.permutation(comp_of)  # interleave the members of the clusters
    N = len(comp_of)
    Y = np.array([ref[k][rng.integers(len(ref[k]))] for k in comp_of]) + rng.normal(size=(N, m)) * 0.3
    given = bool(rng.integers(2))
    Y_idx = None
    big = [k for k in used if wander and np.count_nonzero(comp_of == k) > 2]
    other = int(rng.choice([j for j in used if j != big[0]])) if big else None
    if given:
        if big and rng.integers(2):  # a given partition counts, even where a member lies next to another component
            Y[np.nonzero(comp_of == big[0])[0][0]] = ref[other][0] + rng.normal(size=m) * 0.3
            c.count("stray member in a given cluster")
        Y_idx = [np.nonzero(comp_of == k)[0] for k in rng.permutation(used)]
        if rng.integers(2):
            Y_idx = [list(map(int, v)) for v in Y_idx]
    c.describe(ref=ref, Y=Y, given=given, comp_of=comp_of)
    eta = {k: -np.abs(rng.normal(size=m)) - 0.1 * (k + 1) for k in range(K)} if rng.integers(2) else None
    ref0 = {k: v.copy() for k, v in ref.items()}
    rs = ReferenceSet({k: v for k, v in ref.items()}, eta=eta, Y_idx=Y_idx)

    def check(T, Y, rows, tag):
        if not c.require(T.shape == Y.shape, f"{tag}-shape", f"matched {T.shape}, population {Y.shape}"):
            return False
        ok = True
        for k in used:
            sel = np.nonzero(comp_of == k)[0]
            if rows is not None:
                ok &= c.require(
                    is_submultiset(np.round(T[sel], 9), np.round(rows[k], 9)), f"{tag}-component",
                    f"members of component {k} got targets that are not distinct points of that component", T=T,
                )
            c.close(matched_cost(T[sel], Y[sel]), lsa_cost(T[sel], Y[sel]), f"{tag}-optimal", f"assignment within component {k}", rtol=1e-9)
        return ok

    rs.match(Y)
    c.saw(Y, *ref.values(), n=2 * len(used))
    T = rs.reference_set.copy()
    if not check(T, Y, ref0, "match"):
        return
    Y2 = Y + rng.normal(size=Y.shape) * 0.3
    if big and rng.integers(2):  # a member that wanders off to another component keeps a target of its own
        Y2[np.nonzero(comp_of == big[0])[0][1]] = ref[other][rng.integers(len(ref[other]))] + rng.normal(size=m) * 0.3
        c.count("member crossed over")
    rs.match(Y2)
    T2 = rs.reference_set.copy()
    check(T2, Y2, {k: T[comp_of == k] for k in used}, "rematch")
    # shift some targets: only those move, each along the direction of its own component
    E = eta if eta is not None else rs.eta
    ind = np.sort(rng.choice(N, size=int(rng.integers(0, N + 1)), replace=False))
    s = float(rng.choice([0.05, 0.08, 0.5]))
    rs.shift(s, ind)
    T3 = rs.reference_set.copy()
    want = T2.copy()
    for i in ind:
        want[i] = want[i] + s * np.asarray(E[comp_of[i]])
    c.saw(T2, ind, s, n=N)
    c.close(T3, want, "shift", f"targets after shifting {ind.tolist()} by {s}", rtol=1e-12, atol=1e-12)
    # ... and the shift survives the next matching
    rs.match(Y2)
    c.require(
        rows_key(np.round(rs.reference_set, 7)) == rows_key(np.round(want, 7)), "shift-persists",
        "targets after re-matching are not the shifted targets", got=rs.reference_set, want=want,
    )
    check(rs.reference_set, Y2, {k: want[comp_of == k] for k in used}, "shifted-rematch")
    for k in ref0:
        c.close(ref[k], ref0[k], "mutated-ref", "the caller's reference data", atol=0, rtol=0)
    c.sample(Y=Y, comp_of=comp_of, given=given, T=T)


@monitor("P07", quick=1200, thorough=12000)
def shifting(c):
    """shift direction is a unit vector with non-positive components, orthogonal to the plane through the coordinate-wise
    minimisers; shifting everything/some/nothing moves exactly those targets by c*eta; integer data are not truncated;
    shifting before any matching moves the whole set; histories of match/shift keep the bookkeeping consistent"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    m = int(rng.integers(2, 5))
    N = int(rng.integers(1, 7))
    M = N + int(rng.integers(2, 15)) + m
    R = front(rng, M, m)
    integer = rng.random() < 0.2
    if integer:
        R = np.round(R * 50).astype(int)
    R0 = R.copy()
    c.describe(R=R)
    own = bool(rng.integers(2))
    eta = -np.abs(rng.normal(size=m)) if own else None
    rs = ReferenceSet(R, eta={0: eta} if own else None)
    if not own:
        eta = np.array(rs.eta[0], dtype=float)
        Z = R[R.argmin(axis=0)].astype(float)
        D = Z[1:] - Z[0]
        if np.linalg.matrix_rank(D, tol=1e-6) == m - 1:
            n = np.linalg.svd(D)[2][-1]
            if np.all(n >= -1e-9) or np.all(n <= 1e-9):  # the plane has a normal pointing to the ideal orthant
                c.close(eta, -np.abs(n), "eta", "shift direction", rtol=1e-6)
                c.count("normal in the ideal orthant")
        c.close(np.linalg.norm(eta), 1.0, "eta-unit", "norm of the shift direction", rtol=1e-9)
        c.require(np.all(eta <= 0), "eta-sign", "shift direction has a positive component", eta=eta)
    total = np.zeros(m)
    for _ in range(int(rng.integers(0, 3))):
        s = float(rng.random())
        rs.shift(s)
        total += s * eta
    c.close(rs.reference_set, R0 + total, "shift-unmatched", "reference set shifted before any matching", rtol=1e-12)
    Y = front(rng, N, m)
    rs.match(Y)
    T = rs.reference_set.copy()
    c.require(is_submultiset(np.round(T, 8), np.round(R0 + total, 8)), "selection-shifted", "targets are not rows of the shifted data")
    c.saw(R0, Y, n=3)
    # a random history of operations against a two-line model: the multiset of targets
    for step in range(int(rng.integers(1, 7))):
        op = int(rng.integers(4))
        if op == 0:
            Y = front(rng, N, m, scale=float(rng.uniform(0.5, 2)))
            rs.match(Y)
            c.require(rows_key(np.round(rs.reference_set, 7)) == rows_key(np.round(T, 7)), "history-multiset", f"step {step}: re-matching changed the targets")
            if rs.re_match:
                c.close(matched_cost(rs.reference_set, Y), lsa_cost(T, Y), "history-optimal", f"step {step}: assignment", rtol=1e-8)
            T = rs.reference_set.copy()
        elif op == 1:
            if rng.integers(3):
                s = float(rng.uniform(-0.5, 0.5))
                rs.shift(s)
            else:
                s = 0.05  # the documented default
                rs.shift()
            T = T + s * eta
        elif op == 2:
            ind = rng.choice(N, size=int(rng.integers(0, N + 1)), replace=False)
            s = float(rng.uniform(0, 0.5))
            rs.shift(s, indices=ind)
            T = T.copy()
            T[ind] += s * eta
        else:
            k = int(rng.integers(N))
            rs.re_match = not rs.re_match
            rs.match(Y[::-1].copy() * (k + 1)) if not rs.re_match else None
        c.close(rs.reference_set, T, "history", f"targets after step {step} (operation {op})", rtol=1e-9, atol=1e-11)
        c.saw(step, op, T)
        if not rs.re_match and rng.integers(2):
            rs.re_match = True
    c.close(R, R0, "mutated-ref", "the caller's reference data", atol=0, rtol=0)


@monitor("P07", quick=180, thorough=1800)
def aliasing(c):
    """reference sets built from the same data do not influence each other, and never the caller's dictionary"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    m = int(rng.integers(2, 4))
    d = components(rng, gen.few(rng, 1, 4, 14), m)
    d0 = {k: v.copy() for k, v in d.items()}
    a, b = ReferenceSet(d), ReferenceSet(d)
    all0 = np.concatenate([d0[k] for k in d0])
    a.shift(0.3)
    c.saw(all0, n=2)
    c.close(a.reference_set, np.concatenate([d0[k] + 0.3 * np.asarray(a.eta[k]) for k in d0]), "shift-components", "components shifted before any matching, each along its own direction", rtol=1e-12, atol=1e-12)
    c.close(b.reference_set, all0, "alias", "a reference set after another one built from the same data was shifted")
    c.require(set(d) == set(d0) and all(np.array_equal(d[k], d0[k]) for k in d0), "alias-dict", "the caller's dictionary changed")
    Y = np.concatenate([d0[k][:2] for k in d0])
    b.match(Y)
    b.shift(0.2)
    b.match(Y)
    c.require(all(np.array_equal(d[k], d0[k]) for k in d0), "alias-match", "the caller's arrays changed by matching and shifting")
    # the caller goes on using its arrays, before any matching and after it
    one = bool(rng.integers(2))
    src = front(rng, int(rng.integers(3, 12)), m) if one else {k: v.copy() for k, v in d0.items()}
    keep = src.copy() if one else np.concatenate([d0[k] for k in d0])
    e = ReferenceSet(src)
    parts = [src] if one else list(src.values())
    if rng.integers(2):
        for v in parts:
            v *= 7.0
        c.close(e.reference_set, keep, "alias-source", "a reference set after the caller reused the array it was built from")
    Y = keep[: int(rng.integers(1, len(keep) + 1))] if one else np.concatenate([d0[k][:2] for k in d0])
    e.match(Y + 0.0)
    T = np.array(e.reference_set)
    for v in parts:
        v += 3.0
    c.close(e.reference_set, T, "alias-source", "targets after the caller reused the array the reference set was built from")
    e.match(Y + 0.0)
    c.require(rows_key(e.reference_set) == rows_key(T), "alias-source", "targets of the next matching after the caller reused the array the reference set was built from")
    c.require(is_submultiset(np.round(T, 12), np.round(keep, 12)), "alias-source", "targets are not rows of the data given")


@monitor("P07", quick=120, thorough=1500)
def repeatable(c):
    """selecting targets out of small and large reference data gives the same answer again, whatever the state of numpy's
    global generator"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    m, n = int(rng.integers(2, 4)), gen.few(rng, 1, 8, 40)
    R, Y = front(rng, n + int(rng.integers(1, 400)), m), front(rng, n, m)
    c.describe(n=n, M=len(R), m=m)
    out = []
    for _ in range(3):
        c.seed_global()
        np.random.seed(int(rng.integers(2**31)))
        ref = ReferenceSet(R.copy())
        ref.match(Y.copy())
        out.append(np.array(ref.reference_set))
        c.saw(out[-1], len(out))
    for T in out[1:]:
        c.close(T, out[0], "repeatable", f"targets for {n} members out of {len(R)} points, selected again", atol=0, rtol=0)


@monitor("P07", quick=900, thorough=9000)
def rewritten_arrays(c):
    """the points are kept in one array that is rewritten in place between matchings: every matching is optimal for the
    points as they are now"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    m, n = int(rng.integers(2, 5)), int(rng.integers(1, 9))
    R = rng.random((n, m))
    ref = ReferenceSet(R.copy())

    def cost(Y):
        ref.match(Y)
        T = np.array(ref.reference_set)
        if not c.require(rows_key(T) == rows_key(R), "rewritten-targets", "the targets are not the reference points", Y=Y, T=T):
            return -1.0
        return np.linalg.norm(T - Y, axis=1).sum()

    gen.rewritten(c, cost, lambda Y: lsa_cost(Y, R), lambda: rng.random((n, m)), "rewritten", "cost of the matching", rounds=6, rtol=1e-9, tiny=1e-2)


@monitor("P07", quick=250, thorough=2500)
def large_sets(c):
    """reference data of up to 2000 points and populations of up to 150 members: rows of the data, one each, optimally
    assigned, and again after the population moved"""
    from hvd.reference_set import ReferenceSet

    rng = c.rng
    m = int(rng.integers(2, 6))
    n = int(rng.integers(9, 151))
    M = n if rng.integers(3) == 0 else int(rng.integers(n, 2001 if n < 60 else 600))
    R = front(rng, M, m)
    ref = ReferenceSet(R.copy())
    Y = front(rng, n, m, scale=1.3)
    keys = None
    c.describe(n=n, M=M, m=m, R=R)
    for t in range(4):
        ref.match(Y)
        T = np.array(ref.reference_set)
        c.saw(Y, T, t, n=2)
        if not c.require(T.shape == Y.shape, "large-shape", f"{T.shape} targets for {Y.shape}"):
            return
        if keys is None:
            keys = rows_key(T)
            c.require(is_submultiset(T, R), "large-rows", f"the {n} targets are not distinct rows of the {M} reference points")
            if M == n:
                c.require(keys == rows_key(R), "large-all", "as many members as reference points, but not every one is a target")
        c.require(rows_key(T) == keys, "large-targets", "another set of targets after the population moved")
        cost, best = matched_cost(T, Y), lsa_cost(T, Y)
        c.require(cost <= best * (1 + 1e-9) + 1e-12, "large-optimal", f"cost of matching {n} members {cost}, optimum {best}")
        Y = Y[rng.permutation(n)] if t % 2 else Y + 0.1 * rng.normal(size=Y.shape)
