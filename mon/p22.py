"""P22: evolutionary starting-population algorithms (SMS-EMOA, MOEA/D)."""
import numpy as np

from .core import Skip, monitor
from .p18 import reg
from .probs import build, cls


def quiet():
    from pymoo.config import Config

    Config.warnings["not_compiled"] = False


def dominates(a, b):
    return bool(np.all(a <= b) and np.any(a < b))


def fronts(F):
    """non-dominated sorting by definition; list of index arrays"""
    left, out = list(range(len(F))), []
    while left:
        f = [i for i in left if not any(dominates(F[j], F[i]) for j in left)]
        out.append(np.array(f))
        left = [i for i in left if i not in set(f)]
    return out


def cells_weight(F, ref, weight):
    """exact integral over the region dominated by F (below ref) of weight(set of dominating points), for every point:
    sum over grid cells; returns (total of cell volumes dominated, per-point integral)"""
    N, M = F.shape
    axes = [np.unique(np.r_[F[:, m][F[:, m] < ref[m]], ref[m]]) for m in range(M)]
    vol = np.ones([len(a) - 1 for a in axes])
    for m, a in enumerate(axes):
        sh = [1] * M
        sh[m] = -1
        vol = vol * np.diff(a).reshape(sh)
    inside = np.ones((N,) + vol.shape, bool)
    for i in range(N):
        for m, a in enumerate(axes):
            sh = [1] * M
            sh[m] = -1
            inside[i] &= (F[i, m] <= a[:-1]).reshape(sh)
    cnt = inside.sum(0)
    total = float(vol[cnt > 0].sum())
    w = np.array([0.0] + [weight(k) for k in range(1, N + 1)])[cnt]
    w2 = np.array([0.0] + [weight(k) ** 2 for k in range(1, N + 1)])[cnt]
    return total, np.array([float((vol * w)[inside[i]].sum()) for i in range(N)]), np.array([float((vol * w2)[inside[i]].sum()) for i in range(N)])


def random_front(rng, N, M, kind):
    if kind == "sphere":
        Y = np.abs(rng.normal(size=(N, M)))
        return Y / np.linalg.norm(Y, axis=1, keepdims=True)
    if kind == "simplex":
        return rng.dirichlet(np.ones(M), size=N)
    if kind == "grid":
        return rng.integers(0, 5, size=(N, M)) / 4.0
    return rng.random((N, M))


# ------------------------------------------------------------------------------- survival
class Prob:
    def __init__(self, M, constrained):
        self.n_obj, self.c = M, constrained

    def has_constraints(self):
        return self.c


def make_population(F, CV):
    from pymoo.core.population import Population

    pop = Population.new("X", np.arange(len(F), dtype=float)[:, None], "F", F.copy())
    pop.set("G", (np.zeros(len(F)) if CV is None else CV)[:, None])
    for ind in pop:
        ind.evaluated.update({"F", "G", "H"})
        ind.H = np.zeros(0)
    return pop


def split_2d(F, n_keep, ideal, nadir, eps):
    """indices left after repeatedly removing the least contributor; None when a choice is not unique"""
    Z = (F - ideal) / (nadir - ideal)
    ref = np.full(2, 1 + eps)
    left = list(range(len(F)))
    while len(left) > n_keep:
        S = sorted(left, key=lambda i: (Z[i, 0], -Z[i, 1]))
        con = []
        for k, i in enumerate(S):
            up = ref[1] if k == 0 else Z[S[k - 1], 1]
            right = ref[0] if k == len(S) - 1 else Z[S[k + 1], 0]
            con.append(max(0.0, right - Z[i, 0]) * max(0.0, up - Z[i, 1]))
        o = np.argsort(con)
        if any(con[j] - con[o[0]] < 1e-9 * (1 + con[j]) and not np.array_equal(F[S[o[0]]], F[S[j]]) for j in o[1:]):
            return None
        left.remove(S[o[0]])
    return left


def judge_survival(c, F, CV, n, kept, ideal, nadir, eps, mech, what):
    """kept: positions of the survivors in the population"""
    N, M = F.shape
    n = min(n, N)
    kept = [int(k) for k in kept]
    if not c.require(len(kept) == n and len(set(kept)) == n, mech + "size", f"{what}: {len(kept)} survivors ({len(set(kept))} different) of {N}, asked for {n}"):
        return
    gone = sorted(set(range(N)) - set(kept))
    cv = np.zeros(N) if CV is None else np.maximum(CV, 0)
    feas = np.flatnonzero(cv <= 0)
    kf = [k for k in kept if cv[k] <= 0]
    ki = [k for k in kept if cv[k] > 0]
    if ki:
        c.require(not any(cv[g] <= 0 for g in gone), mech + "infeasible-kept", f"{what}: an infeasible member survives while a feasible one is discarded")
        worst = max(cv[k] for k in ki)
        c.require(not any(cv[g] < worst for g in gone), mech + "violation-order", f"{what}: a member with a smaller constraint violation is discarded")
    if len(feas) == 0 or not kf:
        return
    for g in gone:
        if cv[g] <= 0:
            d = [k for k in kf if dominates(F[g], F[k])]
            if d:
                c.fail(mech + "dominated-kept", f"{what}: {F[d[0]].tolist()} survives although it is dominated by the discarded {F[g].tolist()}")
                return
    fr = fronts(F[feas])
    room, split = len(kf), None
    for f in fr:
        f = feas[f]
        here = [k for k in kf if k in set(f.tolist())]
        if len(f) <= room:
            if not c.require(len(here) == len(f), mech + "front", f"{what}: a member of a front that fits is discarded"):
                return
            room -= len(f)
        else:
            if not c.require(len(here) == room, mech + "front", f"{what}: {len(here)} members of the splitting front survive, there was room for {room}"):
                return
            split = (f, here)
            break
    c.count("splits" if split and split[1] else "no split")
    if split is None or not split[1]:
        return
    f, here = split
    lo = F[feas].min(0) if ideal is None else ideal
    up = F[feas].max(0) if nadir is None else nadir
    if np.any(up - lo < 1e-12):
        c.count("flat objective")
        return
    if M == 2:
        want = split_2d(F[f], len(here), lo, up, eps)
        if want is None:
            c.count("ties")
            return
        a = F[here]
        b = F[f[want]]
        a, b = a[np.lexsort(a.T)], b[np.lexsort(b.T)]
        c.require(np.array_equal(a, b), mech + "least-contribution", f"{what}: survivors of the splitting front are not those left after removing least contributors ({len(f)} -> {len(here)})", got=a, want=b)
        c.count("exact splits")


@monitor("P22", quick=1500, thorough=15000)
def survival(c):
    """LeastHypervolumeContributionSurvival on random populations (2-4 objectives, fronts, layers, duplicates, infeasible
    members): size, feasibility and front order, and in 2-D exactly the removal of least contributors"""
    from hvd.moea.sms_emoa import LeastHypervolumeContributionSurvival

    quiet()
    rng = c.rng
    c.seed_global()
    M = int(rng.choice([2, 2, 2, 3, 4]))
    N = int(rng.integers(2, 25))
    kind = str(rng.choice(["sphere", "simplex", "cloud", "grid"]))
    F = random_front(rng, N, M, kind)
    if rng.random() < 0.3:
        F = F * rng.choice([0.01, 1.0, 100.0], size=M) + rng.normal(size=M)
    if rng.random() < 0.2:
        F[rng.integers(N)] = F[rng.integers(N)]
    CV = None
    if rng.random() < 0.4:
        CV = np.where(rng.random(N) < rng.choice([0.2, 0.6, 1.0]), rng.choice([0.1, 0.5, 1.0, 3.0], size=N) * rng.choice([1.0, rng.random()]), 0.0)
    n = int(rng.integers(1, N + 2))
    eps = float(rng.choice([10.0, 10.0, 1.0, 0.1]))
    kw = {}
    feas = np.ones(N, bool) if CV is None else CV <= 0
    if rng.random() < 0.4:
        kw = dict(ideal=F.min(0) - rng.choice([0, 0.1]), nadir=F.max(0) + rng.choice([1e-32, 0.1]))
    c.describe(F=F, CV=CV, n_survive=n, eps=eps, **kw)
    pop = make_population(F, CV)
    sv = LeastHypervolumeContributionSurvival(eps=eps) if eps != 10.0 else LeastHypervolumeContributionSurvival()
    if M > 2:  # the sampled contributions need a positive volume
        G = F[feas]
        if len(G) and np.any(G.max(0) - G.min(0) < 1e-12):
            raise Skip("flat objective")
    out = sv.do(Prob(M, CV is not None), pop, n_survive=n, **kw)
    kept = out.get("X")[:, 0].astype(int) if len(out) else []
    c.require(np.array_equal(pop.get("F"), F) and np.array_equal(np.array([o.F for o in out]), F[kept]), "survival:objectives", "objective vectors changed")
    judge_survival(c, F, CV, n, kept, kw.get("ideal"), kw.get("nadir"), eps, "survival:", "survival")
    fr = fronts(F[feas])
    idx = np.flatnonzero(feas)
    for r, f in enumerate(fr):
        for k in kept:
            if k in set(idx[f].tolist()):
                c.require(pop[k].get("rank") == r, "survival:rank", f"rank {pop[k].get('rank')} recorded for a member of front {r}")
    c.saw(F, CV, n, n=len(kept))
    c.count(f"{M} objectives")


# ------------------------------------------------------------------------------- sampled contributions
@monitor("P22", quick=160, thorough=1600)
def sampled_volume(c):
    """ApproximateMonteCarloHypervolume against exact volumes (grid decomposition), within 6.5 standard deviations of the
    sampling error, also after deletions"""
    from math import prod

    from hvd.moea.sms_emoa import ApproximateMonteCarloHypervolume

    rng = c.rng
    c.seed_global()
    M = int(rng.integers(2, 5))
    N = int(rng.integers(2, 9 if M < 4 else 6))
    F = random_front(rng, N, M, str(rng.choice(["sphere", "simplex", "cloud", "grid"])))
    ref = np.full(M, float(rng.choice([1.05, 1.5, 2.0])))
    k = int(rng.choice([1, 1, 2, 3]))
    k = min(k, N - 1) or 1
    n_s = int(rng.choice([2000, 20000]))
    c.describe(F=F, ref=ref, n_samples=n_s, n_exclusive=k)
    kw = {} if n_s == 2000 else dict(n_samples=n_s)
    if k != 1:
        kw["n_exclusive"] = k
    h = ApproximateMonteCarloHypervolume(ref, **kw).add(F)

    def check(G, what, hv):
        n = len(G)
        V = np.prod(ref - F.min(0))  # the box that was sampled
        alpha = lambda i: prod((k - j) / (n - j) for j in range(1, i)) / i
        tot, con, con2 = cells_weight(G, ref, alpha)
        if hv is not None:
            p = tot / V
            c.require(abs(hv - tot) <= 6.5 * V * np.sqrt(max(p * (1 - p), 0) / n_s) + 5 * V / n_s, "mc:volume", f"{what}: sampled volume {hv}, exact {tot}")
        if c.require(len(h.hvc) == n, "mc:size", f"{what}: {len(h.hvc)} contributions for {n} points"):
            var = np.maximum(con2 * V - con**2, 0) / n_s
            bad = np.abs(h.hvc - con) > 6.5 * np.sqrt(var) + 5 * V / n_s
            c.require(not bad.any(), "mc:contribution", f"{what}: sampled contributions {np.asarray(h.hvc).tolist()}, exact {con.tolist()}")
        c.saw(G, ref, k, n=n)

    check(F, "added", h.hv)
    G = F
    while len(G) > k + 1 and rng.random() < 0.7:
        j = int(rng.integers(len(G)))
        before, part = h.hv, h.hvc[j]
        h.delete(j)
        G = np.delete(G, j, axis=0)
        c.require(np.array_equal(h.F, G), "mc:deleted", "wrong point deleted")
        c.require(np.isclose(h.hv, before - part), "mc:volume-after", "volume is not reduced by the contribution of the deleted point")
        check(G, "after a deletion", h.hv if k == 1 else None)
        c.count("deletions")


# ------------------------------------------------------------------------------- tournament
@monitor("P22", quick=100, thorough=1000)
def counting(c):
    """the sampling formulas on given domination tables, exactly: the volume is the share of samples dominated by anybody,
    the (first-order) contribution the share dominated by the point alone; shared parts split evenly among their owners"""
    from hvd.moea.sms_emoa import hv_monte_carlo, hvc_monte_carlo

    rng = c.rng
    N, n_s = int(rng.integers(1, 9)), int(rng.integers(1, 60))
    dom = rng.random((N, n_s)) < rng.random()
    V = float(rng.uniform(0.1, 5))
    cnt = dom.sum(0)
    c.describe(dom=dom.astype(int), V=V)
    kw = {} if rng.integers(2) else dict(n_dom=cnt.copy())
    keep = dom.copy()
    c.saw(dom, V, n=3)
    c.close(hv_monte_carlo(dom, V, **kw), V * np.mean(cnt > 0), "mc:count", "sampled volume of a given domination table", rtol=1e-12)
    own = V * np.array([np.mean(d & (cnt == 1)) for d in dom])
    c.close(hvc_monte_carlo(dom, V, **kw), own, "mc:count-own", "sampled contributions of a given domination table", rtol=1e-12)
    even = V * np.array([np.sum(1.0 / cnt[d]) / n_s for d in dom])
    c.close(hvc_monte_carlo(dom, V, k=N, **kw), even, "mc:count-even", "evenly shared volume of a given domination table", rtol=1e-12)
    c.require(np.array_equal(keep, dom), "mc:mutated", "the domination table was modified")


@monitor("P22", quick=60, thorough=1000)
def tournament(c):
    """cv_and_dom_tournament: smaller violation, then dominance, else one of the two (both occur)"""
    from hvd.moea.sms_emoa import cv_and_dom_tournament

    rng = c.rng
    c.seed_global()
    N, M = int(rng.integers(2, 12)), int(rng.integers(2, 5))
    F = random_front(rng, N, M, str(rng.choice(["grid", "cloud", "simplex"])))
    CV = np.where(rng.random(N) < rng.choice([0.0, 0.5, 1.0]), rng.integers(0, 3, size=N) * 0.5, 0.0)

    class I:
        pass

    pop = []
    for i in range(N):
        o = I()
        o.CV, o.F = np.array([CV[i]]), F[i]
        pop.append(o)
    P = np.array([rng.choice(N, 2, replace=bool(rng.integers(2))) for _ in range(40)])
    c.describe(F=F, CV=CV)
    S = cv_and_dom_tournament(pop, P)
    if not c.require(np.shape(S) == (40, 1) and np.issubdtype(np.asarray(S).dtype, np.integer), "tournament:shape", f"winners of shape {np.shape(S)}"):
        return
    for (a, b), s in zip(P, S[:, 0]):
        c.require(s in (a, b), "tournament:stranger", f"winner {s} of the pair {(a, b)}")
        if CV[a] != CV[b] and max(CV[a], CV[b]) > 0:
            c.require(s == (a if CV[a] < CV[b] else b), "tournament:violation", f"violations {CV[a]}, {CV[b]}: the larger one wins")
        elif CV[a] == CV[b] == 0 and dominates(F[a], F[b]):
            c.require(s == a, "tournament:dominance", "the dominated one wins")
        elif CV[a] == CV[b] == 0 and dominates(F[b], F[a]):
            c.require(s == b, "tournament:dominance", "the dominated one wins")
        c.saw(F[a], F[b], CV[a], CV[b])
    if M > 1:
        o = I(); o.CV, o.F = np.array([0.0]), np.r_[0.0, 1.0]
        q = I(); q.CV, q.F = np.array([0.0]), np.r_[1.0, 0.0]
        w = cv_and_dom_tournament([o, q], np.tile([[0, 1]], (80, 1)))[:, 0]
        c.require(0 < w.sum() < 80, "tournament:biased", "the same of two incomparable members wins 80 times in a row")
    try:
        cv_and_dom_tournament(pop, np.zeros((3, 3), int))
        c.fail("tournament:arity", "tournament of three accepted")
    except ValueError:
        pass


# ------------------------------------------------------------------------------- whole runs of SMS-EMOA
def pick(rng, constrained=None, M=None):
    R = reg()
    while True:
        d = R[str(rng.choice([m for m in sorted(R) if R[m].family in ("zdt", "dtlz", "uf", "cf", "misc")]))]
        if constrained is not None and bool(d.n_g or d.n_h) != constrained:
            continue
        kw, n, m, ok, lo, up, bnd = build(rng, d, boundary=False)
        if M is None or m in M:
            return d, kw, n, m, lo, up


@monitor("P22", quick=32, thorough=240, timeout=600)
def sms_runs(c):
    """whole SMS-EMOA runs, recorded at every generation: survivors come from parents and offspring and are selected as
    documented (bounds of the current population), population size, box, objective values; runs end also when no new
    offspring can be found"""
    from pymoo.optimize import minimize

    from hvd.moea import SMSEMOA

    quiet()
    rng = c.rng
    d, kw, n, M, lo, up = pick(rng, M=(2, 3) if c.i % 2 else (2,))
    p = cls(d)(**kw)
    q = p.as_pymoo_problem()
    tiny = rng.random() < 0.15
    if tiny:
        q.xl, q.xu = lo.copy(), np.r_[lo[0] + 1e-17, lo[1:]]
        q.xu = q.xl.copy()
    size, gens = int(rng.integers(6, 16)), int(rng.integers(3, 8))
    norm = bool(rng.random() < 0.8)
    off = int(rng.integers(1, size)) if rng.random() < 0.4 else None
    c.describe(problem=d.name, kwargs=kw, pop_size=size, generations=gens, normalize=norm, n_offsprings=off, tiny=tiny)
    alg = SMSEMOA(pop_size=size, n_offsprings=off) if norm else SMSEMOA(pop_size=size, n_offsprings=off, normalize=False)
    log = []
    inner = alg.survival.do

    class Recorder:
        def do(self, problem, pop, *a, n_survive=None, algorithm=None, ideal=None, nadir=None, **k):
            parents = None if algorithm.pop is None else algorithm.pop.get("F")
            out = inner(problem, pop, *a, n_survive=n_survive, algorithm=algorithm, ideal=ideal, nadir=nadir, **k)
            ids = {id(i): j for j, i in enumerate(pop)}
            log.append(dict(F=np.array(pop.get("F"), float), CV=np.array(pop.get("CV"), float)[:, 0], X=np.array(pop.get("X"), float), kept=[ids.get(id(i), -1) for i in out], n=n_survive, ideal=ideal, nadir=nadir, parents=parents))
            return out

    alg.survival = Recorder()
    res = minimize(q, alg, ("n_gen", gens), seed=int(rng.integers(1 << 30)), verbose=False, copy_algorithm=False)
    if not tiny:
        c.require(len(log) == gens, "sms:generations", f"{len(log)} selections in {gens} generations")
    for g, e in enumerate(log):
        if not c.require(min(e["kept"]) >= 0, "sms:stranger", f"generation {g}: a survivor is neither parent nor offspring"):
            return
        c.require(e["n"] <= size, "sms:size", f"generation {g}: {e['n']} survivors asked for, population size {size}")
        con = q.has_constraints()
        feas = ~(e["CV"] > 0)
        if g > 0 and norm and e["ideal"] is not None:
            c.close(e["ideal"], e["parents"].min(0), "sms:ideal", "ideal point", rtol=1e-12)
            c.close(e["nadir"], e["parents"].max(0), "sms:nadir", "nadir point", rtol=1e-12)
        elif g > 0:
            c.require(e["ideal"] is None and not norm, "sms:normalize", f"generation {g}: bounds {'missing' if norm else 'passed'}")
        if len(np.unique(e["X"], axis=0)) == len(e["X"]):
            judge_survival(c, e["F"], e["CV"] if con else None, e["n"], e["kept"], e["ideal"], e["nadir"], 10.0, "sms:", f"{d.name} generation {g}")
        if not tiny:
            c.require(bool(np.all(e["X"] >= lo - 1e-12) and np.all(e["X"] <= up + 1e-12)), "sms:box", f"generation {g}: points outside of the box")
        for i in e["kept"][:3]:
            c.close(e["F"][i], p.objective(e["X"][i]), "sms:objective", f"{d.name}: recorded objectives", rtol=1e-8, atol=1e-8)
        c.saw(d.name, e["X"], n=len(e["kept"]))
    c.require(len(res.pop) <= size, "sms:final-size", f"final population of {len(res.pop)}, asked for {size}")
    c.count("tiny" if tiny else f"{M} objectives")
    c.sample(problem=d.name, pop_size=size, generations=gens)


# ------------------------------------------------------------------------------- MOEA/D
def tcheby(F, w, z):
    return np.max(np.abs(F - z) * w, axis=-1)


def pbi(F, w, z, theta=5.0):
    u = w / np.linalg.norm(w, axis=-1, keepdims=True)
    d = F - z
    d1 = np.abs((d * u).sum(-1))
    return d1 + theta * np.linalg.norm(d - d1[..., None] * u, axis=-1)


@monitor("P22", quick=40, thorough=300, timeout=600)
def moead_runs(c):
    """whole ConstraintAwareMOEAD runs driven with next(): one generation (one offspring per direction) per call, every
    replacement as documented (decomposed value, violations first beyond the shrinking tolerance), ideal point, tolerance
    schedule; equals pymoo's MOEA/D evaluation by evaluation on unconstrained problems"""
    from pymoo.algorithms.moo.moead import MOEAD
    from pymoo.termination import get_termination
    from pymoo.util.ref_dirs import get_reference_directions

    from hvd.moea import ConstraintAwareMOEAD

    quiet()
    rng = c.rng
    con = bool(c.i % 3)
    d, kw, n, M, lo, up = pick(rng, constrained=con, M=(2, 3))
    p = cls(d)(**kw)
    W = get_reference_directions("das-dennis", M, n_partitions=int(rng.integers(5, 14)) if M == 2 else int(rng.integers(2, 5)))
    nb = int(rng.integers(2, min(8, len(W)) + 1))
    gens = int(rng.integers(3, 8))
    until = float(rng.choice([0.8, 0.8, 0.5, 1.0, 0.2]))
    seed = int(rng.integers(1 << 30))
    c.describe(problem=d.name, kwargs=kw, directions=len(W), n_neighbors=nb, generations=gens, perc_eps_until=until, seed=seed)
    kwa = dict(ref_dirs=W, n_neighbors=nb)
    if until != 0.8:
        kwa["perc_eps_until"] = until
    alg = ConstraintAwareMOEAD(**kwa)
    q = p.as_pymoo_problem()
    seen = []
    inner_ev = q._evaluate
    q._evaluate = lambda x, out, *a, **k: (seen.extend(np.atleast_2d(x).copy()), inner_ev(x, out, *a, **k))[1]
    alg.setup(q, termination=get_termination("n_gen", gens), seed=seed, verbose=False)
    calls = []
    inner = alg._replace

    def rec(k, off):
        pop = alg.pop
        before = [id(i) for i in pop]
        F, CV = np.array(pop.get("F"), float), np.array(pop.get("CV"), float)[:, 0]
        r = inner(k, off)
        calls.append(dict(k=k, F=F, CV=CV, f=np.array(off.F, float), cv=float(off.CV[0]), x=np.array(off.X, float), z=np.array(alg.ideal, float), t=float(alg.termination.perc), changed=[j for j, (a, b) in enumerate(zip(before, alg.pop)) if a != id(b)], right=all(alg.pop[j] is off for j, a in enumerate(before) if a != id(alg.pop[j]))))
        return r

    alg._replace = rec
    eps_seen, sizes, total, cv0, zs = [], [], 0, None, None
    while alg.has_next():
        a, g = len(seen), alg.n_gen
        m = len(calls)
        alg.next()
        sizes.append(len(seen) - a)
        if cv0 is None:
            cv0 = float(np.mean(alg.pop.get("CV")))
            zs = alg.pop.get("F").min(0)
        if len(sizes) > gens + 2:
            break
    c.require(len(sizes) == gens and all(s == len(W) for s in sizes), "moead:generation", f"evaluations per call of next(): {sizes}, expected {len(W)} in each of {gens}")
    nbh = np.sqrt(((W[:, None] - W[None]) ** 2).sum(-1))
    dec = tcheby if M == 2 else pbi
    scale = 0.0
    last = np.inf
    for e in calls:
        zs = np.minimum(zs, e["f"])
        c.close(e["z"], zs, "moead:ideal", "ideal point", rtol=1e-12)
        k = e["k"]
        radius = np.sort(nbh[k])[nb - 1]
        sure = nbh[k] < radius - 1e-9
        maybe = nbh[k] <= radius + 1e-9
        eps = max(0.0, 1 - e["t"] / until) * cv0 if con else 0.0
        if con:
            c.require(eps <= last + 1e-12, "moead:schedule", f"tolerance grows from {last} to {eps}")
            last = eps
            c.count("tolerant" if eps > 0 else "strict")
        want, open_ = set(), set()
        for j in np.flatnonzero(maybe):
            v_old, v_new = max(0.0, e["CV"][j] - eps), max(0.0, e["cv"] - eps)
            a, b = dec(e["F"][j], W[j], e["z"]), dec(e["f"], W[j], e["z"])
            near = abs(a - b) < 1e-10 * (1 + abs(a)) and not np.array_equal(e["F"][j], e["f"])
            if con and (v_old > 0 or v_new > 0):
                if abs(v_old - v_new) < 1e-12 and v_old != v_new or abs(e["CV"][j] - eps) < 1e-12 * (1 + eps) and eps > 0 or abs(e["cv"] - eps) < 1e-12 * (1 + eps) and eps > 0:
                    open_.add(int(j))
                better = v_new < v_old
                if v_new <= 0 and v_old > 0:
                    # a feasible offspring replaces an infeasible member, unless both collapse to the same fitness
                    better = True
                    if v_old < 1e-10 * (1 + abs(b)):
                        open_.add(int(j))
                elif v_new > 0 and v_old > 0 and abs(v_new - v_old) < 1e-10 * (1 + abs(a) + abs(b)) * 1e3 and v_new != v_old:
                    open_.add(int(j))
            else:
                better = b < a
                if near:
                    open_.add(int(j))
            if not sure[j]:
                open_.add(int(j)) if better else None
            if better:
                want.add(int(j))
        got = set(e["changed"])
        c.require(e["right"], "moead:replaced-by", "a member was replaced by something else than the offspring")
        bad = (got ^ want) - open_
        if bad:
            j = sorted(bad)[0]
            c.fail("moead:replacement", f"{d.name}: member {j} was {'replaced' if j in got else 'kept'} (violations {e['CV'][j]:.4g} -> {e['cv']:.4g}, tolerance {eps:.4g}, decomposed values {dec(e['F'][j], W[j], e['z'])} -> {dec(e['f'], W[j], e['z'])})")
            break
        c.require(len(got) <= nb, "moead:neighbours", f"{len(got)} members replaced, {nb} neighbours")
        c.saw(d.name, e["x"], k)
        c.count("replaced", len(got))
    c.require(len(calls) == len(W) * (gens - 1), "moead:offspring", f"{len(calls)} replacement rounds in {gens - 1} generations of {len(W)}")
    X = np.array(seen)
    c.require(bool(np.all(X >= lo - 1e-12) and np.all(X <= up + 1e-12)), "moead:box", "evaluated outside of the box")
    for i in list(alg.pop)[:4]:
        c.close(i.F, p.objective(np.asarray(i.X, float)), "moead:objective", f"{d.name}: recorded objectives", rtol=1e-8, atol=1e-8)
    if not con:
        ref = MOEAD(ref_dirs=W, n_neighbors=nb)
        q2 = p.as_pymoo_problem()
        seen2 = []
        inner2 = q2._evaluate
        q2._evaluate = lambda x, out, *a, **k: (seen2.extend(np.atleast_2d(x).copy()), inner2(x, out, *a, **k))[1]
        ref.setup(q2, termination=get_termination("n_gen", 10**6), seed=seed, verbose=False)
        while len(seen2) < len(seen):
            ref.next()
        c.require(np.array_equal(np.array(seen2)[: len(seen)], X), "moead:stock", f"{d.name}: the run differs from pymoo's MOEA/D with the same seed")
        c.saw("stock", d.name, X)
        c.count("compared with pymoo")
    c.sample(problem=d.name, directions=len(W), generations=gens, evaluations=len(seen))
