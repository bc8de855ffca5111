"""P15: runs of the optimisers: budget, histories, determinism, isolation."""
import copy

import numpy as np

from . import gen
from .core import monitor
from .models import random_problem
from .p10 import start
from .p11 import reference
from .p13 import Rough

KINDS = ["HVN", "DpN", "MMD", "Lara"]


class Metric:
    def __init__(self):
        self.seen = []

    def compute(self, Y=None, X=None):
        self.seen.append(np.array(Y))
        return float(np.sum(np.sin(Y)))


def build(who, P, X, R, ref, metrics=None, **kw):
    from hvd.gradient_based import Lara
    from hvd.mmd_newton import MMDNewton
    from hvd.newton import HVN, DpN
    from hvd.reference_set import ReferenceSet

    a = dict(func=P.F, jac=P.J, xl=P.xl.copy(), xu=P.xu.copy(), verbose=False, **kw)
    if metrics is not None:
        a["metrics"] = metrics
    if who == "HVN":
        return HVN(n_var=P.d, n_obj=P.m, hessian=P.H, ref=ref, X0=X, **a, **P.kwargs())
    if who == "DpN":
        return DpN(dim=P.d, n_obj=P.m, hessian=P.H, ref=ReferenceSet(R), x0=X, **a, **P.kwargs())
    if who == "MMD":
        return MMDNewton(n_var=P.d, n_obj=P.m, hessian=P.H, ref=ReferenceSet(R), X0=X, theta=0.5, **a, **P.kwargs(hess=False))
    return Lara(n_var=P.d, n_obj=P.m, X0=X, **a)


def advance(opt):
    for k in ("iterate", "newton_iteration", "iteration"):
        if hasattr(opt, k):
            getattr(opt, k)()
            opt.log()
            return


def world(c, dup=0.0):
    rng = c.rng
    who = KINDS[c.i % 4]
    P = random_problem(rng, constrained="none" if who == "Lara" else None, dmax=3, bent=rng.random() < 0.5)
    if rng.random() < 0.3:
        P = Rough(rng, P)
    n = gen.few(rng, 1, 5, 10)
    X, _ = start(rng, P, n)
    X = np.clip(X, P.xl, P.xu)
    if n > 1 and rng.random() < dup and who in ("HVN", "Lara"):
        X[-1] = X[0]
        c.count("with duplicates")
    R = reference(rng, P, n)
    ref = np.array([P.F(x) for x in X]).max(0) + rng.uniform(0.2, 2.0, size=P.m)
    c.describe(who=who, X=X, R=R, ref=ref, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq)
    return rng, who, P, X, R, ref


def alive(X):
    return np.all(np.isfinite(X)) and np.abs(X).max() < 1e4


@monitor("P15", quick=320, thorough=6000)
def bookkeeping(c):
    """run(): exactly the requested number of iterations; one entry per iteration in every history and metric; entries are
    snapshots of the population at that iteration with its objective values; the returned values are the last entries; a
    finished run does not continue; running equals stepping by hand; caller's arrays untouched"""
    rng, who, P, X, R, ref = world(c, 0.3)
    k = int(rng.integers(0, 7))
    default = rng.random() < 0.08
    M1, M2 = Metric(), Metric()
    X_, R_, ref_ = X.copy(), R.copy(), ref.copy()
    opt = build(who, P, X_, R_, ref_, metrics=dict(one=M1, two=M2), max_iters=None if default else k)
    if default:
        k = 10 * len(X)
        c.count("default budget")
    out = opt.run()
    c.count(who)
    c.require(isinstance(out, tuple) and len(out) == 3, "return", f"run returned {type(out)}")
    Xr, Yr, stop = out
    c.saw(X, who, k, n=k + 2)
    c.require(opt.iter_count == k and stop.get("iter_count") == k, "budget", f"{who}: {opt.iter_count} iterations, reported {stop}, budget {k}")
    hist = dict(X=opt.history_X, Y=opt.history_Y, R=opt.history_R_norm, one=opt.history_metrics["one"], two=opt.history_metrics["two"])
    if who != "Lara":
        hist["indicator"] = opt.history_indicator_value
    for name, h in hist.items():
        c.require(len(h) == k, "history-length", f"{who}: {len(h)} entries of history {name} after {k} iterations")
    if any(len(h) != k for h in hist.values()):
        return
    c.require(np.array_equal(X_, X) and np.array_equal(R_, R) and np.array_equal(ref_, ref), "input-altered", f"{who}: the caller's arrays were altered")
    c.require(np.array_equal(Xr, opt.state.primal) and np.array_equal(Yr, opt.state.Y), "returned", f"{who}: the returned population is not the current one")
    if not alive(Xr):
        c.count("diverged")
        return
    c.close(Yr, np.array([P.F(x) for x in Xr]), "Y", f"{who}: returned objective values", rtol=1e-11)
    if k:
        c.require(np.array_equal(Xr, hist["X"][-1]) and np.array_equal(Yr, hist["Y"][-1]), "last-entry", f"{who}: the last history entry is not the returned population")
    else:
        c.close(Xr, X, "no-iteration", f"{who}: population of a run without iterations", rtol=0, atol=0)
    for i in range(k):
        if not alive(hist["X"][i]):
            return
        c.close(hist["Y"][i], np.array([P.F(x) for x in hist["X"][i]]), "history-Y", f"{who}: objective values of entry {i}", rtol=1e-11)
        c.require(np.array_equal(M1.seen[i], hist["Y"][i]), "metric-input", f"{who}: the metric of iteration {i} was computed for another population")
        c.close(hist["one"][i], np.sum(np.sin(hist["Y"][i])), "metric", f"{who}: metric of entry {i}", rtol=1e-12)
        c.require(np.isfinite(hist["R"][i]) and hist["R"][i] >= 0, "residual-norm", f"{who}: residual norm {hist['R'][i]}")
    # a finished run stays finished
    Xr2, _, _ = opt.run()
    c.require(opt.iter_count == k and np.array_equal(Xr2, Xr) and len(opt.history_X) == k, "continues", f"{who}: a finished run continued")
    # by hand
    two = build(who, P, X.copy(), R.copy(), ref.copy(), max_iters=k)
    snap = []
    for i in range(k):
        c.require(not two.terminate(), "stops-early", f"{who}: stopped after {i} of {k} iterations")
        advance(two)
        snap.append(two.state.primal.copy())
    c.require(two.terminate(), "does-not-stop", f"{who}: not terminated after {k} iterations")
    for i in range(k):
        c.require(np.array_equal(snap[i], hist["X"][i]), "stepping", f"{who}: population of iteration {i} differs between run and stepping")
        c.require(np.array_equal(snap[i], two.history_X[i]), "snapshot", f"{who}: history entry {i} changed later")
    c.sample(who=who, k=k, X=X, final=Xr)


@monitor("P15", quick=160, thorough=3000)
def deterministic_and_isolated(c):
    """given the initial population, a run does not depend on global random state, on other optimiser objects stepped in between,
    on copies being advanced, nor on the memory layout or type of the given arrays"""
    rng, who, P, X, R, ref = world(c, 0.2)
    k = int(rng.integers(1, 5))
    c.seed_global()
    a = build(who, P, X.copy(), R.copy(), ref.copy(), max_iters=k)
    a.run()
    c.saw(X, who, k, n=k)
    if not alive(a.state.primal):
        return
    # other global state; interleaved with another optimiser on another problem
    c.seed_global()
    other = KINDS[int(rng.integers(4))]
    Q = random_problem(rng, constrained="none", dmax=3)
    Z, _ = start(rng, Q, 3)
    b = build(who, P, X.copy(), R.copy(), ref.copy(), max_iters=k)
    o = build(other, Q, Z, reference(rng, Q, 3), np.full(Q.m, 50.0), max_iters=k)
    for _ in range(k):
        advance(o)
        np.random.rand(int(rng.integers(1, 5)))
        advance(b)
    c.count(f"{who} with {other}")
    same = lambda u, v: len(u.history_X) == len(v.history_X) and all(np.array_equal(x, y) for x, y in zip(u.history_X, v.history_X))
    c.require(same(a, b), "interference", f"{who}: the run depends on global random state or on another {other} object", a=a.history_X[-1], b=b.history_X[-1])
    c.require(all(np.shares_memory(x, y) is False for x, y in zip(b.history_X, b.history_X[1:])), "aliased-history", f"{who}: history entries share memory")
    # memory layout (medoids of two-point clusters are ties that rounding may break either way: not for DpN, MMD)
    if who in ("HVN", "Lara"):
        d = build(who, P, np.asfortranarray(X), np.asfortranarray(R), ref.copy(), max_iters=k)
        d.run()
        ok = len(d.history_X) == k and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-8) for x, y in zip(a.history_X[:1], d.history_X[:1]))
        c.require(ok, "layout", f"{who}: the first iteration depends on the memory layout of the input")
    # a list instead of an array
    e = build(who, P, X.tolist(), R.copy(), ref.tolist() if who == "HVN" else ref.copy(), max_iters=1)
    e.run()
    c.require(np.array_equal(e.history_X[0], a.history_X[0]), "list-input", f"{who}: a list as initial population gives another result")
    c.sample(who=who, other=other, k=k)


@monitor("P15", quick=120, thorough=2500)
def copies(c):
    """a deep copy of an optimiser in mid-run continues exactly like the original, and advancing one leaves the other alone"""
    rng, who, P, X, R, ref = world(c)
    k = int(rng.integers(1, 4))
    a = build(who, P, X.copy(), R.copy(), ref.copy(), max_iters=9)
    for _ in range(k):
        advance(a)
    try:
        b = copy.deepcopy(a)
    except TypeError:  # compiled kernels or loggers may not be copyable in some environments
        c.saw(X, n=0)
        c.count("not copyable")
        return
    x0 = a.state.primal.copy()
    t0 = None if who in ("HVN", "Lara") else np.array(a.ref.reference_set)
    c.saw(X, who, k, n=2)
    for _ in range(2):
        advance(b)
    c.require(np.array_equal(a.state.primal, x0) and len(a.history_X) == k, "copy-aliased", f"{who}: advancing a copy changed the original")
    if t0 is not None:
        c.require(np.array_equal(np.array(a.ref.reference_set), t0), "copy-aliased-targets", f"{who}: advancing a copy moved the original's targets")
    for _ in range(2):
        advance(a)
    if alive(a.state.primal):
        c.count(who)
        c.require(np.array_equal(a.state.primal, b.state.primal), "copy-diverges", f"{who}: original and copy continue differently")
