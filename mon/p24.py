"""P24: optimisers see callbacks through their values only; whole runs on the benchmark problems."""
import functools

import numpy as np

from . import gen
from .core import Skip, monitor
from .models import random_problem
from .p10 import start
from .p11 import reference
from .p15 import KINDS, advance, alive
from .probs import build as build_problem
from .probs import cls
from .p17 import reg

MEMO = {}
CALLS = ["F", "J", "H", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess"]


class Functions:
    """the callbacks of a problem, in one of the forms users write them in"""

    def __init__(self, P, form, log=None):
        self.n_eq, self.n_ieq, self.d, self.m = P.n_eq, P.n_ieq, P.d, P.m
        self.xl, self.xu = P.xl, P.xu
        for k in CALLS:
            if k[0] == "h" and not P.n_eq or k[0] == "g" and not P.n_ieq:
                continue
            setattr(self, k, shape(getattr(P, k), k, form, P, log))

    def kwargs(self, hess=True, names=("h_hessian", "g_hessian")):
        kw = {}
        if self.n_eq:
            kw.update(h=self.h, h_jac=self.h_jac)
            if hess:
                kw[names[0]] = self.h_hess
        if self.n_ieq:
            kw.update(g=self.g, g_jac=self.g_jac)
            if hess:
                kw[names[1]] = self.g_hess
        return kw


class Owner:
    """an object whose methods have (or lack) population-wise companions"""

    def __init__(self, f, log):
        self.f, self.log = f, log

    def value(self, x):
        self.log.append(("point", np.shape(x)))
        return self.f(x)


class BatchOwner(Owner):
    def value_batch(self, X):
        self.log.append(("batch", np.shape(X)))
        return np.array([self.f(x) for x in X])


class CallableObject(Owner):
    def __call__(self, x):
        return self.value(x)


def shape(f, k, form, P, log):
    log = [] if log is None else log
    single = k[0] == "h" and P.n_eq == 1 or k[0] == "g" and P.n_ieq == 1

    f0 = f

    def f(x):  # same bits whatever the memory layout of the argument
        return f0(np.array(x, float))

    def plain(x):
        log.append(("point", np.shape(x)))
        return f(x)

    if form == "plain":
        return plain
    if form == "method":
        return Owner(f, log).value
    if form == "batch method":
        return BatchOwner(f, log).value
    if form == "callable object":
        return CallableObject(f, log)
    if form == "partial":
        return functools.partial(lambda a, x: plain(x), 1)
    if form == "jax":
        import jax.numpy as jnp

        return lambda x: jnp.asarray(plain(x))
    if form == "list":
        return lambda x: np.asarray(plain(x)).tolist()
    if form == "read-only":

        def g(x):
            v = np.array(plain(x))
            v.flags.writeable = False
            return v

        return g
    if form == "own buffer":  # always hands out the same array object, refilled at every call of a new point
        def g(x):
            key = (id(f0), np.asarray(x).tobytes())
            v = np.array(plain(x))
            MEMO.setdefault(key, (v, v.copy()))
            return MEMO[key][0]

        return g
    if form in ("scalar", "0-d"):
        if not single:
            return plain
        n = P.d
        out = {"h": (), "g": (), "h_jac": (n,), "g_jac": (n,), "h_hess": (n, n), "g_hess": (n, n)}[k]

        def g(x):
            v = np.asarray(plain(x), float).reshape(out)
            return float(v) if out == () and form == "scalar" else v

        return g
    if form == "integers":  # integral answers come as integers

        def g(x):
            v = np.asarray(plain(x), float)
            return v.astype(int) if np.all(np.isfinite(v)) and np.all(v == np.round(v)) and np.abs(v).max(initial=0) < 1e6 else v

        return g
    raise KeyError(form)


FORMS = ["method", "batch method", "callable object", "partial", "jax", "list", "read-only", "own buffer", "scalar", "0-d", "integers"]


@monitor("P24", quick=264, thorough=5280)
def forms(c):
    """all four optimisers, random problems: the same functions given as plain functions, methods with and without
    population-wise companions, callable objects, partials; returning lists, JAX arrays, read-only or remembered arrays,
    scalars for a single constraint: the same run, bit by bit, with the same evaluation counters"""
    from .p15 import build

    rng = c.rng
    who = KINDS[c.i % 4]
    form = FORMS[(c.i // 4) % len(FORMS)]
    kind = "none" if who == "Lara" else str(rng.choice(["eq", "ieq", "both", "none"], p=[0.35, 0.3, 0.2, 0.15]))
    P = random_problem(rng, constrained=kind, dmax=4, bent=rng.random() < 0.5)
    if form in ("scalar", "0-d") and P.n_ieq > 1:
        a, b, q = P.ieq
        P.ieq, P.n_ieq, P.tg, P.wg = (a[:1], b[:1], q[:1]), 1, P.tg[:1], P.wg[:1]
    n = gen.few(rng, 1, 5, 12)
    X, _ = start(rng, P, n)
    X = np.clip(X, P.xl, P.xu)
    if form == "integers":
        P.A = np.array([np.eye(P.d) * 2 for _ in range(P.m)])
        P.C = rng.integers(-1, 2, size=P.C.shape).astype(float)
        X[int(rng.integers(n)) if rng.random() < 0.3 else 0] = rng.integers(-1, 2, size=P.d)
    R = reference(rng, P, n)
    ref = np.array([P.F(x) for x in X]).max(0) + rng.uniform(0.2, 2.0, size=P.m)
    k = int(rng.integers(1, 4))
    c.describe(who=who, form=form, X=X, R=R, ref=ref, A=P.A, C=P.C, eq=P.eq, ieq=P.ieq)
    La, Lb = [], []
    MEMO.clear()
    c.seed_global()
    a = build(who, Functions(P, "plain", La), X.copy(), R.copy(), ref.copy(), max_iters=k)
    a.run()
    b = build(who, Functions(P, form, Lb), X.copy(), R.copy(), ref.copy(), max_iters=k)
    b.run()
    c.count(f"{who}, {form}")
    c.saw(X, who, form, k, n=k)
    c.require(all(s == (P.d,) for w, s in La + Lb if w == "point"), "argument", f"{who}: a point function got {set(s for w, s in La + Lb if w == 'point')} for {P.d} variables")
    c.require(all(len(s) == 2 and s[1] == P.d and s[0] <= n for w, s in Lb if w == "batch"), "argument", f"{who}: a population function got {set(s for w, s in Lb if w == 'batch')}")
    rows = lambda L: sum(s[0] if w == "batch" else 1 for w, s in L)
    if not alive(a.state.primal):
        return
    for i in range(k):
        for what, u, v in (("population", a.history_X[i], b.history_X[i]), ("objective values", a.history_Y[i], b.history_Y[i])):
            if not c.require(u.shape == v.shape and np.array_equal(u, v, equal_nan=True), "form", f"{who}: {what} of iteration {i} differ for callbacks given as {form}", plain=u, other=v):
                return
    c.require(np.array_equal(a.history_R_norm, b.history_R_norm, equal_nan=True), "form-residual", f"{who}: residual norms differ for callbacks given as {form}")
    c.require(all(np.array_equal(u, v) for u, v in MEMO.values()), "callback-data", f"{who}: arrays returned by the callbacks were written to")
    sa, sb = a.state, b.state
    c.require(sa.n_jac_evals == sb.n_jac_evals and sa.n_cstr_jac_evals == sb.n_cstr_jac_evals, "form-counters", f"{who}: evaluation counters differ for callbacks given as {form}: {sa.n_jac_evals}, {sb.n_jac_evals}")
    c.require(rows(La) == rows(Lb), "form-evaluations", f"{who}: {rows(La)} point evaluations of plain functions, {rows(Lb)} of {form}")
    # the state can be edited point by point in every form
    if sb.cstr_hess is not None and n > 1:
        i = int(rng.integers(n)) % len(sb.X)
        x = sb.X[i] + 0.01
        other = np.delete(np.arange(len(sb.X)), i)
        keep = sb.Y[other].copy()
        sb.update_one(x, i)
        c.close(sb.Y[i], P.F(x[: P.d]), "edit", f"objective values after update_one ({form})", rtol=1e-12)
        c.require(np.array_equal(sb.Y[other], keep), "edit-others", f"update_one changed other members ({form})")
    c.sample(who=who, form=form, k=k, X=X)


class Native:
    """a benchmark problem as callbacks"""

    def __init__(self, p, plain=False):
        self.d, self.m = p.n_var, p.n_obj
        self.xl, self.xu = p.xl, p.xu
        w = (lambda f: (lambda x: f(x))) if plain else (lambda f: f)
        self.F, self.J, self.H = w(p.objective), w(p.objective_jacobian), w(p.objective_hessian)
        self.n_eq, self.n_ieq = getattr(p, "n_eq_constr", 0), getattr(p, "n_ieq_constr", 0)
        if self.n_eq:
            self.h, self.h_jac, self.h_hess = w(p.eq_constraint), w(p.eq_jacobian), w(p.eq_hessian)
        if self.n_ieq:
            self.g, self.g_jac, self.g_hess = w(p.ieq_constraint), w(p.ieq_jacobian), w(p.ieq_hessian)

    kwargs = Functions.kwargs


def plain_data(p):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(p).items() if isinstance(v, (np.ndarray, int, float, str, bool)) and k != "CPU_time"}


def same_data(a, b):
    return a.keys() == b.keys() and all(np.array_equal(a[k], b[k]) for k in a)


SETS = [n for n in ("ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6", "DTLZ1", "DTLZ2", "DTLZ3", "DTLZ4", "DTLZ5", "DTLZ6", "DTLZ7", "IDTLZ1", "IDTLZ2", "IDTLZ3", "IDTLZ4")]
SETS += [f"Eq1DTLZ{i}" for i in range(1, 5)] + [f"Eq1IDTLZ{i}" for i in range(1, 5)]
SETS += [f"CF{i}" for i in range(1, 11)] + [f"UF{i}" for i in range(1, 11)] + ["CONV3", "CONV4", "CONV4_2F", "DENT"]


@monitor("P24", quick=60, thorough=1200, timeout=400)
def natives(c):
    """all four optimisers on the benchmark problems themselves (objective, constraint and derivative methods handed over
    directly): population, values and constraint data belong together at every iteration (recomputed point by point on a second
    instance), members stay in the box where promised, budgets and counters hold, the problem object is not altered, the
    derivative clock only runs forward, and the run is that of the same functions wrapped row by row"""
    from .p15 import build

    rng = c.rng
    who = KINDS[c.i % 4]
    R_ = reg()
    names = [s for s in SETS if s in R_ and not (who == "Lara" and (R_[s].n_g or R_[s].n_h))]
    d = R_[names[(c.i // 4 + int(rng.integers(len(names)))) % len(names)]]
    n_obj = int(rng.integers(2, 4)) if d.family == "dtlz" else None
    kw, nv, M, ok, lo, up, bnd = build_problem(rng, d, n_obj=n_obj, boundary=False if who == "Lara" else None)
    if not d.fixed and nv > 8 and d.family != "dtlz":
        nv = max(d.nvar[0], 6)
        kw["n_var"] = nv
        for k in ("xl", "xu"):
            kw.pop(k, None)
        lo, up = d.bounds(nv)
    p, q = cls(d)(**kw), cls(d)(**kw)
    n = gen.few(rng, 1, 6 if M == 2 else 4, 12 if M == 2 else 9)
    w = up - lo
    X = rng.uniform(lo + 0.15 * w, up - 0.15 * w, size=(n, nv))
    Y = np.array([q.objective(x) for x in X])
    if not np.all(np.isfinite(Y)):
        raise Skip("objective not defined at the start")
    ref = Y.max(0) + 1.0 + rng.random(M)
    R = Y.min(0) - 0.1 + rng.dirichlet(np.ones(M), size=3 * n + 2) * (0.5 + np.ptp(Y, axis=0))
    k = int(rng.integers(1, 4))
    c.describe(problem=d.name, kwargs=kw, who=who, X=X, ref=ref, R=R)
    before = plain_data(p)
    extra = {}
    if who == "HVN" and rng.random() < 0.5:
        extra["limit_max_step_size"] = True
    c.seed_global()
    a = build(who, Native(p), X.copy(), R.copy(), ref.copy(), max_iters=k, **extra)
    n_eq, n_ieq = getattr(q, "n_eq_constr", 0), getattr(q, "n_ieq_constr", 0)
    clock = p.CPU_time
    seen = []
    for it in range(k):
        if not c.require(not a.terminate(), "budget", f"{who} on {d.name}: stopped after {it} of {k} iterations"):
            return
        advance(a)
        c.require(isinstance(p.CPU_time, (int, np.integer)) and p.CPU_time > clock, "clock", f"{d.name}: derivative clock went from {clock} to {p.CPU_time}")
        clock = p.CPU_time
        st = a.state
        Z = np.asarray(st.primal)
        seen.append(Z.copy())
        if not np.all(np.isfinite(Z)):
            c.count("not finite")
            return
        if who in ("DpN", "Lara") or extra:
            tol = 1e-9 * (up - lo)
            c.require(np.all(Z >= lo - tol) and np.all(Z <= up + tol), "box", f"{who} on {d.name}: population left the box", Z=Z)
        rel = dict(rtol=1e-7, atol=1e-9)
        for i, z in enumerate(Z):
            f = np.asarray(q.objective(z), float)
            if not np.all(np.isfinite(f)):
                c.count("left the domain")
                return
            c.close(st.Y[i], f, "values", f"{who} on {d.name}: objective values of member {i}", **rel)
            if n_eq:
                c.close(st.H[i], np.asarray(q.eq_constraint(z), float).ravel(), "equalities", f"{who} on {d.name}: equality values of member {i}", **rel)
            if n_ieq:
                c.close(st.G[i], np.asarray(q.ieq_constraint(z), float).ravel(), "inequalities", f"{who} on {d.name}: inequality values of member {i}", **rel)
            if getattr(st, "J", None) is not None:
                c.close(st.J[i], q.objective_jacobian(z), "jacobian", f"{who} on {d.name}: Jacobian of member {i}", **rel)
            if n_eq + n_ieq and st.cstr_grad is not None:
                want = np.concatenate([g(z) for g, m in ((q.eq_jacobian, n_eq), (q.ieq_jacobian, n_ieq)) if m])
                c.close(st.cstr_grad[i], want, "constraint-jacobian", f"{who} on {d.name}: constraint Jacobian of member {i}", **rel)
        c.saw(Z, who, d.name, n=len(Z))
    c.count(who)
    c.count(d.family)
    c.require(a.terminate(), "budget", f"{who} on {d.name}: not finished after {k} iterations")
    c.require(same_data(before, plain_data(p)), "problem-altered", f"{who}: the run changed {d.name}")
    c.require(np.array_equal(np.asarray(p.xl), lo) and np.array_equal(np.asarray(p.xu), up), "bounds-altered", f"{who}: bounds of {d.name}")
    # the same functions, row by row; compared where a perturbation at rounding level does not matter
    b = build(who, Native(q, plain=True), X.copy(), R.copy(), ref.copy(), max_iters=1, **extra)
    advance(b)
    e = build(who, Native(q, plain=True), X * (1 + 1e-11 * rng.choice([-1, 1], size=X.shape)), R.copy(), ref.copy(), max_iters=1, **extra)
    advance(e)
    u, v = b.state.primal, e.state.primal
    if u.shape == v.shape and np.all(np.isfinite(u)) and np.abs(u - v).max() < 1e-8 * (1 + np.abs(u).max()):
        c.count("compared with row-wise callbacks")
        c.close(seen[0], u, "row-wise", f"{who} on {d.name}: first iteration differs from that of row-wise callbacks", rtol=1e-6, atol=1e-7)
    else:
        c.count("too sensitive to compare")
    st = a.state
    if st.cstr_hess is not None and getattr(st, "J", None) is not None:
        i = int(rng.integers(len(st.X)))
        x = np.array(st.X[i])
        x[:nv] = np.clip(x[:nv] * 0.999, lo, up)
        f = np.asarray(q.objective(x[:nv]), float)
        if np.all(np.isfinite(f)):
            st.update_one(x, i)
            c.close(st.Y[i], f, "edit", f"{d.name}: objective values after update_one", rtol=1e-7, atol=1e-9)
    c.sample(who=who, problem=d.name, kwargs=kw, X=X, k=k)
