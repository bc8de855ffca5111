"""P20: pymoo adapters."""
import sys

import numpy as np

from . import gen
from .core import monitor
from .p17 import judge
from .p18 import agree, points, reg
from .probs import build, cls, dtlz, zdt


def ev(q, X):
    return q.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True)


def forget():
    """drop pymoo's problem families from the module cache"""
    for m in [m for m in sys.modules if m == "pymoo.problems" or m.startswith(("pymoo.problems.multi", "pymoo.problems.many"))]:
        if "wfg" not in m:
            sys.modules.pop(m, None)


def fresh_backend():
    import pymoo.gradient as g

    forget()
    g.activate("autograd.numpy")
    return g


# ------------------------------------------------------------------------------- MOP -> pymoo
@monitor("P20", quick=114, thorough=1500)
def to_pymoo(c):
    """as_pymoo_problem() of every problem class: sizes, bounds, constraint counts, F/G/H/CV of single points and populations
    against the independent definitions; fronts passed through"""
    rng = c.rng
    R = reg()
    names = sorted(R)
    d = R[names[c.i % len(names)]]
    kw, n, M, ok, lo, up, bnd = build(rng, d)
    p = cls(d)(**kw)
    q = p.as_pymoo_problem()
    c.describe(problem=d.name, kwargs=kw)
    n_g = d.n_g + 2 * n * bnd
    got = (q.n_var, q.n_obj, q.n_ieq_constr, q.n_eq_constr)
    c.require(got == (n, M, n_g, d.n_h), "sizes", f"{d.name}: adapter declares (n_var, n_obj, n_ieq, n_eq) = {got}, the problem has {(n, M, n_g, d.n_h)}")
    c.require(np.array_equal(q.xl, lo) and np.array_equal(q.xu, up), "bounds", f"{d.name}: adapter bounds {q.xl}, {q.xu} instead of {lo}, {up}")
    w = up - lo
    X = points(rng, lo + 1e-3 * w, up - 1e-3 * w, int(rng.integers(1, 9)))
    keep = X.copy()
    out = ev(q, X)
    c.require(np.array_equal(X, keep), "input-modified", f"{d.name}: evaluation changed the population")
    k = len(X)
    for key, m in (("F", M), ("G", n_g), ("H", d.n_h)):
        if not c.require(np.shape(out[key]) == (k, m), "shape", f"{d.name}: {key} has shape {np.shape(out[key])} instead of {(k, m)}"):
            return
    one = ev(q, X[0])
    for i, x in enumerate(X):
        agree(c, out["F"][i], lambda z: d.F(z, M, **ok), x, lo, up, "F", f"{d.name} F through the adapter")
        if n_g:
            agree(c, out["G"][i], lambda z: np.r_[d.g(z, M) if d.g else [], np.r_[lo - z, z - up] if bnd else []], x, lo, up, "G", f"{d.name} G through the adapter")
        if d.n_h:
            agree(c, out["H"][i], lambda z: d.h(z, M), x, lo, up, "H", f"{d.name} H through the adapter")
        c.saw(d.name, x, n=1 + (n_g > 0) + d.n_h)
    for key in ("F", "G", "H"):
        c.close(np.ravel(one[key]), out[key][0], "single", f"{d.name}: {key} of one point and of the population", rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(out[key][0]), initial=0)))
    if hasattr(p, "get_pareto_front") and d.name not in ("DTLZ5", "DTLZ6", "DTLZ7"):
        s = int(rng.integers(1 << 30))
        np.random.seed(s)
        a = np.asarray(p.get_pareto_front())
        np.random.seed(s)
        b = np.asarray(q.pareto_front())
        c.require(np.array_equal(a, b), "front", f"{d.name}: adapter's pareto_front differs from the problem's")
        c.saw(d.name, "front")
        if d.family in ("zdt", "uf", "misc"):
            np.random.seed(s)
            a = np.asarray(p.get_pareto_front(37))
            np.random.seed(s)
            b = np.asarray(q.pareto_front(37))
            c.require(np.array_equal(a, b), "front-arguments", f"{d.name}: adapter's pareto_front(37) differs from the problem's")
    c.sample(problem=d.name, kwargs=kw, F=out["F"][0])


@monitor("P20", quick=10, thorough=120, timeout=600)
def runs(c):
    """pymoo's NSGA-II runs on the adapter: every population evaluated during the run (recorded inside the adapter) carries
    the defined F/G/H, lies in the box, and the result's F/CV belong to its X"""
    from pymoo.algorithms.moo.nsga2 import NSGA2
    from pymoo.optimize import minimize

    rng = c.rng
    R = reg()
    d = R[str(rng.choice([m for m in sorted(R) if R[m].family != "wfg"]))]
    kw, n, M, ok, lo, up, bnd = build(rng, d)
    p = cls(d)(**kw)
    c.describe(problem=d.name, kwargs=kw)
    q = p.as_pymoo_problem()
    log = []
    inner = q._evaluate

    def rec(x, out, *a, **k):
        r = inner(x, out, *a, **k)
        log.append((np.array(x), {k_: np.array(v) for k_, v in out.items() if k_ in "FGH" and v is not None}))
        return r

    q._evaluate = rec
    n_gen = int(rng.integers(3, 8))
    res = minimize(q, NSGA2(pop_size=int(rng.integers(8, 21))), ("n_gen", n_gen), seed=int(rng.integers(1 << 30)), verbose=False, copy_algorithm=bool(rng.integers(2)))
    c.require(len(log) == n_gen, "calls", f"{d.name}: {len(log)} evaluations of a population in {n_gen} generations")
    n_g = d.n_g + 2 * n * bnd
    gfun = lambda z: np.r_[d.g(z, M) if d.g else [], np.r_[lo - z, z - up] if bnd else []]
    for X, out in log:
        c.require(bool(np.all(X >= lo - 1e-12) and np.all(X <= up + 1e-12)), "box", f"{d.name}: evaluated outside of the box")
        for i in rng.choice(len(X), size=min(3, len(X)), replace=False):
            x = X[i]
            if np.any(x - lo < 1e-3) :  # documented smoothing
                continue
            agree(c, out["F"][i], lambda z: d.F(z, M, **ok), x, lo, up, "F-run", f"{d.name} F during a run")
            if n_g:
                agree(c, out["G"][i], gfun, x, lo, up, "G-run", f"{d.name} G during a run")
            if d.n_h:
                agree(c, out["H"][i], lambda z: d.h(z, M), x, lo, up, "H-run", f"{d.name} H during a run")
            c.saw(d.name, x)
    if res.X is not None:
        X = np.atleast_2d(res.X)
        F = np.atleast_2d(res.F)
        for x, f in zip(X[:5], F[:5]):
            c.close(f, p.objective(x), "result", f"{d.name}: F of the result and of the problem", rtol=1e-8, atol=1e-8)
            if n_g:
                c.require(float(np.max(p.ieq_constraint(x))) <= 1e-8, "result-feasible", f"{d.name}: result infeasible")
            c.saw(d.name, x, "res")
    else:
        c.count("no feasible result")
    c.count("evaluated", sum(len(X) for X, _ in log))
    c.sample(problem=d.name, generations=n_gen)


# ------------------------------------------------------------------------------- pymoo -> MOP
def user_problem(rng):
    """a random pymoo problem written with JAX operations; returns (pymoo problem, numpy F, G, H, lower, upper)"""
    import jax.numpy as jnp
    from pymoo.core.problem import ElementwiseProblem, Problem

    n, M = int(rng.integers(1, 7)), int(rng.integers(1, 5))
    n_g, n_h = int(rng.choice([0, 0, 1, 2, 3])), int(rng.choice([0, 0, 1, 2]))
    A, b = rng.normal(size=(M, n)), rng.normal(size=M)
    C, e = rng.normal(size=(n_g, n)), rng.normal(size=n_g)
    D, f = rng.normal(size=(n_h, n)), rng.normal(size=n_h)
    lo = rng.uniform(-3, 0, size=n)
    up = lo + rng.uniform(0.5, 4, size=n)
    if rng.random() < 0.3:
        lo, up = np.full(n, -1.0), np.full(n, 2.0)

    def F(x, np=np):  # x: (..., n)
        return np.tanh(x @ A.T + b) + (x**2).sum(-1)[..., None] * b**2

    def G(x, np=np):
        return np.sin(x @ C.T + e) - 0.3 * x[..., :1]

    def H(x, np=np):
        return (x @ D.T) ** 2 - f

    style = str(rng.choice(["dict", "dict", "elementwise", "elementwise-list", "return", "flat"]))
    if style == "return" and n_g + n_h:
        style = "dict"
    if style == "flat" and M > 1:
        style = "dict"
    base = ElementwiseProblem if style.startswith("elementwise") else Problem

    class User(base):
        def __init__(self):
            scalar = np.all(lo == lo[0]) and np.all(up == up[0])
            super().__init__(n_var=n, n_obj=M, n_ieq_constr=n_g, n_eq_constr=n_h, xl=lo[0] if scalar else lo, xu=up[0] if scalar else up)

        def _evaluate(self, x, out, *args, **kwargs):
            if style == "return":
                return F(x, jnp)
            if style == "elementwise-list":
                v = F(x, jnp)
                out["F"] = [v[i] + 0 * x[0] for i in range(M)]
            elif style == "flat":  # one objective, one value per point
                out["F"] = F(x, jnp)[..., 0]
            else:
                out["F"] = F(x, jnp)
            if n_g:
                out["G"] = G(x, jnp)
            if n_h:
                out["H"] = H(x, jnp)

        def _calc_pareto_front(self, k=7):
            return np.full((k, M), 0.25)

        def _calc_pareto_set(self, k=7):
            return np.full((k, n), 0.5)

    return User(), F, G, H, lo, up, style


@monitor("P20", quick=60, thorough=1200)
def from_pymoo(c):
    """MOP.from_pymoo of random user-written problems (population-wise, elementwise, returned or stored values, with and
    without constraints and box constraints): values, batches and derivatives; idempotent on native problems; fronts and
    sets passed through; what cannot be traced or is not a pymoo problem is refused with TypeError"""
    from hvd.problems import CMOP, MOP

    rng = c.rng
    P, F, G, H, lo, up, style = user_problem(rng)
    bnd = bool(rng.integers(2))
    default = bnd and bool(rng.integers(2))
    c.describe(n_var=P.n_var, n_obj=P.n_obj, n_g=P.n_ieq_constr, n_h=P.n_eq_constr, style=style, boundary=bnd)
    p = MOP.from_pymoo(P) if default else MOP.from_pymoo(P, boundary_constraints=bnd)
    n, M, g0, h0 = P.n_var, P.n_obj, P.n_ieq_constr, P.n_eq_constr
    n_g = g0 + 2 * n * bnd
    c.require(isinstance(p, CMOP), "type", f"from_pymoo returned {type(p)}")
    c.require((p.n_var, p.n_obj, p.n_ieq_constr, p.n_eq_constr) == (n, M, n_g, h0), "counts", f"adapted problem has {(p.n_var, p.n_obj, p.n_ieq_constr, p.n_eq_constr)}, expected {(n, M, n_g, h0)} (n_var, n_obj, n_ieq, n_eq)")
    c.require(np.array_equal(p.xl, lo) and np.array_equal(p.xu, up), "adapted-bounds", f"bounds {p.xl}, {p.xu} instead of {lo}, {up}")
    X = rng.uniform(lo, up, size=(int(rng.integers(2, 6)), n))
    Gx = lambda z: np.concatenate([G(z), lo - z, z - up] if bnd else [G(z)], axis=-1)[..., (0 if g0 else 0) :]
    kinds = [("objective", M, F, p.objective, p.objective_batch, p.objective_jacobian, p.objective_jacobian_batch, p.objective_hessian, p.objective_hessian_batch)]
    if n_g:
        kinds.append(("inequality", n_g, Gx, p.ieq_constraint, p.ieq_constraint_batch, p.ieq_jacobian, p.ieq_jacobian_batch, p.ieq_hessian, p.ieq_hessian_batch))
    if h0:
        kinds.append(("equality", h0, H, p.eq_constraint, p.eq_constraint_batch, p.eq_jacobian, p.eq_jacobian_batch, p.eq_hessian, p.eq_hessian_batch))
    for kind, m, f, one, batch, J, JB, Hs, HB in kinds:
        want = f(X)
        c.close(batch(X), want, f"adapted:{kind}", f"{kind} of the population", rtol=1e-9, atol=1e-10)
        c.close(np.array([one(x) for x in X]), want, f"adapted:{kind}", f"{kind}, point by point", rtol=1e-9, atol=1e-10)
        for i in range(2):
            judge(c, J(X[i]), f, X[i], up - lo, f"adapted-jacobian:{kind}", f"{kind} Jacobian")
            judge(c, Hs(X[i]), lambda z: np.asarray(J(z), float), X[i], up - lo, f"adapted-hessian:{kind}", f"{kind} Hessian")
        c.close(JB(X), np.array([J(x) for x in X]), f"adapted-batch:{kind}", f"batched {kind} Jacobians", rtol=1e-8, atol=1e-9)
        c.close(HB(X), np.array([Hs(x) for x in X]), f"adapted-batch:{kind}", f"batched {kind} Hessians", rtol=1e-8, atol=1e-8)
        c.saw(style, kind, X, n=2 * len(X))
    c.require(np.shape(p.get_pareto_front(k=5)) == (5, M) and np.shape(p.get_pareto_set(k=4)) == (4, n), "front-through", "pareto front/set of the adapted problem are not the pymoo problem's")
    # and back
    q = p.as_pymoo_problem()
    out = ev(q, X)
    c.close(out["F"], F(X), "round-trip", "F after pymoo -> MOP -> pymoo", rtol=1e-9, atol=1e-10)
    if n_g:
        c.close(out["G"], Gx(X), "round-trip", "G after pymoo -> MOP -> pymoo", rtol=1e-9, atol=1e-10)
    if h0:
        c.close(out["H"], H(X), "round-trip", "H after pymoo -> MOP -> pymoo", rtol=1e-9, atol=1e-10)
    c.require(MOP.from_pymoo(p) is p, "idempotent", "from_pymoo of a native problem is not that problem")
    c.count(style)
    refuse(c, rng)
    c.sample(style=style, n_var=n, n_obj=M, n_g=n_g, n_h=h0)


def refuse(c, rng):
    from hvd.problems import MOP
    from pymoo.core.problem import Problem

    what = str(rng.choice(["numpy F", "numpy G", "numpy H", "object", "class", "branch"]))

    class Bad(Problem):
        def __init__(self):
            super().__init__(n_var=3, n_obj=2, n_ieq_constr=1, n_eq_constr=1, xl=0, xu=1)

        def _evaluate(self, x, out, *a, **k):
            import jax.numpy as jnp

            out["F"] = jnp.stack([x[:, 0], x[:, 1]], axis=1)
            out["G"] = x[:, :1] - 0.5
            out["H"] = x[:, 1:2]
            if what.startswith("numpy"):
                key = what[-1]
                out[key] = np.asarray(x)[:, : {"F": 2}.get(key, 1)] * 1.0
            elif what == "branch":
                if x[0, 0] > 0.5:
                    out["F"] = 2 * out["F"]

    arg = {"object": object(), "class": Bad}.get(what, None)
    # (G and H of the "numpy" kinds are traced separately, so each has to be found)
    try:
        MOP.from_pymoo(Bad() if arg is None else arg, boundary_constraints=bool(rng.integers(2)))
    except TypeError:
        c.saw("refused", what)
        c.count("refused " + what)
        return
    except Exception as e:
        c.fail("refusal-kind", f"{what}: refused with {type(e).__name__} instead of TypeError: {e}")
        return
    c.fail("accepted", f"from_pymoo accepted a problem it cannot differentiate ({what})")


# ------------------------------------------------------------------------------- built-in pymoo problems
def bnh(x):
    a, b = x
    return [4 * a**2 + 4 * b**2, (a - 5) ** 2 + (b - 5) ** 2], [((a - 5) ** 2 + b**2 - 25) / 25, (7.7 - (a - 8) ** 2 - (b + 3) ** 2) / 7.7]


def osy(x):
    a, b, k, d, e, f = x
    F = [-(25 * (a - 2) ** 2 + (b - 2) ** 2 + (k - 1) ** 2 + (d - 4) ** 2 + (e - 1) ** 2), a * a + b * b + k * k + d * d + e * e + f * f]
    g = [(a + b - 2) / 2, (6 - a - b) / 6, (2 - b + a) / 2, (2 - a + 3 * b) / 2, (4 - (k - 3) ** 2 - d) / 4, ((e - 3) ** 2 + f - 4) / 4]
    return F, [-t for t in g]


def srn(x):
    a, b = x
    return [2 + (a - 2) ** 2 + (b - 1) ** 2, 9 * a - (b - 1) ** 2], [a * a + b * b - 225, a - 3 * b + 10]


def tnk(x):
    a, b = x
    return [a, b], [1 + 0.1 * np.cos(16 * np.arctan2(a, b)) - a * a - b * b, 2 * ((a - 0.5) ** 2 + (b - 0.5) ** 2) - 1]


BUILTIN = {
    "bnh": (bnh, [0, 0], [5, 3], 2),
    "osy": (osy, [0, 0, 1, 0, 1, 0], [10, 10, 5, 6, 5, 10], 6),
    "srn": (srn, [-20, -20], [20, 20], 2),
    "tnk": (tnk, [0, 1e-30], [np.pi, np.pi], 2),
}
NAMES = ["bnh", "osy", "srn", "tnk"] + [f"zdt{i}" for i in (1, 2, 3, 4, 6)] + [f"dtlz{i}" for i in range(1, 8)]


def builtin(rng, name):
    """(factory arguments, formula x -> (F, g), lower, upper, number of inequalities, n_obj)"""
    if name in BUILTIN:
        f, lo, up, n_g = BUILTIN[name]
        return {}, f, np.array(lo, float), np.array(up, float), n_g, 2
    num = int(name[-1])
    if name.startswith("zdt"):
        n = int(rng.integers(2, 12))
        lo, up = np.zeros(n), np.ones(n)
        if num == 4:
            lo[1:], up[1:] = -5, 5
        F = zdt(num)
        return {"n_var": n}, lambda x: (F(x), []), lo, up, 0, 2
    M = int(rng.integers(2, 6))
    n = M - 1 + int(rng.integers(1, 8))
    F = dtlz(num)
    return {"n_var": n, "n_obj": M}, lambda x: (F(x, M), []), np.zeros(n), np.ones(n), 0, M


def check_builtin(c, rng, p, name, spec, bnd, derivatives=True):
    kw, f, lo, up, g0, M = spec
    n = len(lo)
    n_g = g0 + 2 * n * bnd
    if not c.require((p.n_var, p.n_obj, p.n_ieq_constr, p.n_eq_constr) == (n, M, n_g, 0), "factory-counts", f"{name}: {(p.n_var, p.n_obj, p.n_ieq_constr, p.n_eq_constr)}, expected {(n, M, n_g, 0)} (n_var, n_obj, n_ieq, n_eq)"):
        return
    c.require(np.array_equal(p.xl, lo) and np.array_equal(p.xu, up), "factory-bounds", f"{name}: bounds {p.xl}, {p.xu} instead of {lo}, {up}")
    w = up - lo
    X = rng.uniform(lo + 0.02 * w, up - 0.02 * w, size=(3, n))
    scale = w * (0.1 if name in ("dtlz1", "dtlz3") else 1.0)
    if name == "dtlz4":
        X[:, : M - 1] = rng.uniform(0.93, 0.99, size=(3, M - 1))
        scale = w * 0.05
    Ff = lambda z: np.asarray(f(z)[0], float)
    Gf = lambda z: np.r_[np.asarray(f(z)[1], float), np.r_[lo - z, z - up] if bnd else []]
    Fb = p.objective_batch(X)
    Gb = p.ieq_constraint_batch(X) if n_g else None
    for i, x in enumerate(X):
        agree(c, p.objective(x), Ff, x, lo, up, "factory-F", f"{name} objectives")
        agree(c, Fb[i], Ff, x, lo, up, "factory-F", f"{name} batched objectives")
        if n_g:
            agree(c, p.ieq_constraint(x), Gf, x, lo, up, "factory-G", f"{name} inequalities")
            agree(c, Gb[i], Gf, x, lo, up, "factory-G", f"{name} batched inequalities")
        c.saw(name, x, n=2)
    if derivatives:
        for x in X[:2]:
            judge(c, p.objective_jacobian(x), Ff, x, scale, "factory-jacobian", f"{name} Jacobian")
            judge(c, p.objective_hessian(x), lambda z: np.asarray(p.objective_jacobian(z), float), x, scale, "factory-hessian", f"{name} Hessian")
            if n_g:
                judge(c, p.ieq_jacobian(x), Gf, x, scale, "factory-g-jacobian", f"{name} constraint Jacobian")
                judge(c, p.ieq_hessian(x), lambda z: np.asarray(p.ieq_jacobian(z), float), x, scale, "factory-g-hessian", f"{name} constraint Hessian")


def spelled(rng, name):
    u = rng.random()
    return name if u < 0.4 else name.upper() if u < 0.8 else name.capitalize()


@monitor("P20", quick=32, thorough=400)
def factory(c):
    """get_pymoo_problem for every supported name (random sizes, spelling, box constraints on, off and by default): values,
    batches, bounds and derivatives against independent formulas; pymoo's backend is put back"""
    from hvd.problems import get_pymoo_problem, pymoo_problem_names

    rng = c.rng
    g = fresh_backend()
    try:
        names = pymoo_problem_names()
        c.require(set(names) >= set(NAMES), "names", f"supported names {names}")
        name = NAMES[c.i % len(NAMES)]
        spec = builtin(rng, name)
        bnd = bool(rng.integers(2))
        kw = dict(spec[0])
        if not bnd or rng.integers(2):
            kw["boundary_constraints"] = bnd
        c.describe(name=name, kwargs=kw)
        p = get_pymoo_problem(spelled(rng, name), **kw)
        c.require(g.TOOLBOX == "autograd.numpy", "backend", f"backend left at {g.TOOLBOX}")
        check_builtin(c, rng, p, name, spec, bnd)
        back = p.as_pymoo_problem()
        X = rng.uniform(spec[2], spec[3], size=(4, len(spec[2])))
        c.close(back.evaluate(X, return_values_of=["F"]), p.objective_batch(X), "factory-round-trip", f"{name}: F through pymoo again", rtol=1e-10, atol=1e-10)
        c.sample(name=name, kwargs=kw)
    finally:
        fresh_backend()


@monitor("P20", quick=24, thorough=400)
def backend_history(c):
    """random histories of pymoo use around get_pymoo_problem (backend switches, pymoo problems imported first, wrong names,
    wrong arguments): the backend setting and already loaded modules are never changed, numpy-bound modules are refused
    (RuntimeError), unknown names are refused (ValueError), and every problem obtained works, also later"""
    import importlib

    from hvd.problems import get_pymoo_problem

    rng = c.rng
    g = fresh_backend()
    live, ops = [], []
    try:
        for _ in range(int(rng.integers(5, 11))):
            op = str(rng.choice(["get", "get", "get", "activate", "import", "forget", "unknown", "kwargs", "use"]))
            name = str(rng.choice(NAMES))
            mod = "pymoo.problems.many.dtlz" if name.startswith("dtlz") else "pymoo.problems.multi." + name.rstrip("12346")
            before = (g.TOOLBOX, {m: id(v) for m, v in sys.modules.items() if m.startswith("pymoo.problems")})
            bound = getattr(getattr(sys.modules.get(mod), "anp", None), "__name__", None)
            ops.append((op, name, g.TOOLBOX, bound))
            c.describe(history=ops)
            if op == "activate":
                g.activate(str(rng.choice(["autograd.numpy", "numpy", "jax.numpy"])))
                continue
            if op == "import":
                importlib.import_module(mod)
                continue
            if op == "forget":
                forget()
                continue
            if op == "use" and live:
                q, nm, spec, bnd = live[int(rng.integers(len(live)))]
                check_builtin(c, rng, q, nm, spec, bnd, derivatives=False)
                x = rng.uniform(spec[2] + 0.1, spec[3] - 0.1)
                q.objective_hessian(x)
                continue
            spec = builtin(rng, name)
            kw, bnd = dict(spec[0]), bool(rng.integers(2))
            want = RuntimeError if bound not in (None, "jax.numpy") else None
            if op == "unknown":
                arg, want = str(rng.choice(["wfg1", "zdt5", "mw1", "", "zdt", "dtlz8"])), ValueError
            else:
                arg = spelled(rng, name)
            if op == "kwargs":
                kw["no_such_argument"] = 1
                want = want or TypeError
            got = None
            try:
                p = get_pymoo_problem(arg, boundary_constraints=bnd, **kw)
            except Exception as e:
                got = e
            if want is None:
                if got is not None:
                    c.fail("history-refused", f"get_pymoo_problem({arg!r}) failed with {type(got).__name__}: {got}")
                    continue
                check_builtin(c, rng, p, name, spec, bnd, derivatives=bool(rng.random() < 0.3))
                live.append((p, name, spec, bnd))
            else:
                c.require(isinstance(got, want) or want is TypeError and got is None, "history-accepted", f"get_pymoo_problem({arg!r}) {'returned' if got is None else 'raised ' + type(got).__name__}, expected {want.__name__}")
            after = {m: id(v) for m, v in sys.modules.items() if m.startswith("pymoo.problems")}
            c.require(g.TOOLBOX == before[0], "backend-history", f"backend changed from {before[0]} to {g.TOOLBOX} by get_pymoo_problem({arg!r})")
            c.require(all(after.get(m) == i for m, i in before[1].items()), "modules", "already loaded pymoo modules were replaced")
            tb = importlib.import_module("pymoo.gradient.toolbox")
            c.require(tb.__name__ == before[0], "toolbox", f"pymoo.gradient.toolbox now resolves to {tb.__name__} instead of {before[0]}")
            c.saw(op, name, before[0], bound, bnd)
            c.count(op if want is None or op != "get" else "refused bound module")
        for q, nm, spec, bnd in live:
            check_builtin(c, rng, q, nm, spec, bnd, derivatives=False)
            q.objective_jacobian(rng.uniform(spec[2] + 0.1, spec[3] - 0.1))
        c.sample(history=ops)
    finally:
        fresh_backend()


@monitor("P20", quick=40, thorough=600)
def modified_objective(c):
    """ModifiedObjective: f_i -> (1-a) f_i + a mean(f) with a = 0.02, constraints unchanged, nested wrappers"""
    from hvd.problems.misc import ModifiedObjective

    rng = c.rng
    R = reg()
    d = R[str(rng.choice(sorted(R)))]
    kw, n, M, ok, lo, up, bnd = build(rng, d)
    q = cls(d)(**kw).as_pymoo_problem()
    levels = int(rng.integers(1, 3))
    m = q
    for _ in range(levels):
        m = ModifiedObjective(m)
    c.describe(problem=d.name, kwargs=kw, levels=levels)
    w = up - lo
    X = rng.uniform(lo + 1e-3 * w, up - 1e-3 * w, size=(int(rng.integers(1, 6)), n))
    a, b = ev(q, X), ev(m, X)
    c.require((m.n_var, m.n_obj, m.n_ieq_constr, m.n_eq_constr) == (q.n_var, q.n_obj, q.n_ieq_constr, q.n_eq_constr), "modified-sizes", f"{d.name}: sizes changed")
    c.require(np.array_equal(m.xl, q.xl) and np.array_equal(m.xu, q.xu), "modified-bounds", f"{d.name}: bounds changed")
    want = np.array(a["F"], float)
    for _ in range(levels):
        want = 0.98 * want + 0.02 * want.mean(axis=1, keepdims=True)
    c.close(b["F"], want, "modified", f"{d.name}: modified objectives", rtol=1e-9, atol=1e-10)
    for key in ("G", "H"):
        c.require(np.array_equal(a[key], b[key]), "modified-constraints", f"{d.name}: {key} changed")
    c.saw(d.name, X, levels)


@monitor("P20", quick=40, thorough=400)
def rewritten_arrays(c):
    """the population array given to the adapter is rewritten in place between evaluations (as optimisers do): the answers
    are those of a copy given to a new adapter; answers handed out earlier keep their values"""
    rng = c.rng
    R = reg()
    d = R[str(rng.choice(sorted(R)))]
    kw, n, M, ok, lo, up, bnd = build(rng, d)
    p = cls(d)(**kw)
    q, fresh = p.as_pymoo_problem(), cls(d)(**kw).as_pymoo_problem()
    c.describe(problem=d.name, kwargs=kw)
    w = up - lo
    m = int(rng.integers(1, 6))
    handed = []

    def values(a):
        def f(X):
            out = ev(a, X)
            v = tuple(out[k] for k in ("F", "G", "H"))
            if a is q:
                handed.append((v, tuple(np.array(z, float) for z in v)))
            return v

        return f

    gen.rewritten(c, values(q), values(fresh), lambda: rng.uniform(lo + 0.05 * w, up - 0.05 * w, size=(m, n)), "rewritten", f"{d.name} through the adapter")
    same = all(np.array_equal(np.asarray(a, float), b, equal_nan=True) for v, k in handed for a, b in zip(v, k))
    c.require(same, "handed-out", f"{d.name}: values returned earlier changed when the population array was rewritten")
