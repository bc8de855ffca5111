"""P26: a benchmark problem is configured as asked, or refused."""
import warnings

import numpy as np

from .core import monitor
from .p18 import agree, points, reg
from .probs import Def, box, cls

FIXED_BOTH = ("CONV3", "CONV4", "CONV4_2F", "DENT", "DisConnected")
# sizes below which the published formulas divide by zero or name variables that do not exist
LEAST = dict(ZDT1=2, ZDT2=2, ZDT3=2, ZDT4=2, ZDT6=2, CF1=3, CF2=3, CF3=3, CF4=2, CF5=2, CF6=4, CF7=4, CF8=5, CF9=5, CF10=5)
LEAST.update({f"UF{i}": 3 if i < 8 else 5 for i in range(1, 11)})
DEFAULT_N = dict(ZDT1=30, ZDT2=30, ZDT3=30, ZDT4=10, ZDT6=10, CONV3=3, CONV4=4, CONV4_2F=4, DENT=2, DisConnected=2)
DEFAULT_N.update({f"UF{i}": 30 for i in range(1, 11)})
DEFAULT_N.update({f"CF{i}": 10 for i in range(1, 11)})
N_OBJ = dict(CONV3=3, CONV4=4, CONV4_2F=4, UF8=3, UF9=3, UF10=3, CF8=3, CF9=3, CF10=3)
BAD = [True, np.bool_(True), 3.0, np.float64(4), "5", 0, -2, np.int64(0), [4]]


def disc_g(x, M=2):
    lo, up = ((0.1, 0.4) if x[0] <= 0.5 else (0.6, 0.8))
    return np.array([lo - x[0], x[0] - up])


def disc_h(x, M=2):
    t = (2.5 * x[0]) ** 2
    return np.array([t - 5 * x[0] + 1 - x[1] if x[0] <= 0.6 else 1 - t - 5 - x[1]])


def table():
    R = dict(reg())
    R["DisConnected"] = Def("misc", "DisConnected", lambda x, M=2, **k: np.asarray(x), (2, 2), g=disc_g, h=disc_h, n_g=2, n_h=1, bounds=box((1, 0, 1), (None, -8, 1)), fixed=True)
    return R


def bounds(rng, n, lo, up):
    xl, xu, a, b, how = bounds_(rng, n, lo, up)
    return xl, xu, None if a is None else np.array(a), None if b is None else np.array(b), how


def bounds_(rng, n, lo, up):
    """(xl argument, xu argument, lower, upper or None if they must be refused, how): None as argument: left out"""
    u = rng.random()
    if u < 0.35:
        return None, None, lo, up, "default"
    w = up - lo
    a, b = lo + w * rng.uniform(0, 0.4, n), up - w * rng.uniform(0, 0.4, n)
    if u < 0.45 and np.ptp(lo) == 0 and np.ptp(up) == 0:  # one number for all variables
        a0, b0 = float(a[0]), float(b[0])
        f = [float, np.float64, np.asarray][rng.integers(3)]
        return f(a0), f(b0), np.full(n, a0), np.full(n, b0), "scalar"
    if u < 0.5:
        return None, b, lo, b, "upper only"
    if u < 0.55:
        return a, None, a, up, "lower only"
    if u < 0.6:
        i = rng.integers(n)
        b[i] = a[i]
        return a, b, a, b, "degenerate"
    if u < 0.72:
        how = ["reversed", "too long", "matrix", "words", "scalar reversed"][rng.integers(5)]
        if how == "reversed":
            i = rng.integers(n)
            a[i], b[i] = b[i], a[i]
        elif how == "too long":
            which = rng.integers(2)
            a, b = (np.r_[a, a[0]], b) if which else (a, np.r_[b, b[0]])
        elif how == "matrix":
            a = np.tile(a, (2, 1))
        elif how == "words":
            a = ["lo"] * n
        else:
            a, b = float(up.max()) + 1, float(up.max())
        return a, b, None, None, how
    kind = rng.integers(4)
    if kind == 0:
        return a.tolist(), tuple(b.tolist()), a, b, "lists"
    if kind == 1:
        a, b = a.astype(np.float32), b.astype(np.float32)
        return a, b, a.astype(float), b.astype(float), "float32"
    if kind == 2:
        return np.repeat(a, 2)[::2], np.repeat(b, 2)[::2], a.copy(), b.copy(), "strided"
    return a.copy(), b.copy(), a, b, "arrays"


def sizes(rng, d):
    """(keyword arguments, n_var, n_obj or None if they must be refused, names of the arguments to be ignored)"""
    kw, ign = {}, []
    bad = rng.random() < 0.12
    if d.family == "dtlz":
        M = 3
        if rng.random() < 0.8:
            M = kw["n_obj"] = int(rng.integers(1, 7))
        u = rng.random()
        if u < 0.1:
            n = 11
        elif u < 0.3:
            kw["n_var"], n = None, M + 8
        else:
            n = kw["n_var"] = int(rng.integers(1, 14))
        if bad:
            kw[["n_obj", "n_var"][rng.integers(2)]] = BAD[rng.integers(len(BAD))]
        return kw, n, None if bad or n < M else M, ign
    if d.family == "wfg":
        M, n = 3, 24
        if rng.random() < 0.8:
            M = kw["n_obj"] = int(rng.integers(1, 6))
        if rng.random() < 0.8:
            n = kw["n_var"] = int(rng.integers(3, 26))
        k = (4 if M == 2 else 2 * (M - 1))
        u = rng.random()
        if u < 0.5 and M > 1:
            k = kw["k"] = (M - 1) * int(rng.integers(1, 6)) if rng.random() < 0.8 else int(rng.integers(1, 10))
        l = n - k
        if rng.random() < 0.3:
            l = kw["l"] = n - k + (0 if rng.random() < 0.7 else int(rng.choice([-2, -1, 1])))
        ok = M >= 2 and k >= 4 and k % max(1, M - 1) == 0 and k + l == n and l >= 1 and n >= M and not (d.name in ("WFG2", "WFG3") and l % 2)
        return kw, n, M if ok else None, ign
    M = N_OBJ.get(d.name, 2)
    n = DEFAULT_N[d.name]
    if rng.random() < 0.2:  # the number of objectives is fixed
        kw["n_obj"] = int(rng.integers(1, 6))
        ign.append("n_obj")
    if d.name in FIXED_BOTH:
        if rng.random() < 0.2:
            kw["n_var"] = int(rng.integers(1, 6))
            ign.append("n_var")
        return kw, n, M, ign
    if rng.random() < 0.85:
        n = kw["n_var"] = int(rng.integers(1, 13))
        if rng.random() < 0.3:
            kw["n_var"] = np.int64(n)
    if bad:
        kw["n_var"] = BAD[rng.integers(len(BAD))]
    return kw, n, None if bad or n < LEAST[d.name] else M, ign


def snapshot(k):
    return {f"{b.__name__}.{a}": repr(v) for b in k.__mro__[:-1] for a, v in vars(b).items() if not callable(v) and not a.startswith("__") and not isinstance(v, (staticmethod, classmethod, property))}


def values(p, X):
    out = [np.array([p.objective(x) for x in X])]
    if getattr(p, "n_ieq_constr", 0):
        out.append(np.array([p.ieq_constraint(x) for x in X]))
    if getattr(p, "n_eq_constr", 0):
        out.append(np.array([p.eq_constraint(x) for x in X]))
    return out


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(s, t, equal_nan=True) for s, t in zip(a, b))


NAMES = ["n_var", "n_obj", "xl", "xu", "boundary_constraints"]


@monitor("P26", quick=700, thorough=8000)
def configured(c):
    """every problem class built with random valid and invalid sizes, bounds in every form, positional or keyword arguments;
    the instance, or the refusal, against an independent table of what each class admits; values, boundary constraints
    and constraint counts for the asked configuration, before and after the caller changes its bounds and builds others"""
    rng = c.rng
    R = table()
    names = sorted(R)
    d = R[names[c.i % len(names)]]
    k = cls(d)
    before = snapshot(k)
    kw, n, M, ign = sizes(rng, d)
    if d.family == "wfg":
        lo, up, how, xl, xu = np.zeros(n), 2.0 * np.arange(1, n + 1), "default", None, None
    else:
        dl, du = d.bounds(n)
        xl, xu, lo, up, how = bounds(rng, n, dl, du)
        if xl is not None:
            kw["xl"] = xl
        if xu is not None:
            kw["xu"] = xu
    bnd = d.box_arg and rng.random() < 0.4
    if bnd:
        kw["boundary_constraints"] = True
    F = d.F
    scale = alpha = 1
    if d.name.lstrip("Eq1").lstrip("I") in ("DTLZ2", "DTLZ3", "DTLZ5", "DTLZ6") and rng.random() < 0.4:
        scale = kw["scale"] = float(rng.choice([0.5, 2, 3.5, 10]))
        if d.name[-1] in "23":
            alpha = kw["alpha"] = float(rng.choice([1, 2, 3]))
        plain = R[d.name.lstrip("Eq1").lstrip("I")].F

        def F(x, M, **q):
            x = np.array(x, float)
            x[: M - 1] **= alpha
            return scale * plain(x, M) if "I" not in d.name else d.F(x, M) + (1 - scale) * plain(x, M)

    admit = M is not None and lo is not None
    if d.fixed and M is not None:
        admit = lo is not None
    c.describe(problem=d.name, kwargs=kw, bounds=how)
    args = []
    if rng.random() < 0.3:  # the leading arguments by position
        for a in NAMES:
            if a not in kw:
                break
            args.append(kw.pop(a))
    keep = [np.array(v, copy=True) for v in (xl, xu) if isinstance(v, np.ndarray)]
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        try:
            p = k(*args, **kw)
            err = None
        except (ValueError, TypeError) as e:
            p, err = None, e
    c.saw(d.name, how, repr(kw), args and repr(args), n=1)
    c.count("refused" if p is None else "built")
    c.count(how)
    c.require(snapshot(k) == before, "class-changed", f"{d.name}: building an instance changed the class attributes")
    if not admit:
        if p is not None:
            c.fail("not-refused", f"{d.name}: a configuration the problem is not defined for was accepted ({how}): n_var={p.n_var}, n_obj={p.n_obj}, xl={p.xl}, xu={p.xu}")
        elif lo is None and M is not None:
            c.require(isinstance(err, ValueError), "refusal", f"{d.name}: bounds refused with {err!r} instead of ValueError")
        return
    if p is None:
        return c.fail("refused", f"{d.name}: an admissible configuration was refused: {err!r}")
    if d.name in ("CF4", "CF5") and n < 3:
        return
    text = [str(w.message) for w in W if issubclass(w.category, UserWarning) and "fixed" in str(w.message)]
    for a in ("n_var", "n_obj"):
        said = any(a in t for t in text)
        c.require(said == (a in ign), "warning", f"{d.name}: a supplied {a} is {'silently ignored' if a in ign else 'reported as ignored though it was not supplied or is used'}", said=text)
    # --- what the instance says about itself
    c.require(type(p.n_var) is int and type(p.n_obj) is int and (p.n_var, p.n_obj) == (n, M), "sizes", f"{d.name}: n_var={p.n_var!r}, n_obj={p.n_obj!r} instead of {n}, {M}")
    for nm, got, want in (("xl", p.xl, lo), ("xu", p.xu, up)):
        c.require(isinstance(got, np.ndarray) and got.dtype == float and np.array_equal(got, want), "bounds", f"{d.name}: {nm}={got!r} instead of {want}")
    for v in (xl, xu):
        if isinstance(v, np.ndarray):
            c.require(not np.shares_memory(v, p.xl) and not np.shares_memory(v, p.xu), "bounds-shared", f"{d.name}: the problem holds the caller's bound array")
    c.require(not np.shares_memory(p.xl, p.xu), "bounds-shared", f"{d.name}: lower and upper bounds share memory")
    n_g = d.n_g + 2 * n * bnd
    if d.box_arg:
        c.require((p.n_eq_constr, p.n_ieq_constr) == (d.n_h, n_g), "counts", f"{d.name}: constraint counts {p.n_eq_constr}, {p.n_ieq_constr} instead of {d.n_h}, {n_g}")
    # --- what it computes
    X = points(rng, lo, up, 3) if np.all(up > lo) else rng.uniform(lo, up, size=(3, n))
    w = np.where(up > lo, up - lo, 1)
    if d.name in ("ZDT1", "ZDT3", "ZDT4", "ZDT6", "DTLZ6"):
        X = np.clip(X, lo + 1e-6 * w * (up > lo), up)
        dl = d.bounds(n)[0]
        X = X[[not np.any(x - dl < 1e-9) for x in X]]
        if not len(X):
            return
    ok = dict(kk=p.k) if d.family == "wfg" else {}
    late = rng.random() < 0.5  # the caller reuses its arrays before the first evaluation
    first = None if late else values(p, X)
    for v in (xl, xu):
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = rng.normal(size=v.shape) * 50
    kw2, n2, M2, _ = sizes(rng, d)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            q = k(**kw2)
            q.objective(np.asarray(q.xl + 0.3 * (q.xu - q.xl)))
    except (ValueError, TypeError):
        pass
    again = values(p, X)
    c.require(first is None or same(first, again), "not-independent", f"{d.name}: the values changed after the caller reused its bound arrays or built another instance")
    for i, x in enumerate(X):
        f = lambda z: F(z, M, **ok)
        agree(c, again[0][i], f, x, lo, up, "objective", f"{d.name} objectives")
        j = 1
        if n_g:
            g = lambda z: np.r_[d.g(z, M) if d.g else [], np.r_[lo - z, z - up] if bnd else []]
            agree(c, again[j][i], g, x, lo, up, "inequality", f"{d.name} inequalities")
            j += 1
        if d.n_h:
            agree(c, again[j][i], lambda z: d.h(z, M), x, lo, up, "equality", f"{d.name} equalities")
        c.saw(d.name, x)
    if scale != 1 and d.name in ("DTLZ2", "DTLZ3") and M in (2, 3):
        P = np.asarray(p.get_pareto_front())
        c.require(P.shape[1] == M and np.allclose(np.linalg.norm(P, axis=1), scale), "front", f"{d.name}: the Pareto front does not lie on the sphere of radius {scale}")
        c.count("scaled fronts")
    c.sample(problem=d.name, kwargs=kw, n_var=n, n_obj=M)


@monitor("P26", quick=150, thorough=2000)
def subclasses(c):
    """user-defined MOP/CMOP subclasses with random sizes and constraint counts, valid and invalid, several instances of one
    class at a time; adapted to pymoo and passed through ModifiedObjective"""
    from hvd.problems import CMOP, MOP
    from hvd.problems.misc import ModifiedObjective

    import jax.numpy as jnp  # after hvd, which switches jax to double precision

    rng = c.rng
    plain = rng.random() < 0.25
    W = rng.normal(size=(6, 8))

    class Mine(MOP if plain else CMOP):
        def _objective(self, x):
            return jnp.asarray(W[: self.n_obj, : self.n_var]) @ x**2

        def _eq_constraint(self, x):
            return jnp.asarray(W[: self.n_eq_constr, : self.n_var]) @ x - 1

        def _ieq_constraint(self, x):
            # `n_ieq_constr` grows when boundary constraints are added: the class's own constraints come first
            return jnp.asarray(W[: self.own, : self.n_var]) @ x + 1

    probs = []
    for _ in range(int(rng.integers(1, 4))):
        n, M = int(rng.integers(1, 9)), int(rng.integers(1, 6))
        dl, du = np.full(n, -2.0), np.full(n, 3.0)
        xl, xu, lo, up, how = bounds(rng, n, dl, du)
        xl, xu = (-2.0 if xl is None else xl), (3.0 if xu is None else xu)
        kw = dict(n_var=n, n_obj=M, xl=xl, xu=xu)
        good = lo is not None
        e = g = 0
        bnd = False
        if not plain:
            if rng.random() < 0.6:
                e = kw["n_eq_constr"] = int(rng.integers(0, 4))
            if rng.random() < 0.6:
                g = kw["n_ieq_constr"] = int(rng.integers(0, 4))
            if rng.random() < 0.4:
                bnd = kw["boundary_constraints"] = bool(rng.random() < 0.7)
        if rng.random() < 0.2:
            a = ["n_var", "n_obj", "n_eq_constr", "n_ieq_constr"][rng.integers(2 if plain else 4)]
            kw[a] = -int(rng.integers(1, 4)) if "constr" in a else BAD[rng.integers(len(BAD))]
            good = False
        c.describe(kwargs=kw, bounds=how)
        Mine.own = g
        try:
            p = Mine(**kw)
        except (ValueError, TypeError) as err:
            if good:
                return c.fail("refused", f"an admissible configuration was refused: {err!r}")
            c.require(isinstance(err, ValueError), "refusal", f"an inadmissible configuration was refused with {err!r} instead of ValueError")
            c.saw(repr(kw))
            c.count("refused")
            continue
        if not good:
            return c.fail("not-refused", f"an inadmissible configuration was accepted: {kw} ({how})")
        p.own = g
        probs.append((p, n, M, lo, up, e, g, bnd))
        for v in (xl, xu):
            if isinstance(v, np.ndarray) and v.ndim:
                v[...] = rng.normal(size=v.shape) * 50
    for j in rng.permutation(len(probs)):
        p, n, M, lo, up, e, g, bnd = probs[j]
        X = rng.uniform(lo, up, size=(3, n))
        c.require((p.n_var, p.n_obj) == (n, M) and np.array_equal(p.xl, lo) and np.array_equal(p.xu, up), "sizes", f"n_var={p.n_var}, n_obj={p.n_obj}, xl={p.xl}, xu={p.xu} instead of {n}, {M}, {lo}, {up}")
        want = dict(F=X**2 @ W[:M, :n].T)
        if not plain:
            c.require((p.n_eq_constr, p.n_ieq_constr) == (e, g + 2 * n * bnd), "counts", f"constraint counts {p.n_eq_constr}, {p.n_ieq_constr} instead of {e}, {g + 2 * n * bnd}")
            if e:
                want["H"] = X @ W[:e, :n].T - 1
            if g or bnd:
                want["G"] = np.hstack(([X @ W[:g, :n].T + 1] if g else []) + ([lo - X, X - up] if bnd else []))
        for nm, one, many in (("F", "objective", "objective_batch"), ("H", "eq_constraint", "eq_constraint_batch"), ("G", "ieq_constraint", "ieq_constraint_batch")):
            if nm not in want:
                continue
            a, b = np.array([getattr(p, one)(x) for x in X]), np.asarray(getattr(p, many)(X))
            for got in (a, b):
                c.require(got.shape == want[nm].shape and np.allclose(got, want[nm], rtol=1e-10, atol=1e-10), "values", f"{nm} of a user-defined problem differs from its definition", got=got, want=want[nm], n_var=n, n_obj=M, counts=(e, g, bnd))
            c.saw(nm, X)
        # --- the same problem seen through pymoo, with modified objectives
        m = ModifiedObjective(p.as_pymoo_problem())
        out = {}
        m._evaluate(X, out)
        F = want["F"]
        c.require((m.n_var, m.n_obj, m.n_eq_constr, m.n_ieq_constr) == (n, M, e, g + 2 * n * bnd) and np.array_equal(m.xl, lo) and np.array_equal(m.xu, up), "modified-config", "ModifiedObjective changes the sizes, counts or bounds of the problem")
        c.require(np.shape(out["F"]) == F.shape and np.allclose(out["F"], 0.98 * F + 0.02 * F.mean(axis=1, keepdims=True), atol=1e-10), "modified", "ModifiedObjective is not (1-a) f_i + a/M sum f_j with a = 0.02", got=out["F"], F=F)
        for nm in ("G", "H"):
            c.require((nm in out and np.size(out[nm]) > 0) == (nm in want) and (nm not in want or np.allclose(out[nm], want[nm], atol=1e-10)), "modified-constraints", f"ModifiedObjective changes the constraints {nm}")
        c.saw("modified", X)
        c.count("instances")
        c.sample(n_var=n, n_obj=M, counts=(e, g, bnd))
