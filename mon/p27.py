"""P27: double precision, whatever is imported first."""
import json
import os
import subprocess
import sys

import numpy as np

from .core import REPO, monitor

ENTRIES = ["hvd", "hvd.problems", "hvd.mmd", "hvd.mmd_newton", "hvd.newton", "hvd.delta_p", "hvd.hypervolume_derivatives", "hvd.reference_set", "hvd.gradient_based", "hvd.problems.wfg", "hvd.utils", "hvd.moea"]
OTHERS = {
    "jax": "import jax",
    "jax.numpy": "import jax.numpy as jnp",
    "arrays": "import jax.numpy as jnp; a = jnp.arange(3.0) * 2",
    "jitted": "import jax; jax.jit(lambda x: x * 2)(1.5)",
    "gradient": "import jax; jax.grad(lambda x: x ** 2)(1.5)",
    "pymoo": "import pymoo.core.problem",
    "pymoo.gradient": "import pymoo.gradient.toolbox",
    "numpy": "import numpy",
}

# what is computed: kept as text, executed both here (hvd imported first) and in a fresh interpreter
PROGRAM = '''
def compute(seed):
    import numpy as np
    import hvd.problems as P
    from hvd.mmd import MMD
    from hvd.delta_p import InvertedGenerationalDistance, GenerationalDistance
    from hvd.hypervolume_derivatives import HypervolumeDerivatives
    from hvd.problems import CMOP
    import jax.numpy as jnp

    class Mine(CMOP):
        def _objective(self, x):
            return jnp.array([jnp.sum((x - 1.1) ** 2), jnp.sum((x + 0.7) ** 2)])
        def _eq_constraint(self, x):
            return jnp.array([jnp.sum(x ** 2) - 1 / 3])
        def _ieq_constraint(self, x):
            return jnp.array([x[0] - x[1] / 3])

    rng = np.random.default_rng(seed)
    out = {}
    names = ["ZDT1", "ZDT3", "DTLZ1", "DTLZ2", "Eq1DTLZ1", "UF1", "UF8", "CF1", "CF8", "WFG4", "CONV3"]
    for name in [names[i] for i in rng.permutation(len(names))[:2]]:
        p = getattr(P, name)()
        x = p.xl + (p.xu - p.xl) * rng.uniform(0.2, 0.8, p.n_var)
        out[name + ".objective"] = p.objective(x)
        out[name + ".jacobian"] = p.objective_jacobian(x)
        out[name + ".batch"] = p.objective_batch(np.array([x, x / 2 + p.xl / 2]))
        if name[:2] != "WF":
            out[name + ".hessian"] = p.objective_hessian(x)
    p = Mine(n_var=3, n_obj=2, xl=-2, xu=2, n_eq_constr=1, n_ieq_constr=1)
    X = rng.uniform(-1, 1, (4, 3))
    for f in ("objective", "eq_constraint", "ieq_constraint", "eq_jacobian", "ieq_jacobian", "objective_hessian"):
        out["mine." + f] = getattr(p, f)(X[0])
    ref = rng.uniform(0, 3, (6, 2))
    Y = p.objective_batch(X)
    m = MMD(n_var=3, n_obj=2, ref=ref, func=p.objective, jac=p.objective_jacobian, hessian=p.objective_hessian, theta=0.3)
    out["mmd"] = m.compute(Y=Y)
    out["mmd.gradient"] = m.compute_gradient(X)["MMDdX"]
    out["mmd.hessian"] = m.compute_hessian(X)["MMDdX2"]
    for k, c in (("gd", GenerationalDistance), ("igd", InvertedGenerationalDistance)):
        d = c(ref=ref, func=p.objective, jac=p.objective_jacobian, hess=p.objective_hessian)
        out[k] = d.compute(Y=Y)
    h = HypervolumeDerivatives(n_var=3, n_obj=2, ref=np.array([20.0, 20.0]), func=p.objective, jac=p.objective_jacobian, hessian=p.objective_hessian)
    out["hv.hessian"] = h.compute_derivatives(X)[1]
    return {k: (str(np.asarray(v).dtype), np.asarray(v, dtype=float).ravel().tolist()) for k, v in out.items()}
'''


@monitor("P27", quick=24, thorough=200, min_obs=8, timeout=200)
def import_order(c):
    """a fresh interpreter imports some of jax, pymoo and the package's modules in a random order, with or without JAX_ENABLE_X64
    in the environment, uses jax before the package or not, and computes objectives, constraints, Jacobians, Hessians and
    indicator derivatives; each against the same computation in a process that imported the package first"""
    rng = c.rng
    seq = [f"import {e}" for e in rng.choice(ENTRIES, size=int(rng.integers(1, 4)), replace=False)]
    seq += [OTHERS[o] for o in rng.choice(sorted(OTHERS), size=int(rng.integers(0, 4)), replace=False)]
    seq = [seq[i] for i in rng.permutation(len(seq))]
    if rng.random() < 0.4:
        seq = [OTHERS[["jax", "jax.numpy", "arrays", "jitted", "gradient"][rng.integers(5)]]] + seq
    env = {k: v for k, v in os.environ.items() if k != "JAX_ENABLE_X64"}
    flag = [None, None, "0", "False", "1", "true"][rng.integers(6)]
    if flag is not None:
        env["JAX_ENABLE_X64"] = flag
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu")
    seed = int(rng.integers(2**31))
    c.describe(imports=seq, JAX_ENABLE_X64=flag)
    src = "\n".join(seq) + PROGRAM + f"\nimport json\nprint('RESULT' + json.dumps(compute({seed})))\n"
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", src], capture_output=True, text=True, env=env, cwd="/", timeout=180)
    line = [t for t in r.stdout.splitlines() if t.startswith("RESULT")]
    if r.returncode != 0 or not line:
        return c.fail("crash", f"the package does not work when imported in this order: {r.stderr.strip()[-400:]}")
    got = json.loads(line[0][6:])
    import hvd  # noqa: F401  (first: jax is then in double precision)

    ns = {}
    exec(PROGRAM, ns)
    want = ns["compute"](seed)
    c.require(sorted(got) == sorted(want), "missing", f"computed {sorted(got)} instead of {sorted(want)}")
    for k, (dt, v) in want.items():
        a, b = np.array(got[k][1]), np.array(v)
        c.require(got[k][0] == "float64", "precision", f"{k} comes in {got[k][0]}")
        s = max(1e-300, np.abs(b).max()) if b.size else 1
        c.require(a.shape == b.shape and np.allclose(a, b, rtol=1e-11, atol=1e-11 * s, equal_nan=True), "precision", f"{k} differs from the value computed when the package is imported first: {a.tolist()[:4]} instead of {b.tolist()[:4]}")
        c.saw(k, a)
    c.count("jax first" if any("jax" in t for t in seq[: [t.startswith("import hvd") for t in seq].index(True)]) else "package first")
    c.sample(imports=seq, JAX_ENABLE_X64=flag, n=len(want))
