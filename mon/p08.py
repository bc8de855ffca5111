"""P08: the optimisation state is always coherent with its points."""
import os
import tempfile

import numpy as np

from .core import monitor


class Fns:
    """random smooth callbacks with exact derivatives; counts point evaluations; optional batch variants"""

    def __init__(self, rng, d, m, n_eq, n_ieq, scalar=False):
        self.d = d
        self.A = rng.normal(size=(m + n_eq + n_ieq, d, d))
        self.A = self.A + self.A.transpose(0, 2, 1)
        self.b = rng.normal(size=(m + n_eq + n_ieq, d))
        self.c = rng.normal(size=m + n_eq + n_ieq)
        self.T = rng.normal(size=(m + n_eq + n_ieq, d))  # cubic: second derivatives differ from point to point
        self.sl = dict(f=slice(0, m), h=slice(m, m + n_eq), g=slice(m + n_eq, m + n_eq + n_ieq))
        self.scalar = scalar
        self.calls = {}

    def val(self, w, x):
        s = self.sl[w]
        return 0.5 * np.einsum("kij,i,j->k", self.A[s], x, x) + self.b[s] @ x + self.c[s] + self.T[s] @ (x**3) / 3

    def jac_(self, w, x):
        s = self.sl[w]
        return self.A[s] @ x + self.b[s] + self.T[s] * x**2

    def hess_(self, w, x):
        return self.A[self.sl[w]] + 2 * np.einsum('ki,i,ij->kij', self.T[self.sl[w]], x, np.eye(self.d))

    def _n(self, what, x):
        self.calls[what] = self.calls.get(what, 0) + (len(x) if np.ndim(x) == 2 else 1)

    def _s(self, v):
        return v[0] if self.scalar and len(v) == 1 else v

    def func(self, x):
        self._n("f", x)
        return self.val("f", x)

    def jac(self, x):
        self._n("J", x)
        return self.jac_("f", x)

    def h(self, x):
        self._n("h", x)
        return self._s(self.val("h", x))

    def h_jac(self, x):
        self._n("hJ", x)
        return self._s(self.jac_("h", x))

    def h_hess(self, x):
        self._n("hH", x)
        return self._s(self.hess_("h", x))

    def g(self, x):
        self._n("g", x)
        return self._s(self.val("g", x))

    def g_jac(self, x):
        self._n("gJ", x)
        return self._s(self.jac_("g", x))

    def g_hess(self, x):
        self._n("gH", x)
        return self._s(self.hess_("g", x))


class BatchFns(Fns):
    pass


def _mk(name):
    def f(self, x):
        point = getattr(Fns, name)
        return np.array([point(self, row) for row in x]).reshape((len(x),) + np.shape(point(self, np.zeros(self.d))))

    return f


for _n in ("func", "jac", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess"):
    setattr(BatchFns, _n + "_batch", _mk(_n))


class World:
    def __init__(self, rng):
        from hvd.base import State

        self.d, self.m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        self.n_eq, self.n_ieq = int(rng.integers(0, 3)), int(rng.integers(0, 3))
        self.kind = str(rng.choice(["method", "batch", "function"]))
        cls = BatchFns if self.kind == "batch" else Fns
        self.F = F = cls(rng, self.d, self.m, self.n_eq, self.n_ieq, scalar=bool(rng.integers(2)))
        w = (lambda f: (lambda x: f(x))) if self.kind == "function" else (lambda f: f)
        hess = bool(rng.integers(4))
        self.hess = hess
        kw = {}
        if self.n_eq:
            kw.update(h=w(F.h), h_jac=w(F.h_jac), h_hess=w(F.h_hess) if hess else None)
        if self.n_ieq:
            kw.update(g=w(F.g), g_jac=w(F.g_jac), g_hess=w(F.g_hess) if hess else None)
        self.st = State(self.d, self.n_eq, self.n_ieq, w(F.func), w(F.jac), **kw)
        self.dual = self.n_eq + self.n_ieq

        # a point at which the first inequality sits right at the activity threshold
        self.edge = rng.normal(size=self.d)
        if self.n_ieq:
            k = F.sl["g"].start
            F.c[k] += -1e-4 + float(rng.choice([-1e-7, 1e-7, -1e-3, 1e-3])) - F.val("g", self.edge)[0]

    def points(self, rng, n):
        X = rng.normal(size=(n, self.d + self.dual))
        if rng.random() < 0.4:
            X[rng.integers(n), : self.d] = self.edge
        return X

    def check(self, c, st, X, tag, hess=True, grad=True):
        """everything in the state corresponds to X"""
        F, d, n = self.F, self.d, len(X)
        P = X[:, :d]
        want = dict(
            f=np.array([F.val("f", x) for x in P]).reshape(n, self.m),
            J=np.array([F.jac_("f", x) for x in P]).reshape(n, self.m, d),
            H=np.array([F.val("h", x) for x in P]).reshape(n, self.n_eq),
            G=np.array([F.val("g", x) for x in P]).reshape(n, self.n_ieq),
        )
        c.saw(X, tag, n=6)
        c.require(st.N == n, f"{tag}-N", f"N={st.N}, {n} points")
        c.close(st.X, X, f"{tag}-X", "X", atol=0, rtol=0)
        c.close(st.primal, P, f"{tag}-primal", "primal variables", atol=0, rtol=0)
        c.close(st.dual, X[:, d:], f"{tag}-dual", "dual variables", atol=0, rtol=0)
        c.close(st.Y, want["f"], f"{tag}-Y", "objective values", rtol=1e-12)
        if grad:
            c.close(st.J, want["J"], f"{tag}-J", "objective Jacobians", rtol=1e-12)
        else:
            c.require(st.J is None, f"{tag}-J-none", "a Jacobian is stored although none was requested")
        c.close(st.H, want["H"], f"{tag}-H", "equality values", rtol=1e-12)
        c.close(st.G, want["G"], f"{tag}-G", "inequality values", rtol=1e-12)
        c.close(st.cstr_value, np.c_[want["H"], want["G"]], f"{tag}-cstr", "constraint values", rtol=1e-12)
        act = np.c_[np.ones((n, self.n_eq), bool), want["G"] >= -1e-4]
        near = np.abs(np.c_[np.full((n, self.n_eq), 9.0), want["G"]] + 1e-4) < 1e-12
        if c.require(np.shape(st.active_indices) == act.shape, f"{tag}-active-shape", "shape of the active set"):
            c.require(np.all((st.active_indices == act) | near), f"{tag}-active", "active set: all equalities, and inequalities with g >= -1e-4", got=st.active_indices, want=act)
        if self.dual:
            cg = np.array([np.concatenate([F.jac_("h", x), F.jac_("g", x)]) for x in P]).reshape(n, self.dual, d)
            c.close(st.cstr_grad, cg, f"{tag}-cstr_grad", "constraint Jacobians", rtol=1e-12)
            ch = np.array([np.concatenate([F.hess_("h", x), F.hess_("g", x)]) for x in P]).reshape(n, self.dual, d, d)
            if hess:
                c.close(st.cstr_hess, ch if self.hess else 0 * ch, f"{tag}-cstr_hess", "constraint Hessians", rtol=1e-12)
            else:
                c.require(getattr(st, "cstr_hess", None) is None, f"{tag}-cstr_hess-none", "constraint Hessians are stored although none were requested")


@monitor("P08", quick=2000, thorough=20000)
def histories(c):
    """random histories of update / update_one / slicing / copying: every field of the state is the evaluation of its points,
    slices are independent copies, the caller's arrays are untouched, counters count point evaluations"""
    rng = c.rng
    w = World(rng)
    st = w.st
    n = int(rng.integers(1, 6))
    X = w.points(rng, n)
    X0 = X.copy()
    st.update(X)
    c.describe(kind=w.kind, d=w.d, m=w.m, n_eq=w.n_eq, n_ieq=w.n_ieq, X=X0)
    w.check(c, st, X0, "update")
    X[:] = 77.0  # the caller may reuse its array
    buf, one = X, np.empty(X.shape[1])  # ... and does: arrays rewritten in place between calls
    hair = lambda P: P + 10.0 ** rng.uniform(-8, -3) * rng.normal(size=P.shape) * (rng.random(P.shape) < 0.7)
    c.close(st.X, X0, "alias-X", "X after the caller overwrote its own array", atol=0, rtol=0)
    X = X0.copy()
    flags = (True, True)
    for step in range(int(rng.integers(1, 7))):
        op = int(rng.integers(5))
        if op == 0:
            kind = int(rng.integers(4))
            if kind == 0:
                X = w.points(rng, int(rng.integers(1, 6)))
            else:
                X = X.copy() if kind == 1 else hair(X) if kind == 2 else w.points(rng, len(X))
                if len(X) == len(buf):
                    buf[...] = X
                    X = buf
                c.count(("again", "moved slightly", "rewritten")[kind - 1])
            flags = (bool(rng.integers(3)), bool(rng.integers(3)))
            st.update(X, compute_gradient=flags[0], compute_hessian=flags[1])
            X = X.copy()
        elif op == 1 and flags == (True, True):
            k = int(rng.integers(len(X)))
            one[...] = w.points(rng, 1)[0] if rng.integers(2) else hair(X[k])
            x = one
            x0 = x.copy()
            st.update_one(x, k)
            X[k] = x0
            c.require(np.array_equal(x, x0), "alias-x", "update_one changed the caller's vector")
            x[:] = 55.0
        elif op in (2, 3):
            N = len(X)
            sel = rng.integers(4)
            if sel == 0:
                idx = rng.random(N) < 0.6
                idx[rng.integers(N)] = True
            elif sel == 1:
                idx = rng.permutation(N)[: int(rng.integers(1, N + 1))]
            elif sel == 2:
                idx = list(map(int, rng.permutation(N)[: int(rng.integers(1, N + 1))]))
            else:
                a = int(rng.integers(N))
                idx = slice(a, int(rng.integers(a + 1, N + 1)))
            sub = st[idx]
            w.check(c, sub, X[idx], "slice", grad=flags[0], hess=flags[1])
            if flags == (True, True):
                # working on the slice must not touch the original, and vice versa
                x = w.points(rng, 1)[0]
                sub.update_one(x, 0)
                want = X[idx].copy()
                want[0] = x
                w.check(c, sub, want, "slice-updated")
                if op == 3:
                    before = sub.X.copy(), sub.Y.copy(), sub.cstr_value.copy()
                    st.update_one(X[0] + 1.0, 0)
                    X[0] = X[0] + 1.0
                    c.require(
                        np.array_equal(before[0], sub.X) and np.array_equal(before[1], sub.Y) and np.array_equal(before[2], sub.cstr_value),
                        "slice-alias", "updating the original changed the slice",
                    )
        else:
            sub = st[np.arange(len(X))]
            sub.update(w.points(rng, int(rng.integers(1, 4))))
        w.check(c, st, X, f"history{op}", grad=flags[0], hess=flags[1])
    c.sample(kind=w.kind, d=w.d, n_eq=w.n_eq, n_ieq=w.n_ieq, X=X)


@monitor("P08", quick=1200, thorough=12000)
def evaluation(c):
    """evaluating a population equals evaluating its members one by one (values, active sets, derivatives), and the
    evaluation counters equal the number of point evaluations of the callbacks"""
    rng = c.rng
    w = World(rng)
    st, F = w.st, w.F
    n = int(rng.integers(1, 6))
    X = rng.normal(size=(n, w.d))
    c.describe(kind=w.kind, d=w.d, n_eq=w.n_eq, n_ieq=w.n_ieq, X=X)
    c.saw(X, w.kind, n=4)
    v, a = st.eval_cstr(X)
    dv, hv, J = st.eval_cstr_jac(X), st.eval_cstr_hess(X), st.eval_jac(X)
    for i, x in enumerate(X):
        v1, a1 = st.eval_cstr(x)
        c.close(v[i], v1, "batch-cstr", "constraint values, batch vs. point", rtol=1e-12)
        c.require(np.array_equal(a[i], a1), "batch-active", "active set, batch vs. point")
        c.close(dv[i], st.eval_cstr_jac(x), "batch-cstr_jac", "constraint Jacobians, batch vs. point", rtol=1e-12)
        c.close(hv[i], st.eval_cstr_hess(x), "batch-cstr_hess", "constraint Hessians, batch vs. point", rtol=1e-12)
        c.close(J[i], st.eval_jac(x), "batch-jac", "objective Jacobians, batch vs. point", rtol=1e-12)
    if w.kind != "batch":
        c.require(st.n_jac_evals == F.calls.get("J", 0) == 2 * n, "count-jac", f"n_jac_evals={st.n_jac_evals}, callbacks made {F.calls.get('J', 0)} evaluations")
        for attr, key in (("n_cstr_jac_evals", ("hJ", "gJ")), ("n_cstr_hess_evals", ("hH", "gH"))):
            made = max(F.calls.get(k, 0) for k in key)
            c.require(getattr(st, attr) == made, f"count-{attr}", f"{attr}={getattr(st, attr)}, callbacks made {made} evaluations")


@monitor("P08", quick=480, thorough=4800)
def persistence(c):
    """saving and loading preserves points, values, derivatives, active sets, feasibility and counters; saving leaves the
    state usable and unchanged"""
    from hvd.base import State

    rng = c.rng
    w = World(rng)
    st = w.st
    X = w.points(rng, int(rng.integers(1, 6)))
    st.update(X)
    with tempfile.TemporaryDirectory() as tmp:
        base = os.path.join(tmp, "state" + str(rng.integers(10)))
        st.save(base)
        files = [f for f in os.listdir(tmp)]
        c.saw(X, n=8)
        if not c.require(len(files) == 1, "save-file", f"files written: {files}"):
            return
        back = State.load(os.path.join(tmp, files[0]))
    w.check(c, back, X, "loaded")
    w.check(c, st, X, "after-save")
    c.require(np.array_equal(back.is_feasible(), st.is_feasible()), "loaded-feasible", "feasibility after loading")
    c.require(np.array_equal(back.check_KKT(), st.check_KKT()), "loaded-KKT", "KKT flags after loading")
    for a in ("n_jac_evals", "n_cstr_jac_evals", "n_cstr_hess_evals"):
        c.require(getattr(back, a) == getattr(st, a), f"loaded-{a}", f"{a} after loading")
    X2 = w.points(rng, 3)
    st.update(X2)
    w.check(c, st, X2, "update-after-save")
    w.check(c, back, X, "loaded-later")


@monitor("P08", quick=200, thorough=2000)
def large_populations(c):
    """populations of up to 150 members, updated as a whole, one by one, and sliced"""
    rng = c.rng
    w = World(rng)
    st = w.st
    n = int(rng.integers(7, 151))
    X = w.points(rng, n)
    c.describe(kind=w.kind, d=w.d, n=n)
    st.update(X.copy())
    w.check(c, st, X, "large-update")
    for k in rng.integers(n, size=5):
        X[k] = w.points(rng, 1)[0]
        st.update_one(X[k].copy(), int(k))
    w.check(c, st, X, "large-update_one")
    idx = rng.random(n) < 0.5
    idx[0] = True
    w.check(c, st[idx], X[idx], "large-slice")
    ok = st.is_feasible()
    c.require(np.shape(ok) == (n,), "large-feasible-shape", f"is_feasible of {n} members has shape {np.shape(ok)}")
    X = w.points(rng, int(rng.integers(7, 151)))
    st.update(X.copy())
    w.check(c, st, X, "large-resized")
