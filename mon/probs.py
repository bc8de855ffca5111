"""Benchmark problems written down a second time, from the papers, in plain numpy with 1-based loops (nothing is shared with
the code under test).  ZDT: Zitzler et al. 2000; DTLZ: Deb et al. 2005; UF/CF: CEC 2009 report; WFG: pymoo's numpy code;
IDTLZ / Eq1: Cuate et al. 2020 (with the factor 1/2 the repository documents)."""
import numpy as np
from numpy import abs, cos, exp, pi, sin, sqrt


class Def:
    def __init__(self, family, name, F, nvar, nobj=None, g=None, h=None, n_g=0, n_h=0, bounds=None, fixed=False, box_arg=True):
        self.family, self.name, self.F, self.nvar, self.nobj = family, name, F, nvar, nobj
        self.g, self.h, self.n_g, self.n_h, self.bounds, self.fixed, self.box_arg = g, h, n_g, n_h, bounds, fixed, box_arg


# ---------------------------------------------------------------- ZDT
def zdt(num):
    def F(x, M=2, **k):
        n = len(x)
        if num == 4:
            g = 1 + 10 * (n - 1) + sum(x[i] ** 2 - 10 * cos(4 * pi * x[i]) for i in range(1, n))
        elif num == 6:
            g = 1 + 9 * (sum(x[1:]) / (n - 1)) ** 0.25
        else:
            g = 1 + 9 / (n - 1) * sum(x[1:])
        f1 = x[0] if num != 6 else 1 - exp(-4 * x[0]) * sin(6 * pi * x[0]) ** 6
        r = f1 / g
        if num in (1, 4):
            h = 1 - sqrt(r)
        elif num in (2, 6):
            h = 1 - r**2
        else:
            h = 1 - sqrt(r) - r * sin(10 * pi * f1)
        return np.array([f1, g * h])

    return F


# ---------------------------------------------------------------- DTLZ
def dtlz_g(num, z):
    if num in (1, 3):
        return 100 * (len(z) + sum((t - 0.5) ** 2 - cos(20 * pi * (t - 0.5)) for t in z))
    if num in (2, 4, 5):
        return sum((t - 0.5) ** 2 for t in z)
    if num == 6:
        return sum(abs(t) ** 0.1 for t in z)
    return 1 + 9 * sum(z) / len(z)


def dtlz(num, inverted=False):
    def F(x, M, **k):
        p, z = x[: M - 1], x[M - 1 :]
        g = dtlz_g(num, z)
        f = np.zeros(M)
        if num == 7:
            f[: M - 1] = p
            f[M - 1] = (1 + g) * (M - sum(t / (1 + g) * (1 + sin(3 * pi * t)) for t in p))
            return f
        if num == 4:
            p = p**100
        if num in (5, 6):
            p = np.array(list(p[:1]) + [(1 + 2 * g * t) / (2 * (1 + g)) for t in p[1:]])
        for m in range(1, M + 1):  # f_m: product over the first M-m positions, last factor switched
            v = (1 + g) * (0.5 if num == 1 else 1.0)
            for j in range(1, M - m + 1):
                v *= p[j - 1] if num == 1 else cos(p[j - 1] * pi / 2)
            if m > 1:
                t = p[M - m]
                v *= (1 - t) if num == 1 else sin(t * pi / 2)
            f[m - 1] = v
        return (1 + g) / 2 - f if inverted else f

    return F


def eq1(x, M, **k):
    return np.array([abs(sum((t - 0.5) ** 2 for t in x[: M - 1]) - 0.16) - 1e-4])


# ---------------------------------------------------------------- UF
def groups2(n):
    return [j for j in range(3, n + 1, 2)], [j for j in range(2, n + 1, 2)]


def groups3(n):
    J = range(3, n + 1)
    return [j for j in J if (j - 1) % 3 == 0], [j for j in J if (j - 2) % 3 == 0], [j for j in J if j % 3 == 0]


def uf(num):
    def F(x, M=2, **k):
        n, x1 = len(x), x[0]
        X = lambda j: x[j - 1]
        if num <= 7:
            J1, J2 = groups2(n)
            s = lambda j: X(j) - sin(6 * pi * x1 + j * pi / n)
            mean = lambda J, f: 2 * sum(f(j) for j in J) / len(J)
            if num == 1:
                return np.array([x1 + mean(J1, lambda j: s(j) ** 2), 1 - sqrt(x1) + mean(J2, lambda j: s(j) ** 2)])
            if num == 2:
                e = lambda j: 0.3 * x1**2 * cos(24 * pi * x1 + 4 * j * pi / n) + 0.6 * x1
                return np.array(
                    [
                        x1 + mean(J1, lambda j: (X(j) - e(j) * cos(6 * pi * x1 + j * pi / n)) ** 2),
                        1 - sqrt(x1) + mean(J2, lambda j: (X(j) - e(j) * sin(6 * pi * x1 + j * pi / n)) ** 2),
                    ]
                )
            prodsum = lambda J, y: 2 / len(J) * (4 * sum(y(j) ** 2 for j in J) - 2 * np.prod([cos(20 * y(j) * pi / sqrt(j)) for j in J]) + 2)
            if num == 3:
                y = lambda j: X(j) - x1 ** (0.5 * (1 + 3 * (j - 2) / (n - 2)))
                return np.array([x1 + prodsum(J1, y), 1 - sqrt(x1) + prodsum(J2, y)])
            if num == 4:
                h = lambda j: abs(s(j)) / (1 + exp(2 * abs(s(j))))
                return np.array([x1 + mean(J1, h), 1 - x1**2 + mean(J2, h)])
            if num == 5:
                h = lambda j: 2 * s(j) ** 2 - cos(4 * pi * s(j)) + 1
                c = (1 / 20 + 0.1) * abs(sin(20 * pi * x1))
                return np.array([x1 + c + mean(J1, h), 1 - x1 + c + mean(J2, h)])
            if num == 6:
                c = max(0.0, 2 * (1 / 4 + 0.1) * sin(4 * pi * x1))
                return np.array([x1 + c + prodsum(J1, s), 1 - x1 + c + prodsum(J2, s)])
            return np.array([x1**0.2 + mean(J1, lambda j: s(j) ** 2), 1 - x1**0.2 + mean(J2, lambda j: s(j) ** 2)])
        x2 = x[1]
        s = lambda j: X(j) - 2 * x2 * sin(2 * pi * x1 + j * pi / n)
        h = (lambda j: 4 * s(j) ** 2 - cos(8 * pi * s(j)) + 1) if num == 10 else (lambda j: s(j) ** 2)
        p = [2 / len(J) * sum(h(j) for j in J) for J in groups3(n)]
        if num == 9:
            m = max(0.0, 1.1 * (1 - 4 * (2 * x1 - 1) ** 2))
            return np.array([0.5 * (m + 2 * x1) * x2 + p[0], 0.5 * (m - 2 * x1 + 2) * x2 + p[1], 1 - x2 + p[2]])
        a, b = 0.5 * pi * x1, 0.5 * pi * x2
        return np.array([cos(a) * cos(b) + p[0], cos(a) * sin(b) + p[1], sin(a) + p[2]])

    return F


# ---------------------------------------------------------------- CF
def cf(num):
    def F(x, M=2, **k):
        n, x1 = len(x), x[0]
        X = lambda j: x[j - 1]
        J1, J2 = groups2(n)
        s = lambda j: X(j) - sin(6 * pi * x1 + j * pi / n)
        if num == 1:
            y = lambda j: (X(j) - x1 ** (0.5 * (1 + 3 * (j - 2) / (n - 2)))) ** 2
            return np.array([x1 + 2 / len(J1) * sum(map(y, J1)), 1 - x1 + 2 / len(J2) * sum(map(y, J2))])
        if num == 2:
            return np.array(
                [
                    x1 + 2 / len(J1) * sum(s(j) ** 2 for j in J1),
                    1 - sqrt(x1) + 2 / len(J2) * sum((X(j) - cos(6 * pi * x1 + j * pi / n)) ** 2 for j in J2),
                ]
            )
        if num == 3:
            f = lambda J: 2 / len(J) * (4 * sum(s(j) ** 2 for j in J) - 2 * np.prod([cos(20 * s(j) * pi / sqrt(j)) for j in J]) + 2)
            return np.array([x1 + f(J1), 1 - x1**2 + f(J2)])
        kink = lambda t: abs(t) if t < 1.5 * (1 - sqrt(2) / 2) else 0.125 + (t - 1) ** 2
        if num == 4:
            h = lambda j: kink(s(j)) if j == 2 else s(j) ** 2
            return np.array([x1 + sum(map(h, J1)), 1 - x1 + sum(map(h, J2))])
        if num in (5, 6):
            y = lambda j: X(j) - 0.8 * x1 * (cos if j % 2 else sin)(6 * pi * x1 + j * pi / n)
            if num == 6:
                return np.array([x1 + sum(y(j) ** 2 for j in J1), (1 - x1) ** 2 + sum(y(j) ** 2 for j in J2)])
            h = lambda j: kink(y(j)) if j == 2 else 2 * y(j) ** 2 - cos(4 * pi * y(j)) + 1
            return np.array([x1 + sum(map(h, J1)), 1 - x1 + sum(map(h, J2))])
        if num == 7:
            y = lambda j: X(j) - (cos if j % 2 else sin)(6 * pi * x1 + j * pi / n)
            h = lambda j: y(j) ** 2 if j in (2, 4) else 2 * y(j) ** 2 - cos(4 * pi * y(j)) + 1
            return np.array([x1 + sum(map(h, J1)), (1 - x1) ** 2 + sum(map(h, J2))])
        return uf(10 if num == 10 else 8)(x)

    return F


def cf_g(num):
    F = cf(num)

    def g(x, M=2, **k):
        n, x1 = len(x), x[0]
        f = F(x)
        sq = lambda t: np.sign(t) * sqrt(abs(t))
        if num == 1:
            return np.array([-(f[0] + f[1] - abs(sin(10 * pi * (f[0] - f[1] + 1))) - 1)])
        if num == 2:
            t = f[1] + sqrt(f[0]) - sin(2 * pi * (sqrt(f[0]) - f[1] + 1)) - 1
            return np.array([-t / (1 + exp(4 * abs(t)))])
        if num == 3:
            return np.array([-(f[1] + f[0] ** 2 - sin(2 * pi * (f[0] ** 2 - f[1] + 1)) - 1)])
        if num == 4:
            t = x[1] - sin(6 * pi * x1 + 2 * pi / n) - 0.5 * x1 + 0.25
            return np.array([-t / (1 + exp(4 * abs(t)))])
        if num == 5:
            return np.array([-(x[1] - 0.8 * x1 * sin(6 * pi * x1 + 2 * pi / n) - 0.5 * x1 + 0.25)])
        if num in (6, 7):
            a = 0.8 * x1 if num == 6 else 1.0
            return np.array(
                [
                    -(x[1] - a * sin(6 * pi * x1 + 2 * pi / n) - sq(0.5 * (1 - x1) - (1 - x1) ** 2)),
                    -(x[3] - a * sin(6 * pi * x1 + 4 * pi / n) - sq(0.25 * sqrt(1 - x1) - 0.5 * (1 - x1))),
                ]
            )
        a = {8: 4, 9: 3, 10: 1}[num]
        q = (f[0] ** 2 + f[1] ** 2) / (1 - f[2] ** 2)
        w = sin(2 * pi * ((f[0] ** 2 - f[1] ** 2) / (1 - f[2] ** 2) + 1))
        return np.array([-(q - a * (abs(w) if num == 8 else w) - 1)])

    return g


# ---------------------------------------------------------------- others
def conv3(x, M=3, **k):
    return np.array([sum((t - a) ** 2 for t, a in zip(x, c)) for c in ((-1, -1, -1), (1, 1, 1), (-1, -1, 1))])


def conv4(x, M=4, **k):
    return np.array([sum((x[j] - (j == i)) ** 2 for j in range(4)) for i in range(4)])


def conv4_2f(x, M=4, **k):
    if max(x) < 0:
        return conv4(np.asarray(x) + 1) - 3.5 * np.array([2, 0, 0, -2])
    return conv4(x)


def dent(x, M=2, **k):
    a, b = x[0] + x[1], x[0] - x[1]
    r = sqrt(1 + a * a) + sqrt(1 + b * b)
    e = 0.85 * exp(-b * b)
    return np.array([0.5 * (r + b) + e, 0.5 * (r - b) + e])


def wfg(num):
    import pymoo.problems.many.wfg as W

    cache = {}

    def F(x, M, kk=None, **k):
        key = (len(x), M, kk)
        if key not in cache:
            cache[key] = getattr(W, f"WFG{num}")(n_var=len(x), n_obj=M, k=kk)
        out = {}
        cache[key]._evaluate(np.asarray(x, float)[None], out)
        return np.asarray(out["F"])[0]

    return F


def box(*parts):
    """bounds: sequence of (count or None for the rest, lo, up)"""

    def f(n):
        lo, up = [], []
        for c, a, b in parts:
            c = n - len(lo) if c is None else c
            lo += [a] * c
            up += [b] * c
        return np.array(lo, float), np.array(up, float)

    return f


B01 = box((None, 0, 1))


def registry():
    D = {}

    def add(*a, **k):
        d = Def(*a, **k)
        D[d.name] = d

    for i in (1, 2, 3, 4, 6):
        add("zdt", f"ZDT{i}", zdt(i), (2, 12), bounds=box((1, 0, 1), (None, -5, 5)) if i == 4 else B01, box_arg=False)
    for i in range(1, 8):
        add("dtlz", f"DTLZ{i}", dtlz(i), None, (2, 6), bounds=B01)
    for i in range(1, 5):
        add("dtlz", f"IDTLZ{i}", dtlz(i, True), None, (2, 6), bounds=B01)
        add("dtlz", f"Eq1DTLZ{i}", dtlz(i), None, (2, 6), bounds=B01, h=eq1, n_h=1)
        add("dtlz", f"Eq1IDTLZ{i}", dtlz(i, True), None, (2, 6), bounds=B01, h=eq1, n_h=1)
    ufb = {3: B01, 4: box((1, 0, 1), (None, -2, 2)), 8: box((2, 0, 1), (None, -2, 2))}
    for i in range(1, 11):
        add("uf", f"UF{i}", uf(i), (3, 14) if i <= 7 else (5, 14), bounds=ufb.get(min(i, 8), box((1, 0, 1), (None, -1, 1))))
    cfb = {1: B01, 2: box((1, 0, 1), (None, -1, 1)), 8: box((2, 0, 1), (None, -4, 4)), 9: box((2, 0, 1), (None, -2, 2)), 10: box((2, 0, 1), (None, -2, 2))}
    for i in range(1, 11):
        add("cf", f"CF{i}", cf(i), (5 if i >= 8 else 4 if i >= 6 else 3, 14), g=cf_g(i), n_g=2 if i in (6, 7) else 1, bounds=cfb.get(i, box((1, 0, 1), (None, -2, 2))))
    add("misc", "CONV3", conv3, (3, 3), bounds=box((None, -3, 3)), fixed=True)
    add("misc", "CONV4", conv4, (4, 4), bounds=box((None, -10, 10)), fixed=True)
    add("misc", "CONV4_2F", conv4_2f, (4, 4), bounds=box((None, -10, 10)), fixed=True)
    add("misc", "DENT", dent, (2, 2), bounds=box((None, -2, 2)), fixed=True, box_arg=False)
    for i in range(1, 10):
        add("wfg", f"WFG{i}", wfg(i), None, (2, 5), bounds=None)
    return D


def build(rng, d, custom_bounds=0.2, n_obj=None, boundary=None):
    """(constructor arguments, n_var, n_obj, oracle arguments, lower, upper, boundary constraints on?)"""
    kw, ok = {}, {}
    if d.family == "wfg":
        M = n_obj or int(rng.integers(d.nobj[0], d.nobj[1] + 1))
        k = (M - 1) * int(rng.integers(1, 4))
        while k < 4:
            k += M - 1
        l = 2 * int(rng.integers(1, 5)) if d.name in ("WFG2", "WFG3") else int(rng.integers(1, 8))
        kw.update(n_var=k + l, n_obj=M, k=k)
        n, ok["kk"] = k + l, k
        lo, up = np.zeros(n), 2.0 * np.arange(1, n + 1)
        custom_bounds = 0
    elif d.family == "dtlz":
        M = n_obj or int(rng.integers(d.nobj[0], d.nobj[1] + 1))
        n = M - 1 + int(rng.integers(1, 9))
        kw.update(n_var=n, n_obj=M)
        lo, up = d.bounds(n)
    else:
        n = int(rng.integers(d.nvar[0], d.nvar[1] + 1))
        M = {"CONV3": 3, "CONV4": 4, "CONV4_2F": 4}.get(d.name, 3 if d.name in ("UF8", "UF9", "UF10", "CF8", "CF9", "CF10") else 2)
        if not d.fixed:
            kw.update(n_var=n)
        lo, up = d.bounds(n)
    if rng.random() < custom_bounds:
        w = up - lo
        a, b = lo + w * rng.uniform(0, 0.4, n), up - w * rng.uniform(0, 0.4, n)
        kw.update(xl=a, xu=b)
        lo, up = a, b
    bnd = d.box_arg and bool(rng.random() < 0.3 if boundary is None else boundary)
    if bnd:
        kw["boundary_constraints"] = True
    return kw, n, M, ok, lo, up, bnd


def cls(d):
    import hvd.problems as P
    from hvd.problems import misc

    return getattr(P, d.name, None) or getattr(misc, d.name)
