"""P25: saved populations and reference sets are read back as they were saved (scripts/utils.py)."""
import os
import random
import shutil
import tempfile

import numpy as np

from .core import Skip, monitor


def dyadic(a):
    """numbers with a short exact decimal representation"""
    return np.round(np.asarray(a) * 1024) / 1024


def save(path, values, **kw):
    np.savetxt(path, np.atleast_2d(values), delimiter=",", fmt="%.17g", **kw)


def sub_multiset(small, large):
    """rows of `small` are distinct rows (by position) of `large`"""
    from collections import Counter

    a, b = Counter(map(tuple, small)), Counter(map(tuple, large))
    return all(b[k] >= v for k, v in a.items())


def make(rng):
    m, d = int(rng.integers(2, 5)), int(rng.integers(1, 8))
    k = int(rng.choice([1, 1, 2, 3, 4]))
    big = rng.random() < 0.12
    sizes = [int(rng.integers(3000, 3400)) if big and rng.random() < 0.6 else int(rng.integers(1, 40)) for _ in range(k)]
    if big and rng.random() < 0.3:
        sizes[0] = 3000 + int(rng.integers(-1, 2))
    ref = [dyadic(rng.normal(size=(s, m))) for s in sizes]
    n = int(rng.integers(1, 40))
    X, Y = dyadic(rng.normal(size=(n, d))), dyadic(rng.normal(size=(n, m)))
    kk = max(1, k + int(rng.integers(-1, 2)))
    labels = rng.integers(1, kk + 1, size=n)
    if rng.random() < 0.5:  # large reference sets, so that clusters are kept apart
        ref = [np.vstack([r, dyadic(rng.normal(size=(n, m)))]) for r in ref]
    out = rng.random(n) < (0.25 if rng.random() < 0.6 else 0)
    labels = np.where(out, rng.choice([0, -1], size=n), labels)
    if not np.any(labels > 0):
        labels[int(rng.integers(n))] = 1
    if rng.random() < 0.2:  # a label that nobody carries
        labels[labels == 1] = kk
    eta = [dyadic(rng.normal(size=m)) if rng.random() < 0.9 else None for _ in range(k)]
    if rng.random() < 0.2:
        eta = [None] * k
    if rng.random() < 0.1 and eta[-1] is not None:
        eta[-1] = np.where(rng.random(eta[-1].shape) < rng.choice([0.5, 1]), np.nan, eta[-1])
    return dict(m=m, d=d, ref=ref, X=X, Y=Y, labels=labels, eta=eta)


@monitor("P25", quick=400, thorough=8000)
def reading(c):
    """random saved runs in a scratch directory (outliers of both kinds, unused labels, missing or NaN shift directions,
    large components, many runs side by side): members and labels stay together, components and directions are complete,
    merging exactly when needed, at most as many members as targets after merging; the result can be used and matched"""
    from scripts.utils import read_reference_set_data

    rng = c.rng
    W = make(rng)
    ref, X, Y, labels, eta = W["ref"], W["X"], W["Y"], W["labels"], W["eta"]
    k = len(ref)
    name, emoa = str(rng.choice(["ZDT1", "DTLZ7", "CF8"])), str(rng.choice(["NSGA-II", "MOEAD"]))
    run, gen = int(rng.integers(1, 30)), int(rng.choice([200, 300]))
    c.describe(sizes=[len(r) for r in ref], labels=labels, eta=eta, X=X, Y=Y)
    tmp = tempfile.mkdtemp(prefix="p25-")
    try:
        def write(W, name, emoa, run, gen):
            p = f"{tmp}/{name}_{emoa}_run_{run}_"
            ids = np.concatenate([np.full(len(r), i + 1) for i, r in enumerate(W["ref"])])
            save(f"{p}component_id_gen{gen}.csv", ids)
            for i, (r, e) in enumerate(zip(W["ref"], W["eta"])):
                save(f"{p}ref_gen{gen}.csv" if len(W["ref"]) == 1 else f"{p}ref_{i + 1}_gen{gen}.csv", r)
                if e is not None:
                    save(f"{p}eta_{i + 1}_gen{gen}.csv", e)
            save(f"{p}lastpopu_x_gen{gen}.csv", W["X"])
            save(f"{p}lastpopu_y_gen{gen}.csv", W["Y"])
            lab = W["labels"][:, None] if rng.integers(2) else W["labels"]
            save(f"{p}lastpopu_labels_gen{gen}.csv", lab)

        write(W, name, emoa, run, gen)
        write(make(rng), name, emoa, run + 1, gen)  # neighbours that must not be mixed in
        write(make(rng), name, emoa, run, gen + 1)
        random.seed(int(rng.integers(2**31)))
        before = {f: os.path.getmtime(os.path.join(tmp, f)) for f in os.listdir(tmp)}
        got = read_reference_set_data(tmp, name, emoa, run, gen)
        c.require(before == {f: os.path.getmtime(os.path.join(tmp, f)) for f in os.listdir(tmp)}, "files", "reading changed the saved files")
    finally:
        shutil.rmtree(tmp)
    R, x0, y0, idx, e = got
    c.saw(X, Y, labels, n=1)
    keep = labels > 0
    Xk, Yk, lab = X[keep], Y[keep], labels[keep]
    sizes = [min(len(r), 3000) for r in ref]
    counts = np.unique(lab, return_counts=True)[1]
    merge = len(counts) > k or counts.max() > min(sizes)
    c.count(f"merged: {bool(merge)}")
    c.count("outliers", int((~keep).sum()))
    if merge:
        if not c.require(list(R) == [0], "merged-components", f"components {list(R)} although the clusters do not fit the components {sizes}: {counts}"):
            return
        c.require(len(R[0]) == sum(sizes), "merged-size", f"{len(R[0])} merged reference points, expected {sum(sizes)}")
        if max(map(len, ref)) < 3000:
            c.require(np.array_equal(R[0], np.vstack(ref)), "merged-points", "merged reference points differ from the saved ones")
        c.require(e is None, "merged-direction", f"shift directions {e} of a merged reference set")
        n = min(len(Yk), sum(sizes))
        c.count("population cut" if n < len(Yk) else "population kept")
        if c.require(len(x0) == len(y0) == n, "merged-population", f"{len(x0)}, {len(y0)} members, expected {n} (of {len(Yk)} members and {sum(sizes)} reference points)"):
            c.require(np.array_equal(x0, Xk[:n]) and np.array_equal(y0, Yk[:n]), "members", "members differ from the saved ones")
        c.require(len(idx) == 1 and np.array_equal(idx[0], np.arange(len(y0))), "merged-index", "cluster index of a merged population")
    else:
        if not c.require(sorted(R) == list(range(k)), "components", f"components {list(R)}, expected {k}"):
            return
        for i, r in enumerate(ref):
            if len(r) < 3000:
                c.require(np.array_equal(R[i], r), "component-points", f"reference points of component {i} differ from the saved ones")
            else:
                c.count("downsampled")
                c.require(np.shape(R[i]) == (3000, W["m"]) and sub_multiset(R[i], r), "downsampling", f"component {i}: not 3000 distinct ones of {len(r)} points")
        if c.require(np.array_equal(x0, Xk) and np.array_equal(y0, Yk), "members", f"members differ from the {len(Yk)} saved non-outliers"):
            want = [np.flatnonzero(lab == v) for v in np.unique(lab)]
            c.require(len(idx) == len(want) and all(np.array_equal(a, b) for a, b in zip(idx, want)), "index", "cluster index lists differ from the saved labels")
        full, last = [], None
        for v in eta:
            last = v if v is not None else last
            full.append(last)
        if full[0] is None or np.any(np.isnan(np.concatenate(full))):
            c.count("no direction")
            c.require(e is None, "direction", f"shift directions {e} although some are missing or not a number")
        elif c.require(e is not None and sorted(e) == list(range(k)), "direction", f"shift directions {e}, expected {k}"):
            for i in range(k):
                c.require(np.array_equal(e[i], full[i]), "direction", f"shift direction of component {i}: {e[i]}, saved {full[i]}")
    # usable
    if len(y0) > 1 and sum(sizes) < 200 and all(len(r) > 1 for r in R.values()) and W["m"] <= 3:
        from hvd.reference_set import ReferenceSet

        c.seed_global()
        if e is None and any(len(np.unique(r, axis=0)) <= W["m"] for r in R.values()):
            return
        ready = ReferenceSet(ref=R, eta=e, Y_idx=idx)
        ready.match(y0)
        c.count("matched")
        T = np.asarray(ready.reference_set)
        c.require(T.shape == y0.shape and sub_multiset(T, np.vstack(list(R.values()))), "usable", f"{T.shape} targets for {y0.shape} members")
    c.sample(sizes=sizes, labels=labels, merged=bool(merge))
