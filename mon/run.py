"""Runner: ./check <ID> [--replay FILE] [--only MONITOR] [--procs N]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK_DEADLINE, THOROUGH_DEADLINE = 420, 3 * 3600


def load(pid):
    import mon
    from mon.core import MONITORS

    for m in pkgutil.iter_modules(mon.__path__):
        if m.name == f"{pid.lower()}" or m.name.startswith(f"{pid.lower()}_"):
            importlib.import_module(f"mon.{m.name}")
    return MONITORS.get(pid, [])


def _work(args):
    pid, name, seed, idxs, tier, deadline = args
    from mon.core import run_case

    mon = {m.name: m for m in load(pid)}[name]
    out = []
    for i in idxs:
        if time.time() > deadline:
            out.append(dict(monitor=name, index=i, status="deadline"))
            continue
        out.append(run_case(mon, seed, i, tier))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--procs", type=int, default=int(os.environ.get("VERIF_PROCS", "0")))
    a = ap.parse_args()
    t0 = time.time()
    seed, tier = int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick")
    pid = a.pid
    mons = load(pid)
    if not mons:
        print(f"no monitor is registered for {pid}")
        return 2
    if a.replay:
        return replay(pid, mons, a.replay)
    if a.only:
        mons = [m for m in mons if m.name == a.only]
    deadline = t0 + (QUICK_DEADLINE if tier == "quick" else THOROUGH_DEADLINE)
    jobs = []
    for m in mons:
        n = m.quick if tier == "quick" else m.thorough
        size = max(1, min(64, n // 24))
        jobs += [
            (k / max(1, n), (pid, m.name, seed, list(range(k, min(n, k + size))), tier, deadline))
            for k in range(0, n, size)
        ]
    jobs = [j for _, j in sorted(jobs, key=lambda t: t[0])]
    procs = a.procs or min(len(jobs), max(1, min(8, os.cpu_count() or 1)))
    results = []
    lost = False
    if procs == 1:
        for j in jobs:
            results += _work(j)
    else:
        pool = mp.get_context("spawn").Pool(procs)
        it = pool.imap_unordered(_work, jobs)
        hard = deadline + (240 if tier == "quick" else 3600)
        try:
            for _ in jobs:
                results += it.next(timeout=max(1, hard - time.time()))
        except mp.TimeoutError:
            lost = True
        pool.terminate()
    return report(pid, mons, results, seed, tier, t0, lost)


def replay(pid, mons, path):
    from mon.core import run_case

    rec = json.load(open(path))
    mon = {m.name: m for m in mons}[rec["monitor"]]
    r = run_case(mon, rec["seed"], rec["index"], rec["tier"])
    for f in r["fails"]:
        print(f["mechanism"], "|", f["message"])
    if r["fails"]:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("no violation on replay;", r["status"], r["err"] or "")
    return 0 if r["status"] == "ok" else 2


def report(pid, mons, results, seed, tier, t0, lost):
    from mon.core import main_known

    known = [k for k in main_known(os.path.join(HERE, "known_findings.json")) if k["property"] == pid]
    known_open = {k["mechanism"]: k for k in known if k.get("status") == "known"}
    results.sort(key=lambda r: (r["monitor"], r["index"]))
    per, samples, viol, errors, seen_known = {}, [], [], [], {}
    keys = {}
    for r in results:
        p = per.setdefault(
            r["monitor"], dict(cases=0, observations=0, skipped=0, beyond_deadline=0, events={}, wall_s=0.0)
        )
        if r["status"] == "deadline":
            p["beyond_deadline"] += 1
            continue
        p["cases"] += 1
        p["wall_s"] += r["wall"]
        p["observations"] += r["n_obs"]
        p["skipped"] += r["status"] == "skip"
        for k, v in r["stats"].items():
            p["events"][k] = p["events"].get(k, 0) + v
        keys.setdefault(r["monitor"], set()).update(r["keys"])
        if r["sample"] is not None and sum(s["monitor"] == r["monitor"] for s in samples) < 2:
            samples.append(r["sample"])
        if r["status"] in ("error", "timeout"):
            errors.append(f"{r['monitor']}[{r['index']}]: {r['err']}")
        for f in r["fails"]:
            if f["mechanism"] in known_open:
                seen_known.setdefault(f["mechanism"], f)
            else:
                viol.append((r, f))
    by_name = {m.name: m for m in mons}
    for m in mons:
        p = per.setdefault(m.name, dict(cases=0, observations=0, events={}))
        p["distinct"] = len(keys.get(m.name, ()))
        p["what"] = m.what
        p["wall_s"] = round(p.get("wall_s", 0.0), 2)
    distinct = sum(len(v) for v in keys.values())
    evals = sum(p["observations"] for p in per.values())
    rule = (
        "each monitor generates seeded random cases (the monitors' docstrings under per_monitor.what say how) and "
        "drives the real code; an observation is one comparison of something the code did with the oracle; it counts "
        "as distinct and non-trivial when the digest of the observed input/state was not seen before in that monitor "
        "and the precondition held (degenerate inputs are run but not counted)."
    )
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=int(evals),
            distinct_nontrivial=int(distinct),
            rule=rule,
            samples=samples[:24],
            per_monitor=per,
            cases=sum(p["cases"] for p in per.values()),
        ),
        assumptions=[
            "the reference models in mon/oracles.py and mon/p*.py are right",
            "only the executions generated here were observed",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
        known_findings_seen=sorted(seen_known),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for name in sorted(per):
        p = per[name]
        print(
            f"  {name}: cases={p['cases']} observations={p['observations']} distinct={p['distinct']} "
            f"skipped={p.get('skipped', 0)} {p['wall_s']}s {json.dumps(p['events'])[:400]}"
        )
    for k in known_open.values():
        if k["mechanism"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        shown = set()
        for r, f in viol:
            tag = (r["monitor"], f["mechanism"])
            if tag in shown:
                continue
            shown.add(tag)
            n = len(shown)
            path = os.path.join(HERE, "replays", f"{pid}-{n}.json")
            with open(path, "w") as fh:
                json.dump(
                    dict(property=pid, monitor=r["monitor"], index=r["index"], seed=seed, tier=tier, **f),
                    fh,
                    indent=1,
                    default=str,
                )
            print(f"  {r['monitor']}[{r['index']}] {f['mechanism']}: {f['message'][:600]}")
            print(f"VIOLATION property={pid} replay={path}")
            if n >= (99 if os.environ.get("VERIF_ALL") else 8):
                break
        if os.environ.get("VERIF_ALL"):
            for e in errors[:5]:
                print("HARNESS-ERROR", e)
        return 1
    bad = False
    if lost:
        print("INCONCLUSIVE: workers did not answer before the watchdog")
        bad = True
    for e in errors[:5]:
        print("HARNESS-ERROR/INCONCLUSIVE", e)
        bad = True
    for name, m in by_name.items():
        need = m.min_obs
        if per[name]["observations"] < need:
            print(f"INCONCLUSIVE: monitor {name} made {per[name]['observations']} observations, needs {need}")
            bad = True
    if bad:
        return 2
    print(f"HELD property={pid} observations={evals} distinct={distinct} wall={time.time()-t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
