"""Run the quick cases of several properties in one process until one reports a violation (used by tools/mutate.py).
usage: VERIF_REPO=... python -m tools.mutrun P01 P02 ...   (started by tools/mutate.py with check's environment)"""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon.core import main_known, run_case  # noqa: E402
from mon.run import HERE, load  # noqa: E402

LIMIT = float(os.environ.get("MUT_LIMIT", "400"))


def main():
    t0 = time.time()
    known = {(k["property"], k["mechanism"]) for k in main_known(os.path.join(HERE, "known_findings.json")) if k.get("status") == "known"}
    n, errs = 0, 0
    for pid in sys.argv[1:]:
        jobs = sorted(((i / m.quick, m.name, i, m) for m in load(pid) for i in range(m.quick)), key=lambda j: j[:3])
        for _, _, i, m in jobs:
            if time.time() - t0 > LIMIT:
                print(f"TIMEUP after {n} cases in {pid}, errors {errs}")
                return
            r = run_case(m, int(os.environ.get("VERIF_SEED", "1")), i, "quick")
            n += 1
            for f in r["fails"]:
                if (pid, f["mechanism"]) not in known:
                    print(f"KILLED {pid} {m.name}[{i}] {f['mechanism']} after {time.time() - t0:.0f}s: {f['message'][:200]}")
                    return
            if r["status"] in ("error", "timeout"):
                errs += 1
                if errs == 1:
                    print("ERROR", pid, m.name, i, (r["err"] or "").strip().splitlines()[-1][:200])
    print(f"SURVIVED {n} cases {time.time() - t0:.0f}s errors {errs}")


main()
