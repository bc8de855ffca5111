"""Plant a bug (development aid, used by no check):
python3 tools/plant.py SPEC.py [ID ...]   -> writes seeded/<ID>/ and validates each in a scratch copy of /repo
A spec file calls bug(id, property, file, [(old, new), ...], demo, needs=..., breaks=...)."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}


def bug(id, prop, edits, demo, needs, breaks, demo_clean=None):
    """edits: list of (file, old, new)"""
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, **(env or {})})
    return p.returncode, p.stdout + p.stderr


DEMO_SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu HOME="${HOME:-/root}"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def make(id):
    b = BUGS[id]
    d = os.path.join(HERE, "seeded", id)
    w = tempfile.mkdtemp(prefix=f"plant-{id}-")
    msg = []
    try:
        sh(f"cp -a /repo {w}/r")
        r = f"{w}/r"
        for f, old, new in b["edits"]:
            s = open(f"{r}/{f}").read()
            if s.count(old) != 1:
                return id, f"BAD SPEC: {s.count(old)} matches in {f}: {old[:60]!r}"
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        _, diff = sh("git diff", cwd=r)
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        c0, o0 = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        c1, o1 = sh(f"bash {d}/demo.sh", cwd=r, timeout=300)
        msg.append(f"demo {c0}/{c1}")
        if c0 != 0:
            msg.append("CLEAN DEMO FAILS " + o0[-300:])
        if c1 == 0:
            msg.append("DEMO DOES NOT FAIL " + o1[-200:])
        else:
            msg.append(o1.strip().splitlines()[-1][:150] if o1.strip() else "")
        if "--notest" not in sys.argv and c0 == 0 and c1 != 0:
            sh(f"sed 's#/repo#{r}#g' /opt/vp/test.sh > {w}/test.sh")
            sh(f"bash {w}/test.sh {w}/out.json", timeout=1500)
            res = json.load(open(f"{w}/out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            good = set(base if isinstance(base, list) else base.get("stable") or base.get("pass") or base.get("passed") or base.get("tests") or [])
            passed = set(k for k in (res.get("passed") or res.get("pass") or []))
            lost = sorted(good - passed)
            msg.append(f"tests: {len(passed)} pass, lost {lost[:3]}" + (" TESTS CATCH IT" if lost or not passed else " ok"))
        if "--check" in sys.argv and c1 != 0:
            c, o = sh(f"./check {b['prop']} --procs 2", cwd=HERE, env=dict(VERIF_REPO=r, VERIF_NOEV="1"), timeout=1500)
            lines = [l for l in o.splitlines() if "VIOLATION" in l or "INCONCL" in l or "HELD" in l]
            msg.append(f"CHECK {'CAUGHT' if c == 1 and lines else 'MISSED(%d)' % c} {lines[:1]}")
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return id, " | ".join(msg)


if __name__ == "__main__":
    spec = sys.argv[1]
    exec(compile(open(spec).read(), spec, "exec"))
    ids = [a for a in sys.argv[2:] if not a.startswith("--")] or list(BUGS)
    with cf.ThreadPoolExecutor(int(os.environ.get("PLANT_PROCS", "4"))) as ex:
        for id, m in ex.map(make, ids):
            print(id, "::", m, flush=True)
