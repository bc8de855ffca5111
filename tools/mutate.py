"""Mutation campaign: small syntactic changes to the package, each judged by the quick checks of the properties anchored in
the changed file, and, with MUT_TESTS=1, the survivors by the repository's own tests.  What neither notices is looked at by hand.
usage: tools/mutate.py FILE [N] [SEED]  (FILE relative to the repository; results appended to /tmp/mut/results.jsonl)"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_REPO", "/repo")
OUT = "/tmp/mut"
PIDS = {
    "hvd/hypervolume.py": "P01 P02",
    "hvd/hypervolume_derivatives.py": "P02 P03 P01 P10",
    "hvd/delta_p.py": "P05 P11",
    "hvd/mmd.py": "P06 P12",
    "hvd/mmd_newton.py": "P12 P13 P15 P14 P07 P24",
    "hvd/newton.py": "P10 P11 P13 P15 P14 P07 P24",
    "hvd/base.py": "P08 P09 P24 P15",
    "hvd/utils.py": "P04 P16 P14 P07 P15",
    "hvd/reference_set.py": "P07 P12 P15",
    "hvd/gradient_based.py": "P23 P14 P15",
    "hvd/line_search.py": "P13 P16",
    "hvd/bootstrap.py": "P21",
    "hvd/rsg.py": "P21",
    "hvd/moea/moead.py": "P22",
    "hvd/moea/sms_emoa.py": "P22",
    "hvd/problems/_pymoo_factory.py": "P20",
    "hvd/problems/_pymoo_wrapper.py": "P20 P26",
    "hvd/problems/base.py": "P26 P17 P20 P18 P15",
    "hvd/problems/utils.py": "P19",
    "scripts/utils.py": "P25",
}
SKIP = ("plot", "animat", "_log", "log", "_set_logging", "get_logger", "format", "preprocess_reference_set")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*", ast.MatMult: "*"}
NAME = dict(min="max", max="min", any="all", all="any", argmin="argmax", argmax="argmin", floor="ceil", ceil="floor", zeros="ones", ones="zeros", vstack="hstack", hstack="vstack", minimum="maximum", maximum="minimum", sum="mean", mean="sum", nonzero="flatnonzero", argsort="sort", isfinite="isnan", append="extend", xl="xu", xu="xl", nanmax="nanmin", nanmin="nanmax", n_eq="n_ieq", abs="negative")


def mutants(path):
    """(start offset, end offset, replacement, what) of every applicable change"""
    src = open(path).read()
    tree = ast.parse(src)
    starts = [0]
    for line in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(line.encode()))
    b = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name.startswith(SKIP):
                return
            fn = n.name
            for d in n.body:
                visit(d, fn)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + n.args.kw_defaults:
                    if d is not None:
                        visit(d, fn)
            return
        if isinstance(n, ast.If) and seg(n.test).startswith("11 < 2"):  # dead branch
            for d in n.orelse:
                visit(d, fn)
            return
        add = lambda s, e, r, what: out.append((s, e, r, f"{fn}: {what}"))
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and ("warn" in seg(n.func) or "logger" in seg(n.func) or "print" in seg(n.func)):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, fn)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            s, e = pos(n.left)[1], pos(n.comparators[0])[0]
            mid = b[s:e].decode()
            tail, head = len(mid) - len(mid.rstrip(" ")), 0
            op = CMP[type(n.ops[0])]
            if "(" not in mid and ")" not in mid and "\n" not in mid:
                add(s, e, f" {op} ", f"{seg(n)} -> {op}")
        elif isinstance(n, ast.BinOp):
            s, e = pos(n.left)[1], pos(n.right)[0]
            mid = b[s:e].decode()
            op = BIN.get(type(n.op))
            if op and "(" not in mid and ")" not in mid and "\n" not in mid:
                add(s, e, f" {op} ", f"{seg(n)[:80]} -> {op}")
        elif isinstance(n, ast.BoolOp):
            s, e = pos(n.values[0])[1], pos(n.values[1])[0]
            mid = b[s:e].decode()
            if "and" in mid or "or" in mid:
                new = mid.replace("and", "OR").replace("or", "and").replace("OR", "or") if "and" in mid else mid.replace("or", "and")
                add(s, e, new, f"{seg(n)[:80]} -> {new.strip()}")
        elif isinstance(n, ast.UnaryOp):
            s, e = pos(n)
            add(s, e, f"({seg(n.operand)})", f"{seg(n)[:60]} -> without {type(n.op).__name__}")
        elif isinstance(n, ast.Constant):
            s, e = pos(n)
            if isinstance(n.value, bool):
                add(s, e, str(not n.value), f"line {n.lineno} {n.value} -> {not n.value}")
            elif isinstance(n.value, int):
                add(s, e, str(n.value + 1), f"line {n.lineno} {n.value} -> {n.value + 1}")
                if n.value > 0:
                    add(s, e, str(n.value - 1), f"line {n.lineno} {n.value} -> {n.value - 1}")
            elif isinstance(n.value, float):
                add(s, e, repr(n.value * 2 if n.value else 0.5), f"line {n.lineno} {n.value} -> doubled")
        elif isinstance(n, ast.Attribute) and n.attr in NAME:
            s, e = pos(n)
            add(e - len(n.attr), e, NAME[n.attr], f"line {n.lineno} {n.attr} -> {NAME[n.attr]}")
        elif isinstance(n, ast.Name) and n.id in ("min", "max", "any", "all") and isinstance(n.ctx, ast.Load):
            s, e = pos(n)
            add(s, e, NAME[n.id], f"line {n.lineno} {n.id} -> {NAME[n.id]}")
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            s, e = pos(n.test)
            add(s, e, f"(not ({seg(n.test)}))", f"if {seg(n.test)[:60]} -> negated")
            add(s, e, f"(({seg(n.test)}) or True)", f"if {seg(n.test)[:60]} -> always")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "ravel") and not n.args:
                s, e = pos(n)
                add(s, e, seg(f.value), f"{seg(n)[:60]} -> without {f.attr}()")
            if isinstance(f, ast.Name) and f.id in ("deepcopy", "sorted", "set", "reversed") and len(n.args) == 1:
                s, e = pos(n)
                add(s, e, seg(n.args[0]), f"{seg(n)[:60]} -> without {f.id}")
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                s, e = pos(n.args[0])[0], pos(n.args[1])[1]
                add(s, e, f"{seg(n.args[1])}, {seg(n.args[0])}", f"{seg(n)[:70]} -> arguments swapped")
            for k in n.keywords:
                if k.arg in ("axis", "keepdims", "rtol", "atol", "return_index", "endpoint", "dtype"):
                    s, e = pos(k)
                    while b[e : e + 1] in (b",", b" "):
                        e += 1
                    add(s, e, "", f"{seg(n)[:70]} -> without {k.arg}")
        if isinstance(n, (ast.AugAssign, ast.Expr, ast.Assign, ast.Continue, ast.Break)) and fn:
            s, e = pos(n)
            if not (isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
                add(s, e, "pass", f"statement removed: {seg(n)[:80]}")
        for ch in ast.iter_child_nodes(n):
            visit(ch, fn)

    visit(tree, "")
    return b, out


def one(job):
    k, rel, s, e, r, what, pids = job
    d = f"/dev/shm/mut-{os.getpid()}-{k}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SRC, d, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "assets", "mathematica"))
    try:
        b = open(os.path.join(SRC, rel), "rb").read()
        new = b[:s] + r.encode() + b[e:]
        try:
            compile(new, rel, "exec")
        except SyntaxError:
            return None
        open(os.path.join(d, rel), "wb").write(new)
        env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", VERIF_REPO=d, PYTHONPATH=f"{d}:{HERE}")
        env.pop("JAX_ENABLE_X64", None)
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", f"{HERE}/tools/mutrun.py", *pids], capture_output=True, text=True, env=env, timeout=900, cwd=HERE)
            line = (p.stdout.strip().splitlines() or ["CRASH " + p.stderr.strip()[-200:]])
            res = line[-1] + ((" // " + line[0]) if len(line) > 1 else "")
        except subprocess.TimeoutExpired:
            res = "TIMEOUT"
        tests = None
        if not res.startswith("KILLED") and os.environ.get("MUT_TESTS"):
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-header", "--tb=no"], capture_output=True, text=True, env=env, cwd=d, timeout=1500)
            tests = (t.stdout.strip().splitlines() or [""])[-1]
        return dict(file=rel, line=b[:s].count(b"\n") + 1, what=what, result=res, tests=tests)
    except Exception as ex:  # noqa
        return dict(file=rel, what=what, result=f"TOOL {ex!r}"[:300], tests=None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    rel, n, seed = sys.argv[1], int(sys.argv[2] if len(sys.argv) > 2 else 1000), int(sys.argv[3] if len(sys.argv) > 3 else 0)
    os.makedirs(OUT, exist_ok=True)
    pids = (os.environ.get("MUT_PIDS") or PIDS.get(rel, "P18 P17 P19 P26")).split()
    _, M = mutants(os.path.join(SRC, rel))
    random.Random(seed).shuffle(M)
    done = set()
    if os.path.exists(f"{OUT}/results.jsonl"):
        done = {(d["file"], d["what"], d.get("line")) for d in map(json.loads, open(f"{OUT}/results.jsonl"))}
    jobs = [(k, rel, *m, pids) for k, m in enumerate(M[:n])]
    print(rel, len(M), "mutants,", len(jobs), "run", flush=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_PROCS", "8"))) as ex:
        for r in ex.map(one, jobs):
            if r is None:
                continue
            with open(f"{OUT}/results.jsonl", "a") as f:
                f.write(json.dumps(r) + "\n")
            if not r["result"].startswith("KILLED"):
                print(r["line"] if "line" in r else "", r["what"], "|", r["result"], "|", r["tests"], flush=True)


main()
