"""known_findings.json = the open findings + one entry per repaired defect (hashes looked up from /repo's log)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, "known_findings.json")
log = dict(reversed(l.split(" ", 1)) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
FIX = [  # start of the subject, property, what failed
    ("fix: break ties consistently", "P01", "hypervolume of sets with tied coordinates (4+ objectives) was wrong"),
    ("fix: negate supplied", "P01", "value/derivatives for maximisation with supplied objective values or Jacobians used the unnegated ones (also P02, P03)"),
    ("fix: get_non_dominated returns", "P04", "filter raised on sets in which every point is weakly dominated by another (e.g. only duplicates)"),
    ("fix: Hessian of the generational", "P05", "Hessian of GD^p for p != 2 missed the norm factor"),
    ("fix: match reference components", "P07", "components were matched to the wrong clusters, or crashed when a component has no member"),
    ("fix: own a floating-point", "P07", "shifting truncated integer reference data and altered the caller's dictionary"),
    ("fix: State.save raised", "P08", "saving a state raised KeyError"),
    ("fix: a state updated without", "P08", "a state updated without derivatives kept stale constraint Hessians and could not be sliced"),
    ("fix: HVN falls back", "P10", "steps of numerically singular systems were arbitrary instead of least squares"),
    ("fix: HVN with limited", "P14", "HVN with limited step size crashed on a zero step (also P10)"),
    ("fix: targets were re-matched", "P13", "targets changed during the line search of DpN and MMDNewton (also P11, P12)"),
    ("fix: MMDNewton without matching", "P12", "the whole reference set was shifted in every iteration; crash with fewer reference points than members"),
    ("fix: DpN's box projection", "P14", "members in corners of the box were blocked although they could slide along a bound (also P11)"),
    ("fix: MMDNewton skipped", "P13", "the line search was skipped when the signed step components have zero median, e.g. for symmetric populations (also P12)"),
    ("fix: Lara moved", "P14", "members at the optimum of one objective became NaN (normalisation of a zero gradient; also P23)"),
    ("fix: CF1-CF7 misassigned", "P18", "CF1-CF7 with an odd number of variables: the last variable was left out of, or put into, the wrong sum"),
    ("fix: CF4 ignored", "P18", "CF4: the distance term of the second variable was wrong beyond the kink"),
    ("fix: the front of CF1", "P19", "CF1: most returned front points are infeasible (the front has 21 points)"),
    ("fix: the front of CF2", "P19", "CF2: the isolated point (0, 1) was missing"),
    ("fix: the front of CF8", "P19", "CF8: the front was off the unit sphere"),
    ("fix: the Pareto set of ZDT3", "P19", "ZDT3: the Pareto set contained dominated points"),
    ("fix: the Pareto set of DTLZ7", "P19", "DTLZ7: the Pareto set contained dominated points"),
    ("fix: Pareto sets and fronts of the Eq1DTLZ", "P19", "Eq1DTLZ/Eq1IDTLZ: sets and fronts were infeasible"),
    ("fix: element-wise pymoo problems", "P20", "element-wise pymoo problems got wrong objectives"),
    ("fix: RSG crashed", "P21", "crash when a component is too short to receive a point"),
    ("fix: RSG returned", "P21", "wrong number of points, failure on collapsed components"),
    ("fix: bootstrapping failed for the MMD", "P21", "AttributeError for the MMD without matching"),
    ("fix: bootstrapping failed after", "P21", "crash at the end of runs not longer than the interval"),
    ("fix: bootstrapping lost", "P21", "crash when fewer than N points survive the filter"),
    ("fix: SMSEMOA failed on", "P22", "crash on more than two objectives"),
    ("fix: SMSEMOA crashed", "P22", "crash in the final step of runs that find no new offspring"),
    ("fix: constraints returning 0-d", "P24", "constraints returning 0-d (e.g. JAX) scalars made the optimisers fail"),
    ("fix: State.update_one failed", "P24", "State.update_one failed on native problems (read-only arrays)"),
    ("fix: copies of a state", "P24", "line searches and slices evaluated copies of the problem object: counters and timings were lost"),
    ("fix: refuse numbers of variables", "P26", "ZDT and CF problems accepted numbers of variables for which they are not defined (NaN, wrong values)"),
    ("fix: refuse DTLZ problems", "P26", "DTLZ problems with fewer variables than objectives returned too few values"),
    ("fix: DTLZ5 and DTLZ6", "P26", "DTLZ5/6 with one objective failed at evaluation"),
    ("fix: the Pareto front of a scaled", "P26", "the front of a scaled DTLZ2/3 problem ignored the scale"),
    ("fix: only one member", "P25", "one member was kept when the population exceeds the merged reference set"),
    ("fix: reading reference sets without", "P25", "TypeError when the first component has no shift direction"),
    ("fix: everything was computed", "P27", "single precision when jax was imported first"),
    ("fix: automatic derivatives of", "P03", "automatic derivatives kept using the reference point of their first call after it had been changed"),
    ("fix: let the matched MMD's derivatives", "P06", "derivatives of the matched MMD kept the spread weight of their first call after it had been changed (bootstrapping changes it)"),
    ("fix: MMD Newton failed when", "P24", "MMD Newton failed on integer-valued objectives"),
]
try:
    exec(open(os.path.join(HERE, "tools", "findings_more.py")).read())
except FileNotFoundError:
    pass
old = [e for e in json.load(open(path)) if e.get("status") == "known"]
out = list(old)
for s, pid, what in FIX:
    h = [v for k, v in log.items() if k.startswith(s)]
    assert len(h) == 1, (s, h)
    out.append(dict(property=pid, mechanism="", status="fixed", commit=h[0], what=f"fixed: property={pid} {h[0]} {what}"))
with open(path, "w") as f:
    f.write("[\n" + ",\n".join(" " + json.dumps(e) for e in out) + "\n]\n")
