"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NOT_APPLICABLE = [], []


def P(id, title, statement, over, text, why, files, mech, technique, note, state=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(
        dict(
            row=dict(
                id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], hook_needed=None),
            ),
            technique=technique,
            note=note,
        )
    )


TRUST = " Trusts numpy/scipy and the oracle code; says nothing about inputs that were not generated."

P("P01", "The hypervolume value is the measure of the dominated region",
  "For every finite point set and reference point, in any number of objectives and for minimisation or maximisation, the reported hypervolume equals the Lebesgue measure of the region dominated by the set and bounded by the reference point. It is 0 for an empty set or when no point is better than the reference, it does not depend on order, duplicates or dominated points, never decreases when a point is added, and translating/scaling all data translates/scales it accordingly. The improvement reported for a candidate is the increase of that measure.",
  ["inputs", "histories"], "all finite sets of points (1-7 objectives sampled), reference points, senses, and all edit histories of a set",
  "tests compare a few fixed sets with recorded numbers; ties, duplicates, dominated and out-of-reference points are hardly sampled",
  ["hvd/hypervolume.py", "hvd/hypervolume_derivatives.py", "hvd/utils.py"],
  [("dimension-sweep recursion over linked lists with cached areas/volumes", "hvd/hypervolume.py: HyperVolume.compute, _MultiList"), ("sense handling and value", "hvd/hypervolume_derivatives.py: HypervolumeDerivatives.compute, hypervolume_improvement")],
  "online oracle: coordinate-compression measure + metamorphic edit histories",
  "Exploration: thousands of seeded sets per run, exact oracle up to rounding (1e-9 relative)." + TRUST)

P("P02", "The hypervolume gradient is the derivative of the hypervolume",
  "The gradient reported for a set is the derivative of its hypervolume with respect to every point's objective values, and with respect to its decision variables by the chain rule, for either optimisation sense and whether objective values and Jacobians are supplied or computed. Points strictly dominated by another point have zero gradient; where the hypervolume is not differentiable (ties) each component lies between the one-sided derivatives. The answer depends only on the set, not on what was evaluated on the same object before or on the order of the points.",
  ["inputs", "histories"], "all finite sets within the reference box, smooth maps, senses, and evaluation histories on one object",
  "tests compare fixed sets with fixed numbers or autodiff; the derivative must be right for every configuration of dominated/tied points and any number of objectives",
  ["hvd/hypervolume_derivatives.py"],
  [("facet areas by lower-dimensional hypervolumes", "hvd/hypervolume_derivatives.py: HypervolumeDerivatives._compute_gradient"), ("chain rule", "hvd/hypervolume_derivatives.py: HypervolumeDerivatives.compute_derivatives")],
  "online oracle: exact difference quotients of the measure of the dominated region",
  "Exploration; four fixed inputs with a non-dominated point outside the reference box are known findings." + TRUST)

P("P03", "The hypervolume Hessian is the second derivative of the hypervolume",
  "For sets in general position the reported Hessian is the matrix of second derivatives of the hypervolume with respect to all coordinates of all points, in objective space and, by the chain rule with the maps' Jacobians and Hessians, in decision space, for either sense. It is symmetric, zero in every row and column of a dominated point and zero between points whose exclusive regions share no facet. The automatic-differentiation path of the same indicator gives the same derivatives.",
  ["inputs"], "all finite sets in general position within the reference box (2-5 objectives sampled), smooth maps",
  "tests check symmetric toy sets and a few numbers; block structure depends on the dominance configuration, which fixed examples cannot cover",
  ["hvd/hypervolume_derivatives.py"],
  [("facet derivatives of facet areas", "hvd/hypervolume_derivatives.py: HypervolumeDerivatives._compute_hessian"), ("AD path", "hvd/hypervolume_derivatives.py: compute_automatic_differentiation")],
  "online oracle: second mixed differences of the measure, chain rule, dual implementation (AD)",
  "Exploration; one fixed input outside the reference box is a known finding (see P02)." + TRUST)

P("P04", "Dominance ranking and filtering follow the definition of Pareto dominance",
  "For every finite point set, non-dominated sorting puts every input point into exactly one layer, and a point's layer is the number of times the undominated points have to be peeled off before it becomes undominated; duplicates share a layer, and the result does not depend on the order of points or objectives or on monotone rescaling of an objective. The dominance relation is: nowhere worse and somewhere better. Filtering keeps exactly the points that no other point of the set weakly dominates, unless asked for indices, which denote the same points; the strict variant additionally drops only points that share (numerically) a coordinate with another point.",
  ["inputs"], "all finite point sets with 1-7 objectives, with ties, duplicates and degenerate coordinates",
  "tests sample a handful of sets; the divide-and-conquer sort has branches for ties and medians reached only by special configurations",
  ["hvd/utils.py"],
  [("divide-and-conquer sort", "hvd/utils.py: non_domin_sort, _nd_helper_a/_b, _sweep_a/_b, _split_by"), ("filter", "hvd/utils.py: get_non_dominated, is_dominate")],
  "online oracle: ranking by repeated peeling; metamorphic invariances",
  "Exploration." + TRUST)

P("P05", "GD, IGD and their derivatives follow the definitions",
  "The generational distance of a set equals the power mean of the distances from its members to the reference set, the inverted one the corresponding mean of distances from the reference points to the set (or to the one-to-one matched targets), whether decision vectors or objective values are given. Away from ties of the nearest neighbours, the reported gradients and Hessians are the derivatives of the power of these values with the assignment of neighbours held fixed, with respect to the decision variables. Evaluations never influence later ones on the same indicator or on another indicator sharing the reference set.",
  ["inputs", "histories"], "all populations, reference sets (arrays, multi-component), exponents p (derivatives of IGD: p=2), smooth maps, evaluation histories",
  "tests check a few fixed arrays with p=2; other exponents, members without any assigned reference point and shared reference objects are not sampled",
  ["hvd/delta_p.py", "hvd/reference_set.py"],
  [("values and derivatives", "hvd/delta_p.py: GenerationalDistance, InvertedGenerationalDistance")],
  "online oracle: definitions and difference quotients; histories on shared objects",
  "Exploration; the IGD derivatives exist for p=2 only (documented restriction)." + TRUST)

P("P06", "MMD, matched MMD and their derivatives follow the definitions",
  "For every kernel and length scale, the maximum mean discrepancy of a set equals its definition (mean kernel within the reference, plus within the set, minus twice across), is non-negative and vanishes at the reference set; the matched variant equals the weighted spread term plus the mean squared kernel distance to the one-to-one targets. The reported gradients and Hessians are the derivatives of these values in objective space and, by the chain rule, in decision space, with targets held fixed. Answers depend only on the population and the current reference set.",
  ["inputs", "histories"], "all populations, reference sets, kernels (rbf, rational quadratic, laplace), length scales, smooth maps, evaluation histories",
  "tests use a single kernel and a few arrays; block Hessians have to be right for every pair of points",
  ["hvd/mmd.py", "hvd/reference_set.py"],
  [("kernel blocks and decision-space assembly", "hvd/mmd.py: MMD, MMDMatching, _assemble_decision_hessian")],
  "online oracle: closed-form kernels coded independently + finite differences of the object's own value",
  "Exploration." + TRUST)

P("P07", "Targets are matched optimally, kept, shifted as asked, and never aliased",
  "Matching selects as many targets as there are members, from the reference component the member belongs to, representing the data (medoids), and assigns them one-to-one with minimal total distance; later matches keep the selected targets and only re-assign them, and nothing changes while re-matching is switched off. Shifting moves exactly the requested targets (or, before any matching, all reference points) by the requested multiple of the component's direction, which by default is a unit vector without positive components orthogonal to the plane through the component's extreme points. The caller's data, other reference sets and global random state are never affected.",
  ["inputs", "histories"], "all reference data (one or several components, integer or float, duplicates), populations, partitions, and match/shift histories",
  "tests match once on fixed data; the bookkeeping between medoids, matched targets and components only shows in histories",
  ["hvd/reference_set.py", "hvd/utils.py"],
  [("matching", "hvd/reference_set.py: ReferenceSet.match, _match_components, _cluster"), ("shifting", "hvd/reference_set.py: ReferenceSet.shift, set_medoids"), ("direction", "hvd/utils.py: compute_chim")],
  "online trace checker over match/shift histories with optimal-assignment oracle",
  "Exploration." + TRUST)

P("P08", "A population state describes its own points, also after slicing and saving",
  "After any history of updating all points, updating one point, selecting a subset, copying or saving and loading, the decision points, multipliers, objective values, Jacobians, constraint values, constraint derivatives and active sets held by a population state are those of its current points. Selecting and copying give independent states, evaluation leaves the caller's arrays untouched, and evaluation counters equal the number of points evaluated. Loading what was saved gives back the same points, values, derivatives and counters.",
  ["inputs", "histories"], "all populations, constraint combinations and operation histories",
  "tests evaluate once; staleness and aliasing only show after mixed histories of partial updates and slicing",
  ["hvd/base.py"],
  [("cached evaluation", "hvd/base.py: State.update, update_one, __getitem__, save, load")],
  "online trace checker: every field re-evaluated after every operation of random histories",
  "Exploration." + TRUST)

P("P09", "Feasibility and KKT certificates are given exactly when they are true",
  "A member is reported feasible exactly when every equality holds within 1e-4 and no inequality is active or violated; equalities are always active and an inequality is active when its value exceeds -1e-4. The stationarity check certifies a member exactly when it is feasible and some convex combination of objective gradients plus multipliers (any sign for equalities, non-negative for active inequalities) vanishes within the tolerance. Invalid tolerances and missing derivatives are refused.",
  ["inputs"], "all numbers and values of constraints, gradients, tolerances",
  "tests contain a few hand-made certificates; soundness and completeness over all gradient configurations cannot be sampled by hand",
  ["hvd/base.py"],
  [("flags", "hvd/base.py: State.is_feasible, active_indices, check_KKT")],
  "online oracle: constructed certificates and an independent linear/quadratic program",
  "Exploration." + TRUST)

P("P10", "Each hypervolume Newton iteration is the documented Newton-KKT step",
  "In every iteration of the hypervolume Newton method, near-identical members are merged, feasible members are split into dominance layers (infeasible ones join the first), and each layer moves along the solution of its Newton-KKT system (gradient and Hessian of the layer's hypervolume, active constraints with their curvature, least squares if singular), scaled by one common step size found by step halving. Objective values, multipliers and logged indicator values correspond to the points. Runs that converge end at sets that are feasible and stationary for the hypervolume, and close to a regular solution the residual contracts quadratically.",
  ["inputs", "histories"], "all smooth problems with equality/inequality constraints, populations (feasible, infeasible, dominated, duplicate), options, iteration histories",
  "tests check final accuracy on a few benchmark problems; a wrong multiplier, layer or step size often still converges there",
  ["hvd/newton.py", "hvd/line_search.py", "hvd/base.py", "hvd/hypervolume_derivatives.py"],
  [("iteration", "hvd/newton.py: HVN.iterate, _compute_netwon_step, _compute_R, _check_population"), ("line search", "hvd/line_search.py")],
  "online reference-model checker run in lockstep with the optimiser",
  "Exploration; ill-conditioned systems (cond > 1e8) and near-tie decisions are only checked for the least-squares property." + TRUST)

P("P11", "Each Delta_p Newton iteration is the documented Newton-KKT step",
  "In every iteration of the Delta_p Newton method, the logged value is the larger of GD and matched IGD, all targets move once at the start and later exactly those whose member sits on them and has stopped, the larger of the two indicators is minimised, and every member moves along its own Newton-KKT step, projected so that it does not leave the box, with a step size found by backtracking. Targets stay fixed during the line search. Runs that converge end where no feasible direction brings a member closer to its target, and nearby starting points come back to it.",
  ["inputs", "histories"], "all smooth problems with constraints and boxes, populations, one- and multi-component reference sets, indicator types, iteration histories",
  "tests check final accuracy on few benchmark problems; wrong shifts, projections or step sizes often still converge there",
  ["hvd/newton.py", "hvd/delta_p.py", "hvd/reference_set.py"],
  [("iteration", "hvd/newton.py: DpN.newton_iteration, _compute_netwon_step, _shift_reference_set, _handle_box_constraint, _backtracking_line_search")],
  "online reference-model checker run in lockstep with the optimiser",
  "Exploration; ill-conditioned systems (cond > 1e8) and near ties are skipped and counted." + TRUST)

P("P12", "Each MMD Newton iteration is the documented Newton-KKT step",
  "In every iteration of the MMD Newton method, with or without matching, the logged value is the indicator of the population before the step; all targets move once at the start and later exactly those whose member sits on them and has stopped (the whole set, without matching), and the population moves along the joint Newton-KKT step of the (matched) MMD with a common step size found by step halving with targets held fixed. Objective values and multipliers correspond to the points. Runs that converge end at sets that are stationary for the MMD and satisfy the equalities.",
  ["inputs", "histories"], "all smooth problems with constraints, populations, reference sets (also smaller than the population without matching), kernels, iteration histories",
  "tests check final accuracy on few benchmark problems",
  ["hvd/mmd_newton.py", "hvd/mmd.py", "hvd/reference_set.py"],
  [("iteration", "hvd/mmd_newton.py: MMDNewton.newton_iteration, _compute_netwon_step, _shift_reference_set, _backtracking_line_search_global")],
  "online reference-model checker run in lockstep with the optimiser",
  "Exploration; ill-conditioned systems and populations outside the kernel's range are skipped and counted. Constraint curvature is not part of the method (quasi-Newton)." + TRUST)

P("P13", "Line searches accept the first admissible step of the documented backtracking",
  "The step size used in every iteration is the one the documented backtracking yields. For HVN layers and MMDNewton: trial steps start at the largest admissible step and are halved at most 6 times; the first with sufficient decrease of the (common) KKT residual norm is taken, else the smallest. For DpN, per member: the full admissible step if it decreases that member's residual sufficiently, else successive contractions by a factor between 0.4 and 0.6, at most 8. Targets do not move during a search, and a search leaves the optimiser's state as it was.",
  ["inputs", "histories"], "all merit functions (also non-finite values), step directions, populations, layers and iteration histories",
  "tests never observe the accepted step sizes; a search that accepts too early or too late still converges on smooth benchmark problems",
  ["hvd/line_search.py", "hvd/newton.py", "hvd/mmd_newton.py"],
  [("routine", "hvd/line_search.py"), ("DpN", "hvd/newton.py: DpN._backtracking_line_search"), ("MMD", "hvd/mmd_newton.py: _backtracking_line_search_global")],
  "online reference-model checker (accepted step vs the backtracking sequence recomputed from the residual)",
  "Exploration; decisions within rounding of the acceptance threshold are skipped and counted." + TRUST)

P("P14", "Optimisers keep every evaluated point finite and inside the box",
  "Starting populations are clipped into the box (sampled ones lie in it), and from then on the Delta_p Newton method, the hypervolume Newton method with limited step size, and Lara never evaluate or hold a point outside the box or a non-finite one. Members at a bound can slide along it: a blocked component does not freeze the free ones, and a limited hypervolume step takes at most a quarter of the way to the closest bound.",
  ["inputs", "histories"], "all problems, boxes (also degenerate or one-sided active), starting populations inside, on and outside the box, iteration histories",
  "a single evaluation outside the box needs a specific corner and direction; tests look at final points only",
  ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py", "hvd/utils.py"],
  [("box", "hvd/newton.py: DpN._handle_box_constraint, HVN._handle_box_constraint, X setter; hvd/gradient_based.py; hvd/utils.py: handle_box_constraint, get_step_size_interval")],
  "runtime monitor on every evaluation (hooked user callbacks) and on every iterate",
  "Exploration." + TRUST)

P("P15", "Runs are deterministic, isolated from their caller, and keep honest books",
  "Given the initial population a run repeats bit for bit: it does not depend on the global random state, on other optimiser objects advanced in between, on whether it is driven by run() or stepped by hand, or on whether the population came as a list or an array; deep copies continue like the original without touching it, and the caller's arrays are never altered. run() makes exactly the budgeted number of iterations, reports that number, returns the current population and does not continue a finished run. Every history and every user metric has one entry per iteration, an unaliased snapshot of that iteration's population, its objective values, and the metric of exactly those values.",
  ["inputs", "histories", "schedules"], "all optimisers, option combinations, interleavings of several runs, verbose/quiet",
  "tests run one optimiser once and look at its result",
  ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py", "hvd/base.py"],
  [("bookkeeping", "hvd/newton.py: HVN.run/newton_iteration/log/terminate; DpN; hvd/mmd_newton.py; hvd/gradient_based.py")],
  "offline checker over recorded histories; differential replay of runs; hooked callbacks",
  "Exploration." + TRUST)

P("P16", "Regularisation and the packing/reflection helpers do exactly what they promise",
  "Hessian preconditioning returns positive definite matrices unchanged and otherwise adds a multiple of the identity, at most about twice what is needed, that makes the matrix positive definite, without touching its argument. Packing primal-dual matrices into stacked vectors (all primal parts, then the active multipliers row by row) and back is a round trip for every pattern of active constraints. Reflection folds points back into the box like a mirror and leaves interior points and unbounded coordinates alone. Bounds given as a number, string, one-element or full sequence mean one bound per variable; a wrong length is refused.",
  ["inputs"], "all symmetric matrices (any inertia, scales up to about 1e6), shapes, points and boxes",
  "tests do not call these helpers directly; wrong inertia handling shows only on rare indefinite Hessians",
  ["hvd/utils.py", "hvd/newton.py", "hvd/mmd_newton.py", "hvd/base.py"],
  [("helpers", "hvd/utils.py: precondition_hessian, handle_box_constraint, set_bounds; hvd/newton.py/mmd_newton.py: primal-dual packing")],
  "property monitor with independent oracles (eigenvalues, mirror map, round trips)",
  "Exploration; preconditioning is limited to 45 doublings from 1e-6 by design." + TRUST)

P("P23", "Lara moves along the documented descent and uniformity directions",
  "In every iteration Lara merges near-identical members, moves each one along the sum of its normalised negative objective gradients (a stationary objective contributes nothing) with the components pointing out of the box at an active bound dropped, and uses one common step length: the largest in [0, 1] that keeps all members in the box. With two objectives such a step increases neither of them to first order.",
  ["inputs", "histories"], "all smooth box-constrained problems with two objectives, populations, iteration histories",
  "tests run Lara on one benchmark problem",
  ["hvd/gradient_based.py"],
  [("iteration", "hvd/gradient_based.py: Lara")],
  "online reference-model checker run in lockstep with the optimiser",
  "Exploration." + TRUST)

P("P17", "Problem derivatives are the derivatives of the problem's functions",
  "For every benchmark problem, every number of variables and objectives, every bounds setting and every interior point at which the functions are differentiable, the Jacobians and Hessians of the objectives and of the equality and inequality constraints equal the derivatives of the values the problem itself reports, have the documented shapes (Hessians symmetric), and agree between single-point and batched evaluation. Where box constraints are turned into inequality constraints these follow the problem's own constraints, lower bounds first. Answers do not depend on what was evaluated before, on other instances, or on what callers do with returned arrays.",
  ["inputs", "histories"], "all problem classes (ZDT, DTLZ and variants, UF, CF, WFG, misc), dimensions, bounds, interior points, evaluation histories",
  "tests evaluate a few problems at one or two points, mostly checking shapes",
  ["hvd/problems/base.py", "hvd/problems/zdt.py", "hvd/problems/dtlz.py", "hvd/problems/eqdtlz.py", "hvd/problems/cf.py", "hvd/problems/uf.py", "hvd/problems/wfg.py", "hvd/problems/misc.py"],
  [("automatic differentiation, batching, constraint assembly", "hvd/problems/base.py: MOP, CMOP"), ("differentiable formulations", "hvd/problems/*.py")],
  "online oracle: difference quotients of the problem's own values, single vs. batched, histories",
  "Exploration; kinks are detected by disagreeing step sizes and not judged." + TRUST)

P("P18", "Benchmark problems compute the functions they are named after",
  "For every benchmark problem, every admissible number of variables and objectives, all bounds and every point of the box including bounds and corners, the objective values and the equality and inequality constraint values (sign: feasible means h = 0 and g <= 0) are those of the published definition (ZDT, DTLZ1-7 with the inverted and equality-constrained variants, UF1-10, CF1-10, WFG1-9, and the miscellaneous problems), for single points and batches alike, and the documented default bounds and sizes are used.",
  ["inputs"], "all problem classes, dimensions (odd and even), custom bounds, points",
  "tests compare a handful of points of some problems with recorded numbers",
  ["hvd/problems/zdt.py", "hvd/problems/dtlz.py", "hvd/problems/eqdtlz.py", "hvd/problems/cf.py", "hvd/problems/uf.py", "hvd/problems/wfg.py", "hvd/problems/misc.py"],
  [("definitions", "hvd/problems/*.py: _objective, ieq_constraint, eq_constraint")],
  "online oracle: every problem written down a second time from the papers (plain numpy)",
  "Exploration; the documented smoothing of roots at 0 (ZDT1/3/4/6) is tolerated, DTLZ6's is excluded." + TRUST)

P("P19", "Reported Pareto fronts and sets are the problems' Pareto fronts and sets",
  "For every benchmark problem that offers a Pareto front, every admissible size and number of points: its points are finite, lie on the published front, are mutually non-dominated, are attained by feasible decision vectors, leave no part of the front uncovered, and are dominated by no feasible point. For every problem that offers a Pareto set: its points lie in the box, are feasible, map onto that front and do not dominate each other.",
  ["inputs"], "all problem classes with a front or set, dimensions, numbers of points, random sets; feasible points sampled in the box and around the set",
  "tests look at the shape of a few fronts",
  ["hvd/problems/zdt.py", "hvd/problems/dtlz.py", "hvd/problems/eqdtlz.py", "hvd/problems/cf.py", "hvd/problems/uf.py", "hvd/problems/wfg.py", "hvd/problems/misc.py", "hvd/problems/utils.py"],
  [("fronts and sets", "hvd/problems/*.py: get_pareto_front, get_pareto_set")],
  "online oracle: implicit equations of the fronts, published Pareto sets, sampled attempts to dominate the front",
  "Exploration; DTLZ5-7 fronts need the network and are not judged; coverage leaves out the flat extremes of WFG fronts and the arc f1=0 of CF9/10; listed findings for IDTLZ2-4, WFG1, WFG2." + TRUST)

P("P20", "The adapters to and from pymoo preserve the problem",
  "A problem handed to pymoo through the adapter has the same sizes, bounds, constraint counts, objective and constraint values and fronts, for single points and populations, at every evaluation of a run. A pymoo problem handed to the library (population-wise or element-wise, with or without constraints) keeps its values, gets correct derivatives and, on request, box constraints; native problems are passed through unchanged; what cannot be differentiated or is no problem is refused. The named-problem factory gives the published problem for every supported name, refuses unknown names, and never changes pymoo's backend setting or already loaded modules. The modified-objective wrapper replaces f_i by (1-a) f_i + a mean(f) and keeps the constraints.",
  ["inputs", "histories"], "all problem classes, random user-written pymoo problems, supported names and arguments, histories of backend and import states, NSGA-II runs",
  "tests convert a few problems; import-order and backend histories are not sampled",
  ["hvd/problems/base.py", "hvd/problems/_pymoo_factory.py", "hvd/problems/_pymoo_wrapper.py", "hvd/problems/misc.py"],
  [("adapters", "hvd/problems/base.py: as_pymoo_problem, PymooProblemWithAD; hvd/problems/_pymoo_wrapper.py"), ("named problems", "hvd/problems/_pymoo_factory.py: get_pymoo_problem")],
  "online oracle: independent definitions; hooks on every evaluation of real pymoo runs; history checker in subprocesses",
  "Exploration; pymoo problems without bounds are not judged." + TRUST)

P("P21", "Reference sets are generated evenly, and bootstrapping rebuilds them as asked",
  "The reference-set generator returns exactly the number of points asked for, lying on the polylines through the components of a two-objective front, distributed over the components in proportion to their lengths, evenly spaced by arc length from end to end. The shift direction is the unit vector perpendicular to the hyperplane through the individual minima pointing towards the ideal point; the outlier filter keeps exactly the mutually non-dominated inliers and keeps points and images together. Bootstrapping rebuilds the reference set of a running optimiser after every given number of iterations, and only then, from the relaxed current population (its members drawn a little towards their mean), refilled and shifted as asked; the books of the run stay complete, and the returned result is a selection of at most N of the non-dominated inliers among the last populations.",
  ["inputs", "histories"], "all disconnected two-objective fronts, clustering parameters, numbers of points; optimiser runs with and without matching",
  "tests run the generator on one front and never run the bootstrapping",
  ["hvd/rsg.py", "hvd/bootstrap.py"],
  [("filling", "hvd/rsg.py: RSG, interpolate_tst"), ("bootstrapping", "hvd/bootstrap.py: bootstrap_reference_set, compute_chim, filter_outliers")],
  "online oracle (polyline geometry, arc length, outlier recomputation); run monitor hooked at every iteration",
  "Exploration; two objectives only (the generator's restriction)." + TRUST)

P("P22", "The evolutionary algorithms select and replace as documented",
  "SMS-EMOA's survival returns exactly the number of survivors asked for, prefers feasible members and better fronts, and from the last accepted front repeatedly removes the least hypervolume contributor (exactly in two objectives, by sampling above); the sampled contributions agree with the exact volumes within sampling error, also after deletions; the tournament prefers the smaller constraint violation, then dominance. In every generation of a run the survivors are chosen from parents and offspring, population size and box are kept, and values belong to their points. The constraint-aware MOEA/D makes one offspring per direction in each generation and replaces a neighbour only if the offspring is better by the documented rule (violations first beyond the shrinking tolerance, then the decomposed value); without constraints it equals MOEA/D.",
  ["inputs", "histories"], "all populations (layers, duplicates, infeasible members), 2-4 objectives, whole runs with random settings",
  "tests run each algorithm once and look at the shape of the result",
  ["hvd/moea/sms_emoa.py", "hvd/moea/moead.py"],
  [("survival, tournament, run", "hvd/moea/sms_emoa.py: LeastHypervolumeContributionSurvival, cv_and_dom_tournament, SMSEMOA"), ("replacement", "hvd/moea/moead.py: ConstraintAwareMOEAD")],
  "online oracle (peeling, exact contributions, exact volumes); run monitors in lockstep; differential runs against pymoo's MOEA/D",
  "Exploration." + TRUST)

P("P24", "Optimisers depend on callbacks only through their values",
  "Handing an optimiser the same functions in any accepted form (plain functions, methods with or without population-wise companions, callable objects, partials; returning arrays, read-only or remembered arrays, JAX arrays, lists, integers, or scalars for a single constraint) gives the same run with the same evaluation counters. Methods are called on the very object they belong to, point functions with single points and population functions with populations, and what they return is never written to. On every benchmark problem, handed over directly, every iteration keeps objective, constraint and derivative values in step with the points, bounds (where an optimiser promises them) and budgets hold, the problem object is not altered, its derivative clock only runs forward, and the iteration is that of the same functions wrapped row by row.",
  ["inputs", "histories"], "all forms of callbacks, four optimisers, constrained and unconstrained problems, all benchmark classes",
  "tests hand over one form per optimiser",
  ["hvd/base.py", "hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py", "hvd/problems/base.py", "hvd/utils.py"],
  [("evaluation", "hvd/base.py: State.evaluate, _get_batch_variant, update, update_one"), ("derivative clock", "hvd/utils.py: timeit; hvd/problems/base.py")],
  "differential runs (forms of callbacks, native against row-wise), recorded calls, recomputation on a second problem instance",
  "Exploration." + TRUST)

P("P25", "Saved populations and reference sets are read back consistently",
  "Reading what an evolutionary run saved returns exactly the saved members with a positive cluster label (outliers removed), decision vectors, objective vectors and clusters staying together; every saved reference component complete, or 3000 distinct points of it when it has that many; one shift direction per component, that of the previous component where a file is missing, and none at all when the first is missing or one is undefined. Components are merged into one, without directions, exactly when the population has more clusters than there are components or a cluster exceeds the smallest component; then no more members than reference points are kept. The files stay as they were.",
  ["inputs"], "saved runs with any number of components, clusters, outliers, sizes, missing or undefined directions, merged or not, and matching with the result",
  "no test reads saved runs",
  ["scripts/utils.py", "hvd/reference_set.py"],
  [("reader", "scripts/utils.py: read_reference_set_data")],
  "model of the saved files compared with what is read back",
  "Exploration." + TRUST)

P("P26", "A benchmark problem is configured as asked, or refused",
  "Every benchmark problem class, built with any sizes, bounds (scalars, lists, arrays, left out), boundary constraints, scale and exponent, by position or keyword, either refuses a configuration it is not defined for (sizes that are not positive integers, too few variables, inconsistent WFG parameters, bounds of the wrong shape or reversed) or yields an instance whose sizes, bounds, constraint counts, values, boundary constraints and front are those of the asked configuration. Fixed sizes that are supplied are ignored with a warning. The instance keeps its own bounds: later changes to the caller's arrays, other instances and the class's defaults do not interact. User-defined subclasses and modified objectives obey the same contract.",
  ["configurations", "histories"], "all classes, valid and invalid arguments in every form, several instances and reused argument arrays",
  "tests build a few configurations",
  ["hvd/problems/base.py", "hvd/problems/zdt.py", "hvd/problems/dtlz.py", "hvd/problems/cf.py", "hvd/problems/uf.py", "hvd/problems/wfg.py", "hvd/problems/misc.py"],
  [("constructors", "hvd/problems/base.py: MOP.__init__, CMOP.__init__, fixed_n_obj, require_n_var, add_boundary_constraints"), ("modified objectives", "hvd/problems/misc.py: ModifiedObjective")],
  "independent table of admissible configurations and of the published formulas",
  "Exploration." + TRUST)

P("P27", "Everything is computed in double precision, whatever is imported first",
  "Whatever the order in which the package, its submodules, jax and pymoo are imported, whether jax was used before, and whatever JAX_ENABLE_X64 says, problem functions, their Jacobians and Hessians and the indicators' values and derivatives are computed in double precision and equal those of a process that imports the package first.",
  ["configurations", "histories"], "import orders, entry modules, environment, jax used before or not",
  "the tests import the package once, first",
  ["hvd/__init__.py", "hvd/problems/base.py", "hvd/mmd.py"],
  [("switch", "hvd/__init__.py")],
  "differential execution in fresh interpreters",
  "Exploration." + TRUST)

# --- more properties are appended above this line


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["row"]) + "\n")
    man = dict(
        version=1,
        setup_cmd="bash setup.sh",
        checks=[
            dict(
                property=p["row"]["id"], quick_cmd=f"./check {p['row']['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['row']['id']}",
                technique=p["technique"], level="exploration", level_note=p["note"],
            )
            for p in PROPS
            if p["row"]["id"] not in [n["property"] for n in NOT_APPLICABLE]
        ],
        not_applicable=NOT_APPLICABLE,
        notes="No hooks are compiled into /repo: the library is plain Python, monitors wrap the user's callbacks and read public attributes.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
