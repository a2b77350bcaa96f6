"""Writes /verif/properties.jsonl (kept as a script so that the long text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "optimistix/_solver/"

p("C01", "Solve loop: step accounting, result codes and throw semantics",
  "For every solver that implements the public solver interface, a solve takes at most `max_steps` steps, counts them in its stats, reports success exactly when the solver asked to stop without reporting a problem and everything stayed finite, reports `nonlinear_max_steps_reached` exactly when it ran out of steps, and otherwise surfaces the solver's own failure code and stops. "
  "With `throw=True` an error is raised exactly when the result is not success, and with `throw=False` nothing is raised and the returned numbers are the same. "
  "This holds for all four entry points and for both built-in adjoints.",
  ["histories", "inputs", "configurations"],
  "all histories (up to the unrolling bound) of an arbitrary solver's step/terminate answers, including failure codes and non-finite iterates at any step; all entry points; both adjoints; throw on/off",
  "Tests run well-behaved solvers on convergent problems and look at the final value; the interleavings of terminate/failure/non-finite/step-limit events are not enumerated.",
  ["optimistix/_iterate.py", "optimistix/_adjoint.py", "optimistix/_solution.py", "optimistix/_minimise.py", "optimistix/_least_squares.py", "optimistix/_root_find.py", "optimistix/_fixed_point.py"],
  [("solve loop", "optimistix/_iterate.py:_iterate"), ("throw", "optimistix/_iterate.py:iterative_solve")],
  ["Solution.result", "Solution.stats", "raised error"])

p("C02", "A solve that reports success never returns a non-finite value",
  "Whenever a built-in solver's solve reports success, every element of the returned value is finite, even if the user function returns NaN or infinity at any of the points it is evaluated at (in its value or in its derivative). "
  "In particular a trial point at which the objective is NaN or +infinite is never accepted by a backtracking search, or by a trust-region search that predicts a decrease, after the first step.",
  ["fault_sequences", "inputs"],
  "user functions that return NaN/+inf/-inf in any subset of their evaluations; all starting points",
  "Tests only use functions that are finite on the whole path (one test starts from NaN).",
  ["optimistix/_iterate.py", S+"backtracking.py", S+"trust_region.py", S+"newton_chord.py", S+"fixed_point.py", S+"gradient_methods.py", S+"gauss_newton.py", S+"quasi_newton.py", "optimistix/_misc.py"],
  [("finite check", "optimistix/_iterate.py:_iterate"), ("acceptance test", S+"backtracking.py"), ("acceptance test", S+"trust_region.py"), ("termination test", "optimistix/_misc.py:cauchy_termination")],
  ["Solution.result", "Solution.value"])

p("C03", "Success means the documented convergence test held",
  "If a gradient-based minimiser, a Gauss-Newton-type least-squares solver, an Optax wrapper, a fixed-point iteration or a (Cauchy-terminated) Newton/chord root-find reports success, then in the chosen norm its last step is smaller than `atol + rtol*|y|` and the accompanying change in function value (for root finding: the function value itself; for fixed points: the step is `fn(y)-y`) is below its tolerance too, elementwise scaled as documented. "
  "Conversely it does not keep iterating past a step that satisfies the test.",
  ["inputs", "histories"],
  "all tolerances, all starting points, all user functions (arbitrary values and derivatives at the visited points), all three norms",
  "Tests check closeness to known minima at one tolerance; a wrong scaling, norm or comparison still converges on the test problems.",
  ["optimistix/_misc.py", S+"gauss_newton.py", S+"gradient_methods.py", S+"quasi_newton.py", S+"newton_chord.py", S+"fixed_point.py", S+"optax.py"],
  [("tolerance test", "optimistix/_misc.py:cauchy_termination"), ("termination", S+"newton_chord.py"), ("termination", S+"fixed_point.py")],
  ["Solution.result", "Solution.value", "Solution.stats"])

p("C04", "Root-finding via other solvers succeeds only near a root",
  "When `root_find` is given a minimiser or least-squares solver and reports success, the norm of the user function at the last evaluated iterate is below `atol`. "
  "The auxiliary output it returns is the user's own auxiliary output, and the objective handed to the solver is zero exactly at the roots of the user function.",
  ["inputs", "configurations"],
  "all user functions, starting points and tolerances; minimisers and least-squares solvers; with and without auxiliary output",
  "Tests use two problems, one solvable and one not.",
  ["optimistix/_root_find.py", "optimistix/_minimise.py", "optimistix/_least_squares.py"],
  [("near-zero condition", "optimistix/_root_find.py:_ToRoot.terminate"), ("objective", "optimistix/_root_find.py:_to_minimise_fn")],
  ["Solution.result", "Solution.value", "Solution.aux"])

p("C05", "Bisection keeps a sign-changing bracket and halves it",
  "If the user function has opposite (nonzero) signs at the two ends of the interval, then at every step bisection's current interval still has opposite signs at its ends, its next point is the midpoint of that interval, and each step from inside the interval at least halves the part that contains it so that after k steps the answer is within the initial width/2^k of a sign change; success is reported only once both the interval width and the function value are within tolerance. "
  "If the signs are equal the solve raises an error, unless expansion is enabled, in which case a monotone function's interval is moved/expanded until it brackets the root. "
  "All of this holds equally for increasing and decreasing functions.",
  ["inputs", "histories"],
  "all functions (arbitrary values at visited points), all intervals, all starting points, all tolerances, up to the unrolling bound in steps",
  "Tests run linear functions x and -x on a handful of integer intervals.",
  [S+"bisection.py"],
  [("bracket update", S+"bisection.py:Bisection.step"), ("expansion", S+"bisection.py:Bisection.init"), ("termination", S+"bisection.py:Bisection.terminate")],
  ["Solution.value", "Solution.state", "Solution.result"])

p("C06", "Golden-section search stays inside and shrinks its bracket",
  "Every point at which golden-section search evaluates the objective lies inside the user-supplied interval [lower, upper], its interval shrinks by the golden ratio per evaluation after start-up, and it always retains the best evaluated interior point. "
  "Hence for a unimodal function the minimiser always remains inside the current interval, and success is reported only when the interval satisfies the documented tolerance.",
  ["inputs", "histories"],
  "all intervals lower<upper (including lower != 0), all objective values at visited points, all starting points and tolerances, up to the unrolling bound in steps",
  "Tests use a few fixed intervals and look only at the converged answer.",
  [S+"golden.py"],
  [("initial middle point", S+"golden.py:GoldenSearch.init"), ("bracket update", S+"golden.py:GoldenSearch.step")],
  ["Solution.value", "Solution.state", "points where fn is evaluated"])

p("C07", "Newton and chord steps: exact update, bounds, termination",
  "Each Newton step moves from y to y - J(y)^-1 f(y), and each chord step to y - J(y0)^-1 f(y), clipped elementwise into the optional lower/upper bounds, for any pytree-structured problem. "
  "A failure of the linear solve is reported as the result of the solve rather than as success, and in the rate-based termination mode success requires the contraction-rate error estimate to be below its threshold (or the step to be negligible) while a rate outside the convergent range is reported as divergence.",
  ["inputs", "configurations", "fault_sequences"],
  "all function values and Jacobians at visited points, all bounds, tolerances, linear-solver outcomes (success/failure), both termination modes",
  "Tests check convergence on smooth problems with default settings; wrong clipping, stale Jacobians or ignored linear-solver failures converge as well.",
  [S+"newton_chord.py", "optimistix/_misc.py"],
  [("update", S+"newton_chord.py:_NewtonChord.step"), ("termination", S+"newton_chord.py:_NewtonChord.terminate")],
  ["Solution.value", "Solution.result"])

p("C08", "Fixed-point iteration follows the (damped) map exactly",
  "After k steps fixed-point iteration has applied the user's map exactly k times to y0, blending old and new values by the documented damping factor, and reports success exactly when the relative/absolute difference between an iterate and its image is below tolerance in the chosen norm. "
  "The same holds for pytrees and for every norm, and when a root-finder, least-squares solver or minimiser is used on a fixed-point problem it is solving fn(y) - y = 0.",
  ["inputs", "histories", "configurations"],
  "all maps (arbitrary values at visited points), starting points, damping factors, tolerances, up to the unrolling bound in steps",
  "Tests run a few contractive maps to convergence.",
  [S+"fixed_point.py", "optimistix/_fixed_point.py"],
  [("update and error", S+"fixed_point.py"), ("conversion", "optimistix/_fixed_point.py:_ToRootFn")],
  ["Solution.value", "Solution.result", "Solution.stats"])

p("C09", "Backtracking line search enforces sufficient decrease",
  "After the first evaluation, a backtracking search accepts a trial point exactly when the objective there is at most f(y) + slope * grad.(trial - y) and that predicted change is not positive; on acceptance the next step size is the initial step size, on rejection it is the current one times the decrease factor. "
  "Consequently, for every solver that uses it, the objective along the accepted iterates never increases.",
  ["inputs", "histories", "configurations"],
  "all objective values and gradients at visited points; all search parameters in their legal ranges; minimisers (dense and limited-memory quasi-Newton, nonlinear CG, gradient) and least-squares objectives; up to the unrolling bound in steps",
  "Tests check convergence only; accepting slightly-increasing steps or mis-scaling the slope still converges on the test problems.",
  [S+"backtracking.py", "optimistix/_search.py", S+"quasi_newton.py", S+"gradient_methods.py", S+"gauss_newton.py", S+"limited_memory_bfgs.py", S+"nonlinear_cg.py"],
  [("acceptance", S+"backtracking.py:BacktrackingArmijo.step"), ("directional derivative", "optimistix/_search.py:FunctionInfo.*.compute_grad_dot")],
  ["search.step outputs", "Solution.value"])

p("C10", "Trust-region searches accept and resize as documented",
  "With predicted change p<0 (quadratic model for the classical search, linear model for the linear one) and actual change d of the objective, a trust-region search accepts after the first evaluation exactly when d <= low_cutoff*p, multiplies the step size by high_constant when additionally d < high_cutoff*p, by low_constant on rejection, and by 1 otherwise. "
  "The predicted change equals the documented model for every kind of derivative information (gradient, gradient+Hessian, residual+Jacobian), so that solvers using it never accept an increase of the objective when the model predicts a decrease.",
  ["inputs", "configurations"],
  "all objective values, gradients, Hessians, residuals, Jacobians, displacements, step sizes and legal parameters",
  "Tests check convergence only.",
  [S+"trust_region.py", "optimistix/_search.py"],
  [("acceptance and resize", S+"trust_region.py:_AbstractTrustRegion.step"), ("models", S+"trust_region.py:ClassicalTrustRegion.predict_reduction")],
  ["search.step outputs", "Solution.value"])

p("C11", "Search-driven solvers move on accept and stay put on reject",
  "For gradient-based minimisers and Gauss-Newton-type solvers, an accepted step moves the iterate exactly to the trial point at which the function was just evaluated, and a rejected one leaves the iterate, its recorded objective/derivative information and convergence status unchanged (only the search's step size changes). "
  "The next trial point is always the current iterate plus the descent direction scaled by the search's current step size, using derivatives taken at the current iterate.",
  ["inputs", "histories", "configurations"],
  "all function values and derivatives at visited points, arbitrary accept/reject decisions of the search and arbitrary step sizes, all built-in descents, up to the unrolling bound in steps",
  "The accept/reject interleavings seen in tests are those of convergent runs, and a stale gradient or a moved iterate after a rejection does not prevent convergence there.",
  [S+"gradient_methods.py", S+"gauss_newton.py", S+"quasi_newton.py"],
  [("accepted/rejected branches", S+"gradient_methods.py:AbstractGradientDescent.step"), ("accepted/rejected branches", S+"gauss_newton.py:AbstractGaussNewton.step"), ("accepted/rejected branches", S+"quasi_newton.py:AbstractQuasiNewton.step")],
  ["Solution.value", "points where fn is evaluated", "Solution.stats"])

p("C12", "Newton-type descents solve their defining linear systems",
  "The Newton descent's full step d satisfies H d = -g (or, for least squares, the normal equations J^T J d = -J^T r), the damped Newton descent's step satisfies (H + lambda I) d = -g (or (J^T J + lambda I) d = -J^T r) with lambda = 1/step size, and steepest descent's step is a negative multiple of the gradient; requesting a step-size-normalised variant yields a step of exactly the requested norm in the same direction. "
  "Exact answers hold for Hessian, inverse-Hessian and Jacobian information alike and for pytree-structured problems, and linear-solver failures are passed on.",
  ["inputs", "configurations"],
  "all gradients, Hessians, inverse Hessians, residuals, Jacobians and step sizes in small dimensions; linear solver assumed to meet its contract (arbitrary solution of the stated system, or failure)",
  "Tests only see the end result of whole solves, which tolerate wrong damping or scaling.",
  [S+"gauss_newton.py", S+"levenberg_marquardt.py", S+"gradient_methods.py"],
  [("Newton step", S+"gauss_newton.py:newton_step"), ("damped step", S+"levenberg_marquardt.py:damped_newton_step"), ("steepest descent", S+"gradient_methods.py:SteepestDescent")],
  ["descent.query/step outputs"])

p("C13", "Dogleg steps stay on the dogleg path inside the trust region",
  "The dogleg descent's step always lies on the path 0 -> Cauchy point -> Newton point, is the full Newton step when the step size is at least 1, and otherwise has norm equal to the trust-region radius (step size times the Newton step's norm) unless the path ends earlier; it is finite whenever the Cauchy and Newton points are. "
  "The predicted quadratic model at the step is never above its value at zero.",
  ["inputs"],
  "all gradients, Hessians/Jacobians (positive definite), step sizes, in small dimensions; Euclidean trust region",
  "Tests only check convergence; degenerate geometry (e.g. a root of the interpolation quadratic at zero) is not hit.",
  [S+"dogleg.py"],
  [("path interpolation", S+"dogleg.py:DoglegDescent.step"), ("Cauchy point", S+"dogleg.py:DoglegDescent.query")],
  ["descent.step output"])

p("C14", "Quasi-Newton updates satisfy secant, symmetry, positivity",
  "After an accepted step with positive curvature, BFGS's and DFP's updated Hessian B satisfies B s = y (inverse version: H y = s), is symmetric, equals the textbook rank-two update of the previous matrix and stays positive definite if it was; when curvature is not positive the matrix is left unchanged. "
  "The direct and inverse variants stay inverse to each other, and the very first matrix is the identity.",
  ["inputs", "histories", "configurations"],
  "all symmetric positive definite matrices, steps and gradients in small dimensions, arrays and multi-leaf pytrees; direct and inverse forms; BFGS and DFP",
  "A broken update only slows convergence; tests compare converged values.",
  [S+"quasi_newton.py"],
  [("BFGS update", S+"quasi_newton.py:AbstractBFGS"), ("DFP update", S+"quasi_newton.py:AbstractDFP"), ("curvature guard", S+"quasi_newton.py")],
  ["update_hessian output"])

p("C15", "L-BFGS operators equal the dense limited-memory matrix",
  "After any sequence of updates, L-BFGS's inverse-Hessian operator applied to any vector equals the dense BFGS recursion over the last `history_length` accepted curvature pairs (oldest first) started from the scaled identity, and its direct-Hessian operator is the inverse of that. "
  "Pairs with non-positive curvature are skipped without disturbing the stored ones, wrap-around of the history included.",
  ["histories", "inputs", "configurations"],
  "all sequences of steps/gradients up to a bound exceeding the history length, skip patterns included, in small dimensions; arrays and multi-leaf pytrees",
  "Tests build random histories directly in the private state and compare operators; they do not exercise the update/ring-buffer sequence or skipped pairs.",
  [S+"limited_memory_bfgs.py"],
  [("two-loop operator", S+"limited_memory_bfgs.py:_lbfgs_inverse_hessian_operator_fn"), ("compact operator", S+"limited_memory_bfgs.py:_lbfgs_hessian_operator_fn"), ("ring buffer", S+"limited_memory_bfgs.py:AbstractLBFGS.update_hessian")],
  ["update_hessian output", "operator.mv"])

p("C16", "Nonlinear CG directions: textbook coefficients, always descent",
  "The nonlinear-CG direction is -g + beta*d_prev with beta the textbook Polak-Ribiere(+), Fletcher-Reeves, Hestenes-Stiefel or Dai-Yuan coefficient (zero on the first step and when its denominator vanishes), falling back to -g whenever that would not be a descent direction. "
  "So the direction is always a descent direction when the gradient is nonzero, Hestenes-Stiefel directions (when kept) are conjugate to the gradient change, and on an exact line search over a quadratic all four coefficients agree.",
  ["inputs", "configurations"],
  "all current/previous gradients and previous directions in small dimensions; all four methods; up to the unrolling bound in steps",
  "Tests run each method to convergence on one quadratic; the steepest-descent fallback hides a wrong coefficient.",
  [S+"nonlinear_cg.py"],
  [("coefficients", S+"nonlinear_cg.py"), ("fallback", S+"nonlinear_cg.py:NonlinearCGDescent.query")],
  ["descent.query/step outputs", "public beta functions"])

p("C17", "Nelder-Mead keeps a consistent simplex and returns its best",
  "At every step Nelder-Mead's recorded objective values are those of its simplex vertices, the best value never increases, the iterate it returns is a vertex attaining the best value, and each vertex move is a reflection, expansion, contraction or shrink of the previous simplex in the documented way. "
  "The automatically built initial simplex has the starting point as a vertex and each other vertex offset along its own coordinate by the documented amount (hence non-degenerate), for arrays and pytrees of any size.",
  ["inputs", "histories"],
  "all objective values at visited points, starting points and simplices in small dimensions, up to the unrolling bound in steps",
  "Tests check convergence on 2-4 dimensional problems to loose tolerance, where a degenerate or mis-indexed simplex can still succeed.",
  [S+"nelder_mead.py"],
  [("initial simplex", S+"nelder_mead.py:NelderMead.init"), ("move selection", S+"nelder_mead.py:NelderMead.step")],
  ["Solution.value", "Solution.state", "points where fn is evaluated"])

p("C18", "Best-so-far wrappers return the best point visited",
  "A best-so-far wrapper returns, with its own auxiliary output, a point whose loss (objective, half sum of squares, residual size or fixed-point defect, by problem kind) is the minimum over every iterate a step of the wrapped solver started from, the starting point included (the point produced by the very last step is never evaluated); NaN and +infinite losses never count as best. "
  "Wrapping changes neither the iterates nor when the solve stops nor its result code.",
  ["inputs", "histories", "configurations"],
  "all histories of iterates, objective values (NaN/inf included) and auxiliary outputs of an arbitrary wrapped solver and of the built-in ones, up to the unrolling bound in steps",
  "Tests check monotone convergent runs, where the last iterate is the best anyway.",
  [S+"best_so_far.py"],
  [("record keeping", S+"best_so_far.py:_AbstractBestSoFarSolver.step"), ("last point", S+"best_so_far.py:_AbstractBestSoFarSolver.postprocess")],
  ["Solution.value", "Solution.aux", "Solution.result"])

p("C19", "Auxiliary output belongs to the iterate a step started from",
  "The auxiliary output returned by a solve is the user function's auxiliary output at the iterate its last step started from (for best-so-far wrappers: at the returned value), never a mixture, a stale value or one from a rejected trial point. "
  "Asking for auxiliary output does not change any other part of the solution.",
  ["inputs", "histories", "configurations"],
  "all built-in gradient-based, Gauss-Newton-type, root-finding and fixed-point solvers, arbitrary accept/reject histories up to the unrolling bound, arbitrary user functions",
  "Tests use a constant auxiliary output, which cannot tell iterates apart.",
  [S+"gradient_methods.py", S+"gauss_newton.py", S+"quasi_newton.py", S+"newton_chord.py", S+"bisection.py", S+"fixed_point.py", S+"optax.py", "optimistix/_iterate.py"],
  [("aux carrying", S+"gauss_newton.py:AbstractGaussNewton.step"), ("aux carrying", S+"gradient_methods.py"), ("aux carrying", S+"quasi_newton.py")],
  ["Solution.aux"])

p("C20", "Implicit differentiation gives the implicit-function derivative",
  "With the default adjoint, the derivative of a solution with respect to `args` is -(dF/dy)^-1 dF/dargs, where F is the root condition of the problem (the function, fn(y)-y, the gradient of the objective, or the gradient of half the sum of squares), in forward and reverse mode; the derivative with respect to y0, options and solver parameters is zero. "
  "The value of the solve is unaffected by being differentiated.",
  ["inputs", "configurations"],
  "all user functions (arbitrary first and second derivatives at the solution), arbitrary solution values, all four problem kinds, forward and reverse mode, in small dimensions; linear solver assumed to meet its contract",
  "Tests compare with finite differences on a set of converged problems.",
  ["optimistix/_ad.py", "optimistix/_adjoint.py", "optimistix/_minimise.py", "optimistix/_least_squares.py", "optimistix/_root_find.py", "optimistix/_fixed_point.py"],
  [("implicit jvp", "optimistix/_ad.py:implicit_jvp"), ("rewrite functions", "optimistix/_*.py:_rewrite_fn")],
  ["jvp/vjp of Solution.value"])

p("C21", "Problem conversions solve the stated equivalent problem",
  "A least-squares problem given to a minimiser is solved by that minimiser on half the sum of squared residuals; a fixed-point problem given to any other solver is solved by that solver on fn(y)-y: the iterates, results, steps and auxiliary outputs coincide with calling the other entry point on the explicitly converted function. "
  "Integer starting points are promoted to floating point and outputs keep the structure of y0.",
  ["configurations", "inputs"],
  "all user functions (arbitrary values/derivatives at visited points), starting points, tolerances; each (problem kind, solver kind) pair; up to the unrolling bound in steps",
  "Tests check that each conversion converges on easy problems.",
  ["optimistix/_least_squares.py", "optimistix/_root_find.py", "optimistix/_fixed_point.py", "optimistix/_minimise.py"],
  [("conversions", "optimistix/_least_squares.py:_ToMinimiseFn"), ("conversions", "optimistix/_fixed_point.py:_ToRootFn")],
  ["Solution"])

p("C22", "Forward/reverse derivative options and function info agree",
  "Choosing forward or reverse mode for gradients or Jacobians changes nothing about the iterates, results or step counts of a solve. "
  "The function-information objects exchanged between solvers, searches and descents are consistent: the scalar objective of a residual is half its squared norm, its gradient is J^T r, and the directional derivative along v is the inner product of that gradient with v.",
  ["configurations", "inputs"],
  "all user functions, starting points, tolerances, search outcomes; every solver with an autodiff option; all kinds of function information; up to the unrolling bound in steps",
  "Tests run both modes to convergence but never compare them step by step.",
  ["optimistix/_search.py", "optimistix/_misc.py", S+"gauss_newton.py", S+"gradient_methods.py", S+"quasi_newton.py"],
  [("gradient modes", "optimistix/_misc.py:lin_to_grad"), ("Jacobian modes", S+"gauss_newton.py:_make_f_info"), ("function information", "optimistix/_search.py:FunctionInfo")],
  ["Solution", "FunctionInfo methods"])

p("C23", "Solves do not depend on how y and outputs are packed in pytrees",
  "Solving a problem whose unknowns and outputs are a nested pytree gives the same values, result, step count and auxiliary output as solving the same problem with everything flattened into one vector, for every solver and for the max and two norms.",
  ["configurations", "inputs"],
  "all user functions (arbitrary values/derivatives at visited points), starting points, tolerances, each built-in solver, a family of pytree shapes; up to the unrolling bound in steps",
  "Tests use pytrees and arrays in different problems and never compare them.",
  ["optimistix/_misc.py", S+"quasi_newton.py", S+"limited_memory_bfgs.py", S+"gauss_newton.py", S+"levenberg_marquardt.py", S+"nonlinear_cg.py", S+"dogleg.py", S+"newton_chord.py", S+"nelder_mead.py"],
  [("tree utilities", "optimistix/_misc.py"), ("pytree operators", S+"quasi_newton.py")],
  ["Solution"])

p("C24", "Batched solves equal independent solves lane by lane",
  "Vectorising a solve over a batch of starting points/arguments gives, for every lane, exactly the value, result, step count and auxiliary output of solving that lane alone, even when the lanes stop after different numbers of steps, accept and reject differently or fail.",
  ["inputs", "configurations", "histories"],
  "all user functions, starting points, tolerances for two lanes; each built-in solver; up to the unrolling bound in steps",
  "Tests do not compare vmapped with unbatched solves.",
  ["optimistix/_iterate.py", "optimistix/_misc.py", S+"quasi_newton.py", S+"gauss_newton.py", S+"gradient_methods.py"],
  [("loop under vmap", "optimistix/_iterate.py:_iterate"), ("conditionals under vmap", "optimistix/_misc.py:filter_cond")],
  ["Solution"])

p("C25", "Box utilities: feasible steps, clipping and Cauchy point",
  "The feasible step length returned for a point inside a box and a proposed step lies in [0, 1] elementwise, never takes the point outside the box, and is the largest such fraction (up to the documented offset); clipping returns the nearest point of the box. "
  "The generalised Cauchy point for a box-constrained quadratic with positive curvature lies in the box, and no element moves against the descent direction.",
  ["inputs"],
  "all points, steps, bounds (infinite ones included), gradients and positive definite Hessians in small dimensions",
  "Tests evaluate a table of hand-picked points.",
  ["optimistix/_misc.py", S+"cauchy_point.py"],
  [("step length", "optimistix/_misc.py:feasible_step_length"), ("Cauchy point", S+"cauchy_point.py:cauchy_point")],
  ["function outputs"])

p("C26", "SciPy-style minimize reports a consistent result and honours options",
  "The result of the compatibility `minimize` is consistent: `fun` and `jac` are the objective and its gradient at `x`, `success` is true exactly when `status` is 0, `status` is 1 exactly when the iteration limit was hit, evaluation counts match the work done, and `hess_inv` is symmetric. "
  "The `tol`, `maxiter` and `norm` options and extra function arguments have their documented effect and unknown options are rejected.",
  ["inputs", "configurations", "histories"],
  "all objective values and gradients at visited points, starting points, tolerances, norms and limits, up to the unrolling bound in steps",
  "Tests run one problem with default options plus one maxiter case.",
  ["optimistix/compat/_impl.py"],
  [("wrapper", "optimistix/compat/_impl.py:minimize")],
  ["OptimizeResults"])

p("C27", "Optax wrapper applies exactly the optimiser's updates",
  "Each step of the Optax wrapper hands the gradient, value and parameters at the current iterate to the wrapped optimiser exactly once, adds exactly the update it returns, and carries its state forward; it stops when that update and the change in objective are within tolerance.",
  ["inputs", "histories"],
  "all objective values/gradients at visited points and all responses of an arbitrary optimiser, up to the unrolling bound in steps",
  "Tests run three concrete optimisers to convergence.",
  [S+"optax.py"],
  [("step", S+"optax.py:OptaxMinimiser.step")],
  ["Solution.value", "Solution.result"])

p("C28", "Verbosity, throw and adjoint choice never change the answer",
  "Turning on verbose output, using a custom verbose callback, choosing a different built-in adjoint, or enabling throw on a solve that succeeds changes no returned number: value, result, auxiliary output and step counts are identical. "
  "The values reported to a verbose callback are those of the actual step.",
  ["configurations", "inputs"],
  "all user functions, starting points and tolerances; every solver with a verbose option; up to the unrolling bound in steps",
  "Tests never compare runs across these switches.",
  ["optimistix/_misc.py", "optimistix/_adjoint.py", S+"gradient_methods.py", S+"gauss_newton.py", S+"quasi_newton.py", S+"optax.py", S+"nelder_mead.py"],
  [("verbose", "optimistix/_misc.py:default_verbose"), ("adjoints", "optimistix/_adjoint.py")],
  ["Solution", "verbose callback"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
