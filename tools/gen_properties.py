#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The property list is edited here."""
import json, os
P = []
QPH, QPC = "include/mini_opt/qp.hpp", "source/qp.cc"
NLH, NLC = "include/mini_opt/nonlinear.hpp", "source/nonlinear.cc"
RES, RESC = "include/mini_opt/residual.hpp", "source/residual.cc"
STH, STC = "include/mini_opt/structs.hpp", "source/structs.cc"
SER, SERH = "source/serialization.cc", "include/mini_opt/serialization.hpp"
TRC, TRH = "source/tracing.cc", "include/mini_opt/tracing.hpp"
ASR = "include/mini_opt/assertions.hpp"
NOTEST = ("No test that runs here executes source/nonlinear.cc at all; and even the full test-suite only samples a "
          "handful of problems.")

def add(id, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mech],
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

# ------------------------------------------------------------------ quadratic programs
add("Q01", "Ill-formed quadratic programs are refused with an exception",
    "Binding the interior-point solver to a null problem, to one whose Hessian is not square, whose linear term or "
    "equality block does not match it in size, or which has an inequality on a variable index outside [0, N) always "
    "raises the library's assertion exception. The null-space solver likewise refuses a problem without equality "
    "rows, or whose equality block, right-hand side, Hessian and linear term do not agree in size.",
    ["inputs"], "every QP, of any (in)consistent dimensions and any constraint index, including negative ones",
    "The tests only ever build well-formed problems, and Eigen's own checks are compiled out.",
    [QPC, QPH], ["assertions in QPInteriorPointSolver::Setup and QPNullSpaceSolver::Solve"])
add("Q02", "Out-of-range interior-point parameters are refused before solving",
    "Solving with a non-positive initial barrier, a barrier reduction factor outside (0, 1], a non-positive KKT "
    "tolerance or a non-positive iteration limit raises the library's assertion exception before any solver state is "
    "modified; parameters inside these ranges are accepted.",
    ["inputs"], "every parameter set", "Tests never pass an invalid parameter set.",
    [QPC], ["CheckParams called first in QPInteriorPointSolver::Solve"])
add("Q03", "The interior-point KKT residual is the true first-order residual",
    "At every point the solver evaluates, its residual blocks are exactly G x + c - A_e^T y - A_i^T z, s*z "
    "(elementwise), A_e x + b_e and A_i x + b_i - s, with every inequality constraint contributing, also when several "
    "bound the same variable; the barrier value only enters when errors are measured (s*z - mu). The reported error "
    "norms are the Euclidean norms of those blocks, and the blocks of absent constraints read zero.",
    ["inputs"], "every QP and every (x, s, y, z)",
    "Tests compare a few fixed problems with diagonal Hessians; the error norms and the mu correction are never "
    "compared with anything.",
    [QPC], ["EvaluateKKTConditions, ComputeErrors"], [("r_", "KKT residual (dual, comp, primal eq, primal ineq)", QPH)])
add("Q04", "The interior-point step solves the linearised KKT system",
    "For every barrier value the step (dx, ds, dy, dz) computed by elimination satisfies the full linearised "
    "perturbed-KKT system built from the same point, including the second-order correction term ds_aff*dz_aff when a "
    "corrector step is taken and no such term otherwise. The reduced matrix is rebuilt from the current problem and "
    "point each time.",
    ["inputs"], "every QP, point and barrier value, for all three barrier strategies",
    "Tests check mu = 0 on four small problems and never run the predictor-corrector branch.",
    [QPC], ["ComputeLDLT, SolveForUpdate, SolveForUpdateNoInequalities"],
    [("H_", "reduced KKT matrix", QPH), ("H_inv_", "its inverse", QPH), ("delta_", "step", QPH)])
add("Q05", "Slacks and inequality multipliers stay strictly positive",
    "A step that would bring a slack (or an inequality multiplier) to zero or below is cut back so that no such entry "
    "loses more than a fixed fraction (below one) of its value, and is taken in full otherwise: x and s move by the "
    "step length computed from the slacks, y and z by the one computed from the multipliers, and both lengths are in "
    "(0, 1]. If a slack is nevertheless not positive the solver raises an exception rather than dividing by it.",
    ["inputs", "histories"], "every QP and every iteration, for all barrier strategies",
    "Tests only look at final values of converged solves; a wrong pairing of step lengths usually still converges.",
    [QPC], ["ComputeAlpha (19.9), update at the end of Iterate, assertion in ComputeLDLT"])
add("Q06", "Interior-point convergence is only claimed when it was verified",
    "The solver reports that the KKT tolerance is satisfied only if, for the very point it returns, the largest KKT "
    "error is below the KKT tolerance and the average complementarity is below the complementarity tolerance; it "
    "stops at the first iteration where this is so. In every other case it reports that the iteration limit was hit.",
    ["inputs", "histories"], "every QP and parameter set",
    "Tests assert that convergence is reported on easy problems, never that it is withheld otherwise.",
    [QPC], ["return statements in QPInteriorPointSolver::Solve"])
add("Q07", "Interior-point iteration records are complete and truthful",
    "A solve performs at least one and at most max_iterations iterations and returns exactly one record per iteration, "
    "in order: residual errors before and after the step (both measured with that iteration's barrier value) and the "
    "barrier value and step lengths actually used.",
    ["inputs", "histories"], "every QP and parameter set", "Tests do not read the iteration records.",
    [QPC, STH], ["loop in QPInteriorPointSolver::Solve, Iterate"])
add("Q08", "The barrier parameter follows the selected strategy",
    "The barrier starts at the initial value, or at the average complementarity if so requested, and after an "
    "iteration becomes sigma times its old value (fixed decrease) or sigma times the current average complementarity "
    "(otherwise); when asked to decrease only on small error it stays unchanged while the KKT error exceeds it. The "
    "predictor-corrector strategy centres with (mu_affine/mu)^3 * mu computed from a full affine probe step, and "
    "problems without inequalities use no barrier.",
    ["inputs", "histories", "configurations"], "every QP and every combination of strategy flags",
    "Only the default strategy is exercised by the tests.",
    [QPC], ["mu update in Solve, PREDICTOR_CORRECTOR branch of Iterate, ComputeMu"])
add("Q09", "The interior-point initial guess honours the selected method",
    "A user-provided guess is used untouched. Otherwise x starts at zero, or at the solution of the "
    "equality-constrained problem, and is then clamped into every inequality's feasible side; slacks start at the "
    "constraint value but at least 1e-9, multipliers at the reciprocal slack, and equality multipliers at zero or "
    "the equality-constrained solution.",
    ["inputs", "configurations"], "every QP and guess method",
    "Tests only check that both automatic methods converge on small problems.",
    [QPC], ["ComputeInitialGuess"])
add("Q10", "Equality-multiplier summaries are reported exactly when they exist",
    "Both exits of an interior-point solve report the smallest and the largest-magnitude equality multiplier of the "
    "returned point if the problem has equality constraints, and report none otherwise; the nonlinear solver uses "
    "exactly this summary when it updates its penalty.",
    ["inputs"], "every QP, both exits", "No test reads the summary.",
    [QPC, NLC], ["ComputeLagrangeMultiplierSummary, MaybeGetLagrangeMultipliers"])
add("Q11", "A failed factorisation is never used as if it had succeeded",
    "Whenever a matrix factorisation that can fail is computed, its status is tested before the factor is used: the "
    "interior-point solver raises its factorisation exception, the null-space solver returns its not-positive-definite "
    "status without publishing a new solution, and the nonlinear solver then stops with the indefinite status without "
    "moving.",
    ["inputs"], "every factorisation on every path", "No test triggers a failed factorisation.",
    [QPC, NLC], ["info() checks after LDLT/LLT, QPWasIndefinite"])
add("Q12", "The null-space solution is feasible and stationary",
    "When the null-space solver reports success its solution is u + Q2 y, where u solves A_e u + b_e = 0 through the "
    "rank-revealing QR factors (including the column permutation) and y solves (Q2^T G Q2) y = -Q2^T (G u + c) with "
    "Q2 spanning the null space of A_e.",
    ["inputs"], "every equality-constrained QP with consistent constraints, including rank-deficient ones",
    "Two tiny full-rank examples.", [QPC], ["QPNullSpaceSolver::Solve"])
add("Q13", "Only the lower triangle of the Hessian is read and written",
    "No result of either QP solver, of the nonlinear solver or of the eigenvalue summary depends on the strictly upper "
    "triangle of the Hessian, and accumulating a residual into a Hessian never writes that triangle.",
    ["inputs"], "every QP whose upper triangle holds arbitrary values", "Tests pass symmetric or diagonal Hessians.",
    [QPC, NLC, RES], ["selfadjointView<Lower>/triangularView<Lower> at every use of G; index swap in UpdateHessian"])
add("Q14", "Solving never modifies the caller's problem",
    "Neither QP solver writes to the quadratic program it was given, and the nonlinear solver never writes to the "
    "problem description or to the initial values passed by the caller.",
    ["inputs", "histories"], "every solve", "Tests do not compare problems before and after.",
    [QPC, NLC, QPH, NLH], ["const access only, no const_cast away"])
add("Q15", "A solve does not depend on earlier solves of the same object",
    "Re-binding and re-solving with a used solver object gives the same result as with a fresh one: every work buffer "
    "is (re)initialised before it is read, whatever problem was solved before and however that solve ended.",
    ["histories"], "every sequence of Setup/Solve calls on one object, including after an exception",
    "Tests reuse an object only for identical problems.",
    [QPC, NLC], ["setZero/resize in Setup, ComputeLDLT, LinearizeAndFillQP, steps_.clear, state_ reset"],
    [("delta_affine_", "affine step reused by the corrector", QPH), ("steps_", "line search log", NLH)])
add("Q16", "Linear inequality helpers agree with a*x + b >= 0",
    "Feasibility is a*x + b >= 0; clamping returns the nearest feasible value (x itself if feasible) and refuses a "
    "zero coefficient; shifting to x0 yields a constraint in dx that holds exactly when the original holds at x0 + dx; "
    "and Var(i) <= v / Var(i) >= v build the constraint they read as.",
    ["inputs"], "all coefficients of either sign and all points", "A dozen fixed numbers with unit coefficients.",
    [QPH], ["LinearInequalityConstraint, Var"])

# ------------------------------------------------------------------ nonlinear solver
add("N01", "Out-of-range nonlinear-solver parameters are refused before solving",
    "Construction without a problem or with a non-positive dimension, and every Solve whose parameters lie outside "
    "their documented ranges (iteration counts, tolerances, line-search factor in (0,1), penalty scale >= 1, rho in "
    "[0,1), lambda bounds and decay factors), raises the library's assertion exception before any solver state "
    "changes; parameter sets inside the ranges are accepted.",
    ["inputs"], "every parameter set", NOTEST, [NLC], ["constructor assertions, CheckParams called first in Solve"])
add("N02", "The current point is only replaced by a verified improvement",
    "During a nonlinear solve the current point starts at the given values and changes only to a trial point whose "
    "cost and constraint errors are finite and whose merit satisfies the sufficient-decrease condition "
    "phi(alpha) <= phi(0) + c1 * alpha * phi'(0), 0 < c1 < 1, with the iteration's penalty. In every other iteration "
    "it is left exactly as it was.",
    ["inputs", "histories"], "every problem, parameter set and iteration", NOTEST, [NLC],
    ["SelectStepSize success test, swap in UpdateLambdaAndCheckExitConditions"],
    [("variables_", "current point", NLH), ("candidate_vars_", "trial point", NLH)])
add("N03", "The reported reason for termination is the true one",
    "Absolute tolerance is reported only after an accepted step whose cost and constraint errors are both below it; "
    "relative tolerance only after an accepted step that kept more than (1 - tol) of the previous merit; first-order "
    "tolerance only when both directional derivatives are below it in magnitude; maximum lambda only after a failed "
    "search pushed lambda beyond its bound; QP-indefinite only after a failed null-space factorisation; user-callback "
    "only if the callback declined; and maximum iterations exactly when all iterations ran without any of these.",
    ["inputs", "histories"], "every solve", NOTEST, [NLC],
    ["returns in Solve, UpdateLambdaAndCheckExitConditions, SelectStepSize"])
add("N04", "The user exit callback is honoured exactly once per iteration",
    "If a callback is installed it is called exactly once in every completed iteration, after that iteration's record "
    "has been appended, with that record. Declining ends the solve with the user-callback status unless the iteration "
    "already terminates for another reason, which takes precedence; without a callback nothing is called.",
    ["inputs", "histories"], "every callback behaviour and solve", NOTEST, [NLC], ["user_exit_callback_ in Solve"])
add("N05", "Nonlinear iteration records are complete and truthful",
    "A solve returns one record per completed iteration, at most max_iterations, numbered from zero in order. Each "
    "holds the damping value the step was computed with, the errors before the step, the QP outcome, the directional "
    "derivatives, the penalty in force, the step-selection outcome and all line-search trials, each in its own field.",
    ["inputs", "histories"], "every solve", NOTEST, [NLC, STH], ["NLSIteration construction in Solve"])
add("N06", "The line search is bounded and its step sizes strictly decrease in (0,1]",
    "A line search makes at most max_line_search_iterations + 1 trials, the first with step size one and each later "
    "one with a strictly smaller, positive, finite step size: the chosen polynomial minimiser, or the previous value "
    "times the backtracking factor. Every trial that is evaluated is recorded with its step size and errors, and the "
    "trial that is accepted is the last one recorded.",
    ["inputs", "histories"], "every merit function shape, both strategies", NOTEST, [NLC], ["SelectStepSize"])
add("N07", "Levenberg-Marquardt damping follows its state machine",
    "Damping starts at lambda_initial and is never lowered below min_lambda: an accepted step multiplies it by the "
    "success factor, or by the restore factor when recovering, and returns to the nominal state. A search that finds "
    "no decrease raises it tenfold, entering recovery with at least lambda_failure_init, and the solve stops as soon "
    "as it exceeds max_lambda; no other outcome changes it, and every Solve starts in the nominal state.",
    ["histories"], "every sequence of step outcomes", NOTEST, [NLC], ["UpdateLambdaAndCheckExitConditions"],
    [("state_", "NOMINAL / ATTEMPTING_RESTORE_LM", NLH)])
add("N08", "The equality penalty never decreases and dominates its estimate",
    "The penalty starts at its initial value and, when there are equality constraints, is raised to the required "
    "value times the scale factor whenever the required value exceeds it, never lowered. The required value is the "
    "largest-magnitude multiplier if the QP solver reports multipliers, otherwise "
    "(c.dx + 1/2 max(0, dx^T G dx)) / ((1 - rho) max(|b_eq|_1, eps)).",
    ["inputs", "histories"], "every solve", NOTEST, [NLC], ["penalty update in Solve, SelectPenalty"])
add("N09", "Each iteration solves the QP linearised at the current point",
    "The QP of an iteration is built from zero at the current point: every cost adds its Gauss-Newton terms once, "
    "lambda is added once to every diagonal entry when positive, the equality residuals occupy consecutive disjoint "
    "rows in order, and every inequality is shifted to the current point exactly once. The errors reported with it "
    "are the undamped cost sum and the L1 norm over all equality rows.",
    ["inputs", "histories"], "every problem and iteration", NOTEST, [NLC], ["LinearizeAndFillQP"])
add("N10", "Directional derivatives are those of the merit terms along the step",
    "The reported derivatives are c.dx for the cost and the sum over all equality rows of sign(b_i) * (A_i . dx), "
    "with sign(0) = 0, for the L1 constraint violation, both for the step actually searched along.",
    ["inputs"], "every QP and step", NOTEST, [NLC], ["ComputeQPCostDerivative"])
add("N11", "Polynomial step sizes minimise the interpolating polynomial",
    "The quadratic proposal is the minimiser of the parabola with the given value and slope at zero and value at "
    "alpha_0, and is withheld when no interior minimum exists. The cubic proposal interpolates the last two trials and "
    "returns the stationary point with positive curvature, withheld when it is not real or the cubic term vanishes.",
    ["inputs"], "all interpolation data", NOTEST, [NLC],
    ["QuadraticApproxMinimum, CubicApproxCoeffs, CubicApproxMinimum, ComputeAlphaPolynomialApproximation"])
add("N12", "The QP method matches the constraint types of the problem",
    "A solve uses the null-space method exactly when the problem has equality but no inequality constraints, and the "
    "interior-point method otherwise, whatever the object solved before; the inner solver receives the caller's "
    "iteration limit and KKT tolerance and starts from the equality-constrained guess exactly when there are "
    "equality constraints.",
    ["inputs", "histories"], "every problem and every history of the object", NOTEST, [NLC],
    ["solver_ selection in Solve, ComputeStepDirection"])
add("N13", "Trial points start from the current point and use the custom retraction",
    "Every trial point is computed afresh from the current point: with the user's retraction applied to (current "
    "point, step, step size) when one was given, and as current + step size * step otherwise. The step is the "
    "solution of this iteration's QP and is not altered by the search.",
    ["inputs", "histories"], "every trial of every search", NOTEST, [NLC], ["RetractCandidateVars"])
add("N14", "Merit errors are half squared norms plus the L1 constraint violation",
    "Evaluating the errors at any point gives half the sum of squared residuals over all costs and the L1 norm over "
    "all equality constraints, identically in linearisation, trial evaluation and the public evaluation function, and "
    "evaluating errors changes neither the current point nor the step.",
    ["inputs"], "every problem and point", NOTEST, [NLC, RES], ["EvaluateNonlinearErrors, LinearizeAndFillQP"])

# ------------------------------------------------------------------ residuals
add("R01", "Residual derivatives land on the variables they belong to",
    "For any index list, the function is evaluated on exactly the listed variables in listed order; its Gauss-Newton "
    "contributions J_i.J_j are added to the lower-triangle entry of the two variables and J_i.r to the linear term, "
    "and its Jacobian column i is written to the column of the i-th listed variable. Hessian accumulation only adds.",
    ["inputs"], "every index order, residual size and variable count, statically or dynamically sized",
    "Three fixed index lists for one function; the Jacobian path is never compared in tests that run here.",
    [RES], ["GatherValues, UpdateHessian, UpdateJacobian"])
add("R02", "Residuals never access variables or outputs out of range",
    "Evaluating a residual with an index below zero or beyond the parameter vector, Hessian or Jacobian, or with "
    "output blocks of the wrong size or null outputs, raises the library's assertion exception before the access; a "
    "fixed-size residual refuses an index list of the wrong length.",
    ["inputs"], "every index list and output size", "Tests only use valid indices; Eigen's checks are compiled out.",
    [RES], ["assertions in GatherValues, ErrorVector, UpdateHessian, UpdateJacobian, MakeResidual"])
add("R03", "All views of a residual agree on its error",
    "The error vector, the right-hand side returned with the Jacobian, the quadratic error and the value returned by "
    "Hessian accumulation all derive from one evaluation of the same function at the same gathered variables, the "
    "scalar ones being half its squared norm; the reported dimension is the declared one.",
    ["inputs"], "every residual and point", "Compared for one polynomial at one point.",
    [RES, RESC], ["ErrorVector, UpdateHessian, UpdateJacobian, QuadraticError, Dimension"])

# ------------------------------------------------------------------ reports, text and JSON
add("S01", "Every enumerator prints as its own name",
    "Streaming or formatting any value of the library's status and option enumerations writes exactly the name of that "
    "enumerator, distinct for distinct values.",
    ["inputs"], "every enumerator of every streamable enumeration", "No test that runs here prints them.",
    [STC, STH], ["operator<< overloads, fmt::formatter specialisations"])
add("S02", "Summary counters count what they say",
    "The number of QP iterations is the sum over all records of their interior-point iterations (one for a null-space "
    "solve), the number of line-search steps is the total number of recorded trials, and the number of failed line "
    "searches counts exactly the records whose outcome is neither success nor first-order satisfied.",
    ["inputs"], "every list of iteration records", "No test that runs here calls them.",
    [STC], ["NumQPIterations, NumLineSearchSteps, NumFailedLineSearches"])
add("S03", "Text reports show each quantity under its own label",
    "The textual iteration and solve summaries print every labelled quantity from the field of that name, one line per "
    "line-search trial and per iteration in order, interior-point details only on request, and colour codes only when "
    "colour is enabled and always closed.",
    ["inputs"], "every record", "No test that runs here calls ToString.",
    [STC], ["QPInteriorPointIteration::ToString, NLSIteration::ToString, NLSSolverOutputs::ToString"])
add("S04", "Solver outputs survive a JSON round trip",
    "Converting solver outputs to JSON and back restores every field of every nested record: each field is written "
    "under its own key and read from that key into the same field, optional and variant members keep their state, and "
    "quantities that may legitimately be NaN survive being written as text.",
    ["inputs"], "every NLSSolverOutputs value", "No test uses serialization.",
    [SER, STH], ["to_json/from_json pairs"])
add("S05", "JSON names of enumerators are complete and one-to-one",
    "Every enumerator that can occur in solver outputs has exactly one JSON name, equal to its own name and shared with "
    "no other enumerator of its type, in both directions.",
    ["inputs"], "every enumerator", "No test uses serialization.", [SER], ["NLOHMANN_JSON_SERIALIZE_ENUM tables"])
add("S06", "Malformed JSON is rejected by an exception",
    "Reading solver outputs from a JSON document with missing keys raises an exception; no document makes the reader "
    "access a missing entry.",
    ["inputs"], "every JSON document", "No test uses serialization.", [SER], ["from_json functions"])
add("S07", "Derived quantities of the records match their definitions",
    "The maximum KKT error is the largest of all four components; merit totals are f + penalty * equality; the "
    "L-infinity values are the largest (magnitude) component; errors count as invalid exactly when a component is "
    "infinite or NaN; and a termination state counts as satisfied exactly for the three tolerance states.",
    ["inputs"], "all values", "Only used indirectly.", [STH],
    ["KKTError::Max, Errors, DirectionalDerivatives, TerminationStateIndicatesSatisfiedTol"])

# ------------------------------------------------------------------ tracing
add("T01", "The shared trace buffer is only touched under its lock",
    "Every read and write of the process-wide event buffer happens while its mutex is held, on every path, so threads "
    "may submit and export traces concurrently.",
    ["schedules"], "every interleaving of submitting and exporting threads", "No test uses tracing from threads.",
    [TRC], ["lock_guard in trace_collector methods"], [("events", "shared deque of events", TRC)])
add("T02", "The trace buffer is bounded and evicts the oldest event",
    "The buffer never holds more than a fixed number of events after a submission; each submission stores exactly the "
    "new event at the end and, only when the bound is exceeded, drops exactly the oldest one.",
    ["histories"], "every number of submissions", "No test submits that many events.", [TRC], ["submit_event"])
add("T03", "Each traced scope reports one correct event",
    "Leaving a traced scope normally submits exactly one event carrying the scope's name, its start time in "
    "microseconds, the elapsed time from construction to destruction in nanoseconds, and the process and thread ids in "
    "their own fields; leaving it by an exception submits none. Names always have static lifetime.",
    ["inputs", "fault_sequences"], "every traced scope", "No test inspects traces.",
    [TRC, TRH, NLC], ["scoped_trace"])
add("T04", "Exported traces are well-formed and complete",
    "The exported document is the fixed trace wrapper around one complete-event object per stored event, oldest first, "
    "comma separated, with name, phase, start, process, thread and duration in microseconds taken from that event.",
    ["inputs"], "every buffer content", "No test exports traces.", [TRC], ["get_trace_json, fmt::formatter<trace_event>"])
add("T05", "Tracing and serialization switches do not change solver behaviour",
    "Compiling with or without tracing and serialization yields the same solver code: the switches only add trace "
    "scopes and serialization functions, and no solver decision reads anything they define.",
    ["configurations"], "all four switch combinations", "Only one configuration is built and tested here.",
    [NLC, QPC, STC, TRH, SERH], ["MINI_OPT_TRACING / MINI_OPT_SERIALIZATION guards"])

# ------------------------------------------------------------------ cross-cutting
add("X01", "Distinct solver objects are independent",
    "Solver, residual and report code keeps no mutable state outside the objects involved, apart from the trace "
    "collector, never modifies an object it was given for reading only, and draws on no clock, random source or environment; so solves of distinct objects may run "
    "concurrently and repeat deterministically.",
    ["schedules", "histories"], "every interleaving of solves on distinct objects",
    "Tests run single-threaded.", [QPC, NLC, STC, SER, TRC], ["no mutable static storage"])
add("X02", "Every solve performs a bounded amount of work",
    "Every loop of the library is bounded by a container size, a matrix dimension or an iteration limit fixed before "
    "the loop starts, its counter always advances towards that bound, and no library function recurses; hence every "
    "call terminates if the user's functions do.",
    ["inputs"], "every input", "An endless loop in an untested branch goes unnoticed.",
    [QPC, NLC, RES, STC, TRC], ["for loops over fixed ranges"])
add("X03", "Assertions are always active and side-effect free",
    "Each library assertion is checked in every build configuration, evaluates its condition exactly once when it "
    "holds, raises the library's exception type with the failed condition when it does not, and neither its condition "
    "nor its message arguments modify any state.",
    ["configurations", "inputs"], "every assertion in every build type", "Tests build one configuration and never fail an assertion.",
    [ASR], ["F_ASSERT* macros"])
add("X04", "Matrix operations conform for every accepted problem",
    "For every problem the solvers accept, every sum, product, assignment, block and element access has conforming "
    "dimensions within the bounds of its operands, for all counts of variables, constraints and residual rows, so no "
    "solve touches memory outside its matrices.",
    ["inputs"], "all dimensions N, M, K (including M = 0, K = 0) and any start vector the API accepts",
    "Eigen's dimension checks are compiled out of the tested build; tests use a handful of sizes.",
    [QPC, NLC, RES], ["dimension bookkeeping in Setup and the constructor", "block helpers"])
add("X05", "Report and error messages format without failing",
    "Every formatting call in the library has a format string whose placeholders match its arguments in number and "
    "type, so producing a report or an assertion message never raises a formatting error instead.",
    ["inputs"], "every formatting call site", "Format strings are only checked at run time; most are never reached.",
    [STC, TRC, QPC, NLC, ASR], ["fmt::format / fmt::format_to calls, F_ASSERT reasons"])
add("X06", "No exception escapes from a function that promises not to throw",
    "No function declared noexcept, and no destructor, can reach a library assertion or a throw of the library "
    "that its own conditions do not rule out.",
    ["inputs"], "every call path", "Tests do not fail assertions.", [QPH, STH, STC, TRC, RES], ["noexcept functions"])

# ------------------------------------------------------------------ not claimed
add("Y01", "Nonlinear solves converge to a local optimum on regular problems",
    "From any starting point of a smooth problem with bounded level sets satisfying constraint qualification, the "
    "nonlinear solver converges to a first-order optimal point given enough iterations.",
    ["inputs"], "all smooth problems", "Tests cover a few classic functions.", [NLC], ["SQP with line search and damping"])
add("Y02", "Convex QPs are solved within the default iteration budget",
    "The interior-point solver reaches its KKT tolerance on every feasible strictly convex QP within the default number "
    "of iterations.", ["inputs"], "all feasible strictly convex QPs", "Tests sample random problems.", [QPC], ["barrier schedule"])
add("Y03", "Results are accurate to the stated tolerances in floating point",
    "Rounding in factorisation, elimination and explicit inversion never degrades a solution beyond the stated "
    "tolerances for well-conditioned problems.", ["inputs"], "all well-conditioned problems", "Tests compare a few problems.",
    [QPC], ["LDLT, explicit inverse, QR"])
add("Y04", "Tracing overhead is negligible",
    "Enabling tracing changes the run time of a solve by at most a small constant factor.",
    ["configurations"], "all solves", "No timing test.", [TRC], ["scoped_trace"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
