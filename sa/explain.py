"""What each check analyses, compares and reports; used for the evidence files and DESIGN.md."""
QP = "Solve of the interior-point solver is interpreted abstractly from an arbitrary solver object bound to an arbitrary accepted problem (all dimensions and the number and variables of the constraints symbolic; the iteration loop summarised from an arbitrary reachable header state). "
NL = "Solve of the nonlinear solver is interpreted abstractly for arbitrary costs, constraints, parameters, retraction and callback (one generic outer iteration from an arbitrary header state, one generic line-search trial; the QP solvers it calls are replaced by the results Q03-Q12 establish). "
RS = "Each member function of the residual hierarchy (fixed, dynamic, plain; with and without Jacobian; through the type-erased wrapper) is interpreted abstractly in template instantiations of a witness file, for symbolic index lists, dimensions and user functions. "
RE = "The record functions are interpreted abstractly on records whose every field is a symbol. "
TR = "The trace collector is interpreted abstractly from an arbitrary buffer of symbolic length and contents. "
AST = "A query over the type-checked syntax tree of every function of the library in the tracing x serialization build configurations. "
EXPLAIN = {
 "Q01": "Setup, the constructor and the null-space Solve are interpreted on a completely arbitrary problem; the disjunction of the path conditions that raise is compared with the specified refusal condition (both directions: implied by each kind of ill-formedness, and false for a well-formed problem).",
 "Q02": QP + "For each parameter range: outside it every path raises before any store to a solver field; inside all ranges no parameter test raises.",
 "Q03": QP + "The four residual blocks that reach the recorded errors are compared with G x + c - Ae'y - Ai'z, s*z, Ae x + be, Ai x + bi - s (duplicate variables summed); the recorded norms with the norms of those blocks with mu subtracted.",
 "Q04": QP + "The matrix handed to the factorisation and the four step blocks are compared with the block elimination of the perturbed KKT system; the inverse is a symbol F with F*M = I, so the identity holds for all problems. With and without corrector.",
 "Q05": QP + "Step lengths must equal the largest length that keeps the fixed fraction of every slack / multiplier (a conditional max-fold over all inequalities); updates must use the right length per block; a non-positive slack after a step raises. A step length that is no recognised fold is written out for a problem with two inequalities, where it can still be refuted.",
 "Q06": QP + "On every return with the satisfied status the path condition must entail that the four errors and the complementarity of the returned variables are below tolerance; no further iteration starts when they are; all other returns carry the iteration-limit status.",
 "Q07": QP + "The record list is followed symbolically: one append per iteration, entries never modified afterwards, each field equal to the error, barrier value or step length of that iteration; trip count between one and max_iterations. The recorded probe lengths and mu_affine are compared with those of the full affine step.",
 "Q08": QP + "Initial barrier, barrier update per strategy, the affine probe and the centring parameter are compared with their definitions as functions of the loop-header state.",
 "Q09": QP + "The header state of iteration zero is compared with the specified start point of each guess method.",
 "Q10": "ComputeLagrangeMultiplierSummary (min and max-magnitude folds over the y block), both exits of Solve and the nonlinear solver's use are interpreted; presence must be equivalent to having equality rows. The nonlinear solver must update its penalty with the reported largest magnitude.",
 "Q11": "Every factorisation object of the analysed runs is followed: a status read must dominate, on every path, the first use of the factor, and the failing branch must end in the documented exception or status with the published solution unchanged. The nonlinear solve ends with that status at its current point and starts no further iteration.",
 "Q12": "The null-space Solve is interpreted with QR factors as symbols constrained only by A P = Q R; the returned vector must equal u + Q2 y with the factored reduced Hessian and right-hand side of the specification.",
 "Q13": "Two runs of both QP solvers, of the nonlinear solver and of the eigenvalue summary whose Hessians share the lower triangle and differ arbitrarily above it must produce the same value graph; Hessian accumulation must leave the upper entries as they were.",
 "Q14": "After every analysed run all cells reachable from the caller's problem and initial values are compared with their initial contents.",
 "Q15": "A dependence analysis: runs from arbitrary leftover buffers must have results, records and exceptions that mention no leftover cell.",
 "Q16": "The members of LinearInequalityConstraint and the Var builders are interpreted on symbols and compared with a*x + b >= 0 (sign cases on a, feasibility of the clamped value, exactness of the shift).",
 "N01": NL + "For each documented range: outside it every path raises, inside all ranges none of the parameter tests raises; also construction.",
 "N02": NL + "Every store to the current point must be the trial point under a path condition that entails finite trial errors and the sufficient-decrease inequality; on every other path the point is the header value.",
 "N03": NL + "Each exit's path condition is compared, both ways, with the condition of its termination state, and the precedence between the states is checked.",
 "N04": NL + "The call event of the callback: gate, count, argument and position relative to the append; returned states under a declining callback.",
 "N05": NL + "The record list is followed symbolically; each field of the appended record is compared with the value of that iteration.",
 "N06": NL + "The line-search loop: trial count, first step size, strict decrease, positivity and finiteness on the path conditions that evaluate a trial; the recorded list.",
 "N07": NL + "Damping and state after an iteration as a function of header damping, header state, outcome: compared case by case with the state machine.",
 "N08": NL + "The penalty after the step computation is compared with the specified maximum / estimate; monotonicity is an entailment.",
 "N09": NL + "The G, c, Ae, be and inequality list handed to the QP solver are compared with the sums over all costs and constraints (generic row of a generic residual), sizes and row offsets included.",
 "N10": NL + "The recorded derivatives are compared with c.dx and the sum of sign(b_i) (A_i.dx).",
 "N11": "The polynomial functions are interpreted on symbols: interpolation conditions, stationarity, curvature and the withholding conditions are polynomial identities / implications; the search must use them with the recorded trials.",
 "N12": NL + "Which QP solver is invoked under which constraint counts, and every parameter it receives.",
 "N13": NL + "Every trial point is compared with retraction(current, step, size) or current + size * step; the step cells are unchanged between the QP and the end of the iteration.",
 "N14": NL + "The three error evaluations are compared with the same definition over all residuals, and their effects on solver fields are checked.",
 "R01": RS + "Arguments of the user function, contributions to H, b and J are compared with the definition; repeated indices are a separate case.",
 "R02": RS + "Every element access is an obligation under its path condition (plus concrete small cases for refutation); out-of-range inputs must raise before the access.",
 "R03": RS + "Every view's value is compared with the same single evaluation; one call of the user function per view.",
 "S01": "The stream operators / format functions are evaluated for every enumerator of every enumeration that has one (inventory from the AST).",
 "S02": RE + "The counters over a symbolic record list are compared with the sums of the definition.",
 "S03": RE + "The printed text is a symbolic list of pieces; each label's value piece must be the field of that name, the pieces' gates and per-entry repetition are compared with the report's definition.",
 "S04": "to_json followed by from_json is interpreted on records whose every field is a symbol; each leaf field must come back as the same symbol, also through text where NaN becomes null.",
 "S05": "Both directions of the enum/JSON tables are evaluated for every enumerator.",
 "S06": "from_json is interpreted on documents lacking each key in turn: every path must raise; no read through a missing entry.",
 "S07": RE + "Returned values compared with their definitions.",
 "T01": TR + "Every access to the buffer (also through iterators, ranges and references returned from calls) must lie between lock and unlock events of its mutex on the same path; the mutex must be the shared one.",
 "T02": TR + "Contents after a submission compared with append / drop-front, split on the bound.",
 "T03": "The scope's constructor and destructor are interpreted; the submitted event's fields are compared with their definitions, the exceptional path must submit nothing; a query checks that all scope names are string literals.",
 "T04": TR + "The produced text is compared piecewise with the document's definition for 0, 1, 2 and a symbolic number of events.",
 "T05": "The normalised syntax trees of every library function, constant and type are compared across the four build configurations; the only permitted differences are added trace scopes and serialization functions.",
 "X01": AST + "Enumerates static and global variables, mutable members, const_casts and writes through const access paths, and calls to nondeterminism sources, through the call graph.",
 "X02": AST + "Every loop needs a measure: a counter moved by a fixed positive amount on every path, bounded by a quantity no statement of the loop can change; the call graph must be acyclic.",
 "X03": AST + "Every assertion site expands to one test of its condition and a raise in every configuration; effect analysis of condition and message arguments; the raise function is interpreted.",
 "X04": QP + NL + "Every matrix operation of the runs is an obligation on the symbolic dimensions (conforming shapes, blocks within bounds, element indices in range), proved from path conditions and the accepted-problem facts; failures are confirmed by concrete small dimensions before being reported.",
 "X05": AST + "Every formatting call's literal is parsed and its placeholders matched with the argument types.",
 "X06": AST + "Throw reachability through the call graph from every noexcept function and destructor, with an interval/constant argument for assertions that cannot fail there.",
}
