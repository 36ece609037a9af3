#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []

def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CP = "src/cutting_plane.rs"
p("P01", "Feasibility search returns only certified points and stops exactly on rule",
  "For every oracle and search space, the feasibility search queries the oracle only at the current centre, applies each cut it gets exactly once, as a bias cut, and returns a point only if the oracle's last answer, at exactly that point, was 'feasible'. It gives up at the first cut the search space does not accept or after which the space's measure is below the tolerance (strictly), and otherwise when the iteration limit is used up. The reported count is the zero-based number of the deciding iteration, or the limit if it was exhausted.",
  ["histories", "configurations"], "all sequences of oracle answers, cut outcomes and measures, all iteration limits (including 0) and tolerances",
  "The existing tests run a few concrete problems; the guarantee is about every possible sequence of oracle answers and search-space outcomes, including ones no shipped oracle produces.",
  [CP], [("cutting_plane_feas", CP)],
  ["sequence of oracle queries and cut applications seen by user-supplied oracle and space", "returned (point, count)"])
p("P02", "Optimization returns the latest improving query point and routes cuts by kind",
  "For every oracle and search space, the optimization search returns exactly the centre at which the oracle most recently reported an improvement (nothing if it never did), applies the cut of an improving answer as a central cut and every other one as a bias cut, one cut per query, and passes the objective bound through untouched so that the caller ends with the value the oracle last wrote. It stops at the first cut not accepted or after which the measure is strictly below the tolerance, otherwise at the iteration limit, and reports the zero-based number of the deciding iteration or the limit.",
  ["histories", "configurations"], "all sequences of (improved?, cut outcome, measure), limits and tolerances",
  "Tests only exercise the sequences produced by a handful of convex examples; e.g. an improvement reported on the very last or on a failing iteration is never sampled.",
  [CP], [("cutting_plane_optim", CP)], ["oracle queries, cut kind applied, returned (point, count), caller's objective bound"])
p("P03", "Discrete optimization obeys the retry / alternative-cut protocol",
  "For every oracle and search space, the discrete optimization search returns the alternative point handed over with the oracle's most recent improving answer, and asks for a retry exactly when the previous cut had no effect while alternatives remained (a cut of undetermined outcome leaves the request as it was, except that an improvement cancels it). It stops at the first 'no solution', at a 'no effect' without remaining alternatives, when the measure is strictly below the tolerance, or at the iteration limit, and reports the zero-based number of that iteration or the limit. The objective bound is passed through untouched.",
  ["histories", "configurations"], "all sequences of (improved?, alternatives left?, cut outcome, measure), limits and tolerances",
  "One discrete example is tested; most of the protocol (retry chains, improvements during a retry, undetermined outcomes) never occurs in it.",
  [CP], [("cutting_plane_optim_q", CP)], ["oracle queries with retry flag, cuts applied, returned (point, count), caller's objective bound"],
  [("retry", "the next query must use an alternative cut", "local in the driver")])
p("P04", "Binary search brackets the threshold and hands the bracket back",
  "For every probe outcome sequence, the binary search probes only midpoints of its current interval, replaces the upper end by a probe that succeeded and the lower end by one that failed, so the interval halves at every probe, and stops as soon as half the width is strictly below the tolerance or the iteration limit is reached. The caller's interval then holds the final bracket, and the reported pair is whether the upper end moved and the number of probes made. An interval whose lower end exceeds its upper end is rejected.",
  ["histories", "inputs", "configurations"], "all probe outcome sequences, intervals, tolerances and limits",
  "Each test is one threshold; the bracketing invariant is about every outcome sequence, including non-monotone ones, degenerate intervals and limits of zero.",
  [CP], [("bsearch", CP)], ["probe arguments, interval after return, returned pair"])
p("P05", "Binary-search probes are isolated and recentre only on success",
  "For every feasibility oracle and search space, one probe first passes the probed value to the oracle and then runs a complete feasibility search on a copy of the search space, so that a failed probe leaves the search space as it was. A successful probe changes only the centre, to the feasible point found, and the probe's answer is exactly whether the feasibility search found a point.",
  ["histories", "configurations"], "all sequences of probes, each with every inner feasibility run",
  "Leaks of the scratch copy into the kept space only show up over several probes with particular success/failure patterns.",
  [CP], [("BSearchAdaptor::assess_bs", CP)], ["search space of the adaptor before/after each probe, values passed to the oracle, probe answers"])
p("P06", "An accepted cut never discards a point that satisfies it",
  "Whenever a search space (either implementation) accepts a cut, every point of the old ellipsoid that satisfies the cut - the half-space of a single cut, the slab of a parallel cut - lies in the new ellipsoid. 'No solution' is reported only if no point of the ellipsoid satisfies the cut. This holds for bias cuts of non-negative depth, central cuts and discrete-style cuts of any depth, after every history of cuts.",
  ["histories", "inputs"], "all dimensions >= 2, all ellipsoids, all cut histories and depths within the stated contract",
  "Losing feasible points is invisible in tests that only look at the centre or at iteration counts; it needs particular depths, slab widths and shapes.",
  ["src/ell.rs", "src/ell_stable.rs", "src/ell_calc.rs"],
  [("Ell::update_core", "src/ell.rs"), ("EllStable::update_core", "src/ell_stable.rs"), ("EllCalc", "src/ell_calc.rs")],
  ["centre and shape (support function) of the ellipsoid before and after each cut, status"],
  [("(centre, shape)", "the ellipsoid {x : (x-c)' P^-1 (x-c) <= 1}", "Ell / EllStable")])
p("P07", "Every cut is classified correctly as success, no solution or no effect",
  "For every dimension, ellipsoid width and cut depth, a single cut deeper than the ellipsoid's half-width is 'no solution', parallel cuts with crossed bounds (whether or not parallel cuts are switched on) or lying wholly beyond the ellipsoid are 'no solution', a discrete-style cut so shallow that it cannot shrink the ellipsoid is 'no effect' and returns the identity update, and everything else succeeds. A parallel cut whose second bound lies at or outside the ellipsoid's far side, or used while parallel cuts are switched off, behaves exactly like the corresponding single cut.",
  ["inputs", "configurations"], "all n >= 2, all squared widths > 0, all depths (bias depths non-negative; the first bound of a discrete-style parallel cut no lower than minus the half-width), parallel cuts on and off",
  "The classification is a case analysis on real inequalities whose boundaries (equality, signs, huge or tiny magnitudes) tests only sample at a few points.",
  ["src/ell_calc.rs"], [("EllCalc::calc_*", "src/ell_calc.rs")], ["status and parameters returned by the cut calculators"])
p("P08", "Cut parameters describe the minimum-volume ellipsoid around the kept part",
  "For every accepted cut whose planes meet the ellipsoid, the step, shrink and scale parameters returned by the cut calculators are those of the smallest-volume ellipsoid enclosing the kept part (half-ellipsoid, slab section), to floating-point accuracy, in every dimension and at every scale. In particular the new volume never exceeds the old one, central cuts are bias cuts at depth zero, and parallel cuts whose second plane touches the ellipsoid agree with single cuts.",
  ["inputs"], "all n >= 2, all squared widths and depths over many orders of magnitude",
  "Tests compare a few hand-computed triples at n = 4; the formulas must hold for all dimensions, depths and scales.",
  ["src/ell_calc.rs"], [("EllCalcCore::calc_*", "src/ell_calc.rs")], ["(rho, sigma, delta) returned by the cut calculators"])
p("P09", "The ellipsoid update realises the cut's parameters exactly",
  "After an accepted cut the ellipsoid's centre and shape are exactly (to floating-point accuracy) those prescribed by the cut parameters for that gradient, for every cut kind, and the reported measure is the squared half-width of the old ellipsoid along the gradient. The shape stays symmetric and positive definite over every history, in every dimension.",
  ["histories", "inputs"], "all histories of single/parallel bias, central and discrete-style cuts on all non-degenerate ellipsoids",
  "Unit tests make one update of a multiple of the identity in dimension 4; index mix-ups, lost symmetry or drift need general shapes and long histories.",
  ["src/ell.rs"], [("Ell::update_core", "src/ell.rs")], ["public centre, shape, scale and measure after each cut"],
  [("(centre, shape, scale)", "the ellipsoid", "Ell")])
p("P10", "A rejected or ineffective cut leaves the search space unchanged",
  "When a cut is answered 'no solution' or 'no effect' by either search-space implementation, the ellipsoid (centre and shape) is exactly what it was and only the measure is refreshed; replacing the centre changes nothing but the centre; and a copy of a search space evolves independently of the original. Later cuts therefore behave as if the rejected cut had never been made.",
  ["histories", "inputs"], "all histories mixing accepted and rejected cuts, recentring and copying",
  "Corruption by a rejected cut only shows in what later cuts do, which no test follows.",
  ["src/ell.rs", "src/ell_stable.rs"], [("update_core early return", "src/ell.rs"), ("update_core early return", "src/ell_stable.rs"), ("set_xc", "src/ell.rs")],
  ["centre and support function before and after the call"])
p("P11", "Eager and deferred scaling give the same ellipsoid",
  "For every history of cuts the plain search space behaves identically (statuses, centres, measures, ellipsoid) whether the scale factor is folded into the shape after every cut or kept separate, and with folding enabled the scale is always one after an accepted cut. The ways of constructing a search space (scalar, diagonal, full matrix, covariance) describe the same ellipsoid when given equivalent data.",
  ["histories", "configurations"], "all cut histories under both scaling modes and all constructors",
  "Only one test touches the mode switch, for one step.",
  ["src/ell.rs"], [("no_defer_trick", "src/ell.rs"), ("constructors", "src/ell.rs")], ["public fields and statuses of two spaces driven by the same cuts"])
p("P12", "The numerically stable search space is equivalent to the plain one",
  "For every initial ellipsoid (scalar, diagonal or full positive definite matrix) and every history of cuts, the stable search space returns the same statuses, centres and measures and represents the same ellipsoid as the plain one, to floating-point accuracy.",
  ["histories", "inputs"], "all non-degenerate initial ellipsoids, dimensions >= 2 and cut histories",
  "Tests of the stable variant make one cut from a ball, where the triangular factor is still the identity.",
  ["src/ell_stable.rs"], [("EllStable::update_core", "src/ell_stable.rs"), ("EllStable::factorize", "src/ell_stable.rs")],
  ["statuses, centres, measures and support function of both variants under the same cuts"])
p("P13", "Factorization decides positive definiteness and locates the failure",
  "For every symmetric matrix the factorization reports success exactly when the matrix is positive definite; otherwise it reports the smallest leading block that is not positive definite. The answer depends only on the matrix given in that call, not on earlier uses of the same factorization object, and is the same whether the matrix is given explicitly or entry by entry.",
  ["inputs", "histories"], "all symmetric matrices (indefinite, singular, every size) and all reuse histories of the object",
  "Tests use six small matrices on fresh objects; singular leading blocks, larger sizes and reuse after a failure are not sampled.",
  ["src/oracles/ldlt_mgr.rs"], [("LDLTMgr::factor/factorize", "src/oracles/ldlt_mgr.rs")], ["boolean answer and reported block range"])
p("P14", "The witness proves non-definiteness and quadratic forms use it faithfully",
  "After a failed factorization (either mode) the witness entries of the reported block (all others count as zero, the last one is one) form a vector v that satisfies v'Av = -e for the matrix A, where e >= 0 is the returned amount, and evaluating the quadratic form of any matrix B through the object gives v'Bv over that block. Asking for a witness of a positive definite matrix is refused.",
  ["inputs", "histories"], "all non-positive-definite symmetric matrices, all second matrices, reuse histories",
  "A wrong entry of the witness changes cuts silently; tests check one witness entry of a 1x1 failing block.",
  ["src/oracles/ldlt_mgr.rs"], [("LDLTMgr::witness/sym_quad", "src/oracles/ldlt_mgr.rs")], ["witness vector, returned amount, quadratic form values"])
p("P15", "The square-root factor reproduces the matrix; semidefinite mode is one-sided",
  "After a successful factorization of a positive definite matrix A, the square root R is upper triangular with positive diagonal and R'R = A; it is refused after a failed one. In the semidefinite-tolerant mode every positive semidefinite matrix is accepted, a rejected matrix has a reported diagonal block that is not positive semidefinite, and a matrix whose first non-positive pivot is negative is rejected at that pivot.",
  ["inputs", "histories"], "all symmetric matrices, positive definite or with zero pivots, and reuse histories",
  "One 3x3 square root is tested; zero pivots in the middle of larger matrices are not.",
  ["src/oracles/ldlt_mgr.rs"], [("LDLTMgr::sqrt", "src/oracles/ldlt_mgr.rs"), ("factor_with_allow_semidefinite", "src/oracles/ldlt_mgr.rs")], ["R, boolean answer and block range"])
p("P16", "Linear-matrix-inequality oracles answer exactly and cut validly",
  "For every family of symmetric matrices and query point, each matrix-inequality oracle reports 'feasible' exactly when its matrix expression is positive definite there; otherwise it returns a cut of non-negative depth that the query point violates or touches and that every feasible point satisfies. The two implementations of the general form agree with each other, and answers do not depend on earlier queries.",
  ["inputs", "histories"], "all symmetric coefficient matrices, query points and query sequences",
  "Two fixed problems are tested by iteration bounds; the validity of a cut is a statement about all feasible points.",
  ["src/oracles/lmi_oracle.rs", "src/oracles/lmi_old_oracle.rs", "src/oracles/lmi0_oracle.rs"],
  [("LMIOracle::assess_feas", "src/oracles/lmi_oracle.rs"), ("LMIOldOracle::assess_feas", "src/oracles/lmi_old_oracle.rs"), ("LMI0Oracle::assess_feas", "src/oracles/lmi0_oracle.rs")],
  ["returned cut (gradient, depth) or none"])
p("P17", "The filter oracle accepts exactly the designs meeting the specification",
  "For every query history, the lowpass oracle accepts a coefficient vector exactly when its response lies within the passband limits at every passband frequency, between zero and the stopband limit at every stopband frequency, and is non-negative in between (and the first coefficient is non-negative); otherwise it returns the cut of one violated requirement, with its true gradient and both of its bounds. When optimizing, an accepted vector lowers the stopband limit to its own largest stopband response, with the corresponding cut.",
  ["histories", "inputs", "configurations"], "all orders, band edges, limits, coefficient vectors and query sequences (the scan position is kept between calls)",
  "The scan resumes where it stopped, so missing a frequency needs a particular history; tests make single queries and ignore the results.",
  ["src/oracles/lowpass_oracle.rs"], [("LowpassOracle::assess_feas/assess_optim", "src/oracles/lowpass_oracle.rs")],
  ["returned cuts, improved flag and stopband limit"],
  [("scan positions", "where each band's scan resumes", "LowpassOracle.idx1/idx2/idx3")])
p("P18", "The filter design instance is well posed at every size",
  "For every order, the ready-made lowpass design instance has ordered passband limits around one (ripple 0.025), a stopband limit from its attenuation 0.125, correctly sampled cosine spectra on the whole frequency range, and band edges at 0.12 and 0.20 of it. A design found for it by the optimization search really satisfies the passband limits and has stopband response no larger than the reported optimum.",
  ["configurations"], "all orders n >= 1 of the instance and all runs of the optimizer on it",
  "The shipped tests accept any outcome of the run, including none.",
  ["src/oracles/lowpass_oracle.rs"], [("create_lowpass_case", "src/oracles/lowpass_oracle.rs"), ("LowpassOracle::new", "src/oracles/lowpass_oracle.rs")],
  ["public fields of the instance, result of the optimization run"])
p("P19", "The profit oracle's cuts are valid and its objective bound is truthful",
  "For every parameter set, query point and history, the profit oracle reports an improvement exactly when the point respects the input limit and earns at least the current bound, in which case the bound becomes exactly the profit at that point and the cut is that point's profit gradient with zero depth. Otherwise it returns the value and gradient of a violated constraint, taking the constraints in rotation from the one used last, and leaves the bound alone; for a positive bound every feasible point that earns at least the bound satisfies that cut.",
  ["histories", "inputs"], "all parameter sets, query points, bounds and query sequences (constraints are checked in rotation)",
  "Tests run one parameter set end to end; the rotation state and the cached terms need particular sequences.",
  ["src/oracles/profit_oracle.rs"], [("ProfitOracle::assess_feas/assess_optim", "src/oracles/profit_oracle.rs")], ["returned cut, improved flag, bound"],
  [("rotation index", "constraint checked last", "ProfitOracle.idx")])
p("P20", "The robust profit oracle optimizes the worst case of its uncertainty set",
  "The robust profit oracle behaves, at every query point and in every history, as the plain one for the worst-case parameters: price and limit lowered and costs raised by their uncertainties, and each elasticity shifted by its uncertainty against the sign of the corresponding coordinate (lowered when positive, raised otherwise). With zero uncertainty it coincides with the plain oracle, and a reported profit is attained for every parameter value in the set.",
  ["histories", "inputs"], "all parameter and uncertainty sets, query points of every sign pattern, query sequences",
  "One uncertainty set is run from one start; sign switches between queries are not sampled.",
  ["src/oracles/profit_oracle.rs"], [("ProfitRbOracle::assess_optim", "src/oracles/profit_oracle.rs")], ["returned cut, improved flag, bound"])
p("P21", "The discrete profit oracle evaluates integral points and shifts cuts back",
  "On a first query the discrete profit oracle answers a violated constraint of the query point as is; otherwise it rounds to the nearest positive integral quantities and returns the plain oracle's answer at that integral point, with the cut's depth re-expressed relative to the query point. On a retry it reuses the same integral point without re-rounding, and it announces further alternatives exactly on non-retry queries; the point handed over with an improvement is the integral one.",
  ["histories", "inputs"], "all parameter sets, query points and query/retry sequences",
  "The depth shift and the retry memory only matter for sequences that the single end-to-end test does not isolate.",
  ["src/oracles/profit_oracle.rs"], [("ProfitOracleQ::assess_optim_q", "src/oracles/profit_oracle.rs")], ["returned cut, improved flag, point, alternatives flag, bound"],
  [("rounded point", "integral point reused on retry", "ProfitOracleQ.yd")])
p("P22", "The max-cut oracle scores sign vectors exactly and only ratchets upward",
  "For every weight matrix and point, the max-cut oracle scores the partition given by the signs (zero counts as positive; the score adds the weights above the diagonal of the pairs that are separated, each once), reports an improvement exactly when that score is strictly above the bound, then raising the bound to the score, and otherwise leaves the bound unchanged. The gradient's entries are minus twice each vertex's cross weight (the sum of its row over the other side), and the depth is minus the score on improvement and the bound otherwise; a non-square weight matrix is refused.",
  ["inputs", "histories"], "all weight matrices, points and query sequences",
  "Tests use one two-vertex graph with no cut edge.",
  ["src/oracles/maxcut_oracle.rs"], [("MaxcutOracle::assess_optim", "src/oracles/maxcut_oracle.rs")], ["returned cut, improved flag, bound"])
p("P23", "The SVM oracle cuts at a worst-margin sample and recognises separation",
  "For every labelled data set and hyperplane, the SVM oracle reports bound zero and a null cut exactly when every sample has margin at least one; otherwise the bound and depth are the smallest margin and the gradient is that of a sample attaining it (the first one). That direction never excludes a hyperplane separating all samples with margin one when applied through the query point.",
  ["inputs"], "all data sets, labels and hyperplanes",
  "Tests look only at the improvement flag on two tiny data sets.",
  ["src/oracles/svm_oracle.rs"], [("SvmOracle::assess_optim", "src/oracles/svm_oracle.rs")], ["returned cut, improved flag, bound"])
p("P24", "The quasiconvex example oracle cuts validly and improves truthfully",
  "For every query point, bound and history, the quasiconvex oracle reports an improvement exactly when both of its constraints hold at the point, setting the bound to the ratio attained there; otherwise it returns the value and gradient of a violated constraint, rotating through the constraints, and leaves the bound alone. For a non-negative bound no cut excludes a point that is feasible for it.",
  ["histories", "inputs"], "all query points, bounds and query sequences",
  "Tests check only the final point of one run.",
  ["src/quasicvx.rs"], [("MyOracle::assess_optim", "src/quasicvx.rs")], ["returned cut, improved flag, bound"])
p("P25", "Array operations compute the mathematical result and enforce shapes",
  "For every shape and content, the array operations (construction, element access, scaling, shifting, sums, differences, elementwise and scalar products and quotients, negation, matrix-vector, inner and outer products, rank-one update of a symmetric matrix, mapping, elementary functions, evenly spaced grids, and unit-step ranges of as many points as whole units fit) return the mathematically defined entries with the shape of the operands, and operators taking references leave their operands untouched. Elementwise operands of different size and products whose dimensions do not fit are refused.",
  ["inputs", "programs"], "all shapes (including empty and large), contents and operation sequences",
  "Tests use a few two- or three-element vectors.",
  ["src/arr.rs"], [("impl Arr and operator impls", "src/arr.rs")], ["entries, rows, columns, length of the results; refusals"])
p("P26", "Conjugate gradients returns a solution or says that it has none",
  "For every symmetric positive definite system, starting point, tolerance and iteration limit, a returned vector has residual norm below the tolerance (to rounding), an error is returned only if the limit was too small, and within as many iterations as the dimension a well-conditioned system is solved. A starting point that already solves the system is returned unchanged, inputs are left untouched, and a system with no descent direction is reported as an error.",
  ["inputs", "configurations"], "all SPD systems, right-hand sides, starting points, tolerances and limits",
  "Tests solve three fixed systems.",
  ["src/conjugate_gradient.rs"], [("conjugate_gradient", "src/conjugate_gradient.rs")], ["returned vector or error"])
p("P27", "Power iterations follow their recurrence and return unit eigenvectors",
  "For every symmetric matrix and non-degenerate start, each of the four power-iteration variants performs normalised multiplications until its documented stopping test (vector change up to sign, or eigenvalue change, at most the tolerance) first holds or the limit is reached, and reports that iteration's number. The vector left behind has unit Euclidean norm and the value returned is its Rayleigh quotient; a converged run is an approximate eigenpair.",
  ["inputs", "configurations"], "all symmetric matrices (entries between about 1e-60 and 1e60), starts, tolerances and limits",
  "Tests pin the iteration counts of a single 3x3 matrix.",
  ["src/power_iteration.rs"], [("power_iteration, 2, 3, 4", "src/power_iteration.rs")], ["returned (value, count) and vector"])
p("P28", "End-to-end runs find near-optimal feasible points and never miss one",
  "Running the feasibility, optimization, discrete and binary-search drivers on convex problems with either search space, a problem whose feasible set inside the initial ellipsoid contains a ball much larger than the tolerance is solved: a point is returned that satisfies all constraints and attains the reported bound, and no feasible point of the initial ellipsoid beats that bound by more than the final measure allows. A point returned by a discrete run is integral, feasible and attains its bound. If a problem has no feasible point, none is returned.",
  ["inputs", "configurations", "histories"], "all convex problem instances, initial ellipsoids and both search spaces",
  "Tests run about a dozen fixed instances and mostly assert that something was returned.",
  ["src/cutting_plane.rs", "src/ell.rs", "src/ell_stable.rs", "src/oracles"],
  [("cutting_plane_*", CP), ("search spaces", "src/ell.rs"), ("oracles", "src/oracles")],
  ["returned point, bound and count of complete runs"])
p("P29", "Errors say everything they carry; options are as given or as documented",
  "For every error value the displayed message contains every datum it carries (iteration count, limit, final or offending value if present, reason or details), errors of different kinds read differently, two errors are equal exactly when kind and all data agree, and a copy equals its original. Options built from a limit and a tolerance carry exactly these and are quiet; the default ones are 2000 iterations, tolerance 1e-20, quiet.",
  ["inputs"], "all error kinds and data (values other than NaN), all limits and tolerances",
  "Two messages and one copy are tested.",
  ["src/error.rs", CP], [("EllipsoidError, Display", "src/error.rs"), ("Options::new/default", CP)], ["message text, equality, public fields of the options"])
p("P30", "Every accepted cut shrinks the space at the guaranteed rate, so searches end",
  "Every accepted cut multiplies the volume of the ellipsoid by no more than the classical factor for its dimension and depth (or pair of depths) - below exp(-1/(2(n+1))) for a cut through the centre or deeper, and smaller still with a second plane inside the ellipsoid - for either search space, at every scale and after every history. Therefore a search whose cuts always keep a ball of radius r inside the initial ellipsoid finds a point within 2n(n+1) ln(R/r) steps (R the geometric mean half-axis at the start) however hostile the cuts, and after k steps of an optimization the points at least as good as the bound contain no ball larger than R exp(-k/(2n(n+1))).",
  ["histories", "inputs"], "all cut histories, all dimensions from two up, all oracles whose cuts keep the ball",
  "Tests compare iteration counts of a few fixed problems.",
  [CP, "src/ell.rs", "src/ell_stable.rs", "src/ell_calc.rs"], [("cutting_plane_feas/optim", CP), ("Ell::update_*", "src/ell.rs"), ("EllStable::update_*", "src/ell_stable.rs"), ("EllCalc", "src/ell_calc.rs")], ["volume of the ellipsoid before and after; steps until a point is returned; bound after k steps"])
with open(OUT, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
