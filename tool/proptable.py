INP, HIS, FLT, SCH, CFG, PRG = "inputs", "histories", "fault_sequences", "schedules", "configurations", "programs"

# ------------------------------------------------------------------------------------------------ trajopt_sco
prop("S01", "Expression algebra preserves meaning",
     "Every operation that builds or combines affine or quadratic expressions (constants, variables, scaling, in-place and out-of-place addition and "
     "subtraction, products, squares, clean-up of negligible terms) yields an expression whose value at any assignment of the variables is that operation "
     "applied to the operands' values. Evaluation is the constant plus the sum of coefficient times variable (times variable) over all terms.",
     [INP], "all expressions of all sizes, all assignments",
     "The tests evaluate a few two- or three-term expressions; most overloads and every larger size are unexercised.",
     [SCO + "expr_ops.cpp", SCO + "expr_vec_ops.cpp", SCOH + "expr_ops.hpp", SCO + "solver_interface.cpp"],
     [("exprInc/exprDec/exprScale/exprMult/exprSquare/cleanupAff", SCOH + "expr_ops.hpp"), ("AffExpr::value, QuadExpr::value", SCO + "solver_interface.cpp")])
prop("S02", "Penalty terms of a convex objective encode hinge, absolute value, norms, max",
     "Adding a hinge, absolute value, L1, squared L2 or max term to a convex objective introduces exactly the non-negative (for max: free) auxiliary variables, "
     "rows and objective terms whose minimum over the auxiliary variables is that penalty of the given expressions with the given weight. Every row is later posted to the "
     "model with the right sense, and nothing already in the objective changes.",
     [INP, HIS], "all affine expressions, weights and sequences of added terms",
     "Tests solve one or two penalty problems with unit weights and look at the optimum only.",
     [SCO + "modeling.cpp"], [("ConvexObjective::addHinge/addAbs/addL1Norm/addL2Norm/addMax/addConstraintsToModel", SCO + "modeling.cpp"),
                              ("ConvexConstraints::addConstraintsToModel", SCO + "modeling.cpp")],
     [("vars_, eqs_, ineqs_, quad_", "auxiliary variables, rows and objective of the approximation")])
prop("S03", "A removed convex approximation leaves nothing behind in the model",
     "When a convexified cost or constraint is removed from its model or destroyed, every variable and every row it ever added to that model is removed, exactly once. "
     "Rows and variables that belong to others are untouched.",
     [HIS], "all sequences of building, posting, removing and destroying convex terms",
     "Leaks only show up as slow growth of the model over many optimizer iterations; no test counts model entities.",
     [SCO + "modeling.cpp", SCOH + "modeling.hpp"], [("removeFromModel and destructors of ConvexObjective/ConvexConstraints", SCO + "modeling.cpp")],
     [("vars_, cnts_", "entities owned by the approximation")], tech="ownership/effect analysis on value-flow summaries: add sites versus removal lists")
prop("S04", "Optimization problem keeps variables, bounds, costs and constraints in step",
     "Every variable created through a problem gets its bounds recorded at its own position and posted to the solver model with the same bounds; setting bounds changes exactly the named "
     "variables. Costs and constraints are kept in insertion order, constraints are filed by their type, and the full list is equalities followed by inequalities.",
     [INP, HIS], "all sequences of variable, bound, cost and constraint additions",
     "Tests create a single batch of variables and never read back partitions or partial bounds.",
     [SCO + "modeling.cpp", SCOH + "modeling.hpp"], [("OptProb::createVariables/set*Bounds/addConstraint/getConstraints/addLinearConstraint", SCO + "modeling.cpp"),
                                                     ("setVec/getVec", SCOH + "modeling.hpp")],
     [("vars_, lower_bounds_, upper_bounds_", "parallel tables"), ("costs_, eqcnts_, ineqcnts_", "problem terms")])
prop("S05", "Feasible-point queries stay inside the variable bounds",
     "The closest feasible point clamps each coordinate to its lower and upper bound (moved inwards by the given margin) and leaves coordinates inside untouched; the central point is the clamped "
     "midpoint of the bounds. The QP variant minimizes the squared distance subject to exactly the problem's bounds and reports failure when the solver does.",
     [INP], "all points, bounds and margins", "No test calls these functions with points outside the bounds.",
     [SCO + "modeling.cpp"], [("OptProb::getClosestFeasiblePoint/getCentralFeasiblePoint/getClosestFeasiblePointQP", SCO + "modeling.cpp")])
prop("S06", "Constraint violation is |.| for equalities and positive part for inequalities",
     "For every constraint, exact or convexified, the violation of an equality row is the absolute value of its residual and of an inequality row its positive part, in row order, and the total "
     "violation is the sum of them.",
     [INP], "all residual vectors and both constraint types", "Tests look at one sign of residuals on one type.",
     [SCO + "modeling.cpp", SCOH + "sco_common.hpp"], [("Constraint::violations, ConvexConstraints::violations", SCO + "modeling.cpp"), ("vecSum, pospart, ...", SCOH + "sco_common.hpp")])
prop("S07", "Convexifications match value and gradient at the expansion point",
     "The convex approximation of a cost or constraint given by a function has the function's value and (numerical or supplied) gradient at the expansion point, with its weights and penalty type applied, "
     "and a quadratic approximation uses the symmetric part of the curvature with negative curvature removed. Exact values apply the same weights and penalty type to the function's own output.",
     [INP, CFG], "all functions, expansion points, weights and penalty types", "Tests use one or two smooth functions and check the optimizer's final result only.",
     [SCO + "modeling_utils.cpp"], [("affFromValGrad, CostFromFunc::convex, CostFromErrFunc::convex, ConstraintFromErrFunc::convex", SCO + "modeling_utils.cpp")])
prop("S08", "Finite differences use one step consistently and restore what they perturb",
     "Numerical gradients, Jacobians and Hessians evaluate the function at the given point and at points that differ from it in exactly the perturbed coordinates by the given step, divide by that step "
     "(its square for second derivatives), and leave the caller's point unchanged. The quotient for output i and input j is stored at row i, column j.",
     [INP], "all functions, points and steps", "Tests check a few analytic functions with symmetric Hessians at one step size.",
     [SCO + "num_diff.cpp", SCOH + "num_diff.hpp", IFO + "utils/numeric_differentiation.cpp"], [("calcForwardNumGrad/Jac, calcGradAndDiagHess, calcGradHess", SCO + "num_diff.cpp"),
                                                                                                ("calcForwardNumJac", IFO + "utils/numeric_differentiation.cpp")])
prop("S09", "The BPMPD back end hands the solver exactly the model",
     "The quadratic program sent to the BPMPD solver contains every live variable with its bounds, every row with its coefficients, constant and sense (equality or upper bound), and the current objective's linear and quadratic "
     "coefficients in the solver's convention; after the solve each variable reads back its own component of the solution.",
     [INP, HIS], "all models and all histories of additions, removals and bound changes", "Tests build a handful of small models without removals or mixed senses.",
     [SCO + "bpmpd_interface.cpp"], [("BPMPDModel::optimize, addVar, addEqCnt, addIneqCnt, setVarBounds, setObjective", SCO + "bpmpd_interface.cpp")],
     [("vars_, cnts_, cntExprs_, cntTypes_, lbs_, ubs_", "parallel tables of the model")])
prop("S10", "The BPMPD pipe protocol transfers complete records symmetrically",
     "Writer and reader of the solver pipe visit the same fields in the same order with the same sizes in both directions, and transfers that the operating system splits are continued until the whole field has moved.",
     [INP, FLT], "all payload sizes, all splits of reads and writes", "Test payloads fit one pipe transfer.",
     [SCOH + "bpmpd_io.hpp", SCO + "bpmpd_caller.cpp"], [("ser(input)/ser(output)", SCOH + "bpmpd_io.hpp")], tech="effect-order analysis of the serializer and its instantiations")
prop("S11", "Solver model tables stay aligned across add, remove and update",
     "In every solver back end, adding a variable or row extends all parallel tables by one at the same position, and after an update the removed entries have left every table, the survivors keep their data and their order, and each survivor's "
     "index equals its position.",
     [HIS], "all interleavings of additions, removals and updates", "Tests never remove an entity from the middle and look at the remainder.",
     [SCO + "bpmpd_interface.cpp", SCO + "osqp_interface.cpp", SCO + "qpoases_interface.cpp", SCO + "gurobi_interface.cpp"], [("update, addVar, addEqCnt, addIneqCnt, removeVars, removeCnts", SCO + "*_interface.cpp")],
     [("vars_, lbs_, ubs_, cnts_, cntExprs_, cntTypes_", "parallel tables")])
prop("S12", "Solver models declared thread-safe hold their lock around every table change",
     "Every operation of a solver model that is documented as thread-safe (adding and removing variables and rows, including the convenience forms) touches the variable, bound and row tables only while holding the model's mutex, and extends the parallel tables within one critical section, so concurrent additions neither lose entries nor put the tables out of step.",
     [SCH], "all schedules of concurrent model mutations", "No test uses a model from two threads.",
     [SCO + "bpmpd_interface.cpp", SCO + "osqp_interface.cpp", SCO + "qpoases_interface.cpp", SCO + "gurobi_interface.cpp", SCO + "solver_interface.cpp"], [("std::lock_guard on mutex_", SCO + "*_interface.cpp")],
     tech="lockset analysis: every mutation of a guarded table is dominated by the guard")
prop("S13", "Setting an objective replaces the previous one entirely",
     "After an objective is set on a solver model, what is optimized is that objective alone, whether it is affine or quadratic and whatever was set before.",
     [HIS], "all sequences of objectives", "Tests set one objective per model.",
     [SCO + "bpmpd_interface.cpp", SCO + "osqp_interface.cpp", SCO + "qpoases_interface.cpp"], [("setObjective overloads", SCO + "*_interface.cpp")])
prop("S14", "Solver names, types and back ends correspond",
     "The textual name of a solver type, the type parsed from that name and the back end constructed for it all agree, unknown names and values are rejected, and the automatic choice picks an available solver.",
     [INP, CFG], "all names and type values, all sets of compiled back ends", "Tests run whichever solvers are compiled in and never round-trip names.",
     [SCO + "solver_interface.cpp", SCOH + "solver_interface.hpp"], [("ModelType, MODEL_NAMES_, availableSolvers, createModel", SCO + "solver_interface.cpp")], tech="table/enum correspondence and path analysis")
prop("S15", "Expressions convert to solver matrices without losing or moving terms",
     "Converting affine and quadratic expressions to sparse matrices and to the solver's compressed arrays places every coefficient (and, where documented, both symmetric halves) at its variables' indices, accumulates repeats, and keeps constants with the documented sign.",
     [INP], "all expressions, all sizes, all duplicate patterns", "Tests use a few fixed matrices.",
     [SCO + "solver_utils.cpp", SCOH + "solver_utils.hpp", SCO + "solver_interface.cpp"], [("exprToEigen, tripletsToEigen, eigenToCSC, simplify2, vars2inds", SCO + "solver_utils.cpp")])
prop("S16", "Solver outcome is reported faithfully",
     "A solver back end reports success only when the underlying solver said so, distinguishes infeasibility from failure, and the solution it publishes after a success is the underlying solver's.",
     [FLT], "all return codes of the underlying solvers", "Tests only see solvable problems and one infeasible one.",
     [SCO + "bpmpd_interface.cpp", SCO + "osqp_interface.cpp", SCO + "qpoases_interface.cpp"], [("optimize", SCO + "*_interface.cpp")], tech="path-sensitive status-flow analysis")
prop("S17", "The trust-region optimizer accepts only improving steps",
     "The sequential convex optimizer keeps the best point, its costs and its violations in step, replaces them only by a point of better merit, shrinks the trust region otherwise, "
     "and reports convergence only when the constraint tolerance is met.",
     [INP, FLT], "all problems and solver failures", "This optimizer is not built here and its tests do not run.",
     [SCO + "optimizers.cpp", SCOH + "optimizers.hpp"], [("BasicTrustRegionSQP::optimize", SCO + "optimizers.cpp")], tech="path-sensitive typestate analysis of the optimizer loop")

# ------------------------------------------------------------------------------------------------ trajopt_ifopt
prop("I01", "Joint constraints and their Jacobians are the same finite-difference stencil",
     "The joint position, velocity, acceleration and jerk constraints evaluate to their documented finite-difference formula of the linked waypoints, for every trajectory length they accept, with one target and one coefficient for each row, "
     "and their Jacobian is exactly the derivative of that value, row by row and column by column. Inputs they cannot support are rejected.",
     [INP, CFG], "all trajectory lengths, joint counts, coefficients and targets", "These constraints have no running unit test here.",
     [IFO + "constraints/joint_position_constraint.cpp", IFO + "constraints/joint_velocity_constraint.cpp", IFO + "constraints/joint_acceleration_constraint.cpp", IFO + "constraints/joint_jerk_constraint.cpp"],
     [("getValues, getJacobian", IFO + "constraints/joint_*_constraint.cpp")])
prop("I02", "Bounds classification and bound errors agree with the interval",
     "A bound's type follows from its limits, is recomputed whenever they change, and the signed error, absolute violation and membership tests are those of the closed interval for every bound type.",
     [INP], "all limits including infinite ones, all values", "Tests sample a few finite intervals.",
     [IFO + "core/bounds.cpp", IFOH + "core/bounds.h", IFO + "utils/ifopt_utils.cpp"], [("Bounds", IFO + "core/bounds.cpp"), ("calcBoundsErrors, calcBoundsViolations", IFO + "utils/ifopt_utils.cpp")])
prop("I03", "A problem stacks its components consistently",
     "The problem's constraint values, bounds and Jacobian, its costs and its variable vector are the concatenation in insertion order of its components' own, rows of one component being contiguous and the same in all of them. "
     "The scalar objective and its gradient cover every registered cost.",
     [INP, CFG], "all sets of components of all sizes", "Not covered by the tests that run here.",
     [IFO + "core/problem.cpp", IFOH + "core/problem.h"], [("Problem::evaluate*, get*Bounds*, getJacobian*", IFO + "core/problem.cpp")])
prop("I04", "Setting optimization variables reaches every node, variable and observer",
     "Assigning a variable vector writes each entry to exactly the variable that owns it, reading it back returns the same vector, and observers see the change. Bounds and names are reported in the same order as the values.",
     [INP, HIS], "all layouts of nodes and variables", "Not covered by the tests that run here.",
     [IFO + "variable_sets/node.cpp", IFO + "variable_sets/var.cpp", IFO + "variable_sets/nodes_variables.cpp"], [("Node::setVariables, Var::setVariables, NodesVariables::setVariables", IFO + "variable_sets/")])
prop("I05", "Penalty costs built on constraints have matching value, Jacobian and weights",
     "The squared and absolute costs of a constraint equal the weighted squared or absolute bound errors of that constraint, summed over its rows, and their Jacobian is the derivative of that sum.",
     [INP], "all constraints, bounds and weights", "Not covered by the tests that run here.",
     [IFO + "costs/squared_cost.cpp", IFO + "costs/absolute_cost.cpp"], [("SquaredCost, AbsoluteCost", IFO + "costs/")])
prop("I06", "Trajectory conversion and interpolation helpers preserve waypoints",
     "The helpers that interpolate states, build bound lists from limit matrices and flatten or unflatten trajectories keep every waypoint, limit and sign in place for all sizes, and interpolation starts and ends at the given states.",
     [INP], "all sizes and values", "Tests sample small sizes.",
     [IFO + "utils/ifopt_utils.cpp", IFO + "utils/trajopt_utils.cpp"], [("interpolate, toBounds, concatVector, ...", IFO + "utils/ifopt_utils.cpp")])

# ------------------------------------------------------------------------------------------------ trajopt_sqp
prop("Q01", "SQP expression containers compute values and products exactly",
     "Affine and quadratic expression containers evaluate to constant plus linear plus quadratic terms, are tangent to the function they approximate at the expansion point, and squaring affine expressions yields quadratic expressions with the same value everywhere.",
     [INP], "all containers of all sizes", "Tests check a few small instances.",
     [SQP + "expressions.cpp"], [("AffExprs::create/values/square, QuadExprs::create/values", SQP + "expressions.cpp")])
prop("Q02", "QP rows, slack columns, bounds and gradient are laid out consistently",
     "In the quadratic program built from a nonlinear problem every term's rows, its slack columns, their bounds and their objective weights refer to the same row for every mix of terms with equality and one-sided bounds (rows with other bounds are rejected with an error); slack variables are non-negative, enter with the sign that relaxes their row and are weighted by the weight the problem assigns to that row.",
     [INP, CFG], "all mixes of term types, bound types and weights", "Not covered by the tests that run here.",
     [SQP + "trajopt_qp_problem.cpp", SQP + "ifopt_qp_problem.cpp"], [("convexify, updateGradient, updateSlackVariableBounds, ...", SQP)])
prop("Q03", "Re-initialising a QP problem gives the same problem as building it once",
     "Setting a QP problem up again, after new terms were added or not, yields exactly the tables that a single set-up of the same terms would give: no duplicated names, rows, costs or counts.",
     [HIS], "all sequences of additions and set-ups", "Tests set each problem up once.",
     [SQP + "trajopt_qp_problem.cpp", SQP + "ifopt_qp_problem.cpp"], [("setup, update", SQP)], )
prop("Q04", "The SQP solver accepts a step only if it improves the exact merit",
     "The solver replaces its best point only by a point whose exact merit improved and agrees well enough with the predicted improvement, for every value of the evaluated costs and violations including not-a-number; otherwise the trust region shrinks.",
     [INP, FLT], "all cost values and solver results", "Tests of this solver do not run here.",
     [SQP + "trust_region_sqp_solver.cpp"], [("runTrustRegionLoop", SQP + "trust_region_sqp_solver.cpp")], [("results_", "best and new values, merits, violations")],
     tech="path-sensitive typestate analysis on value-flow summaries")
prop("Q05", "The SQP solver's best point, costs, violations and problem state change together",
     "Best variables, costs, constraint violations and merits are always those of one and the same point; the problem's variables are the best point whenever control returns from a step, and are left at the best point when solving ends.",
     [HIS, FLT], "all accept/reject/failure histories", "Tests of this solver do not run here.",
     [SQP + "trust_region_sqp_solver.cpp"], [("runTrustRegionLoop, solveQPProblem, solve", SQP + "trust_region_sqp_solver.cpp")], tech="path-sensitive typestate analysis on value-flow summaries")
prop("Q06", "Every stop of the SQP solver is bounded, honoured and reported truthfully",
     "Solving stops within the configured iteration, penalty and failure limits, a stop requested by a callback stops it, and the reported status is converged only when the constraint tolerance is met, otherwise names the limit that was hit.",
     [HIS, FLT], "all callback answers, limits and QP failures", "Tests of this solver do not run here.",
     [SQP + "trust_region_sqp_solver.cpp"], [("solve, stepSQPSolver, runTrustRegionLoop", SQP + "trust_region_sqp_solver.cpp")], tech="path-sensitive status-flow analysis")
prop("Q07", "Trust-region changes reach the QP solver and stay inside variable bounds",
     "Whenever the trust-region size or expansion point changes, the bounds given to the QP solver before its next solve are the intersection of the variable bounds with the box around the current point.",
     [HIS], "all sequences of box and point changes", "Tests of this solver do not run here.",
     [SQP + "trust_region_sqp_solver.cpp", SQP + "trajopt_qp_problem.cpp", SQP + "ifopt_qp_problem.cpp"], [("updateNLPVariableBounds, setBoxSize, scaleBoxSize", SQP)], tech="typestate and value-flow analysis")
prop("Q08", "Exact and convexified costs and violations measure the same quantity",
     "The exact and the convexified evaluation of every cost and constraint apply the same bounds, the same penalty shape and the same weights, in the same order, so the predicted and actual improvement are comparable.",
     [INP, CFG], "all mixes of costs, constraints, bounds and weights", "Not covered by the tests that run here.",
     [SQP + "trajopt_qp_problem.cpp", SQP + "ifopt_qp_problem.cpp"], [("getExactCosts, evaluateConvexCosts, getExactConstraintViolations, evaluateConvexConstraintViolations", SQP)])

# ------------------------------------------------------------------------------------------------ common
prop("M01", "The cache's tables agree after every operation",
     "After every cache operation the key map, the recency list, the slot flags and the free list describe the same set of objects: a key maps to exactly one slot, every stored object is in the recency list exactly once, and every other slot is either free or handed out.",
     [HIS], "all sequences of cache operations on all capacities", "Tests run short scripted sequences.",
     [COM + "cache.h"], [("Cache::get/put/erase/acquireSlot/evictSlot/touch", COM + "cache.h")], [("key_to_slot_, slot_key_, assigned_, lru_, slot_it_, free_slots_, checked_out_", "cache tables")],
     tech="inductive data-structure invariant checked by effect summaries of every operation")
prop("M02", "JSON options fail loudly on missing or malformed required fields",
     "A required field that is absent or has the wrong type raises an error naming the field, an optional field falls back to the given default only when absent, and values are stored unchanged.",
     [INP], "all documents", "No running test feeds malformed documents.",
     ["trajopt/src/json_marshal.cpp"], [("fromJson, childFromJson, fromJsonArray", "trajopt/src/json_marshal.cpp")])
