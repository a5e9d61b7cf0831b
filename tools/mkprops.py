#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so the wording lives in one editable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

QPF = ["src/solvers/qp_base.hpp", "src/solvers/admm.hpp", "src/solvers/box_admm.hpp"]
prop("C01", "A QP reported as solved is optimal to the requested tolerance",
 "Whenever either QP solver returns SOLVED, the returned primal point satisfies every general and box constraint, and the returned multipliers satisfy stationarity, sign and complementarity (rows of A first, then the box), all within eps_abs plus eps_rel times the problem scale. The reported residuals are the residuals of the returned point, and the objective is within the matching gap of the true optimum.",
 ["inputs", "configurations"], "every convex QP over small coefficient alphabets (all bound types: free, one-sided, two-sided, equality; singular and definite Hessians), every solver/storage/triangle variant and every setting combination in the bound",
 "Existing tests solve about a dozen fixed QPs and compare x with a known answer; multipliers, bound-type mixtures and setting combinations are never checked.",
 QPF, [("residual computation and termination test", "box_admm.hpp/admm.hpp: residuals_update, termination_criteria"), ("projection and multiplier update", "solve_impl"), ("bound classification", "qp_base.hpp: parse_constraints_bounds")],
 ["solve() return value", "primal_solution()", "dual_solution()", "info()"])
prop("C02", "Every backend and setting finds the minimiser of a feasible convex QP",
 "For a feasible, strictly convex QP each solver variant (general-constraint or box ADMM, dense or sparse matrices, lower-triangular or full factorisation, compressed or uncompressed sparse input) reaches SOLVED within a generous iteration budget for every admissible over-relaxation, step size and regularisation, with or without step-size adaptation (except where adaptation itself cycles in the textbook method). All variants return the same unique minimiser up to the tolerance.",
 ["inputs", "configurations"], "every strictly convex QP of the alphabet crossed with every solver variant and every admissible setting vector of the grid",
 "Tests run each variant on one or two problems with almost default settings; over-relaxation other than 1 is never exercised for the box solver.",
 QPF, [("KKT assembly dense/sparse", "construct_kkt_matrix*"), ("over-relaxed ADMM step", "solve_impl"), ("step-size adaptation", "rho_vec_update, update_kkt_rho, estimate_rho")],
 ["solve() return value", "primal_solution()"])
prop("C03", "A QP solver object can be reused without remembering earlier problems",
 "Solving a problem with a solver object that has already solved any sequence of other problems gives the same status and the same solution (to tolerance) as a freshly constructed solver, including changes of bounds, of bound types, of matrix values and of settings in between. With the same-sparsity option, this also holds for any values on an unchanged pattern; a supplied starting point never changes the minimiser that is returned.",
 ["histories", "inputs"], "every sequence of solve calls up to the depth bound over a menu of problems, settings changes and starting points, for every solver variant",
 "Only two tests call solve twice, on nearly the same problem; no test changes bound types or settings between solves or compares with a fresh object.",
 QPF, [("per-solve re-initialisation", "solve_impl prologue"), ("same-pattern KKT refresh", "construct_kkt_matrix_same_pattern"), ("step size restored each solve", "rho_vec_update")],
 ["solve() return value", "primal_solution()", "info()"], [("cached KKT matrix and factorisation", "survives between solves", "m_K, linear_solver"), ("step-size vectors", "adapted in place", "m_rho_vec, m_rho_vec_box")])
prop("C04", "QP status and iteration counts never overstate what was done",
 "A QP solver performs at most the configured maximum number of iterations and never reports a larger count; it returns SOLVED only if a termination check passed, and MAX_ITER_EXCEEDED when the budget ran out. An infeasible or unbounded convex QP is never reported SOLVED, and the returned status always equals the status in the info block.",
 ["inputs", "configurations"], "every combination of iteration budget, check interval, adaptation interval and problem (feasible, primal infeasible, unbounded) in the bound",
 "Tests only look at SOLVED on feasible problems with budgets that are never reached.",
 QPF, [("iteration loop and status assignment", "solve_impl"), ("termination interval", "check_termination setting")],
 ["solve() return value", "info().status", "info().iter"])
prop("C05", "Problem scaling is transparent to the user",
 "Equilibrating a QP and undoing the equilibration restores the original problem data, and a solution of the scaled problem, mapped back, is a solution of the original problem (primal, dual and bounds). Scaling a primal-dual pair and unscaling it is the identity; scale factors are always positive and finite, for dense and sparse data alike, also after any sequence of compute, scale and unscale calls.",
 ["inputs", "histories"], "every QP of the alphabet including zero rows, zero columns, zero gradients, infinite bounds and badly scaled entries, dense and sparse, and every sequence of operations up to the bound",
 "Two tests solve one fixed scaled problem; zero rows/columns, infinite bounds and round trips are not tested.",
 ["src/solvers/qp_preconditioners.hpp"], [("Ruiz equilibration dense and sparse", "RuizEquilibration::compute"), ("inverse maps", "RuizEquilibration::unscale, scale")],
 ["H, h, A and bounds after compute/unscale", "primal and dual vectors after scale/unscale"])
prop("C06", "Quasi-Newton updates keep a symmetric, well-defined Hessian estimate",
 "Starting from any symmetric positive definite matrix, every sequence of damped BFGS updates leaves the estimate finite, symmetric and positive definite, and satisfies the secant equation whenever the curvature condition holds. The SR1 update stays finite and symmetric, satisfies the secant equation whenever its safeguard accepts, and otherwise leaves the matrix unchanged.",
 ["histories", "inputs"], "every sequence of (step, gradient change) pairs up to the depth bound from integer grids including zero and negative-curvature pairs, in dimensions 1 to 3",
 "Two BFGS tests apply one update each; SR1 is never tested, degenerate pairs never occur.",
 ["src/solvers/bfgs.hpp", "src/solvers/sr1.hpp"], [("damping", "BFGS_update"), ("safeguard", "SR1_update")], ["updated matrix"])
prop("C07", "The line-search filter only keeps and admits non-dominated trial points",
 "A filter accepts a (cost, violation) pair exactly when no stored pair dominates it up to the configured margin, and reports a pair dominated exactly when some stored pair is no worse in both measures. Adding a pair makes it present and removes the pairs it dominates, the filter never exceeds its depth limit, and when full it drops the oldest entry.",
 ["histories"], "every sequence of add, remove, clear and query operations over a small grid of pairs, for depth limits 1 to 4, as a state graph explored breadth-first",
 "One integration test uses the filter indirectly; its state machine is not tested at all.",
 ["src/solvers/line_search.hpp"], [("dominance predicates", "LSFilter::is_dominated, is_acceptable"), ("insertion and eviction", "LSFilter::add")], ["is_dominated()", "is_acceptable()", "stored pairs"], [("filter list", "stored pairs, newest first", "LSFilter::m_filter")])
prop("C08", "NLP gradients, Jacobians and Hessians are the exact derivatives",
 "For any differentiable cost and constraint functions the user supplies, the values, cost gradient, cost Hessian, constraint Jacobians and Lagrangian gradient and Hessian returned by an NLP problem are the mathematical ones at the queried point. They do not depend on which queries were made before, at which points, or in which order.",
 ["programs", "histories", "inputs"], "every problem of a menu of polynomial/transcendental programs with all combinations of constraint counts, every grid point and every call sequence up to the depth bound",
 "Tests only observe derivatives through SQP convergence on four problems.",
 ["src/solvers/nlproblem.hpp", "src/autodiff/AutoDiffScalar.h"], [("seeding", "ProblemBase::seed_derivatives"), ("first and second order sweeps", "cost_gradient_hessian_impl, lagrangian_gradient_hessian_impl")], ["output arguments of the query functions"], [("AD work variables", "persist between queries", "m_ad_var, m_ad2_var, m_ad2_cost")])
prop("C09", "An NLP reported as solved is feasible and stationary",
 "When the SQP solver reports SOLVED, the returned point violates no equality, inequality or box constraint by more than the primal tolerance and the last primal and dual steps are within their tolerances; it reports SOLVED as soon as, and only if, these hold. On convex problems the returned primal-dual pair then satisfies the first-order optimality conditions to a matching accuracy. The reported violation, step norms, cost, iteration counts and status describe the returned point and the last step. Every iteration solves the QP of the current iterate (exact gradient, Jacobian, constraint and box bounds, exact or quasi-Newton Hessian, scaled back exactly when a preconditioner is used), takes the longest line-search step with sufficient decrease of the merit function, and moves both primal and dual variables by it. The number of iterations never exceeds the limit, and every iteration after the first invokes the iteration callback with the new iterate.",
 ["inputs", "programs", "configurations"], "every problem of the NLP menu, every starting point of a grid and every settings combination in the bound",
 "Tests check four problems from one starting point each, with isApprox(1e-2) on x only.",
 ["src/solvers/sqp_base.hpp"], [("termination test", "termination_criteria_impl, max_constraints_violation_impl"), ("step and multiplier update", "SQPBase::solve"), ("l1 merit line search", "step_size_selection_impl")], ["info()", "primal_solution()", "dual_solution()", "constr_violation()", "iteration callback"])
prop("C10", "SQP solves are independent of the solver's past and reach the solution",
 "On a convex NLP, the SQP solver reaches the unique solution from any starting point when it uses exact Hessians, and also with its default quasi-Newton Hessian when no constraint is active at the solution. Solving again on the same object after any sequence of solves, warm starts, truncated solves, bound, parameter and settings changes gives the same solution as a new solver started from the same point; with a fixed QP penalty the two runs are identical in iterates, iteration counts and reports. This holds for each QP backend and with or without problem scaling.",
 ["histories", "inputs", "configurations"], "every sequence of solve/modify operations up to the depth bound over a menu of convex NLPs, QP backends and preconditioners",
 "No test re-solves with one SQP object except one MPC test with two nearly identical solves.",
 ["src/solvers/sqp_base.hpp"], [("state reset per solve", "SQPBase::solve"), ("bounds and parameters reread each iteration", "SQPBase::solve, linearisation_*_impl"), ("QP settings forced by SQP", "SQPBase::SQPBase, reuse_pattern/warm_start")], ["info()", "primal_solution()"])
prop("C11", "The transcription evaluates the stated optimal control problem",
 "For every combination of state, control, parameter and constraint dimensions, polynomial order and segment count, the discretised dynamics constraints are the pseudospectral residuals of the user's dynamics on the scaled time grid, the cost is the quadrature of the running cost plus the terminal cost at the final node, and the path constraints are the user's constraints at every node. Changing the time limits rescales all of them consistently, and trajectories that are polynomials of the discretisation degree and solve the dynamics have zero residual.",
 ["programs", "configurations", "inputs"], "every dimension tuple, order, segment count and time interval in the bound, every grid trajectory",
 "Control tests use one dimension tuple each and only observe the SQP result.",
 ["src/control/continuous_ocp.hpp"], [("composite differentiation operator", "ContinuousOCP::equalities"), ("quadrature weights", "ContinuousOCP::cost"), ("time grid", "ContinuousOCP::set_time_limits")], ["cost()", "equalities()", "inequalities()", "constraints()", "time_nodes"])
prop("C12", "Transcribed problem derivatives are exact (dense form)",
 "The gradient, constraint Jacobians, cost Hessian and Lagrangian gradient and Hessian of a dense transcribed optimal control problem are the exact derivatives of its cost and constraints, including those with respect to free parameters, for every dimension tuple, order and segment count. Values returned along with derivatives equal the plain evaluations.",
 ["programs", "configurations", "inputs"], "every dimension tuple (states, controls, parameters, path constraints), order and segment count in the bound, every point of the grid",
 "Existing tests never compare derivatives with a reference and always have fewer controls than states and at most one parameter.",
 ["src/control/continuous_ocp.hpp"], [("block-wise AD sweeps", "equalities_linearised, cost_gradient_hessian, lagrangian_gradient_hessian (dense)")], ["output arguments of the query functions"])
prop("C13", "Sparse and dense transcriptions agree, on first and repeated evaluations",
 "For the same optimal control problem the sparse transcription returns the same values, gradients, Jacobians and Hessians as the dense one, whatever the dimensions. Evaluating again into the same matrices, at the same or at other points and in any order of queries, gives the same result as a first evaluation into empty ones.",
 ["histories", "configurations", "programs"], "every dimension tuple, order and segment count in the bound, every sequence of query calls up to the depth bound",
 "One test compares dense and sparse for one dimension tuple on a single call.",
 ["src/control/continuous_ocp.hpp"], [("first-call insertion and later in-place update", "_equalities_linearised_sparse(_update), _cost_grad_hess_sparse(_update)"), ("non-zero accounting", "estimate_*_inner_nnz")], ["output matrices"], [("sparsity pattern", "built on the first call, overwritten in place later", "output matrices and m_Ae/m_Ai/m_H-like members")])
prop("C14", "The structured Hessian update keeps symmetry, curvature and pattern",
 "The block quasi-Newton update offered for transcribed problems is the damped BFGS update, applied to the whole matrix in dense storage and restricted to the sparsity pattern of the transcription in sparse storage. Over any sequence of steps it keeps the Hessian estimate symmetric and finite, never changes the sparsity pattern, leaves the matrix unchanged for a zero step, and keeps it positive definite from a positive definite start (in sparse storage: for problems without free parameters).",
 ["histories", "inputs", "configurations"], "every sequence of (step, gradient change) pairs up to the depth bound from small grids, including zero and negative-curvature blocks, for several dimension tuples",
 "Only used inside two MPC tests; never observed directly.",
 ["src/control/continuous_ocp.hpp", "src/solvers/bfgs.hpp"], [("block-wise damped update", "ContinuousOCP::hessian_update_impl")], ["updated Hessian"])
prop("C15", "The MPC interface maps user data to the right variables and back",
 "Bounds, initial and final conditions, parameters and guesses set through the MPC interface affect exactly the named states, controls, parameters and time points, whatever the order of calls, with later calls overriding earlier ones only where they overlap. State bounds apply to every time node but the initial one, which is set by the initial conditions; trajectories are exchanged in the stored order, last time node first. The solution accessors (whole trajectory, reshaped in increasing time, k-th node, parameters, multipliers) all describe the same solution.",
 ["histories", "configurations"], "every sequence of setter calls up to the depth bound, for several dimension tuples, orders and segment counts, compared with a reference model indexed by time and component",
 "One test calls a handful of setters once in one order.",
 ["src/control/mpc_wrapper.hpp"], [("index arithmetic over reversed time storage", "MPC setters and getters")], ["solver lower/upper bounds and guess", "solution_* accessors"])
prop("C16", "Interpolated MPC solutions pass through the nodes at any time limits",
 "Evaluating the state or control solution at a time returns the value of the piecewise polynomial through the collocation nodes at that time: it reproduces node values at node times, any polynomial of the discretisation degree in between, and is continuous across segments. This holds for every order and segment count and for every horizon set, including horizons that do not start at zero and repeated changes of the time limits.",
 ["configurations", "histories", "inputs"], "every order, segment count, sequence of time-limit changes and sampling time of the grid",
 "One test samples five times on one horizon starting at zero with tolerance 1e-3.",
 ["src/control/mpc_wrapper.hpp", "src/polynomials/splines.hpp"], [("segment lookup and local time", "MPC::solution_x_at(t), solution_u_at(t)"), ("basis refresh on time change", "MPC::set_time_limits")], ["solution_x_at(t)", "solution_u_at(t)"])
prop("C17", "Receding-horizon MPC returns the optimal feasible trajectory every step",
 "For linear dynamics with convex quadratic cost, each MPC solve that reports SOLVED returns a trajectory with the measured initial state that satisfies the dynamics and the state, control, path and parameter bounds within tolerance, and that is the unique optimum of the discretised problem when its QP subproblems converged. With exact Hessian updates every such solve, along any sequence of measurements, time-limit, bound, parameter and guess changes and truncated solves, reaches this optimum, so warm-started solves return the same trajectory as a fresh controller; solves from a reset guess repeat it exactly. This holds for dense and sparse formulations alike.",
 ["histories", "configurations"], "every sequence of controller operations up to the depth bound over a menu of measurements, bounds and horizons, for dense and sparse controllers",
 "One test performs two consecutive solves and checks only that the second needs fewer iterations.",
 ["src/control/mpc_wrapper.hpp", "src/control/continuous_ocp.hpp", "src/solvers/sqp_base.hpp"], [("warm start from previous solution", "MPC::solve, SQPBase::solve"), ("transcription", "ContinuousOCP")], ["solution_x(), solution_u()", "info()"])
prop("C18", "Collocation nodes, weights and differentiation are exact for polynomials",
 "For every polynomial order, the Chebyshev and Legendre Gauss-Lobatto grids contain both end points and are symmetric and strictly monotone, the integration weights are positive and integrate all polynomials up to their design degree exactly on any interval, and the differentiation matrix differentiates all polynomials up to the order exactly. The spline wrapper exposes the same operators.",
 ["configurations", "inputs"], "every order up to the bound, every monomial up to the design degree, several intervals, single and double precision",
 "One program prints numbers for one order without checking them.",
 ["src/polynomials/ebyshev.hpp", "src/polynomials/legendre.hpp", "src/polynomials/splines.hpp"], [("closed-form operators", "compute_nodes, compute_int_weights, compute_diff_matrix, integrate")], ["public static operators and getters"])
prop("C19", "Projection on an orthogonal basis reproduces polynomials",
 "Projecting a polynomial of degree at most the basis order on the Chebyshev or Legendre basis over any interval and evaluating the projection returns the polynomial, and the coefficients are those of its exact expansion. The basis functions evaluate to the classical orthogonal polynomials.",
 ["configurations", "inputs"], "every order up to the bound, every basis function and every monomial up to the order, several intervals and sampling points",
 "One program prints one projection without checking it.",
 ["src/polynomials/projection.hpp", "src/polynomials/ebyshev.hpp", "src/polynomials/legendre.hpp"], [("discrete inner products and norm factors", "Projection::project, compute_norm_factors, compute_quad_weights")], ["Projection::coeff", "Projection::eval"])
prop("C20", "Interpolating splines evaluate the right piece everywhere",
 "The equidistant cubic spline evaluates, for every argument, the cubic of the segment that contains it, clamps to the first and last segment outside its range without touching other memory, and gives exact first and second derivatives through automatic differentiation. The Lagrange interpolant through any distinct nodes reproduces the node values and every polynomial of degree below the number of nodes.",
 ["inputs", "configurations"], "every segment count and length, every argument of a grid that includes knots, both ends and points outside, all node sets and polynomials in the bound",
 "The only spline program is not part of the passing tests and prints without checking.",
 ["src/polynomials/splines.hpp"], [("segment index and clipping", "EquidistantCubicSpline::eval"), ("basis construction", "LagrangeSpline::compute_lagrange_basis, eval")], ["eval() results"])
prop("C21", "Polynomial arithmetic is exact",
 "Multiplying two coefficient vectors yields the coefficients of the product polynomial truncated to the fixed length, for every pair including zero polynomials, and differentiation yields the exact derivative. The orthogonal basis coefficients built from these operations match the three-term recurrence.",
 ["inputs"], "every pair of coefficient vectors over a small integer alphabet for lengths up to the bound",
 "No test calls these functions directly.",
 ["src/polynomials/polynomial_math.hpp"], [("convolution with degree detection", "poly_mul"), ("derivative", "poly_diff")], ["returned coefficient vectors"])
prop("C22", "Automatic differentiation scalars follow calculus and value semantics",
 "Every arithmetic operator, comparison and elementary function on AD scalars returns the value and the first (and, nested, second) derivatives of the composed function, for every expression built from them and for every mix of active and constant operands. Assigning or copying one AD scalar to another transfers its value and derivatives and never aliases them.",
 ["programs", "inputs"], "every expression up to the depth bound over the supported operators, active variables and constants, at every grid point, for fixed-size, dynamic and nested derivative types",
 "Existing autodiff programs print or check a single Jacobian.",
 ["src/autodiff/AutoDiffScalar.h"], [("operator and function rules", "AutoDiffScalar operators, EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY")], ["value()", "derivatives()"])
prop("C23", "The linear-quadratic regulator solves its Riccati equation",
 "For every stabilisable linear system xdot = F x + G u with moderately scaled, valid weights (cost x'Qx + 2 x'Mu + u'Ru, R positive definite, Q - M R^-1 M' positive semidefinite, Hamiltonian without eigenvalues on or next to the imaginary axis; with a tiny R only for M = 0), lqr() fills the caller's pre-sized S with the symmetric positive semidefinite stabilising solution of the Riccati equation and K with a gain that makes the closed loop F - G K asymptotically stable and minimises that cost, with and without its weight check. lyapunov(A, Q) returns the solution of A X + X A' = Q for every A that shares no eigenvalue with -A', including those with complex eigenvalues.",
 ["inputs"], "every small-integer system and weight matrix in the bound",
 "The regulator test is not even built.",
 ["src/control/lqr.hpp"], [("Riccati solution", "care, newton_ls_care"), ("Lyapunov solution", "lyapunov"), ("gain", "lqr")], ["S and K outputs", "lyapunov() result"])
prop("C24", "Stand-alone collocation operators agree with their definition",
 "The reusable dynamics, cost and constraint collocation operators return, for every dimension tuple, order, segment count and time interval, the collocation residual, quadrature cost and node-wise constraints of the supplied functors, and their linearisations and Hessians are the exact derivatives with respect to states and controls (parameters are held fixed: their columns are zero), whatever was evaluated before, also where a functor assigns a constant. The sparse dynamics operator agrees with the dense one on the first and on every repeated linearisation. Cost collocation is claimed for Chebyshev grids (the only ones with the quadrature weights it needs).",
 ["configurations", "programs", "histories", "inputs"], "every dimension tuple, order, segment count and interval in the bound, every grid point, repeated calls",
 "None of the built tests instantiates these operators.",
 ["src/control/ode_collocation.hpp", "src/control/sparse_ode_collocation.hpp", "src/control/cost_collocation.hpp", "src/control/constraints_collocation.hpp"], [("composite differentiation matrix", "ode_collocation::compute_diff_matrix"), ("linearisation", "linearized, value_gradient, value_gradient_hessian")], ["output arguments"])

prop("C25", "Ipopt is given exactly the user's problem",
 "Through the Ipopt interface, Ipopt sees exactly the problem the user stated: for every dense or sparse problem, dimension tuple, point, multiplier vector and objective factor, and in any order of callbacks, the sizes, bounds, starting point, cost, constraints, and the Jacobian and lower-triangular Lagrangian Hessian triplets are those of the problem, structure and values belong together, and nothing outside the announced buffers is read or written. The solution, multipliers (constraints first, then the box, as in the other solvers) and statistics Ipopt reports are the ones the user reads back, and bounds, parameters and guesses set by the user reach the next solve unchanged.",
 ["inputs", "histories", "configurations"], "every callback sequence up to the depth bound over points, multipliers and objective factors, every pair of interface operations followed by three solves, dense and sparse problems",
 "The Ipopt tests are only built where Ipopt is installed, and compare two final solutions.",
 ["src/solvers/ipopt_interface.hpp", "src/solvers/nlproblem.hpp", "src/control/continuous_ocp.hpp"], [("TNLP callbacks", "IpoptAdapter::get_nlp_info, get_bounds_info, get_starting_point, eval_*, finalize_solution"), ("solve and accessors", "IpoptInterface")], ["arguments and buffers of the TNLP callbacks", "IpoptInterface accessors"])

prop("C26", "External QP solvers are given exactly the user's problem",
 "Through the OSQP and QPMAD interfaces the external solver sees, at every solve, the Hessian, gradient, constraint matrix (the rows of A, then the identity for the box; for QPMAD A and the box), bounds, settings and, when one is given, the starting point the user passed: for compressed and uncompressed sparse input, with and without the same-pattern and warm start options, in any order of solves. The solution, the multipliers, iteration count, residuals and penalty statistics (OSQP) that it reports are the ones the user reads back, its outcome maps to the documented status, and the returned status equals the one in the info block.",
 ["inputs", "histories", "configurations"], "every sparsity pattern of the small sizes, every sequence of two (thorough: three) solves over 32 option combinations and five data sets, every outcome of the external solver",
 "The OSQP and QPMAD tests are only built where these libraries are installed, and compare a few final solutions.",
 ["src/solvers/osqp_interface.hpp", "src/solvers/qpmad_interface.hpp", "src/solvers/qp_base.hpp"], [("OSQP", "OSQP::solve_impl, construct_A, set_osqp_settings"), ("QPMAD", "QPMAD::solve_impl, set_qpmad_settings")], ["calls on the external solver object", "primal_solution, dual_solution, info"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
