#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

QP = ["src/solvers/qp_base.hpp", "src/solvers/admm.hpp", "src/solvers/box_admm.hpp"]
p("C01", "A QP reported as solved comes with an approximate KKT certificate",
  "Whenever one of the two built-in operator-splitting QP solvers returns the solved status, its primal answer violates no general constraint and no variable bound by more than the configured absolute+relative tolerance, and the gradient of the Lagrangian at its primal/dual answer is below the configured tolerance. A multiplier is positive only on a row or variable that sits at its upper bound (within tolerance), negative only at its lower bound, and zero where neither bound is active. This holds for dense and sparse data, for any accuracy of the linear solver, with and without warm start and with adaptive penalties.",
  ["inputs", "histories", "configurations"],
  "all problem data, bounds (finite, infinite, equal), settings, warm-start values, linear-solver answers and iteration histories of the stated length",
  "tests solve a handful of fixed 2-variable QPs that converge to a known answer; whether the solved flag can be raised on a non-certificate depends on every possible iterate",
  QP, ["termination test", "residual computation", "projection and multiplier update"],
  "status, primal and dual answer after solve()")
p("C02", "QP iterations are exact operator-splitting steps for the data just passed",
  "In every iteration of every solve, the linear system handed to the linear solver is the regularised KKT system of the problem data, settings and multipliers of that very call, and the next iterate follows the over-relaxed splitting recursion from the linear solver's answer, for every relaxation parameter. The result does not depend on whether the data is dense or sparse, on whether the linear solver reads one triangle or the full matrix, on whether the sparsity pattern of an earlier solve is reused, or on the penalty having been adapted on the way.",
  ["inputs", "histories", "configurations"],
  "all problem data, all settings in range, all linear-solver answers; first and repeated solves of one solver object with changed data of equal pattern",
  "tests only look at the final answer of converging runs with relaxation 1 and one storage; a wrong step still converges on easy problems",
  QP, ["KKT assembly (dense, sparse, pattern reuse)", "right-hand side", "relaxed update of primal, projected and dual iterates", "penalty refresh of the factorised matrix"],
  "matrix and right-hand side seen by a user-supplied linear solver; solver state after each iteration")
p("C03", "QP status, iteration count, penalties and warm start honour the settings",
  "A QP solve performs at most the configured number of iterations, reports that number, and returns exactly one of solved or iteration-limit; when a termination check was due in the last iteration, the residuals it reports are those of the answer it returns. A constraint or variable whose bounds are both absent gets the loose penalty, equal bounds the equality penalty and anything else the plain penalty, penalties stay positive and within their limits after adaptation, and an initial guess passed by the user is the starting point of the first iteration.",
  ["inputs", "histories", "configurations"],
  "all data, bounds and settings within the stated sizes; cold, warm and repeated solves",
  "tests check a few fixed bound patterns and never the iteration-limit or adaptive paths for arbitrary residuals",
  QP, ["bounds classification", "penalty selection and adaptation", "iteration loop and info"],
  "info(), settings(), penalty vectors, first right-hand side")
p("C04", "QP scaling can be undone and preserves solutions",
  "After computing and applying the scaling of a QP with any built-in preconditioner, unscaling restores the original Hessian, gradient, constraint matrix and all bounds, and a primal/dual pair that satisfies the optimality conditions of the scaled problem is mapped to a pair satisfying those of the original problem. This holds for dense and sparse data, including infinite bounds and a zero gradient, and on repeated use of one preconditioner object.",
  ["inputs", "histories", "configurations"],
  "all problem data of the stated sizes, sparse patterns with and without empty rows, repeated use",
  "tests use one fixed well-scaled problem and only look at the solver's final answer",
  ["src/solvers/qp_preconditioners.hpp"],
  ["diagonal scaling factors", "scale / unscale of matrices, vectors and bounds", "solution unscaling"],
  "arguments after scaling and unscaling")
p("C05", "An NLP reported as solved is feasible within tolerance and small-step",
  "Whenever the SQP solver reports solved, the returned point violates no equality, inequality or variable bound by more than the primal tolerance, and the last applied primal and dual steps are below their tolerances. Otherwise it reports the iteration limit, never exceeds the configured number of iterations or line-search trials, and its reported violation belongs to the returned point, and the cost it reports after an accepted step to a point it actually evaluated. This holds for every answer its QP solver may produce.",
  ["inputs", "histories", "configurations"],
  "all initial points, multipliers, bounds, problem functions and QP-solver answers for the stated number of iterations",
  "tests solve a few smooth problems to convergence with one QP solver; the solved flag must be trustworthy for every iterate history",
  ["src/solvers/sqp_base.hpp"],
  ["termination test", "maximum constraint violation", "main loop counters"],
  "status, iterate, norms and violation after solve()")
p("C06", "Each SQP step solves the correct local QP and applies a valid damped step",
  "The QP passed to the QP solver at each iteration is the linearisation of the problem at the current iterate: exact cost gradient, exact constraint Jacobian, constraint and variable bounds shifted by the current values, and the Hessian model initialised exactly and updated with the last step and Lagrangian-gradient change. The new primal and dual iterate are the old ones plus one common step length in (0,1] times the QP step, and unless the trial limit was hit the accepted step satisfies the l1-merit sufficient-decrease test.",
  ["inputs", "histories", "configurations"],
  "all iterates, multipliers, parameters, bounds and QP answers within the stated iterations, dense and sparse",
  "tests only see the final converged point; a wrong multiplier, bound shift or gradient difference still converges on easy problems",
  ["src/solvers/sqp_base.hpp", "src/solvers/nlproblem.hpp"],
  ["linearisation and its update", "bound shifting", "line search", "primal/dual update"],
  "arguments seen by a user-supplied QP solver, iterates after solve()")
p("C07", "Damped BFGS keeps the Hessian symmetric positive definite and secant",
  "For every symmetric positive definite matrix and every step and gradient change, the dense BFGS update leaves a finite, symmetric, positive definite matrix. If the curvature along the step is sufficient the updated matrix maps the step to the gradient change, otherwise to the damped combination whose curvature is one fifth of the old one; a zero step, or one whose damped curvature is below machine epsilon, leaves the matrix unchanged.",
  ["inputs"], "all SPD matrices, steps and gradient changes of the stated dimension",
  "tests run the update along one optimisation run; definiteness near the damping threshold and for zero steps needs all inputs",
  ["src/solvers/bfgs.hpp"], ["damping switch", "rank-two update", "skip guard"], "matrix after the update")
p("C08", "The SR1 update is symmetric, secant and never divides by a vanishing pivot",
  "For every symmetric matrix, step and gradient change the SR1 update returns a finite symmetric matrix that either satisfies the secant equation or is the unchanged input, and it is applied exactly when the documented safeguard inequality holds. In particular an exact model, a zero step and an orthogonal residual leave the matrix unchanged.",
  ["inputs"], "all symmetric matrices, steps and gradient changes of the stated dimension",
  "no test exercises it; the safeguard boundary is reached only by special inputs",
  ["src/solvers/sr1.hpp"], ["safeguard", "rank-one update"], "matrix after the update")
p("C09", "The structured Hessian update for optimal control stays valid and block-exact",
  "The block Hessian update of a sparse optimal control problem writes only entries of its fixed sparsity pattern, leaves the matrix symmetric and finite for every step including zero and vanishing-curvature steps (which leave it unchanged), and equals on every stored entry the damped BFGS update of the whole matrix. The dense update of the same problem is the full damped BFGS update.",
  ["inputs", "histories", "configurations"],
  "all stage Hessians, steps and gradient changes for the stated problem sizes",
  "tests only run it inside one converging solve",
  ["src/control/continuous_ocp.hpp", "src/solvers/bfgs.hpp"],
  ["stage-wise rank-two update", "parameter coupling blocks", "damping"], "Hessian values after the update")
p("C10", "Automatic differentiation returns the exact first derivative of every operation",
  "For every operator and elementary function offered on active scalars, with active and plain operands in either order, the value equals the plain evaluation and the derivative vector equals the mathematical derivative times the operand's derivatives, for every point in the domain. Compositions and compound assignments obey the chain rule; comparisons depend on values only. At a kink (abs at zero, min or max of equal values) the derivative is defined and lies between those of the two branches. (Plain assignment of a scalar keeps the derivatives: it is how seeds are set.)",
  ["inputs", "programs"], "all operand values and seed vectors in the domain of each operation, for fixed-size derivative vectors",
  "tests compare a few compositions at a few points",
  ["src/autodiff/AutoDiffScalar.h"], ["operator overloads", "unary and binary function derivatives"], "value() and derivatives()")
p("C11", "Nested automatic differentiation returns exact second derivatives",
  "Nesting the active scalar in itself yields, for every operation and composition, the exact symmetric Hessian of the composed function besides value and gradient. Radial-basis kernels, evaluated on unit-seeded arguments, agree with the derivatives of their own value.",
  ["inputs", "programs"], "all operand values in the domain of each operation",
  "tests compare one or two functions at one point each",
  ["src/autodiff/AutoDiffScalar.h", "src/autodiff/rbf_kernel.hpp"], ["second-order propagation", "kernel derivative rules"], "nested derivatives")
p("C12", "NLP derivative services are exact for every user function",
  "For a user-defined nonlinear program the computed cost gradient and Hessian, constraint values and Jacobians, and Lagrangian gradient and Hessian equal the exact values for the user's functions at any point, parameter and multiplier. Gradient-only, linearised and Hessian services agree with each other, the equality rows come before the inequality rows, bound multipliers enter the Lagrangian gradient, and repeated calls give the same answer.",
  ["inputs", "programs", "histories"], "all points, parameters, multipliers and smooth user functions (as uninterpreted functions with derivatives) of the stated sizes",
  "tests evaluate fixed functions (Rosenbrock, HS071) at one point",
  ["src/solvers/nlproblem.hpp"], ["AD seeding", "Jacobian/Hessian extraction", "Lagrangian assembly"], "returned gradients, Jacobians, Hessians")
p("C13", "Transcribed dynamics are exactly the collocation equations",
  "For an optimal control problem with any dynamics, the equality constraint vector equals, at every collocation node, the derivative of the interpolating polynomial of the states minus the segment-scaled dynamics evaluated with that node's own state, control, parameters and time. This holds for every number of segments, every order, every horizon start and end, and trajectories that satisfy the dynamics exactly as polynomials have zero residual.",
  ["inputs", "programs", "configurations"], "all trajectories, parameters, dynamics (uninterpreted, with polynomial time dependence) and horizons within the stated sizes, orders and segment counts",
  "tests check one or two fixed problems with autonomous dynamics and mostly one configuration",
  ["src/control/continuous_ocp.hpp", "src/polynomials/ebyshev.hpp", "src/polynomials/splines.hpp"], ["composite differentiation matrix", "time scaling", "node indexing"], "equality values")
p("C14", "Equality-constraint Jacobians of the transcription are exact",
  "The dense and the sparse Jacobian of the transcribed equality constraints equal the exact derivative of the equality constraint vector with respect to every state, control and parameter, entry by entry, for any dynamics and any evaluation point. Entries outside the stored sparsity pattern are zero, and evaluating again at other points with the same object is exact again.",
  ["inputs", "programs", "histories", "configurations"], "all evaluation points and smooth dynamics within the stated sizes; first and repeated evaluations",
  "tests compare with stored numbers at one point of one problem",
  ["src/control/continuous_ocp.hpp"], ["block Jacobian assembly", "sparse pattern construction and value refresh"], "returned Jacobians")
p("C15", "Path inequality constraints and their Jacobians are exact at every node",
  "Inequality constraint values are the user's path-constraint function at each node with that node's state, control, parameters and time, in the documented order, and the dense and sparse Jacobians are their exact derivatives. Equalities and inequalities stacked together give the same values and Jacobians as separately.",
  ["inputs", "programs", "histories", "configurations"], "all evaluation points and smooth constraint functions within the stated sizes",
  "tests have a single problem with path constraints",
  ["src/control/continuous_ocp.hpp"], ["constraint evaluation", "stacked Jacobian assembly"], "returned values and Jacobians")
p("C16", "The transcribed cost and its derivatives are exact",
  "The cost equals the terminal cost at the final node plus the Clenshaw-Curtis quadrature of the running cost over all segments, scaled by the segment length; its gradient and its dense and sparse Hessian are exact, including all state, control and parameter cross terms. A problem defining only one of the two cost parts gets exactly that part, at every call.",
  ["inputs", "programs", "histories", "configurations"], "all evaluation points and smooth running/terminal costs within the stated sizes; first and repeated evaluations",
  "tests compare stored numbers for one or two problems without parameters in the cost",
  ["src/control/continuous_ocp.hpp", "src/polynomials/ebyshev.hpp"], ["quadrature loop", "block gradient/Hessian scatter", "terminal term"], "cost, gradient, Hessian")
p("C17", "Lagrangian derivatives of the transcription are exact",
  "The Lagrangian value (where the value itself is asked for), gradient and Hessian delivered to the optimiser equal those of cost plus multipliers times equality and inequality constraints plus bound multipliers, exactly, for any multipliers and any problem functions. Every overload and the dense and sparse variants deliver the same numbers together with the same cost gradient, constraint values and Jacobian.",
  ["inputs", "programs", "histories", "configurations"], "all evaluation points, multipliers and smooth problem functions within the stated sizes",
  "tests compare stored numbers for one problem",
  ["src/control/continuous_ocp.hpp"], ["multiplier indexing", "Hessian accumulation of constraints"], "Lagrangian gradient and Hessian")
p("C18", "Dense, sparse and repeated transcription evaluations agree",
  "For one and the same optimal control problem, dense and sparse variants return the same cost, gradients, constraint values, Jacobians and Hessians. Evaluations carry no memory: whatever was evaluated before, with whatever arguments, a later evaluation depends only on its own arguments, and changing the time horizon takes effect on all later evaluations.",
  ["inputs", "histories", "programs", "configurations"], "all points and call sequences of the stated length",
  "tests compare dense and sparse solutions of one problem",
  ["src/control/continuous_ocp.hpp"], ["sparse value refresh", "cached AD state", "time limits"], "all evaluation results")
p("C19", "Polynomial differentiation and quadrature are exact on polynomials",
  "Chebyshev and Legendre collocation nodes lie in [-1,1] with the documented end points, applying the differentiation matrix to the samples of any polynomial up to the basis order gives the samples of its exact derivative, and the quadrature weights integrate exactly every polynomial up to the degree of the rule.",
  ["inputs", "configurations"], "all polynomial coefficients, all orders in the stated range",
  "tests compare a few matrices and weights with stored tables",
  ["src/polynomials/ebyshev.hpp", "src/polynomials/legendre.hpp"], ["nodes", "weights", "differentiation matrix"], "public node, weight and matrix functions")
p("C20", "Polynomial arithmetic, bases and projections are exact",
  "Multiplying and differentiating coefficient vectors gives the product and derivative of the represented polynomials for all coefficients, including zero polynomials; basis functions obey their defining recurrence and orthogonality under the quadrature. Projecting any polynomial of representable degree reproduces it exactly.",
  ["inputs", "configurations"], "all coefficients and evaluation points, orders in the stated range",
  "tests compare a few fixed polynomials",
  ["src/polynomials/polynomial_math.hpp", "src/polynomials/projection.hpp", "src/polynomials/ebyshev.hpp", "src/polynomials/legendre.hpp"], ["coefficient convolution", "basis evaluation", "normalised projection"], "coefficients and evaluations")
p("C21", "Interpolation and spline evaluation is exact, total and in bounds",
  "Lagrange interpolation through samples on the collocation nodes reproduces the samples at the nodes and every polynomial of representable degree in between. Evaluating a cubic spline at any real argument reads only existing segments, uses the segment containing the argument (the first or last one outside the range) and returns that segment's cubic, a polynomial in the argument itself.",
  ["inputs", "configurations"], "all sample values, coefficients and evaluation points in and around the domain",
  "tests sample a few points of one spline",
  ["src/polynomials/splines.hpp", "src/polynomials/ebyshev.hpp"], ["segment lookup", "cubic evaluation", "barycentric/Lagrange evaluation"], "evaluation result")
p("C22", "MPC wrapper setters and getters address exactly the intended variables",
  "Setting initial conditions, state, control and parameter bounds, constraint bounds, guesses and static parameters through the MPC wrapper changes exactly the solver variables that belong to the named quantity and leaves all others untouched; reshaped getters return the same data in time order. Interpolated solutions return the stored node values at node times and the interpolating polynomial in between, for every evaluation time inside the horizon and every horizon start and end set through the wrapper.",
  ["inputs", "histories", "configurations"], "all values set, sequences of setter calls, evaluation times in the horizon, sizes and segment counts in the stated range",
  "tests use one problem whose horizon starts at zero and only look at closed-loop results",
  ["src/control/mpc_wrapper.hpp", "src/polynomials/splines.hpp"], ["index arithmetic of setters and getters", "segment lookup and interpolation"], "solver bounds, guesses and getter results")
p("C23", "The line-search filter never accepts dominated points and stays bounded",
  "The filter accepts a candidate exactly if no stored pair is at least as good in both cost and constraint violation up to the documented margin, and reports domination exactly if a stored pair is no worse in both. Adding a pair keeps it in the filter, removes pairs it dominates while there is room, never grows the filter beyond its configured depth, and clearing empties it.",
  ["inputs", "histories"], "all sequences of additions and queries of the stated length with arbitrary values",
  "the filter is not tested on its own",
  ["src/solvers/line_search.hpp"], ["acceptance test", "domination test", "insertion and eviction"], "query results and stored list")
p("C24", "Stand-alone collocation functors agree with the exact transcription",
  "The stand-alone ODE, sparse ODE, cost and constraint collocation functors return exactly the collocation residuals, quadrature cost and path-constraint values of their problem functions, and the Jacobians, gradients and Hessians they return are the exact derivatives with respect to states and controls. The sparse functor agrees with the dense one, on the first and on every later call.",
  ["inputs", "programs", "histories", "configurations"], "all evaluation points and smooth problem functions within the stated sizes",
  "tests compare one problem at one point",
  ["src/control/ode_collocation.hpp", "src/control/sparse_ode_collocation.hpp", "src/control/cost_collocation.hpp", "src/control/constraints_collocation.hpp"], ["functor evaluation", "Jacobian assembly"], "functor outputs")
p("C25", "LQR helpers solve their matrix equations and give a stabilising gain",
  "The Lyapunov helper returns the solution of A X + X A' = Q, also when A has pairs of complex eigenvalues; the pseudo-inverse satisfies the Moore-Penrose conditions, zero singular values included. The matrix S returned by the regulator solves the algebraic Riccati equation, is symmetric, the gain is K = R^-1 (G'S + M'), and the closed loop with it is stable. Arguments are left as they were.",
  ["inputs"], "all systems and weights of the stated sizes and structure",
  "the test of the regulator is disabled and has no assertion",
  ["src/control/lqr.hpp"], ["back substitution of the Lyapunov solver", "starting guess and Newton iteration", "pseudo-inverse", "gain formula"], "returned matrices")
p("C26", "CasADi-based transcriptions agree with their problem definition",
  "The CasADi-based collocation, soft-constrained, multi-segment and path-following transcriptions and integrators represent exactly the user's dynamics, cost and constraints.",
  ["inputs", "programs"], "all problem functions and trajectories", "the tests need CasADi, which is not available",
  ["src/chebyshev.hpp", "src/chebyshev_soft.hpp", "src/chebyshev_ms.hpp", "src/generic_ocp.hpp", "src/nmpc.hpp", "src/nmpf.hpp", "src/polymath.h", "src/integration/chebyshev_integrator.hpp", "src/integration/integrator.h", "src/experimental/psarc.hpp"], ["symbolic expression graphs in CasADi"], "NLP functions")
p("C27", "External QP/NLP solver adapters pass problem and results unchanged",
  "Through the OSQP, QPMAD and IPOPT adapters the external solver receives exactly the given Hessian, gradient, constraint matrix, bounds and box, initial guess and settings, whether matrices are compressed or not, on the first (cold) solve of an object as on every later warm-started one, and the caller's data stay as they were. What it answers comes back unchanged: primal and dual solution, status in the library's terms, residuals and counters belong to this solve. The IPOPT adapter returns the exact values, gradients, constraint Jacobian and Lagrangian Hessian of the problem it adapts, lists every nonzero once, and never reads or writes outside the given arrays; the bound multiplier it stores is the upper minus the lower one.",
  ["inputs", "configurations", "histories"], "all problem data, settings, guesses and answers of the external solver, sequences of solves, sparsity patterns of the stated sizes",
  "the external solvers are optional and the tests that use them are not built without them; they compare a few solutions only",
  ["src/solvers/osqp_interface.hpp", "src/solvers/qpmad_interface.hpp", "src/solvers/ipopt_interface.hpp"], ["sparse matrix assembly with appended box rows", "solver setup on the first and updates on later solves", "settings transfer", "triplet layout of Jacobian and Hessian", "multiplier layout", "status mapping"], "data recorded by stand-ins for the external solvers, results returned to the caller")
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
