"""Table of symbolic runs per property."""
TITLES = {}
PROPS = {}
def prop(pid, encodes, assumptions=(), level="proof"):
    PROPS[pid] = dict(runs=[], encodes=encodes, assumptions=list(assumptions), level=level)
def run(pid, name, src, defs=(), **kw):
    PROPS[pid]["runs"].append(dict(name=name, src=src, defs=list(defs), **kw))

prop("C07", "BFGS_update (src/solvers/bfgs.hpp)")
for n, d in (("n2", ["H_N=2"]), ("n2dyn", ["H_N=2", "H_DYN"]), ("n3", ["H_N=3", "H_PARAM"]), ("n2float", ["H_N=2", "H_SC=float"])):
    run("C07", n, "bfgs.cpp", d, reach=["damped", "plain"] + ([] if n == "n3" else ["skip"]), bounds="n=3: B = L D L' with |L|<=1.5, D in [0.1,3]; s = L^{-T} w, y = L z, |w|,|z|<=2, w'w>0.01" if n == "n3" else "SPD matrices with leading minors > 0.01 and entries in [-3,3], steps/gradient changes in [-2,2]; " + n)
    run("C07", n + "zero", "bfgs.cpp", [x for x in d if x != "H_PARAM"] + ["H_ZERO"], reach=["zero"], bounds="zero step; " + n)

OCPF = "ContinuousOCP (src/control/continuous_ocp.hpp) with Spline/Chebyshev (src/polynomials/splines.hpp, ebyshev.hpp), AutoDiffScalar (src/autodiff/AutoDiffScalar.h): "
OCPA = ["user functions range over all functions F(x,u,p) + t G(x,u,p) + sum_j d_j H_j(x,u,p) with F, G, H uninterpreted smooth functions whose values and derivatives lie in [-2,2]",
        "variables, static parameters and multipliers in [-2,2]; horizon start in [-2,2], length in [0.2,3]; Chebyshev-Gauss-Lobatto approximation"]
prop("C13", OCPF + "set_time_limits, equalities, dynamics dispatch, time nodes, differentiation matrix", OCPA)
prop("C14", OCPF + "equalities, equalities_linearised (dense), _equalities_linearised_sparse, _equalities_linearised_sparse_update, compute_diff_composite_matrix, seed_derivatives", OCPA)
prop("C15", OCPF + "inequalities, inequalities_linearised, constraints, constraints_linearised, dense, sparse first call and sparse update", OCPA)
prop("C16", OCPF + "cost, cost_gradient, cost_gradient_hessian, _cost_grad_hess_sparse, _cost_grad_hess_sparse_update", OCPA)
prop("C17", OCPF + "lagrangian, lagrangian_gradient, lagrangian_gradient_hessian, all overloads", OCPA)
def cfg(nx, nu, np_, nd, ng, p, s, *extra):
    return ["H_NX=%d" % nx, "H_NU=%d" % nu, "H_NP=%d" % np_, "H_ND=%d" % nd, "H_NG=%d" % ng, "H_P=%d" % p, "H_S=%d" % s] + list(extra)
OCPC = {"a": cfg(2, 1, 1, 1, 1, 2, 2), "b": cfg(1, 2, 2, 0, 2, 3, 1), "c": cfg(2, 2, 0, 1, 0, 2, 3), "d": cfg(3, 1, 2, 2, 2, 3, 2)}
def ocprun(pid, name, what, c, *extra, **kw):
    run(pid, name + "_" + c, "ocp.cpp", ["H_WHAT=%d" % what] + OCPC[c] + list(extra), bounds="NX,NU,NP,ND,NG,order,segments = " + ",".join(x.split("=")[1] for x in OCPC[c]) + "; " + " ".join(extra), **kw)
for c in "abcd":
    ocprun("C13", "eq", 1, c, "H_TIME", "H_TWO", "H_RESET")
    for f in ("DENSE", "SPARSE"):
        F = "H_FMT=" + f; th = dict(thorough=(c == "d" and f == "DENSE"))
        ocprun("C14", "jac" + f, 2, c, F, "H_TWO", "H_TIME")
        if c != "c": ocprun("C15", "ineq" + f, 3, c, F, "H_TWO", "H_TIME")
        ocprun("C15", "stack" + f, 4, c, F, "H_TWO", "H_TIME")
        ocprun("C16", "hess" + f, 6, c, F, "H_TWO", "H_TIME")
        ocprun("C17", "lag" + f, 7, c, F, "H_TWO", "H_TIME")
        ocprun("C17", "laghess" + f, 8, c, F, "H_TWO", "H_TIME")
    ocprun("C16", "grad", 5, c, "H_TWO", "H_TIME")
OCPC.update({"f": cfg(1, 1, 1, 0, 1, 5, 1), "i": cfg(1, 1, 0, 1, 1, 2, 4), "j": cfg(2, 3, 0, 0, 4, 1, 2), "k": cfg(2, 0, 1, 0, 1, 2, 2)})
for c in "fijk":
    ocprun("C13", "eq", 1, c, "H_TIME", "H_TWO", "H_RESET"); ocprun("C16", "grad", 5, c, "H_TWO", "H_TIME")
    for f in ("DENSE", "SPARSE"):
        F = "H_FMT=" + f
        ocprun("C14", "jac" + f, 2, c, F, "H_TWO", "H_TIME"); ocprun("C15", "ineq" + f, 3, c, F, "H_TWO", "H_TIME"); ocprun("C15", "stack" + f, 4, c, F, "H_TWO", "H_TIME")
        ocprun("C16", "hess" + f, 6, c, F, "H_TWO", "H_TIME"); ocprun("C17", "lag" + f, 7, c, F, "H_TWO", "H_TIME"); ocprun("C17", "laghess" + f, 8, c, F, "H_TWO", "H_TIME")
OCPC.update({"l": cfg(3, 2, 2, 2, 2, 7, 2), "m": cfg(2, 1, 1, 1, 1, 3, 6)})
for c in "lm":
    ocprun("C13", "eq", 1, c, "H_TIME", "H_TWO", "H_RESET", thorough=True); ocprun("C16", "grad", 5, c, "H_TWO", "H_TIME", thorough=True)
    for f in ("DENSE", "SPARSE"):
        for p, n, w in (("C14", "jac", 2), ("C15", "stack", 4), ("C16", "hess", 6), ("C17", "laghess", 8)): ocprun(p, n + f, w, c, "H_FMT=" + f, "H_TWO", "H_TIME", thorough=True, time=1800)
for c in "abcd": ocprun("C17", "laghessshort", 8, c, "H_TWO", "H_TIME", "H_SHORT")
for f in ("DENSE", "SPARSE"):
    ocprun("C17", "laghessscaled" + f, 8, "a", "H_FMT=" + f, "H_TWO", "H_TIME", "H_SCALE")
    for l, m, n in ((0, 1, "mayer"), (1, 0, "lagrange")):
        e = ["H_FMT=" + f, "H_TWO", "H_TIME", "H_LAGRANGE=%d" % l, "H_MAYER=%d" % m]
        ocprun("C16", n + "grad" + f, 5, "a", *e)
        ocprun("C16", n + "hess" + f, 6, "a", *e)

prop("C12", "ProblemBase (src/solvers/nlproblem.hpp): cost, cost_gradient, cost_gradient_hessian, (in)equalities, (in)equalities_linearised, constraints, constraints_linearised, lagrangian, lagrangian_gradient (both), lagrangian_gradient_hessian (both)",
     ["user functions range over F(x) + sum_j p_j H_j(x) with F, H uninterpreted smooth functions with values and derivatives in [-2,2]; dense problems (the sparse variants of these services are supplied by the user)"])
for n, (a, b, c, d) in {"full": (3, 2, 2, 2), "eqonly": (2, 2, 0, 1), "ineqonly": (2, 0, 3, 0), "free": (3, 0, 0, 1)}.items():
    run("C12", n, "nlp.cpp", ["H_NX=%d" % a, "H_NE=%d" % b, "H_NI=%d" % c, "H_NP=%d" % d], bounds="NX,NE,NI,NP = %d,%d,%d,%d, two evaluations of one object" % (a, b, c, d))
run("C12", "nocost", "nlp.cpp", ["H_NX=2", "H_NE=1", "H_NI=1", "H_NP=1", "H_NOCOST"], bounds="no cost function defined")

QPF = "ADMM (src/solvers/admm.hpp), boxADMM (src/solvers/box_admm.hpp), QPBase (src/solvers/qp_base.hpp): solve, "
QPA = ["the linear solver is a stub that records every system and answers with arbitrary vectors in [-2,2]; problem data and initial guesses in [-2,2]; rho in [1/16,8], sigma in [1/1024,1/4], alpha in [1/4,15/8]"]
prop("C02", QPF + "construct_kkt_matrix (dense, sparse, same pattern), construct_A, factorise_kkt_matrix, compute_kkt_rhs, box_projection, rho_vec_update, update_kkt_rho", QPA)
def qprun(pid, name, mode, n, m, kinds, *extra, **kw):
    e = list(extra)
    if "SPARSE" in e: e.remove("SPARSE"); e += ["H_FMT=SPARSE", "H_SPARSE"]
    if "FULL" in e: e.remove("FULL"); e += ["H_UPLO=(Eigen::Upper|Eigen::Lower)"]
    if "BOX" in e: e.remove("BOX"); e += ["H_BOX"]
    run(pid, name, "qp.cpp", ["H_MODE=%d" % mode, "H_N=%d" % n, "H_M=%d" % m, "H_KINDS=" + kinds] + e, bounds="N,M = %d,%d; bound kinds %s; %s" % (n, m, kinds, " ".join(extra)), **kw)
for b in ("", "BOX"):
    B = [b] if b else []; s = b.lower() or "admm"
    qprun("C02", s + "dense", 1, 2, 2, "0,1,3,6", "H_GUESS", "H_REP=2", *B)
    qprun("C02", s + "densefull", 1, 2, 1, "4,2,0", "FULL", "H_REP=2", *B)
    qprun("C02", s + "m0", 1, 2, 0, "0,1", "H_GUESS", "H_REP=2", *B)
    qprun("C02", s + "sparse", 1, 2, 2, "0,1,3,6", "SPARSE", "H_GUESS", "H_REP=2", *B)
    qprun("C02", s + "sparsefull", 1, 2, 2, "0,1,3,6", "SPARSE", "FULL", "H_REP=2", *B)
    qprun("C02", s + "sparsehole", 1, 3, 2, "0,4,1,0,2", "SPARSE", "H_HM=0x51", "H_AM=0x1b", "H_REP=2", *B)
    qprun("C02", s + "sparseholefull", 1, 3, 2, "0,4,1,0,2", "SPARSE", "FULL", "H_HM=0xfe", "H_AM=0x2e", "H_REP=2", *B)
    qprun("C02", s + "compressed", 1, 2, 2, "0,1,3,6", "SPARSE", "FULL", "H_COMPRESSED", "H_REP=2", *B)
    qprun("C02", s + "adapt", 1, 2, 1, "0,3,1", "H_ADAPT=1", "H_ITERS=2", "H_GUESS", *B)
    qprun("C02", s + "adaptconc", 1, 2, 1, "0,3,1", "H_ADAPT=1", "H_ITERS=2", "H_GUESS", "H_CONC=0.5", "H_ALPHA=1.5", *B)
    qprun("C02", s + "adaptsparse", 1, 1, 1, "0,0", "H_ADAPT=1", "H_ITERS=2", "SPARSE", "FULL", "H_REP=2", *B)
    qprun("C02", s + "sparsem0", 1, 2, 0, "0,1", "SPARSE", "FULL", "H_REP=2", *B)
    qprun("C02", s + "float", 1, 2, 1, "0,3,1", "H_SC=float", "H_TOL=1e-3", *B)
    qprun("C02", s + "kinds", 1, 2, 1, "0,1,2", "H_GUESS", "H_GALT", "H_ROT", "H_REP=3", *B)
    qprun("C02", s + "kindssparse", 1, 2, 1, "0,1,2", "SPARSE", "FULL", "H_ROT", "H_REP=3", *B)
    qprun("C02", s + "pattern", 1, 2, 2, "0,1,3,2", "SPARSE", "H_HM=0xb", "H_AM=0x6", "H_HM2=0xf", "H_AM2=0x9", "H_REP=3", *B)
    qprun("C02", s + "patternfull", 1, 2, 2, "0,1,3,2", "SPARSE", "FULL", "H_HM=0xf", "H_AM=0xf", "H_HM2=0x9", "H_AM2=0x2", "H_REP=3", "H_ITERS=1", *B)
prop("C01", QPF + "residuals_update, primal_residual, dual_residual, eps_prim, eps_dual, termination_criteria, box_projection, multiplier updates", QPA)
for b in ("", "BOX"):
    B = [b] if b else []; s = b.lower() or "admm"
    for r, (rho, al) in enumerate((("0.125", "1"), ("2", "1.5"))):
        qprun("C01", s + "dense%d" % r, 2, 2, 1, "0,3,1", "H_CHECK=1", "H_ITERS=1", "H_GUESS", "H_RHO=" + rho, "H_ALPHA=" + al, reach=["solved", "unsolved", "end"], *B)
    qprun("C01", s + "rho", 2, 1, 1, "0,4", "H_CHECK=1", "H_ITERS=1", "H_GUESS", *(B or ["H_ALPHA=1.5"]), reach=["solved", "unsolved", "end"])
    qprun("C01", s + "two", 2, 2, 1, "3,0,2", "H_CHECK=1", "H_ITERS=2", "H_RHO=0.5", "H_ALPHA=1.25", reach=["solved", "unsolved", "end"], *B)
    qprun("C01", s + "late", 2, 2, 1, "1,0,4", "H_CHECK=2", "H_ITERS=2", "H_GUESS", "H_RHO=0.5", "H_ALPHA=0.75", reach=["solved", "unsolved", "end"], *B)
    qprun("C01", s + "sparse", 2, 2, 2, "5,6,0,4", "SPARSE", "H_CHECK=1", "H_ITERS=1", "H_GUESS", "H_RHO=0.5", "H_ALPHA=1.75", reach=["solved", "unsolved", "end"], *B)
    qprun("C01", s + "m0", 2, 2, 0, "0,1", "H_CHECK=1", "H_ITERS=2", "H_RHO=4", "H_ALPHA=1", reach=["solved", "unsolved", "end"], *B)
    qprun("C01", s + "adapt", 2, 1, 1, "0,3", "H_NOSIGN", "H_CHECK=2", "H_ADAPT=1", "H_ITERS=2", "H_CONC=0.5", "H_ALPHA=1.5", reach=["solved", "unsolved", "end"], *B)
    qprun("C01", s + "reuse", 2, 2, 1, "0,4,1", "SPARSE", "FULL", "H_REP=2", "H_CHECK=1", "H_ITERS=1", "H_RHO=0.5", "H_ALPHA=1.5", reach=["solved", "unsolved", "end"], *B)
    qprun("C01", s + "float", 2, 2, 1, "0,3,1", "H_SC=float", "H_TOL=1e-3", "H_CHECK=1", "H_ITERS=1", "H_RHO=0.5", "H_ALPHA=1.5", reach=["solved", "unsolved", "end"], *B)
    qprun("C01", s + "big", 2, 3, 2, "0,1,3,0,4", "H_CHECK=1", "H_ITERS=3", "H_GUESS", "H_RHO=0.5", "H_ALPHA=1.5", reach=["solved", "unsolved", "end"], thorough=True, *B)
prop("C03", QPF + "iteration loop, status and info, parse_constraints_bounds, rho_vec_update, estimate_rho clamping, start from the user's guess", QPA)
for b in ("", "BOX"):
    B = [b] if b else []; s = b.lower() or "admm"
    qprun("C03", s + "class", 3, 2, 2, "7,7,7,7", "H_ITERS=1", "H_GUESS", *B)
    qprun("C03", s + "fixedkinds", 3, 3, 3, "0,1,2,3,4,5", "H_ITERS=2", "H_GUESS", "H_REP=2", *B)
    qprun("C03", s + "count", 3, 2, 1, "0,3,1", "H_ITERS=3", "H_CHECK=1", "H_GUESS", "H_RHO=0.5", "H_ALPHA=1.5", reach=["end", "solved", "limit"], *B)
    qprun("C03", s + "count2", 3, 1, 1, "0,3", "H_ITERS=5", "H_CHECK=2", "H_GUESS", "H_REP=2", "H_RHO=0.5", "H_ALPHA=1.5", reach=["end", "solved"], *B)
    qprun("C03", s + "m0", 3, 2, 0, "0,1", "H_ITERS=2", "H_CHECK=2", "H_RHO=0.5", "H_ALPHA=1.5", reach=["end", "solved", "limit"], *B)
    qprun("C03", s + "adapt", 3, 2, 1, "0,3,1", "H_ITERS=3", "H_ADAPT=2", "H_GUESS", *B)
    qprun("C03", s + "adaptconc", 3, 1, 1, "0,4", "H_ITERS=2", "H_ADAPT=1", "H_CHECK=2", "H_GUESS", "H_CONC=0.5", "H_ALPHA=1.5", reach=["end", "solved", "limit"], *B)
    qprun("C03", s + "sparse", 3, 2, 1, "5,0,6", "SPARSE", "FULL", "H_ITERS=2", "H_CHECK=1", "H_GUESS", "H_REP=2", "H_RHO=0.5", "H_ALPHA=1.5", reach=["end", "solved", "limit"], *B)
    qprun("C03", s + "float", 3, 2, 1, "5,0,6", "H_SC=float", "H_TOL=1e-3", "H_ITERS=2", "H_CHECK=1", "H_RHO=0.5", "H_ALPHA=1.5", reach=["end", "solved", "limit"], *B)
    qprun("C03", s + "kinds", 3, 2, 2, "0,1,2,5", "H_GUESS", "H_GALT", "H_ROT", "H_REP=4", "H_ITERS=1", *B)
    qprun("C03", s + "kindssparse", 3, 2, 1, "1,2,0", "SPARSE", "H_ROT", "H_REP=3", "H_ITERS=1", *B)
    for r in ("1024", "0.0001"):
        qprun("C03", s + "clamp" + r, 3, 1, 1, "0,0", "H_ITERS=2", "H_ADAPT=1", "H_GUESS", "H_CONC=" + r, "H_ALPHA=1", *B)

SQPF = "SQPBase (src/solvers/sqp_base.hpp) over ProblemBase (src/solvers/nlproblem.hpp): "
SQPA = ["cost and constraints are uninterpreted smooth functions (values and derivatives in [-2,2], affine in the parameters); the QP solver is a stub returning arbitrary answers in [-2,2] (first step component in [1/16,2]); IdentityPreconditioner; tau = 1/2, eta in [1/32,31/32]"]
def sqprun(pid, name, mode, dims, *extra, **kw):
    run(pid, name, "sqp.cpp", ["H_MODE=%d" % mode] + ["H_%s=%d" % z for z in zip(("NX", "NE", "NI", "NP"), dims)] + list(extra), bounds="NX,NE,NI,NP = %s; %s" % (dims, " ".join(extra)), **kw)
prop("C06", SQPF + "solve, linearisation, update_linearisation, solve_qp, step_size_selection, constraints_violation, hessian_update, BFGS_update", SQPA)
sqprun("C06", "full", 6, (2, 1, 1, 1), "H_ITER=3", "H_LS=1", "H_FREEHESS")
sqprun("C06", "half", 6, (2, 1, 1, 0), "H_ITER=2", "H_LS=1", "H_FREEHESS", "H_BK=1", "H_REP=2")
sqprun("C06", "equal", 6, (2, 0, 2, 1), "H_ITER=2", "H_LS=1", "H_FREEHESS", "H_BK=2", "H_REP=2")
sqprun("C06", "default", 6, (2, 2, 0, 1), "H_ITER=2", "H_LS=1", "H_FREEHESS", "H_BK=3", "H_REP=2", "H_CONT")
sqprun("C06", "bfgs", 6, (1, 1, 1, 0), "H_ITER=2", "H_LS=1")
sqprun("C06", "bfgsfree", 6, (2, 0, 0, 0), "H_ITER=2", "H_LS=1", "H_BK=3")
sqprun("C06", "merit", 6, (2, 1, 1, 0), "H_ITER=1", "H_LS=3", "H_FREEHESS", "H_MERIT", reach=["end", "accepted", "limit"])
sqprun("C06", "meritone", 6, (2, 0, 1, 0), "H_ITER=1", "H_LS=3", "H_FREEHESS", "H_MERIT", "H_BK=1", reach=["end", "accepted", "limit"])
sqprun("C06", "merittwo", 6, (1, 1, 0, 0), "H_ITER=2", "H_LS=2", "H_FREEHESS", "H_MERIT", reach=["end", "accepted", "limit"])
sqprun("C06", "scaled", 6, (2, 1, 1, 1), "H_ITER=2", "H_LS=1", "H_FREEHESS", "H_SCALE", "H_REP=2")
sqprun("C06", "meritscaled", 6, (2, 1, 1, 0), "H_ITER=1", "H_LS=2", "H_FREEHESS", "H_MERIT", "H_SCALE", reach=["end", "accepted", "limit"])
sqprun("C06", "merittwoscaled", 6, (1, 1, 0, 0), "H_ITER=2", "H_LS=2", "H_FREEHESS", "H_MERIT", "H_SCALE", reach=["end", "accepted", "limit"])
sqprun("C06", "scaledbfgs", 6, (1, 1, 1, 0), "H_ITER=2", "H_LS=1", "H_SCALE", "H_BK=1")
OCPC["e"] = cfg(1, 1, 1, 1, 1, 2, 1)
for f in ("DENSE", "SPARSE"):
    for c, n, x in (("e", "ocp", ["H_ITER=3", "H_REP=2"]), ("a", "ocp", ["H_REG"]), ("e", "ocpscaled", ["H_SCALE", "H_REG", "H_REP=2"]), ("c", "ocp", []), ("e", "ocptol", ["H_ITER=3", "H_EPSP", "H_REP=1"]), ("e", "ocpdtol", ["H_ITER=3", "H_EPSD", "H_REP=1"])):
        run("C06", n + f + "_" + c, "sqpocp.cpp", ["H_FMT=" + f] + OCPC[c] + x, bounds="ContinuousOCP, %s, sizes %s; %s" % (f, " ".join(OCPC[c]), " ".join(x)), thorough=c == "c")
prop("C05", SQPF + "solve, termination_criteria, max_constraints_violation, constraints_violation, step_size_selection, reported info", SQPA)
sqprun("C05", "full", 5, (2, 1, 1, 1), "H_ITER=1", "H_LS=1", "H_FREEHESS", reach=["end", "solved", "limit"])
sqprun("C05", "half", 5, (2, 1, 1, 0), "H_ITER=1", "H_LS=1", "H_FREEHESS", "H_BK=1", reach=["end", "solved", "limit"])
sqprun("C05", "equal", 5, (2, 0, 2, 0), "H_ITER=1", "H_LS=1", "H_FREEHESS", "H_BK=2", reach=["end", "solved", "limit"])
sqprun("C05", "default", 5, (2, 2, 0, 0), "H_ITER=1", "H_LS=1", "H_FREEHESS", "H_BK=3", reach=["end", "solved", "limit"])
sqprun("C05", "two", 5, (1, 1, 1, 0), "H_ITER=2", "H_LS=1", "H_FREEHESS", reach=["end", "solved", "limit"])
sqprun("C05", "three", 5, (1, 1, 0, 0), "H_ITER=3", "H_LS=1", "H_BK=1", "H_FREEHESS", reach=["end", "solved", "limit"])
sqprun("C05", "again", 5, (1, 1, 0, 0), "H_ITER=1", "H_LS=1", "H_BK=1", "H_REP=2", "H_FREEHESS", reach=["end", "solved", "limit"])
sqprun("C05", "search", 5, (1, 1, 0, 0), "H_ITER=1", "H_LS=3", "H_BK=1", "H_FREEHESS", reach=["end", "solved", "limit"])

prop("C08", "SR1_update (src/solvers/sr1.hpp)", ["y = v + B s (bijective change of variables); the safeguard is |v's| >= 1e-6 |s| |v| and v's != 0"])
for n, d in (("n2", ["H_N=2"]), ("n2dyn", ["H_N=2", "H_DYN"]), ("n3", ["H_N=3"]), ("n2float", ["H_N=2", "H_SC=float"]), ("n3dynfloat", ["H_N=3", "H_DYN", "H_SC=float"]), ("n5", ["H_N=5"]), ("n8", ["H_N=8"])):
    run("C08", n, "sr1.cpp", d, reach=["applied", "skipped"], bounds="arbitrary symmetric matrices with entries in [-3,3], residual and step in [-2,2]; " + n, thorough=n == "n8")
    for k, c in enumerate(("exact", "zerostep", "orthogonal", "parallel", "zeroboth"), 1):
        run("C08", n + c, "sr1.cpp", d + ["H_CASE=%d" % k], reach=["applied" if k == 4 else "end"], bounds=c + "; " + n, thorough=n in ("n5", "n8", "n3dynfloat"))

prop("C09", "ContinuousOCP::hessian_update_impl, sparse and dense (src/control/continuous_ocp.hpp), BFGS_update (src/solvers/bfgs.hpp), on the Hessian pattern produced by lagrangian_gradient_hessian",
     ["Hessian values on the stage pattern arbitrary in [-2,2]; curvature along the step either above 0.01 or exactly zero (zero step, step in the kernel); run 'pair*': the step has at most two non-zero entries, every pair up to the stride"])
def bbrun(name, c, sp, *extra, **kw):
    run("C09", name, "blockbfgs.cpp", ["H_FMT=" + ("SPARSE" if sp else "DENSE"), "H_SP=%d" % sp] + c + list(extra), bounds="NX,NU,NP,ND,NG,order,segments = " + ",".join(x.split("=")[1] for x in c) + "; " + " ".join(extra), **kw)
for n, c in {"s1": cfg(1, 1, 0, 0, 0, 1, 1), "s1p": cfg(1, 1, 1, 0, 1, 1, 1), "s2": cfg(2, 1, 0, 0, 0, 1, 1)}.items():
    bbrun("full" + n, c, 1, reach=["damped", "plain"]); 
    bbrun("fulldense" + n, c, 0, reach=["damped", "plain"])
for n, c in {"p1": cfg(2, 1, 1, 1, 1, 2, 1), "p2": cfg(1, 2, 2, 0, 0, 2, 2)}.items():
    bbrun("pair" + n, c, 1, "H_PAIR", "H_STRIDE=%d" % (1 if n == "p1" else 3), reach=["damped", "plain"])
    bbrun("zero" + n, c, 1, "H_CASE=1", reach=["zero"]); bbrun("kernel" + n, c, 1, "H_CASE=2", reach=["kernel"])
    bbrun("zerodense" + n, c, 0, "H_CASE=1", reach=["zero"])

prop("C10", "AutoDiffScalar (src/autodiff/AutoDiffScalar.h): all operators, compound assignments, comparisons, abs abs2 sqrt sin cos tan asin acos exp log sinh cosh tanh floor pow atan2 min max real conj; make_coherent",
     ["operand values in the stated ranges inside each function's domain, operand derivatives arbitrary in [-2,2] (two directions): compositions follow by induction; piecewise functions away from their kinks by 1e-3, and exactly at the kinks of abs, min and max; assigning a plain scalar with '=' keeps the derivatives (documented use as seeding) and is not claimed"])
prop("C11", "AutoDiffScalar nested in itself (src/autodiff/AutoDiffScalar.h), rbf_kernel (src/autodiff/rbf_kernel.hpp)",
     ["operand values in the stated ranges, operand first and second derivatives arbitrary in [-2,2] (two directions); pow has no nested overload"])
for g, n in enumerate(("field", "mixed", "elementary", "composed", "piecewise", "floor", "constant", "kinks")):
    for d, dn in enumerate(("fixed", "max", "dynamic")):
        if d == 1 and g > 1: continue
        if d == 2 and g in (4, 5) : continue
        for k, p in ((0, "C10"), (1, "C11")):
            if g == 6 and (d != 2 or k): continue
            run(p, n + dn, "autodiff.cpp", ["H_NEST=%d" % k, "H_DER=%d" % d, "H_G=%d" % g], bounds="group %s, %s derivative vectors" % (n, dn))
for g in (0, 2, 3): run("C10", "float%d" % g, "autodiff.cpp", ["H_NEST=0", "H_DER=0", "H_G=%d" % g, "H_SC=float"], bounds="group %d, float" % g)
for n in (1, 2, 3): run("C11", "rbf%d" % n, "rbf.cpp", ["H_N=%d" % n], bounds="rbf_kernel of dimension %d, point and centre in [-1,1], unit seeds" % n)

prop("C04", "RuizEquilibration::compute (dense, sparse), scale, unscale, unscale_hessian, solution scale/unscale; IdentityPreconditioner (src/solvers/qp_preconditioners.hpp)", ["update() is not covered"])
def pcrun(name, mode, n, m, kinds, *extra, **kw):
    run("C04", name, "precond.cpp", ["H_MODE=%d" % mode, "H_N=%d" % n, "H_M=%d" % m, "H_KINDS=" + kinds] + list(extra), bounds="mode %d, N=%d, M=%d, bound kinds %s (0 finite, 1 absent, 2/3 one-sided); %s" % (mode, n, m, kinds, " ".join(extra)), **kw)
for f in ("DENSE", "SPARSE"):
    F = "H_" + f; s = f.lower()
    pcrun("identity" + s, 0, 2, 1, "0,1,2", F)
    pcrun("given" + s, 1, 2, 1, "2,0,1", F, "H_REP=2"); pcrun("given32" + s, 1, 3, 2, "0,1,2,3,0", F)
    pcrun("big" + s, 2, 2, 1, "0,2,1", F, "H_BIG")
    pcrun("zero" + s, 2, 2, 1, "0,2,1", F, "H_BIG", "H_ZEROGRAD")
    pcrun("small" + s, 2, 1, 1, "0,0", F, "H_LO=0.25", "H_HI=0.5")
    pcrun("tiny" + s, 2, 1, 1, "0,0", F, "H_LO=0.01", "H_HI=0.02")
    pcrun("emptyrow" + s, 2, 2, 2, "0,3,0,1", F, "H_BIG", "H_HM=0x9", "H_AM=0x4", "H_REP=2")
    pcrun("lp" + s, 2, 2, 1, "0,3,0", F, "H_HM=0", "H_LO=1", "H_HI=2")
    pcrun("nograd" + s, 2, 2, 1, "0,2,1", F, "H_HM=1", "H_BIG", "H_ZEROGRAD")
    pcrun("allzero" + s, 2, 2, 1, "0,2,1", F, "H_HM=0", "H_ZEROGRAD", "H_LO=1", "H_HI=2")
    pcrun("again" + s, 2, 1, 1, "0,0", F, "H_BIG", "H_REP=2")
    pcrun("float" + s, 2, 2, 1, "0,2,1", F, "H_BIG", "H_SC=float", "H_AM=1")
    pcrun("one" + s, 2, 1, 3, "0,1,2,0", F, "H_BIG")

prop("C23", "LSFilter, dominated_by (src/solvers/line_search.hpp)", ["operation kinds per position fixed by the run, all values symbolic: cost in [-4,4], violation in [0,4], margin 1e-5 or symbolic in [0,1/2]"])
for n, d, r in (("adds3", ["H_OPS=0,0,0"], ["end", "removed", "kept"]), ("query3", ["H_OPS=0,0,0,1"], ["end", "accepted", "rejected"]), ("adds2", ["H_OPS=4,4,4"], ["end", "accepted", "rejected", "removed", "kept"]), ("adds2beta", ["H_OPS=0,0,1", "H_BETA"], ["end", "accepted", "rejected"]), ("depth1", ["H_OPS=4,4,0,1", "H_DEPTH=1"], ["end", "evicted"]), ("depth2", ["H_OPS=0,0,0,1", "H_DEPTH=2"], ["end", "evicted"]),
                ("clear", ["H_OPS=0,0,2,1,0,1"], ["end"]), ("remove", ["H_OPS=0,0,3,1,0"], ["end"]), ("float", ["H_OPS=0,0,1", "H_SC=float"], ["end"])):
    run("C23", n, "filter.cpp", d, reach=r, bounds="operations %s (0 add, 1 query, 2 clear, 3 remove_one, 4 query and add)" % " ".join(d))
for n, d in (("adds4", ["H_OPS=0,0,0,0"]), ("depth3", ["H_OPS=0,0,0,0,1", "H_DEPTH=3"])): run("C23", n, "filter.cpp", d, bounds=" ".join(d), thorough=True)

prop("C19", "Chebyshev and Legendre: compute_nodes, compute_diff_matrix, compute_int_weights, compute_quad_weights, integrate, constructors; Spline forwarders (src/polynomials/ebyshev.hpp, legendre.hpp, splines.hpp)", ["polynomial coefficients arbitrary in [-1,1]; tolerance 1e-8 (double) / 2e-3 (float) times the order squared for differentiation"])
for k in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12):
    run("C19", "cheb%d" % k, "basis.cpp", ["H_MODE=0", "H_P=%d" % k], bounds="Chebyshev order %d, all polynomials up to the exactness degree" % k, thorough=k > 8)
    if k >= 2: run("C19", "leg%d" % k, "basis.cpp", ["H_MODE=0", "H_LEG", "H_P=%d" % k], bounds="Legendre order %d, all polynomials up to the exactness degree" % k, thorough=k > 8)
for k in (3, 5):
    run("C19", "chebfloat%d" % k, "basis.cpp", ["H_MODE=0", "H_P=%d" % k, "H_SC=float"], bounds="Chebyshev order %d, float" % k)
    run("C19", "legfloat%d" % k, "basis.cpp", ["H_MODE=0", "H_LEG", "H_P=%d" % k, "H_SC=float"], bounds="Legendre order %d, float" % k)
    run("C19", "chebspline%d" % k, "basis.cpp", ["H_MODE=0", "H_P=%d" % k, "H_SPLINE=3"], bounds="Chebyshev spline order %d" % k)
    run("C19", "legspline%d" % k, "basis.cpp", ["H_MODE=0", "H_LEG", "H_P=%d" % k, "H_SPLINE=2"], bounds="Legendre spline order %d" % k)
prop("C20", "poly_mul, poly_diff (src/polynomials/polynomial_math.hpp), Projection (src/polynomials/projection.hpp), Chebyshev/Legendre eval, weight, compute_basis, compute_norm_factors", ["cos(n acos x) and its multiples are expanded exactly (multiple-angle identities); coefficients below machine precision count as zero in poly_mul"])
for k in (2, 3, 4, 5, 6, 8):
    for l in ("", "H_LEG"):
        for m, mn in ((1, "project"), (3, "basis")): run("C20", mn + ("leg" if l else "cheb") + str(k), "basis.cpp", ["H_MODE=%d" % m, "H_P=%d" % k] + ([l] if l else []), bounds="order %d, coefficients in [-1,1], argument in (-1,1)" % k, thorough=k > 6)
    
prop("C21", "EquidistantCubicSpline (eval for plain, active and nested active arguments), LagrangeSpline (src/polynomials/splines.hpp)", ["the spline argument is the global one, as documented by the code; arguments closer than 1e-7 segment lengths to a knot only in the runs knot* (exact knots)"])
for k in (1, 2, 3, 4, 5, 6, 8):
    for l in ("", "H_LEG"):
        if k == 1 and l: continue
        run("C21", "lagrange" + ("leg" if l else "cheb") + str(k), "basis.cpp", ["H_MODE=2", "H_P=%d" % k] + ([l] if l else []) + (["H_OUT"] if k < 5 else []), bounds="order %d" % k, thorough=k > 6)
for n in (2, 3): run("C20", "mul%d" % n, "polymul.cpp", ["H_N=%d" % n], bounds="%d coefficients in [-2,2]" % n)
for n, sg in ((4, 0), (4, 0x5a), (4, 0xff), (5, 0x2d3), (6, 0xa69), (9, 0x1b2c5)): run("C20", "mul%d_%d" % (n, sg), "polymul.cpp", ["H_N=%d" % n, "H_SIGN=%d" % sg], bounds="%d coefficients of magnitude 0.001 to 2, sign pattern %d" % (n, sg))
for n, za, zb in ((4, 0, 0), (5, 16, 3)): run("C20", "any%d" % n, "polymul.cpp", ["H_N=%d" % n, "H_ZA=%d" % za, "H_ZB=%d" % zb], bounds="%d coefficients in [-2,2]" % n, thorough=True)
for n, za, zb in ((3, 7, 0), (3, 0, 7), (3, 7, 7), (4, 12, 8), (4, 5, 10), (3, 6, 3)): run("C20", "zero%d_%d_%d" % (n, za, zb), "polymul.cpp", ["H_N=%d" % n, "H_ZA=%d" % za, "H_ZB=%d" % zb], bounds="%d coefficients, zero masks %d %d" % (n, za, zb))
run("C20", "mulfloat", "polymul.cpp", ["H_N=3", "H_SC=float"], bounds="3 coefficients, float")
for n in (2, 3, 4, 5): run("C21", "nodes%d" % n, "spline.cpp", ["H_MODE=3", "H_N=%d" % n], bounds="%d nodes, arbitrary, at least 1/4 apart" % n, thorough=n > 4)
for n, g, o in ((2, 0.01, 4), (3, 0.01, 2), (3, 0.25, 5), (3, 0.02, 3)): run("C21", "close%d_%d" % (n, o), "spline.cpp", ["H_MODE=3", "H_N=%d" % n, "H_GAP=%g" % g, "H_OUT=%d" % o], bounds="%d nodes, arbitrary, at least %g apart, %d interpolated quantities" % (n, g, o))
for m, mn in ((0, "value"), (1, "active"), (2, "nested")):
    for k in (1, 2, 3):
        run("C21", mn + str(k), "spline.cpp", ["H_MODE=%d" % m, "H_K=%d" % k, "H_R=2.5"] + (["H_SET"] if k == 2 else []), reach=["end", "first"] + (["last"] if k > 1 else []), bounds="%d segments of length in [0.5,2], argument in [-2.5,2.5]" % k)
for k, x in ((2, "0"), (2, "1"), (2, "2"), (3, "2"), (3, "-1"), (3, "3"), (3, "5")): run("C21", "knot%d_%s" % (k, x), "spline.cpp", ["H_MODE=0", "H_K=%d" % k, "H_R=1", "H_KNOT=" + x], bounds="argument exactly at knot %s of %d segments" % (x, k))
for n, x in (("farright", "1e12"), ("farleft", "-1e12"), ("right", "1e4"), ("left", "-1e4")): run("C21", n, "spline.cpp", ["H_MODE=4", "H_K=3", "H_X=" + x], bounds="argument " + x)
run("C21", "splinefloat", "spline.cpp", ["H_MODE=0", "H_K=2", "H_R=2.5", "H_SC=float"], bounds="float")
prop("C18", OCPF + "all evaluations, dense and sparse object of one problem side by side along a history; set_time_limits in between", OCPA)
for n, o in (("jac", "0,2,0,-1,0"), ("ineq", "1,2,-1,1"), ("cons", "2,6,2,-1,2"), ("grad", "3,4,-1,3"), ("hess", "4,4,3,-1,4"), ("lgrad", "5,6,5,-1,5"), ("lhess", "6,4,6,-1,6"), ("lhessfirst", "2,4,5,6"), ("values", "7,6,-1,7"), ("short", "9,8,6,-1,8"), ("shortgrad", "8,9,-1,9")):
    for c in "abcd":
        if "1" in o.split(",") and c == "c": continue
        run("C18", n + "_" + c, "agree.cpp", ["H_OPS=" + o] + OCPC[c], bounds="evaluation history %s (0 equality, 1 inequality, 2 stacked Jacobian, 3 gradient, 4 cost Hessian, 5/9 Lagrangian gradient, 6/8 Lagrangian Hessian, 7 values, -1 new horizon); " % o + " ".join(OCPC[c]), thorough=c == "d")
prop("C22", "MPC (src/control/mpc_wrapper.hpp) over SQPBase and ContinuousOCP, LagrangeSpline (src/polynomials/splines.hpp)", ["Chebyshev-Gauss-Lobatto approximation; evaluation times inside the horizon; node times within 1e-7 segment lengths of a junction only in the runs node*"])
OCPC["g"] = cfg(2, 1, 0, 1, 0, 1, 2); OCPC["h"] = cfg(1, 2, 1, 0, 2, 2, 1)
for f in ("DENSE", "SPARSE"):
    for c in "egh": run("C22", "solve%s_%s" % (f, c), "mpcsolve.cpp", ["H_FMT=" + f] + OCPC[c], bounds="three solves through the wrapper over an SQP solver with a QP stub, " + f + "; sizes " + " ".join(OCPC[c]))
for c in "abcd": run("C22", "set_" + c, "mpc.cpp", ["H_MODE=1"] + OCPC[c], bounds="every setter twice, in two orders, arbitrary values; sizes " + " ".join(OCPC[c]))
for c in "abcd":
    for h, d in (("zero", ["H_T0=0", "H_LEN=2"]), ("late", ["H_T0=1.5", "H_LEN=3"]), ("early", ["H_T0=(-2.25)", "H_LEN=1"]), ("default", ["H_T0=0", "H_LEN=1", "H_DEFAULT"])):
        for k in range(int(OCPC[c][6][4:])): run("C22", "at_%s_%s%d" % (c, h, k), "mpc.cpp", ["H_MODE=2", "H_SEG=%d" % k] + OCPC[c] + d, bounds="every time in segment %d, arbitrary node values; " % k + " ".join(d + OCPC[c]))
        run("C22", "node_%s_%s" % (c, h), "mpc.cpp", ["H_MODE=4"] + OCPC[c] + d, bounds="every node time, arbitrary node values; " + " ".join(d + OCPC[c]))
for c in "ac":
    for k in range(int(OCPC[c][6][4:])): 
        if c == "a": run("C22", "at_%s_symt0_%d" % (c, k), "mpc.cpp", ["H_MODE=2", "H_SYMT0", "H_LEN=2", "H_SEG=%d" % k] + OCPC[c], bounds="horizon start symbolic in [-3,3], length 2, every time")
        run("C22", "at_%s_symlen_%d" % (c, k), "mpc.cpp", ["H_MODE=2", "H_T0=0.75", "H_SYMLEN", "H_SEG=%d" % k] + OCPC[c], bounds="horizon start 0.75, length symbolic in [0.5,4], every time")
    if c == "a": run("C22", "node_%s_symt0" % c, "mpc.cpp", ["H_MODE=4", "H_SYMT0", "H_LEN=2"] + OCPC[c], bounds="horizon start symbolic in [-3,3], length 2, every node time")

prop("C24", "ode_collocation, sparse_ode_collocation, cost_collocation, constraint_collocation::generic_function (src/control/*_collocation.hpp)", ["functions of states and controls, affine in the parameters, uninterpreted and smooth, values and derivatives in [-2,2]; Chebyshev-Gauss-Lobatto; parameters count as constants (the functors return no parameter derivatives)"])
for nx, nu, np_, p, s, ny in ((2, 1, 1, 3, 2, 1), (1, 2, 0, 2, 2, 3), (2, 1, 1, 4, 1, 1), (2, 2, 2, 1, 3, 2), (1, 1, 1, 4, 2, 2), (3, 1, 1, 2, 3, 4), (2, 1, 0, 5, 1, 2)):
    for m, n in ((0, "ode"), (1, "cost"), (2, "function")):
        for g in (0, 1):
            if g and m == 2: continue
            run("C24", "%s_%d%d%d%d%d%s" % (n, nx, nu, np_, p, s, "given" if g else ""), "coll.cpp", ["H_MODE=%d" % m, "H_NX=%d" % nx, "H_NU=%d" % nu, "H_NP=%d" % np_, "H_P=%d" % p, "H_S=%d" % s, "H_NY=%d" % ny] + (["H_GIVEN"] if g else []), bounds="NX,NU,NP,order,segments = %d,%d,%d,%d,%d; two evaluations of one object, symbolic horizon" % (nx, nu, np_, p, s) + ("; function objects with symbolic state" if g else ""))

prop("C27", "OSQP (src/solvers/osqp_interface.hpp), QPMAD (src/solvers/qpmad_interface.hpp), IpoptAdapter and IpoptInterface (src/solvers/ipopt_interface.hpp) with the problem classes they adapt",
     ["the external solvers are not installed: recording stand-ins for the parts of their interfaces the adapters use (harness/standin) take their place; they follow the documented behaviour of OsqpEigen 0.6-0.8, Ipopt 3.x, qpmad 1.x",
      "OSQP: the first solve of an object is a cold one and every later one a warm one (what SQPBase does); QPMAD: cold solves (its guessed solve is not instantiated)",
      "IPOPT: the reference for values and derivatives is the problem class itself, whose exactness is C12-C17"])
OQ = dict(inc=["harness/standin"])
for nm, n, m, hp, ap, ex in (("plain", 2, 1, "0,1,2,3", "0,1", ["H_COMP=0"]), ("guess", 2, 1, "0,1,2,3", "0,1", ["H_COMP=0", "H_GUESS"]), ("compressed", 3, 2, "0,4,8,1,3", "0,2,4", ["H_COMP=1"]),
                             ("compressedguess", 3, 2, "0,4,8", "1,3,5", ["H_COMP=1", "H_GUESS"]), ("reuse", 3, 2, "0,4,8,2,6", "0,1,5", ["H_COMP=0", "H_REUSE=1"]), ("reusecompressed", 3, 2, "0,4,8,2,6", "0,1,5", ["H_COMP=1", "H_REUSE=1", "H_GUESS"]), ("box", 2, 0, "0,3", "", ["H_COMP=0"])):
    run("C27", "osqp" + nm, "iface.cpp", ["H_OSQP", "H_N=%d" % n, "H_M=%d" % m, "H_HPAT=" + hp, "H_APAT=" + (ap or "-1"), "H_SOLVES=4", "H_STATUS=1,2,-2,-3,-4,-10,-6", "H_WANT=SOLVED,SOLVED,MAX_ITER_EXCEEDED,INFEASIBLE,INFEASIBLE,UNSOLVED,UNSOLVED"] + ([] if any("REUSE" in e for e in ex) else ["H_REUSE=0"]) + ex,
        bounds="%d variables, %d constraints, nonzeros %s / %s, one cold and three warm solves" % (n, m, hp, ap or "none"), **OQ)
run("C27", "osqpstatus", "iface.cpp", ["H_OSQP", "H_N=1", "H_M=1", "H_HPAT=0", "H_APAT=0", "H_COMP=0", "H_REUSE=0", "H_SOLVES=9", "H_STATUS=1,2,-2,-3,-4,-10,-6,-5,-7", "H_WANT=SOLVED,SOLVED,MAX_ITER_EXCEEDED,INFEASIBLE,INFEASIBLE,UNSOLVED,UNSOLVED,UNSOLVED,UNSOLVED"], bounds="1 variable, 1 constraint, every status of the solver", **OQ)
run("C27", "qpmad", "iface.cpp", ["H_QPMAD", "H_QPMAD_INFO=1", "H_N=3", "H_M=2"], bounds="3 variables, 2 constraints, three solves with statuses OK, iteration limit, other", **OQ)
for nm, nx, ne, ni, np_ in (("full", 3, 1, 2, 1), ("eq", 2, 1, 0, 1), ("ineq", 2, 0, 1, 0), ("free", 2, 0, 0, 2)):
    run("C27", "ipopt" + nm, "iface.cpp", ["H_IPOPT", "H_NX=%d" % nx, "H_NE=%d" % ne, "H_NI=%d" % ni, "H_NP=%d" % np_], bounds="%d variables, %d equalities, %d inequalities, %d parameters; two solves with two evaluations each" % (nx, ne, ni, np_), **OQ)
for f in ("DENSE", "SPARSE"):
    run("C27", "ipoptocp" + f, "iface.cpp", ["H_IPOPT", "H_OCP", "H_FMT=" + f, "H_NX=1", "H_NU=1", "H_NP=1", "H_ND=1", "H_NG=1", "H_P=2", "H_S=1"], bounds="optimal control problem, " + f + ": 1 state, 1 control, 1 parameter, 1 path constraint, order 2, 1 segment", **OQ)

prop("C25", "lyapunov, pinv, care, lqr (src/control/lqr.hpp) with Eigen's RealSchur, PartialPivLU, JacobiSVD, EigenSolver underneath",
     ["sizes and structures for which Eigen's eigenvalue and singular value iterations end without a data-dependent number of sweeps: (block) triangular matrices, diagonal weights"])
for nm, n, b, sy, qm in (("1", 1, "-1", 15, 1), ("2", 2, "-1", 15, 1), ("3", 3, "-1", 2, 5), ("c2", 2, "0", 0, 1), ("c2w", 2, "0", 4, 3), ("c2v", 2, "0", 8, 3), ("c3a", 3, "0", 0, 4), ("c3b", 3, "1", 0, 4), ("c4", 4, "0,2", 0, 7)):
    run("C25", "lyap" + nm, "lqr.cpp", ["H_MODE=0", "H_N=%d" % n, "H_BLOCK=" + b, "H_SYM=%d" % sy, "H_QM=%d" % qm], bounds="%d x %d stable (block) triangular matrices, blocks of complex pairs at %s; arbitrary right-hand side entries where (i + 2j) mod %d = 0; arbitrary matrix entries: %s" % (n, n, b, qm, {15: "all", 0: "none (one matrix)", 1: "diagonal", 2: "above the diagonal", 4: "upper block entries", 8: "lower block entries"}[sy]))
for nm, n, f, qm in (("2r", 2, 1, 1), ("2c", 2, -1, 1), ("3r", 3, 1, 5), ("3c", 3, -2, 5)):
    run("C25", "lyapfull" + nm, "lqr.cpp", ["H_MODE=0", "H_N=%d" % n, "H_BLOCK=-1", "H_FULL=%d" % f, "H_SYM=0", "H_QM=%d" % qm], bounds="one full %d x %d matrix, arbitrary right-hand side entries where (i + 2j) mod %d = 0" % (n, n, qm))
for nm, n, z in (("1", 1, "-1"), ("2", 2, "-1"), ("3z", 3, "1"), ("1z", 1, "0")):
    run("C25", "pinv" + nm, "lqr.cpp", ["H_MODE=1", "H_N=%d" % n, "H_ZERO=" + z], bounds="diagonal %d x %d, entries of magnitude 0.1 to 3, zero entries at %s" % (n, n, z))
for nm, n, c, k in (("1", 1, 0, 0), ("1cross", 1, 1, 0), ("1check", 1, 0, 1)):
    run("C25", "lqr" + nm, "lqr.cpp", ["H_MODE=2", "H_N=%d" % n, "H_CROSS=%d" % c, "H_CHECK=%d" % k], bounds="%d decoupled states, cross weights %d" % (n, c))
run("C25", "lyapfull4c", "lqr.cpp", ["H_MODE=0", "H_N=4", "H_BLOCK=-1", "H_FULL=-1", "H_SYM=0", "H_QM=9"], bounds="one full 4 x 4 matrix, two arbitrary right-hand side entries", thorough=True, time=1800)
run("C25", "pinv4", "lqr.cpp", ["H_MODE=1", "H_N=4", "H_ZERO=2"], bounds="diagonal 4 x 4", thorough=True, time=1800)
run("C27", "osqplarge", "iface.cpp", ["H_OSQP", "H_N=4", "H_M=3", "H_HPAT=0,5,10,15,4,1,11,14", "H_APAT=0,3,5,8,9,11", "H_COMP=1", "H_REUSE=1", "H_GUESS", "H_SOLVES=4", "H_STATUS=1,-2,-3,2", "H_WANT=SOLVED,MAX_ITER_EXCEEDED,INFEASIBLE,SOLVED"], bounds="4 variables, 3 constraints, one cold and three warm solves", thorough=True, **OQ)
run("C27", "ipoptlarge", "iface.cpp", ["H_IPOPT", "H_NX=4", "H_NE=2", "H_NI=3", "H_NP=2"], bounds="4 variables, 2 equalities, 3 inequalities, 2 parameters", thorough=True, time=1800, **OQ)
for f in ("DENSE", "SPARSE"):
    run("C27", "ipoptocplarge" + f, "iface.cpp", ["H_IPOPT", "H_OCP", "H_FMT=" + f, "H_NX=2", "H_NU=1", "H_NP=1", "H_ND=1", "H_NG=1", "H_P=2", "H_S=2"], bounds="optimal control problem, " + f + ": 2 states, 1 control, 1 parameter, 1 path constraint, order 2, 2 segments", thorough=True, time=1800, **OQ)
