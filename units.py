"""Harness units per property."""
LEVEL = "model_checking"
UNITS, BOUNDS, ASSUMPTIONS = {}, {}, {}

def u(name, src, defs=(), **kw):
    return dict(name=name, src=src, defs=list(defs), **kw)

UNITS["C18"] = [u("cheb1-6", "c18.cpp", ["LO=1", "HI=6"]), u("cheb7-12", "c18.cpp", ["LO=7", "HI=12"]),
                u("leg2-5", "c18.cpp", ["LEG", "LO=2", "HI=5"]), u("leg6-9", "c18.cpp", ["LEG", "LO=6", "HI=9"]),
                u("cheb13-24", "c18.cpp", ["LO=13", "HI=24"], thorough_only=True), u("leg10-12", "c18.cpp", ["LEG", "LO=10", "HI=12"], thorough_only=True)]
UNITS["C19"] = [u("cheb1-5", "c19.cpp", ["LO=1", "HI=5"]), u("cheb6-8", "c19.cpp", ["LO=6", "HI=8"]),
                u("leg2-4", "c19.cpp", ["LEG", "LO=2", "HI=4"]), u("leg5-7", "c19.cpp", ["LEG", "LO=5", "HI=7"])]
UNITS["C21"] = [u("poly", "c21.cpp", shards=4, asan=True)]
UNITS["C20"] = [u("splines", "c20.cpp", asan=True, shards=4)]
UNITS["C06"] = [u("quasi-newton", "c06.cpp", shards=8, O=2)]
UNITS["C07"] = [u("filter", "c07.cpp", shards=8, O=2)]
UNITS["C22"] = [u("ad-" + n, "c22.cpp", ["TYPE=%d" % i], shards=4, O=1) for i, n in enumerate(["fixed", "dynamic", "nested", "float"])]

_QPV = {"box-dense": ["BOX"], "box-dense-lu": ["BOX", "BACKEND_LU"], "box-sparse": ["BOX", "FMT=SPARSE"], "box-sparse-lu": ["BOX", "FMT=SPARSE", "BACKEND_LU"],
        "admm-dense": [], "admm-dense-lu": ["BACKEND_LU"], "admm-sparse": ["FMT=SPARSE"], "admm-sparse-lu": ["FMT=SPARSE", "BACKEND_LU"]}
_SM = lambda k, d: d + ["SMALL"] if "lu" in k else d
UNITS["C01"] = [u(k, "c01.cpp", _SM(k, d), shards=8, O=2) for k, d in _QPV.items()] + [u("box-float", "c01.cpp", ["BOX", "SMALL", "SCALAR=float"], shards=8, O=2), u("admm-float", "c01.cpp", ["SMALL", "SCALAR=float"], shards=8, O=2)]
UNITS["C02"] = [u(k, "c02.cpp", _SM(k, d), shards=8, O=2) for k, d in _QPV.items()] + [u("box-float", "c02.cpp", ["BOX", "SMALL", "SCALAR=float"], shards=8, O=2), u("admm-float", "c02.cpp", ["SMALL", "SCALAR=float"], shards=8, O=2)]

TECH = {}
NOTES = {}
DEFAULT_NOTE = ("Exhaustive within the stated bound (see evidence coverage.bound and DESIGN.md): every case of the finite input alphabet, configuration set and operation history is executed on the real code "
                "and compared with an independent reference model. Trusts the reference model, the compiler and Eigen; says nothing about values outside the alphabet.")
UNITS["C03"] = [u(k, "c03.cpp", d, shards=8, O=2) for k, d in _QPV.items()]
UNITS["C04"] = [u(k, "c04.cpp", _SM(k, d), shards=8, O=2) for k, d in _QPV.items()]
UNITS["C05"] = [u("%s-%d" % (n, k), "c05.cpp", d + ["PART=%d" % k], shards=4, O=1) for n, d in
    [("dense", ["BOX"]), ("sparse", ["BOX", "FMT=SPARSE"]), ("float", ["BOX", "SCALAR=float"]), ("identity", ["BOX", "IDENT"])] for k in range(3) if n != "identity" or k < 2]
_NLPD = {"a": "D(1,0,0,0) D(1,1,0,0) D(1,0,1,1) D(1,1,1,0)", "b": "D(2,0,0,1) D(2,1,1,1) D(2,0,2,0)", "c": "D(2,2,0,0) D(2,1,2,2) D(3,0,0,0)", "d": "D(3,1,1,1) D(3,2,1,0)", "e": "D(4,1,2,1)"}
UNITS["C08"] = [u("nlp-" + k, "c08.cpp", ["DIMS=" + d], shards=8, O=1) for k, d in _NLPD.items()]

_OCP = ["2,1,1,1,1,3,2,0", "2,1,1,1,1,2,1,1", "1,1,0,0,0,2,1,0", "1,1,0,0,0,4,3,2", "1,2,0,0,1,2,2,0", "1,2,0,0,1,1,3,1", "1,2,0,0,1,2,1,0", "3,1,2,0,2,3,1,0",
        "3,1,2,0,2,2,2,2", "2,3,1,1,0,2,2,0", "2,3,1,1,0,5,1,1", "1,1,2,0,1,1,3,0", "1,1,2,0,1,4,2,1", "3,2,0,1,2,2,2,0", "3,2,0,1,2,3,2,2", "2,2,1,0,1,1,1,0"]
_OCPT = ["2,1,0,1,2,4,3,0", "1,3,1,0,1,3,3,0", "4,2,1,0,1,2,2,0", "2,2,2,2,2,2,3,2", "1,1,1,1,1,6,2,1", "3,3,0,0,0,3,1,1"]   # thorough only
def _lists(tuples, n=2):
    return [tuples[i:i + n] for i in range(0, len(tuples), n)]
def _X(ts):
    return "LIST=" + " ".join("X(%s)" % t for t in ts)
def _nm(ts):
    return "_".join(t.replace(",", "") for t in ts)
for _c, _f, _src in (("C11", None, "c11.cpp"), ("C12", 0, "c12.cpp"), ("C13", 1, "c12.cpp")):
    UNITS[_c] = []
    for _f2 in ([0, 1] if _f is None else [_f]):
        for _th, _l in ((False, _OCP), (True, _OCPT)):
            for _ts in _lists(_l, 4 if _c == "C11" else 2):
                if _c == "C11" and _f2 == 1 and _th: continue
                UNITS[_c].append(u("%s-%s" % ("sparse" if _f2 else "dense", _nm(_ts)), _src, [_X(_ts), "FMTV=%d" % _f2], shards=4, O=1, thorough_only=_th))
UNITS["C13"].append(u("asan", "c12.cpp", [_X(["2,1,1,1,1,2,2,0"]), "FMTV=1"], shards=8, O=1, asan=True))
UNITS["C14"] = [u("bfgs-" + _nm(ts), "c14.cpp", [_X(ts)], shards=4, O=1) for ts in (["2,1,1,1,1,3,2,0", "1,2,0,0,1,2,1,0"], ["2,1,0,0,0,2,3,0", "1,1,2,0,0,3,1,0"], ["3,2,0,0,0,1,2,0", "2,3,1,0,0,2,2,0"])]
UNITS["C14"] += [u("asan", "c14.cpp", [_X(["2,1,1,1,1,2,2,0"])], shards=4, O=1, asan=True)]
UNITS["C12"].append(u("dense-large", "c12.cpp", [_X(["3,2,0,0,1,5,6,0"]), "FMTV=0"], shards=8, O=1))
UNITS["C13"].append(u("sparse-large", "c12.cpp", [_X(["3,2,0,0,1,5,6,0"]), "FMTV=1"], shards=8, O=1, thorough_only=True))
UNITS["C09"] = []
for _n, _d in (("box", []), ("box-exact", ["EXACT"]), ("box-ruiz", ["RUIZ"]), ("box-ruiz-exact", ["RUIZ", "EXACT"]), ("admm", ["QPT=ADMM"]), ("admm-ruiz", ["QPT=ADMM", "RUIZ"])):
    for _k, _dm in (("a", "D(1,0,0) D(1,1,0) D(1,0,1) D(2,0,0)"), ("b", "D(2,0,1) D(2,1,0)"), ("c", "D(2,1,1)")):
        UNITS["C09"].append(u("%s-%s" % (_n, _k), "c09.cpp", _d + ["EIGEN_NO_DEBUG", "DIMS=" + _dm] + (["WIDE"] if _n == "box" and _k != "b" else []), shards=8, O=1,
            thorough_only=_n == "admm-ruiz" and _k != "c" or _n in ("admm", "box-ruiz-exact") and _k == "a" or _n == "box-ruiz-exact" and _k == "b"))
    if _n in ("box", "box-ruiz"):
        UNITS["C09"].append(u("%s-d" % _n, "c09.cpp", _d + ["EIGEN_NO_DEBUG", "DIMS=D(3,1,2)"], shards=8, O=1, cost=3, thorough_only=_n != "box"))
        UNITS["C09"].append(u("%s-e" % _n, "c09.cpp", _d + ["EIGEN_NO_DEBUG", "DIMS=D(3,1,0) D(2,0,2)"], shards=8, O=1, cost=3, thorough_only=True))

UNITS["C10"] = []
for _n, _d in (("box", []), ("box-exact", ["EXACT"]), ("box-ruiz", ["RUIZ"]), ("box-ruiz-exact", ["RUIZ", "EXACT"]), ("admm", ["QPT=ADMM"]), ("admm-exact", ["QPT=ADMM", "EXACT"]), ("admm-ruiz-exact", ["QPT=ADMM", "RUIZ", "EXACT"])):
    for _k, _dm in (("a", "D(1,0,0) D(2,0,0) D(2,0,1)"), ("b", "D(1,1,0) D(2,1,0) D(2,1,1)"), ("c", "D(2,0,2) D(3,1,1)")):
        UNITS["C10"].append(u("%s-%s" % (_n, _k), "c10.cpp", _d + ["EIGEN_NO_DEBUG", "DIMS=" + _dm] + (["WIDE"] if _n == "box" and _k == "a" else []), shards=8, O=1, thorough_only=_k == "c" and (_n != "box" or True)))

_M15 = ["2,1,1,1,1,2,2,DENSE", "1,2,2,1,2,1,3,SPARSE", "3,1,0,0,0,2,1,SPARSE", "2,2,0,2,1,3,1,DENSE", "1,1,1,0,0,2,3,SPARSE", "2,3,1,1,2,1,1,DENSE", "1,1,0,0,1,1,2,DENSE"]
UNITS["C15"] = [u("mpc-" + t.replace(",", ""), "c15.cpp", ["LIST=X(%s)" % t], shards=4, O=1) for t in _M15] + [u("asan", "c15.cpp", ["LIST=X(2,1,1,1,1,2,2,DENSE) X(1,2,2,1,2,1,3,SPARSE)", "DEPTH=2"], shards=4, O=1, asan=True)]
_M16 = [["2,1,5,2,DENSE", "1,1,2,3,SPARSE", "1,1,3,1,SPARSE"], ["1,2,1,4,DENSE", "1,1,8,2,SPARSE", "3,1,6,1,DENSE"], ["1,1,4,2,SPARSE", "2,2,3,2,DENSE", "1,1,2,5,SPARSE", "1,1,7,1,DENSE"], ["1,1,1,1,DENSE", "2,3,2,1,SPARSE"]]
UNITS["C16"] = [u("interp-%d" % i, "c16.cpp", [_X(ts)], shards=4, O=1) for i, ts in enumerate(_M16)] + [u("asan", "c16.cpp", [_X(["2,1,2,2,SPARSE"])], shards=4, O=1, asan=True)]
UNITS["C17"] = []
for _t, _dp, _ms in (("2,1,1,1,1,2,2,SPARSE", 3, 0), ("2,1,1,1,1,3,1,DENSE", 3, 0), ("1,2,0,0,0,2,3,SPARSE", 2, 0), ("2,1,0,1,1,2,2,DENSE", 2, 0), ("3,1,0,0,1,3,1,SPARSE", 2, 1), ("2,2,2,1,1,2,1,SPARSE", 3, 0),
                     ("2,2,2,1,1,2,1,DENSE", 2, 0), ("2,1,0,1,2,4,1,SPARSE", 2, 0), ("1,1,0,0,1,5,1,DENSE", 2, 0), ("1,1,2,2,1,1,4,SPARSE", 3, 0), ("2,1,0,0,0,3,3,DENSE", 1, 1), ("2,1,0,0,0,3,3,SPARSE", 1, 1)):
    for _e in (0, 1):
        UNITS["C17"].append(u("lq-%s-%s" % (_t.replace(",", ""), "exact" if _e else "qn"), "c17.cpp", ["LIST=X(%s)" % _t, "DEPTH=%d" % (_dp if _e or _t[:5] == "2,2,2" else min(_dp, 2)), "EIGEN_NO_DEBUG"] + ["MUSTSOLVE=0"] * _ms + (["EXACT"] if _e else ["WIDE"] if _t[:5] == "2,2,2" and _dp == 3 else []), shards=8, O=1))
UNITS["C23"] = [u("lyapunov", "c23.cpp", ["LYAP"], shards=4, O=1, second="control/lqr.hpp"), u("lqr", "c23.cpp", [], shards=8, O=1)]
_M24 = [["2,1,1,CH(3),2", "1,2,0,CH(2),3", "1,1,2,LG(2),2"], ["3,1,0,CH(1),2", "2,2,0,LG(3),1", "1,1,0,CH(4),1"], ["2,1,0,CH(4),2", "1,3,0,CH(1),1", "2,1,0,LG(4),2"], ["2,2,1,LG(5),1", "3,2,1,CH(6),1"], ["1,1,0,CH(2),5", "4,1,0,CH(1),3"]]
UNITS["C24"] = [u("colloc-%d" % i, "c24.cpp", [_X(ts)] + (["POLYMPC_AD"] if i % 2 else []), shards=2, O=1) for i, ts in enumerate(_M24)] + [u("asan", "c24.cpp", [_X(["2,1,1,CH(2),2", "1,1,0,LG(2),1"])], shards=4, O=1, asan=True)]

_IP = dict(asan=True, O=1, inc=["harness/stubs/ipopt"])
UNITS["C25"] = [u("nlp-" + k, "c25.cpp", ["NLP", "DIMS=" + d], shards=4, **_IP) for k, d in (("a", "D(1,0,0,0) D(1,1,0,0) D(1,0,1,1) D(2,0,0,1)"), ("b", "D(2,1,1,1) D(2,0,2,0) D(3,2,0,0)"), ("c", "D(3,1,1,1)"))]
for _f in (0, 1):
    for _ts in (["2,1,1,1,1,2,2,0", "1,1,0,0,0,2,1,0"], ["1,2,0,0,1,1,3,1", "2,3,1,1,0,2,2,0"], ["1,1,2,0,1,1,3,0", "3,1,2,0,2,2,2,2"], ["3,2,0,0,1,5,6,0"]):
        UNITS["C25"].append(u("%s-%s" % ("sparse" if _f else "dense", _nm(_ts)), "c25.cpp", [_X(_ts), "FMTV=%d" % _f], shards=4, asan=len(_ts) > 1, O=1, inc=["harness/stubs/ipopt"]))

UNITS["C26"] = [u("osqp", "c26.cpp", ["OSQPT"], shards=6, O=1, inc=["harness/stubs/osqp"]), u("osqp-asan", "c26.cpp", ["OSQPT", "SMALL"], shards=4, asan=True, O=1, inc=["harness/stubs/osqp"]),
                u("qpmad", "c26.cpp", [], shards=2, asan=True, O=1, inc=["harness/stubs/qpmad"])]

# ---- what the evidence and the manifest say about each check (q = quick, t = thorough)
_QPA = ("all convex QPs of the alphabet with n<=3 variables and m<=2 rows: positive (semi)definite Hessian menu x gradients over {-2,0,1}^n x row menus x bound kinds "
        "{free, equality, two-sided, upper, lower, +-1e20} on rows and box; plus a menu of unusual magnitudes (values 1e-6..1e6, bounds at 1e19/1e20/1e21, nearly equal bounds) compared with relative tolerances")
BOUNDS.update({
 "C01": _QPA + "; 3 settings vectors (t: 6), ADMM and boxADMM, dense/sparse, LDLT/LU, double/float, sparse input compressed and uncompressed",
 "C02": _QPA + ", strictly convex and feasible; 21 settings vectors (t: 75) over alpha, rho, sigma, adaptation, check and adaptation interval; all 8 back ends and float; 20k/100k iteration budget",
 "C03": "all operation histories of depth <=2 (t: 3) over {cold, guessed, truncated, same-pattern solve} x the QPs of each sparsity group x 5 settings changes, each followed by a solve compared with a fresh object; neighbouring problems that differ in exactly one argument; 8 back ends",
 "C04": _QPA + " incl. infeasible and unbounded; 38 (t: 73) budgets max_iter x check interval x adaptation, run one after another through one object; 8 back ends",
 "C05": "7 Hessians x 4 gradients x 4-5 row matrices x 2 bound sets (zero and badly scaled entries) x 13 call sequences of compute/scale/unscale x 4 storage forms (dense, sparse, float, identity), plus solve-scaled-and-map-back over the QP alphabet",
 "C06": "every sequence of 2-5 (t: one deeper) updates with (s,y) from integer grids, dimensions 1-3, fixed/dynamic storage, double/float; breadth-first, distinct matrices expanded once",
 "C07": "complete reachable state graph of the filter over (cost, violation) grids, depth limits 1-3 (t: more) and antichain histories at depth 10, beta in {1e-5,0,0.1,0.5}; all operations and queries in every state",
 "C08": "dimension tuples up to (4 variables, 1 equality, 2 inequalities, 1 parameter), 10 cost and constraint programs, all grid points with their one-coordinate neighbours, multiplier patterns with zeros and equal entries, parameter changes, all query sequences of depth 2 (t: 3 for at most 2 variables)",
 "C09": "menu of convex NLPs in dimensions up to (3,1,2), all starting points of a grid, settings vectors, QP back ends, exact and quasi-Newton Hessians, identity and Ruiz preconditioner; every iteration of every run replayed",
 "C10": "same NLP menu; all histories of depth <=2 (t: 3) over {solve another problem, truncated, warm, bounds, parameters, settings} followed by a solve compared with a new object and the reference optimum",
 "C11": "16 (t: 22) tuples (NX,NU,NP,ND,NG,order,segments,term set), dense and sparse; all points of the trajectory grid, all histories over 8 time intervals (several sharing a length or an end point)",
 "C12": "17 (t: 23) tuples, all combinations of absent/constant/active terms, all points of the grid, all sequences of two (t: three) queries into the same matrices, queries differing in one argument only, multiplier patterns (single non-zero, blocks of zeros, equal entries)",
 "C13": "16 (t: 23) tuples, sparse storage, first and repeated evaluation, all sequences of two (t: three) queries into the same matrices, also with the matrices compressed in between and with a second object filling them; queries differing in one argument only, multiplier patterns; announced non-zero counts; ASan build of one tuple",
 "C14": "7 tuples; all sequences of 2 (t: 3) of 56 (step, gradient change) pairs from 3 starting matrices, dense and sparse",
 "C15": "7 tuples, all sequences of at most 3 (t: 4) setter calls from the menu, dense and sparse controllers; ASan build at depth 2",
 "C16": "12 (order, segments) pairs up to order 8, all histories of at most 2 (t: 3) time-interval changes over 9 intervals, all nodes, a grid of times in between and times at 1e-9..0.3 half segment lengths from every segment border, 4 trajectory data sets",
 "C17": "12 linear-quadratic problems x exact/structured quasi-Newton; all sequences of at most 1-3 (t: 2-4) controller operations, each followed by a warm-started solve",
 "C18": "Chebyshev orders 1-12 (t: 24), Legendre 2-9 (t: 12), all monomials up to the design degree, 6 intervals, double and float; spline wrappers up to 5 segments",
 "C19": "Chebyshev 1-8, Legendre 2-7, all coefficient vectors of the small-integer alphabet, all basis functions, all intervals of the menu, all evaluation points of a grid, re-projection with the same object",
 "C20": "cubic splines of every segment count, length and coefficient pattern of the menu, all arguments of a grid with knots, both ends, outside and huge values, every ordered pair of segments through one object before and after its data is replaced; Lagrange interpolants on every ordered selection of <=3 (t: 5) and every sorted, reversed or rotated selection of <=5 (t: 6) of 6 nodes, nodes scaled by 1e3..1e-5 and data by 1e-13..1e9; ordered pairs of node sets through one object; ASan build",
 "C21": "all pairs of coefficient vectors over alphabets of 3-6 integers for lengths 1-5 (t: 6), three scales, double and float, and over widely spread coefficients (up to 2^34); breadth-first multiply/differentiate histories of depth 4-6 (t: 6-8); recurrences of the bases up to order 16; ASan build",
 "C22": "all expressions up to depth 2 over every operator and function x active/constant operands x grid points; all assignment histories up to length 3 (t: 4); fixed, dynamic, nested, float scalars",
 "C23": "all small-integer systems n<=3, m<=2 of the menus x weights x cross weights (q: strided subset of 51k LQR and 30k Lyapunov equations, t: every one)",
 "C24": "14 tuples (NX,NU,NP,basis(order),segments), all functors of the menu, all points and intervals, all sequences of 3 (t: 4) of 11 evaluations (functor, point, interval) into the same matrices; ASan build",
})
BOUNDS["C25"] = ("NLPs in 8 dimension tuples (10 cost and constraint programs, every pair of them) and optimal control problems in 7 tuples (5 term combinations x 3 time intervals), dense and sparse; all sequences of 2 (t: 3 for NLPs) of 23-41 callbacks "
 "(kind, point, multipliers, objective factor); 144 operation pairs x 3 entries of the interface, each followed by three solves; ASan builds")
BOUNDS["C26"] = ("OSQP: sizes (n,m) up to (4,1), (3,2), (1,3), all (strided for 3x2) sparsity patterns of A and H; all sequences of 2 (t: also 3) solves over 32 combinations of warm start, starting point, same pattern and "
 "compressed storage, patterns changing between solves where allowed, 5 data sets with settings, 8 outcomes; QPMAD: 5 sizes, all sequences of 3 solves over starting point, data set and outcome (q: every third); ASan builds")
TECH.update({
 "C26": "exhaustive enumeration of solve histories, with stand-ins for OSQP and qpmad as the environment, against the problem the user passed",
 "C25": "exhaustive enumeration of callback sequences and interface histories, with a stand-in for Ipopt as the environment, against second-order jets",
 "C06": "breadth-first explicit-state exploration of all update histories, executed on the real code, long double reference",
 "C07": "explicit-state search of the complete reachable state graph of the real filter against an executable specification",
 "C03": "exhaustive enumeration of operation histories on real solver objects against fresh objects and an active-set reference",
 "C09": "exhaustive enumeration of runs with conformance replay: every transition of every SQP run is checked against an independent model of the iteration",
 "C10": "exhaustive enumeration of operation histories on real solver objects against fresh objects and reference optima",
 "C15": "exhaustive enumeration of setter sequences against an executable reference model of the interface",
 "C17": "exhaustive enumeration of closed-loop operation sequences against a certified optimum of an independently transcribed QP",
})
_REF = "Trusted: the compiler, Eigen and the reference model in harness/ (written from the definitions, not from the code under test)."
for _p in BOUNDS: ASSUMPTIONS.setdefault(_p, []).append(_REF)
ASSUMPTIONS["C02"].append("adaptive step size: a run that does not reach SOLVED is excused only if an independent textbook iteration with the same adaptation rule does not settle within 1/20 of the budget either")
ASSUMPTIONS["C10"].append("quasi-Newton convergence is claimed only when no constraint is active at the solution; adaptive-step-size histories are compared with the solution only")
ASSUMPTIONS["C17"].append("optimality of a SOLVED step is claimed when its QP subproblems converged; liveness only with exact Hessians")
ASSUMPTIONS["C23"].append("tiny control weights with cross weights are excluded (the published initialisation is ill-conditioned there)")
ASSUMPTIONS["C25"].append("Ipopt itself is not installed: a stand-in (harness/stubs/ipopt) has the published TNLP and IpoptApplication interface and call protocol (3.14); what Ipopt computes from correct callbacks is outside the claim")
ASSUMPTIONS["C26"].append("OSQP, OsqpEigen and qpmad are not installed: stand-ins (harness/stubs) have their published interfaces; what the libraries compute, and whether they accept to be initialised twice, is outside the claim; the first solve of a history is a cold one without the same-pattern option")
