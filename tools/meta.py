#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/config.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, st, over, q, why, files, mech, obs, bounds, outside="", assumptions=(), na=None, **cfg):
    P.append(dict(id=id, title=title, statement=st, over=over, q=q, why=why, files=files, mech=mech, obs=obs,
                  bounds=bounds, outside=outside, assumptions=list(assumptions), na=na, cfg=cfg))


GS, IT = "src/GSpline.cpp", "src/Interpolator.cpp"
BL, BG, B0, BB = "src/Basis/BasisLagrange.cpp", "src/Basis/BasisLegendre.cpp", "src/Basis/Basis0101.cpp", "src/Basis/Basis.cpp"
FD = "src/Functions/"
COL = "src/Collocation/"

prop("C01", "A spline evaluates to its piecewise basis expansion everywhere",
     "For every spline (any basis, interval lengths, start time, coefficients, codomain dimension) and every evaluation time, each component of the value equals the sum of that interval's coefficients times the basis functions at the corresponding point of the interval; the interval of a time is the one it lies in, the left one at an interior breakpoint. Times before the start or after the end are evaluated with the first or last piece, and the result has one row per evaluation time and one column per component.",
     ["inputs", "configurations"], "all real start times, interval lengths, coefficients and evaluation times; all bases of the library, every number of intervals and components",
     "The tests evaluate a few random splines at random points with one basis each; the claim is over all real data and all interval positions, including breakpoints and both ends.",
     [GS, BL, BG, B0], [("interval search", GS + ":GSplineBase::get_interval"), ("window change of variable", GS + ":GSplineBase::interval_to_window"), ("coefficient layout", GS + ":GSplineBase::coefficient_segment")],
     ["GSpline::operator()", "GSpline::get_domain_breakpoints"],
     "Legendre dim 1..8, Lagrange on Gauss-Lobatto nodes 2..6 and on arbitrary node sets 1..5, basis0101 for 3 values of alpha; 1..4 intervals, 1..3 components; start time in [-4,4], every interval length in [0.25,4], coefficients in [-4,4], evaluation time symbolic inside each interval, at each breakpoint, at both ends and up to 4 beyond them",
     "more intervals/components, other magnitudes, other alphas and node sets; evaluation within 1e-6 of a Lagrange node other than the node itself (the library snaps there by design)")

prop("C02", "The derivative of a spline is the derivative of its pieces",
     "For every spline and every derivative order, differentiating yields a function whose value at every time is the derivative of that order of the piece the time lies in; order zero is the spline itself, differentiating in steps gives the same as differentiating at once, and orders beyond the polynomial degree give zero. The derivative keeps domain, codomain, basis and breakpoints, and the original spline is unchanged.",
     ["inputs", "configurations"], "all real spline data and times, all bases, every derivative order",
     "Existing tests differentiate a few splines up to order three and compare with finite differences or a second implementation at sampled points.",
     [GS, BL, BG, B0, "include/gsplines/GSpline.hpp"], [("coefficient map per piece", "include/gsplines/GSpline.hpp:deriv_impl"), ("derivative matrices", "include/gsplines/Basis/Basis.hpp:get_derivative_matrix_block")],
     ["GSpline::derivate", "GSpline::operator()"],
     "bases as C01; orders 0..dim+2 (at most 7), also in two steps; 1..3 intervals, 1..3 components; data ranges as C01; time symbolic in every piece",
     "orders above 7; other magnitudes; times within 1e-6 of a non-node Lagrange snap")

prop("C03", "Basis functions, their time derivatives and interval sensitivities agree",
     "For every basis, window coordinate and interval length, the reported basis values are the mathematical basis functions, the reported derivatives are their exact time derivatives of every order, and the reported sensitivities are the derivatives of those with respect to the interval length at a fixed window coordinate. The derivative matrix of every order maps the coefficients of any function of the span to the coefficients of its derivative, and the change of nodes of a Lagrange basis maps node values of any polynomial of the space to its values on the new nodes.",
     ["inputs", "configurations"], "all window coordinates and interval lengths; all bases, dimensions, parameters and orders",
     "Tests compare a handful of degrees at random window points and never the sensitivities with respect to the interval length for all bases.",
     [BL, BG, B0, BB], [("three-term recurrences", BG + ":eval_derivative_on_window"), ("barycentric formulas", BL + ":eval_on_window"), ("exponential basis", B0 + ":eval_derivative_on_window"), ("derivative blocks", BL + ":derivative_matrix"), ("node change", BL + ":change_interpolation_points")],
     ["Basis::eval_on_window", "Basis::eval_derivative_on_window", "Basis::eval_derivative_wrt_tau_on_window", "Basis::get_derivative_matrix_block"],
     "Legendre dim 1..8 (12 in thorough), Gauss-Lobatto Lagrange 2..6 (8), other node sets 1..5 (7), basis0101 for 5 alphas; orders 0..min(dim+2,7); window coordinate in [-1.5,1.5] (basis0101: [-1,1]) at least 1e-6 from a node or exactly a node; interval length in [0.25,4]; node change between all pairs of 10 node sets for every polynomial",
     "other node sets, alphas, larger dimensions")

prop("C04", "Gram matrices are the integrals of products of basis derivatives",
     "For every basis, derivative order and interval length, the matrix added for that order is the matrix of integrals over the interval of products of the basis functions' derivatives of that order, and the companion matrix is its derivative with respect to the interval length. Both are added to what the destination already holds, and orders the basis does not support are refused with an exception instead of giving a wrong matrix.",
     ["inputs", "configurations"], "all interval lengths; all bases, dimensions and orders",
     "The tests only compare one norm against quadrature for a Legendre spline; no test looks at the matrices of the other bases or at the interval-length derivative for all lengths.",
     [BL, BG, B0], [("closed forms", B0 + ":compute_Q_block and companions"), ("Gram matrices by node values", BL + ":BasisLagrange"), ("Legendre Gram matrices", BG + ":BasisLegendre")],
     ["Basis::add_derivative_matrix", "Basis::add_derivative_matrix_deriv_wrt_tau"],
     "Legendre dim 1..8 (12), Lagrange node sets dim 2..6 (8), basis0101 for 4 alphas; orders 0..dim+1 (polynomial), 0..3 (basis0101); interval length symbolic in [0.25,4]; arbitrary prior content of the destination",
     "other dimensions, node sets and alphas")

prop("C05", "Interpolation passes through the waypoints with the promised smoothness",
     "For every set of waypoints and positive interval lengths, the interpolating spline starts and ends at the first and last waypoint and passes through every waypoint at its breakpoint, is continuous with its derivatives up to two less than the basis dimension across every interior breakpoint, and has vanishing derivatives from order one to half the dimension minus one at both ends. Its domain is [0, sum of the lengths], its interval lengths are the given ones, and the same interpolator object gives the same answer however often and with whatever data it was used before.",
     ["inputs", "configurations", "histories"], "all real waypoints and positive interval lengths, all even-dimensional bases, any sequence of uses of one interpolator",
     "Tests interpolate a few random problems of one shape with one basis and check a subset of the conditions.",
     [IT], [("assembly of the linear system", IT + ":Interpolator::fill_interpolating_matrix"), ("right hand side", IT + ":Interpolator::fill_interpolating_vector"), ("solve", IT + ":Interpolator::solve_interpolation")],
     ["Interpolator::interpolate", "Interpolator::solve_interpolation", "interpolate"],
     "see harness",
     "the numerical accuracy of the sparse LU factorisation")

prop("C06", "Coefficient sensitivities are the derivatives of the interpolation",
     "For every interpolation problem, the reported derivative of the spline coefficients with respect to one interval length is the derivative of the interpolating coefficients, i.e. for the coefficient vector handed in it satisfies the linear system obtained by differentiating every interpolation condition with respect to that length (the conditions applied to the reported vector equal minus their partial derivative applied to the one handed in). This holds for every coefficient vector, for every interval of the problem and independently of what the same interpolator computed before.",
     ["inputs", "configurations", "histories"], "all waypoints, interval lengths and intervals, all even-dimensional bases",
     "Tests compare with finite differences on a few random problems.",
     [IT], [("differentiated system", IT + ":Interpolator::get_coeff_derivative_wrt_tau")],
     ["Interpolator::get_coeff_derivative_wrt_tau"],
     "see harness",
     "the numerical accuracy of the sparse LU factorisation")

prop("C07", "Sobolev norm and its gradient match their definitions",
     "For every set of waypoints, interval lengths and pairs of derivative order and weight, the Sobolev norm of the interpolating spline is the weighted sum of the integrals of its squared derivatives, and the reported gradient is the derivative of that value with respect to each interval length. Each weight counts once, for its own order, and repeated evaluations give the same result.",
     ["inputs", "configurations", "histories"], "all waypoints, interval lengths and weights; all even-dimensional bases; any list of orders",
     "The test uses one weight and a handful of random problems, with loose finite differences.",
     ["src/FunctionalAnalysis/Sobolev.cpp", IT, BG, BL, B0], [("norm", "src/FunctionalAnalysis/Sobolev.cpp:SobolevNorm::inner_prod"), ("gradient", "src/FunctionalAnalysis/Sobolev.cpp:SobolevNorm::deriv_wrt_interval_len")],
     ["SobolevNorm::operator()", "SobolevNorm::deriv_wrt_interval_len"],
     "see harness", "the numerical accuracy of the sparse LU factorisation")

prop("C08", "Expressions evaluate to the pointwise algebra of their operands",
     "For every expression built with sum, difference, negation, product by a scalar function, product by a number, composition, concatenation and dot product from any functions, the value at every point of its domain is the corresponding pointwise combination of the operands' values, whatever mixture of temporaries and named objects was used to build it. A concatenation evaluates the operand whose domain contains the point, and operator nesting never changes the result.",
     ["inputs", "programs"], "all operand functions (arbitrary values), all evaluation points, all expression shapes and value categories",
     "Tests build a dozen fixed expressions of fixed functions and sample points.",
     [FD + "FunctionSum.cpp", FD + "FunctionMul.cpp", FD + "FunctionsComp.cpp", FD + "FunctionsConcat.cpp", FD + "FunctionExpression.cpp", FD + "FunctionGenericOperations.cpp", FD + "FunctionBase.cpp", FD + "ElementalFunctions.cpp"],
     [("flattening of nested operations", FD + "FunctionGenericOperations.cpp"), ("evaluation of sums", FD + "FunctionSum.cpp:eval_sum_functions"), ("evaluation of products", FD + "FunctionMul.cpp:eval_mul_functions"), ("evaluation of concatenations", FD + "FunctionsConcat.cpp:eval_concat_functions")],
     ["FunctionExpression::operator()"],
     "every expression tree up to depth 2 (3 for selected operators) over uninterpreted leaf functions with 1..2 components, each binary operator with all four combinations of named and temporary operands; every leaf value and the evaluation point symbolic",
     "deeper trees, more than 2 components, more than 2 evaluation points at once", na=None)

prop("C09", "Derivatives of expressions follow the rules of calculus",
     "For every expression of differentiable functions and every derivative order, differentiating the expression gives a function whose value at every interior point is the derivative of that order of the expression's value: linearity, product rule, chain rule, dot product and piecewise concatenation. The differentiated expression keeps domain and codomain, and differentiating does not change the original.",
     ["inputs", "programs"], "all differentiable operands, all points, all expression shapes, every derivative order",
     "Tests differentiate a few concrete expressions and compare at samples.",
     [FD + "FunctionSum.cpp", FD + "FunctionMul.cpp", FD + "FunctionsComp.cpp", FD + "FunctionsConcat.cpp", FD + "ElementalFunctions.cpp"],
     [("sum rule", FD + "FunctionSum.cpp:deriv_sum_functions"), ("product rule", FD + "FunctionMul.cpp:deriv_mul_functions"), ("chain rule", FD + "FunctionsComp.cpp:deriv_comp_functions"), ("concatenation", FD + "FunctionsConcat.cpp:deriv_concat_functions"), ("dot product", FD + "ElementalFunctions.cpp:DotProduct::deriv_impl")],
     ["FunctionExpression::derivate"],
     "expression trees up to depth 2 (3 for selected operators) over leaf functions whose value and derivatives are uninterpreted functions, orders 0..3, 1..2 components, evaluation point symbolic in the interior of the domain (for concatenations of each piece)",
     "deeper trees, orders above 3")

prop("C10", "Expressions carry the right domain and codomain; bad operands are refused",
     "Every operation on functions yields a function with the domain and codomain dimension its operands determine: sums and products keep the common domain, a composition takes the domain of its inner function, a concatenation spans both domains, derivatives keep both. Operands whose domains differ, whose codomains do not fit (sum of different dimensions, product of two vector functions, composition with a vector inner function), or which are not adjacent for a concatenation, are refused with an exception, in-place operations included, and operands that fit are never refused. The questions functions answer about themselves (same domain, same codomain, domain length, whether a point lies inside or outside) agree with this.",
     ["inputs", "programs"], "all domain ends (real), codomain dimensions, operators and value categories",
     "Tests use one domain for nearly everything and never vary domain ends continuously.",
     [FD + "FunctionBase.cpp", FD + "FunctionSum.cpp", FD + "FunctionMul.cpp", FD + "FunctionsComp.cpp", FD + "FunctionsConcat.cpp"],
     [("domain comparison", FD + "FunctionBase.cpp:same_domain"), ("throws on incompatible operands", FD + "FunctionSum.cpp:sum_throw"), ("product check", FD + "FunctionMul.cpp:mul_throw"), ("composition check", FD + "FunctionsComp.cpp:compose_throw"), ("concatenation check", FD + "FunctionsConcat.cpp:concat_throw")],
     ["FunctionBase::get_domain", "FunctionBase::get_codom_dim", "exceptions"],
     "all operators x value categories x in-place forms x codomain dimensions 1..3, domain ends symbolic in [-4,4] (differences above 1e-6 must be refused when they matter, equal ends accepted; the library's own tolerance of 1e-9 lies between)",
     "domain differences between 1e-9 and 1e-6")

prop("C11", "Copies, moves and expressions own their data",
     "A function built from others (copy, move, expression, derivative, clone) keeps its value when the objects it was built from are modified or destroyed afterwards, and building or evaluating it never changes a named operand. Moving from a named object yields the same function as copying it.",
     ["inputs", "histories", "programs"], "all function data, evaluation points, construction forms and later operations on the operands",
     "Aliasing and lifetime errors need a particular order of construction, modification, destruction and evaluation; tests exercise none deliberately.",
     [FD + "FunctionExpression.cpp", FD + "FunctionGenericOperations.cpp", FD + "FunctionBase.cpp", GS],
     [("copying of operand arrays", FD + "FunctionGenericOperations.cpp"), ("clone", "include/gsplines/Functions/FunctionInheritanceHelper.hpp"), ("copy and move constructors", GS + ":GSplineBase::GSplineBase")],
     ["operator()", "copy/move constructors", "clone", "operator+= / *="],
     "every operator and value category, splines of every basis, 1..2 intervals and components; spline data, leaf values and points symbolic; operands destroyed, overwritten or modified in place before evaluation (freed memory is poisoned)",
     "self-move, concurrent use")

prop("C12", "Splines of one space form a vector space",
     "For splines over the same basis, intervals and codomain, the sum, difference, negation and multiples by numbers, in every operand form and in place, are splines of the same space whose value at every time is the sum, difference, negation or multiple of the operands' values. Operands of different spaces are refused with an exception by sum and difference, and operands are left unchanged.",
     ["inputs", "programs"], "all coefficients, numbers, interval lengths, start times and evaluation times, all bases",
     "Only a fixed pair of splines is added in the tests; differences and in-place forms are never instantiated.",
     [GS, "include/gsplines/GSpline.hpp", "include/gsplines/GSplineBase.hpp"], [("space comparison", GS + ":GSplineBase::same_vector_space"), ("operators", "include/gsplines/GSpline.hpp")],
     ["GSpline operators", "GSpline::operator()"], "see harness", "")

prop("C13", "Time scaling keeps the geometry and hits the requested limits",
     "Scaling a spline to a new execution time yields a spline over a domain of that length with the same start whose value at a fraction of its domain equals the original's value at the same fraction, so its derivatives scale by the power of the time ratio. Scaling to velocity and acceleration limits gives the shortest uniform scaling whose sampled velocity and acceleration maxima respect the given limits, with either limit optional, and execution times that are not positive are refused.",
     ["inputs", "configurations"], "all spline data, new execution times and limits, all bases",
     "Tests scale a few random splines to one time and sample.",
     [GS, "include/gsplines/GSpline.hpp"], [("scaling", "include/gsplines/GSpline.hpp:linear_scaling_new_execution_time"), ("limits", "include/gsplines/GSpline.hpp:linear_scaling_new_execution_time_max_velocity_max_acceleration")],
     ["linear_scaling_new_execution_time*"], "see harness", "")

prop("C14", "Continuity and derivative matrices act like the operators they name",
     "For every number of intervals, codomain dimension, derivative order and interval lengths, the continuity matrix applied to any coefficient vector gives the jumps of value and derivatives at each interior breakpoint, and the derivative matrix applied to any coefficient vector gives the coefficients of the derivative of that order. A later call with other lengths, orders or shapes gives the matrix for those arguments, whatever was asked before.",
     ["inputs", "configurations", "histories"], "all interval lengths and coefficients, all polynomial bases, shapes and orders, all sequences of calls",
     "Tests check one shape with fresh objects; the cached blocks make later calls depend on history.",
     [BB, "include/gsplines/Basis/Basis.hpp"], [("cached sparse blocks rescaled per call", BB + ":Basis::continuity_matrix"), ("derivative matrix cache", BB + ":Basis::gspline_derivative_matrix")],
     ["Basis::continuity_matrix", "Basis::gspline_derivative_matrix"], "see harness", "")

prop("C15", "Gauss-Lobatto quadrature integrates polynomials exactly",
     "For every number of points n of at least two, the Gauss-Lobatto points are n increasing points of [-1,1] including both ends and the weights are positive and integrate every polynomial of degree up to 2n-3 exactly. Mapped to a domain or to a sequence of intervals the points lie in their intervals with the interval ends included, and the quadrature functionals integrate accordingly.",
     ["inputs", "configurations"], "all polynomials of the exact degree, all domains and interval lengths, every n",
     "Tests compare tables for a few n.",
     [COL + "GaussLobattoPointsWeights.cpp", "src/FunctionalAnalysis/Integral.cpp"], [("Newton iteration", COL + "GaussLobattoPointsWeights.cpp:legendre_gauss_lobatto_points_and_weights"), ("quadrature", "src/FunctionalAnalysis/Integral.cpp")],
     ["legendre_gauss_lobatto_points", "legendre_gauss_lobatto_weights", "Integral"], "see harness", "")

prop("C16", "Collocation splines reproduce nodal values, derivatives and quadratures",
     "A collocation spline built from node values takes those values at its nodes, which are the Gauss-Lobatto points of each of its intervals, and reports nodes and values accordingly. Approximating a function (statically, by construction or by assignment) or setting an array of values makes the spline take those values at its nodes; assigning a spline makes the two equal. Products with scalar splines, multiples, negation, sums and differences with vectors, division, norm and power act on the value at each node, in every operand form, leave named operands unchanged, and refuse operands of incompatible shape, domain or breakpoints.",
     ["inputs", "configurations"], "all node values, domains and interval lengths, every number of nodes and intervals",
     "Tests use one approximation of one function.",
     [COL + "GaussLobattoLagrange.cpp"], [("approximation", COL + "GaussLobattoLagrange.cpp:GaussLobattoLagrangeSpline::approximate")],
     ["GaussLobattoLagrangeSpline"], "see harness", "")

prop("C17", "Elementary functions and their derivatives are the named functions",
     "The constant, identity, linear dilation, exponential, sine, cosine and polynomial functions evaluate to the function they name at every point, for every parameter and number of components, and their derivatives of every order are the exact ones. Evaluation of several points at once gives each point's value in its row.",
     ["inputs", "configurations"], "all points, parameters and coefficients, every derivative order",
     "Tests compare a few points and the first derivatives.",
     [FD + "ElementalFunctions.cpp"], [("value and derivative of each", FD + "ElementalFunctions.cpp")],
     ["operator()", "derivate"], "see harness", "")

prop("C18", "Equality and closeness agree with the data they compare",
     "Two splines compare equal exactly when basis, codomain, domain and interval lengths agree and all coefficients are within the stated tolerance, two bases compare equal exactly when kind, dimension and parameters agree, and inequality is always the negation of equality. Comparison is reflexive and symmetric and never disturbs its arguments.",
     ["inputs", "configurations"], "all spline and basis data, all single-field perturbations",
     "Tests compare an object with itself and with one other.",
     [GS, BB, "src/Tools.cpp"], [("closeness", "src/Tools.cpp:approx_equal"), ("spline comparison", GS + ":GSplineBase::operator=="), ("basis comparison", BB + ":Basis::operator==")],
     ["operator==", "operator!=", "approx_equal"], "see harness", "")

prop("C19", "Factories and stored parameters rebuild the same object",
     "A basis looked up by name, dimension and parameters is the basis of that name with that dimension and those parameters and behaves like a directly constructed one, unknown names and wrong parameter counts are refused with an exception, and a spline rebuilt from its own reported data (domain, codomain, intervals, basis name and parameters, coefficients, interval lengths) equals the original and has the same values. A random spline has exactly the domain, codomain and basis asked for.",
     ["inputs", "configurations"], "all spline and basis data",
     "Tests round-trip a couple of fixed objects.",
     [BB, GS, IT, "src/Tools.cpp"], [("factory", BB + ":get_basis"), ("accessors", "include/gsplines/GSplineBase.hpp")],
     ["get_basis", "GSpline accessors"], "see harness", "")

prop("C20", "Evaluation is a pure function of the object and the point",
     "Evaluating a function, a spline, a basis or an expression at several points in one call gives for each point the value of a separate call, in the order given, and neither earlier evaluations, derivative requests nor other objects sharing a basis change later results. Evaluation leaves the object unchanged.",
     ["inputs", "histories"], "all batches of points and all interleavings of evaluation, differentiation and matrix requests on shared objects",
     "Mutable caches and buffers make results depend on history; tests evaluate in one fixed order.",
     [GS, BB, BL, BG, B0, FD + "FunctionExpression.cpp"], [("evaluation buffers", "include/gsplines/GSplineBase.hpp"), ("derivative matrix cache", "include/gsplines/Basis/Basis.hpp:get_derivative_matrix_block")],
     ["operator()", "Basis::eval_on_window"], "see harness", "")

prop("C21", "Ill-formed construction arguments are refused",
     "Building a spline (ordinary or collocation, from named or temporary vectors) whose coefficient vector or interval-length vector does not have the size its shape requires, interpolating or computing a Sobolev norm with an odd-dimensional basis, with the wrong number of interval lengths or with an interval length that is not positive, giving an interpolator waypoints of another number or dimension than it was made for, and scaling to an execution time that is not positive are refused with an exception. Well-formed arguments are never refused, and an interpolator that refused its arguments stays usable.",
     ["inputs", "configurations"], "all sizes and values of the arguments",
     "Tests never construct ill-formed objects.",
     [GS, IT], [("constructor checks", GS + ":GSplineBase::GSplineBase"), ("interpolator checks", IT + ":Interpolator::solve_interpolation")],
     ["constructors", "Interpolator"], "see harness", "")

prop("C22", "Interval-time optimisation poses the stated problem and returns its answer",
     "For all waypoints, bases, weights and execution times, the optimisation of interval lengths hands the solver exactly this problem: one length per interval, any positive value allowed, starting from positive lengths that add up to the execution time; the constraint that the lengths add up to the execution time, with its gradient; and as cost the Sobolev norm of the interpolating spline, with its gradient, at whatever lengths and in whatever order the solver asks. When the solver succeeds the result is the spline through the waypoints with the solver's lengths; when it reports anything else there is no result. With two waypoints the result is the interpolating spline on the whole time. The named paths (broken lines, minimum acceleration, jerk, snap, crackle, rojas) pose the problem with the basis and weights they name and return its answer scaled to execution time one, and solver options set by name reach the solver, replacing earlier ones.",
     ["inputs", "configurations", "histories"], "all waypoints, weights, execution times, solver answers and statuses; every number of intervals; all sequences of solver queries",
     "No test in this environment runs the optimiser.",
     ["src/Optimization/ipopt_interface.cpp", "src/Optimization/ipopt_solver.cpp"], [("nonlinear program", "src/Optimization/ipopt_interface.cpp:SobolevNorm"), ("answer", "src/Optimization/ipopt_solver.cpp:optimal_sobolev_norm"), ("options", "src/Optimization/ipopt_solver.cpp:IpoptSolverOptions")],
     ["optimization::optimal_sobolev_norm", "optimization::*_path", "TimeSegmentLenghtsVar", "ExecTimeConstraint", "optimization::SobolevNorm", "IpoptSolverOptions"], "see harness", "", ifopt=True)

prop("C23", "Functionals of collocation splines act as the operators they name",
     "For every collocation spline, shape and sequence of updates, the derivative functional gives the node values of the derivative, the integral functional the quadrature of the spline over its intervals, the two multiplication functionals the pointwise dot product or matrix product at every node, the continuity error the jumps at the breakpoints, and the Sobolev distance the quadrature of the squared differences of value and derivative. Sums, products, multiples and differentials of functionals are those of the linear maps, and the optimisation terms built from a functional report its value and its differential at the current variables.",
     ["inputs", "configurations", "histories"], "all node values, interval lengths, matrices and factors; every number of nodes, intervals and components; all sequences of updates",
     "These sources are compiled by no test in this environment.",
     [COL + "GaussLobattoLagrangeFunctionals.cpp", "include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp"],
     [("linear functionals as matrices", "include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp:LinearFunctional"), ("integral", COL + "GaussLobattoLagrangeFunctionals.cpp:Integral::update"), ("Sobolev distance", COL + "GaussLobattoLagrangeFunctionals.cpp:SobolevDistance")],
     ["Derivative", "Integral", "TransposeLeftMultiplication", "MatrixLeftMultiplication", "ContinuityError", "SobolevDistance", "CostWrapper", "ConstraintWrapper"],
     "see harness", "", ifopt=True)

# ---- overrides kept next to the harnesses
ov = os.path.join(HERE, "tools", "bounds.json")
if os.path.exists(ov):
    for k, v in json.load(open(ov)).items():
        for p in P:
            if p["id"] == k:
                for kk, vv in v.items():
                    if kk in ("bounds", "outside", "assumptions"):
                        p[kk] = vv
                    else:
                        p["cfg"][kk] = vv

with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": p["obs"], "hook_needed": None}}) + "\n")
checks, na, cfg = [], [], {}
for p in P:
    i = p["id"]
    if p["na"]:
        na.append({"property": i, "reason": p["na"]})
        continue
    if not os.path.exists(HERE + "/harness/%s.cpp" % i):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    cfg[i] = dict(bounds=p["bounds"], outside=p["outside"], assumptions=p["assumptions"], **p["cfg"])
    checks.append({"property": i,
                   "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": "symbolic execution of the compiled library (LLVM IR) with z3 deciding every branch and assertion over all real inputs in the bounds; counterexamples replayed on the native build",
                   "level": "model_checking",
                   "level_note": "Bounded: holds for every real value of the symbolic inputs within the stated shapes and ranges (%s). Symbolic arithmetic is exact-real, so rounding is covered only by the assertion tolerances; trusts clang, the instrumentation pass, the symbolic runtime and z3." % p["bounds"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(HERE + "/MANIFEST.json", "w"), indent=1)
json.dump(cfg, open(HERE + "/harness/config.json", "w"), indent=1)
