#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (static files, committed)."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from catalogue import CATALOGUE  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note))


BAS = ["src/Basis/Basis.cpp", "src/Basis/BasisLegendre.cpp", "src/Basis/BasisLagrange.cpp", "src/Basis/Basis0101.cpp"]
FUN = ["src/Functions/FunctionExpression.cpp", "src/Functions/FunctionSum.cpp", "src/Functions/FunctionMul.cpp",
       "src/Functions/FunctionsComp.cpp", "src/Functions/FunctionsConcat.cpp",
       "src/Functions/FunctionGenericOperations.cpp", "src/Functions/ElementalFunctions.cpp",
       "src/Functions/FunctionBase.cpp"]

prop("C01", "Every basis evaluates its defining functions and their time derivatives",
     "For every basis family (Legendre, Lagrange on arbitrary nodes, Lagrange on Gauss-Lobatto nodes, and the weighted speed-jerk basis with its parameter), every dimension, every window point in or slightly outside [-1,1] and every interval length, evaluation returns the values of the functions that define the family, and evaluation of the derivative of degree d returns their exact d-th derivatives with respect to time on an interval of that length. A degree beyond the polynomial degree gives zeros. The answer does not depend on how the basis object was obtained nor on what it was asked before.",
     ["inputs", "histories"], "all families, dimensions, nodes, parameters, window points, interval lengths and degrees; any earlier use of the object",
     "Existing tests evaluate a few dimensions and degrees on random points and compare mostly against the same recurrences.",
     BAS, [("value and derivative recurrences of each family", "src/Basis/BasisLegendre.cpp, src/Basis/BasisLagrange.cpp, src/Basis/Basis0101.cpp")],
     "generated inputs against closed-form long double reference models, with metamorphic relations (cardinality, partition of unity, ODE)",
     "Randomised search over all families with an independent long double oracle, plain and under ASan/UBSan; trusts the reference formulas and a rounding tolerance about 100 times above observed rounding.")
prop("C02", "Sensitivity of basis derivatives to the interval length is exact",
     "For every basis, window point, interval length and degree, the reported derivative with respect to the interval length of the d-th time derivative of the basis functions (at a fixed window point) equals the true partial derivative. Where several components are reported at once each one lands in its own place of the output.",
     ["inputs"], "all families, dimensions, parameters, window points, interval lengths and degrees",
     "Tests check one numerical difference on a handful of points and degrees.",
     BAS, [("derivative wrt the interval length", "src/Basis/*.cpp eval_derivative_wrt_tau_on_window")],
     "generated inputs against the analytic partial derivative in long double",
     "Randomised search with an analytic oracle derived independently of the code; tolerance is relative to the magnitude of the basis.")
prop("C03", "Derivative matrices map coefficients to coefficients of the derivative",
     "For every basis and degree, the derivative matrix applied to the basis functions (scaled by the interval length where the basis requires it) reproduces the exact derivatives at every window point, and the derivative matrix of degree d is the d-th power of the first one. The tools on arbitrary nodes (barycentric weights, differentiation matrices, change of nodes) reproduce every polynomial they should represent, including when old and new nodes coincide.",
     ["inputs", "histories"], "all families, dimensions, nodes, degrees, polynomials and any order of requests on one object",
     "Tests use a fixed list of dimensions and degrees, and never nodes that coincide or are unsorted.",
     BAS, [("derivative matrix blocks and barycentric formulas", "src/Basis/Basis.cpp, src/Basis/BasisLagrange.cpp")],
     "generated inputs; differential against exact derivatives and polynomial reproduction",
     "Randomised search with long double oracles; node sets are kept well separated so that rounding stays far below the tolerance.")
prop("C04", "Inner-product matrices equal the integrals of products of derivatives",
     "For every basis, interval length and degree, the reported matrix equals the matrix of integrals over one interval of the products of the d-th time derivatives of the basis functions. The reported derivative of that matrix with respect to the interval length is its true derivative. Accumulating variants add to what the buffer held. Degrees that a family does not implement are rejected and leave the buffer as it was.",
     ["inputs"], "all families, dimensions, parameters, interval lengths and degrees",
     "Tests compare a few dimensions and only some families; several of the shipped matrices were wrong for others.",
     BAS, [("add_derivative_matrix and its derivative wrt the interval length", "src/Basis/*.cpp")],
     "generated inputs against Gauss-Legendre quadrature in long double of reference basis functions",
     "Randomised search; quadrature is exact for polynomials and converged to long double precision for the exponential basis.")
prop("C05", "Continuity and derivative operators act correctly on coefficient vectors",
     "For every basis, number of intervals, codomain dimension and interval lengths, the sparse continuity operator applied to the coefficients of a spline gives the jumps of its derivatives at each inner breakpoint, and the sparse derivative operator gives the coefficients of its derivative. The answer is the same whatever requests were made on the same object before and whatever order they come in.",
     ["inputs", "histories"], "all bases, sizes, interval lengths, coefficient vectors and request histories",
     "Tests use one or two configurations with uniform intervals.",
     ["src/Basis/Basis.cpp", "include/gsplines/Basis/Basis.hpp"], [("continuity_matrix, gspline_derivative_matrix and their caches", "src/Basis/Basis.cpp")],
     "stateful generation of request histories against reference jumps and derivatives in long double",
     "Randomised histories with an independent oracle, plain and sanitised.")
prop("C06", "A spline evaluates its own piecewise function at every instant",
     "For every basis, codomain dimension, domain, set of interval lengths and coefficients, evaluation at any vector of instants (unsorted, repeated, at breakpoints, at the borders, slightly outside the domain, or empty) returns for each instant and component the value of the function owned by the interval that contains it. The first and last pieces extend outside the domain. All ways to evaluate (call, output argument, expression, clone) agree. A spline cannot be built from numbers of coefficients, interval lengths, intervals and components that do not fit together, from no intervals or no components, nor on a reversed domain.",
     ["inputs"], "all splines and all vectors of instants",
     "Tests evaluate a few random splines at random interior points, never breakpoints of unequal intervals or unsorted times.",
     ["src/GSpline.cpp", "include/gsplines/GSpline.hpp"], [("get_interval, interval_to_window, value_impl", "src/GSpline.cpp")],
     "generated splines and instants against a long double piecewise reference model",
     "Randomised search with boundary-biased generators; instants whose owner would depend on rounding are generated only with exactly representable breakpoints.")
prop("C07", "Spline derivatives are the exact derivatives at every order",
     "For every spline and degree, the derivative is a spline on the same domain, intervals and codomain whose values are the exact time derivatives of the original, degree zero is the same function, and differentiating in steps equals differentiating at once. The original spline is left unchanged.",
     ["inputs", "histories"], "all splines, degrees and sequences of differentiation steps",
     "Tests differentiate once or twice on a couple of bases by finite differences.",
     ["src/GSpline.cpp", "src/Basis/Basis.cpp"], [("deriv_impl through the derivative matrix of the basis", "src/GSpline.cpp")],
     "generated splines against exact derivatives of the reference model; composition of derivatives as a metamorphic relation",
     "Randomised search with a long double oracle.")
prop("C08", "Splines of one space form a vector space and mixtures are rejected",
     "Sums, differences, negation and scaling of splines of the same space (same domain, intervals, basis and codomain), in every form of the operators including in-place ones and temporaries, are the splines whose values are the pointwise sums, differences, negatives and multiples, and operands not assigned to are unchanged. Combining splines that differ in domain, interval lengths, basis or codomain with these operators raises an invalid-argument error and changes neither operand.",
     ["inputs", "histories"], "all pairs of splines and all histories of operations",
     "Tests add one pair of splines in one form.",
     ["src/GSpline.cpp", "include/gsplines/GSpline.hpp"], [("operators of the spline template and the same-space check", "include/gsplines/GSpline.hpp")],
     "stateful generation of operation histories against a coefficient-level model; generated incompatible pairs",
     "Randomised histories in every value category, plain and sanitised.")
prop("C09", "Bases and splines are identified by value and can be rebuilt from their parts",
     "A basis rebuilt from its name, dimension and parameters, or copied by any route, is equal to the original and computes the same, and two bases are equal exactly when family, dimension and parameters agree. A basis without functions cannot be built. A spline copied or rebuilt from its parts is equal to the original, and splines that differ noticeably in domain, interval lengths, basis, codomain or coefficients are not equal. Equality and inequality are opposite and symmetric. The comparison tools for numbers, matrices and splines accept what is closer than the tolerance relative to the size of both operands (absolutely when one of them is below the tolerance), reject what is further apart or has another shape, and are symmetric.",
     ["inputs"], "all pairs of bases and splines, all copy routes",
     "Tests compare a few objects built the same way.",
     ["src/Basis/Basis.cpp", "src/GSpline.cpp", "include/gsplines/GSpline.hpp", "src/Tools.cpp"], [("operator==, get_basis, clone", "src/Basis/Basis.cpp, src/GSpline.cpp")],
     "generated pairs differing in exactly one respect; round trips through parts",
     "Randomised search; differences below one part in ten thousand are not generated because the library compares approximately.")
prop("C10", "Interpolation meets every waypoint with the promised smoothness",
     "For every even-dimensional basis, all interval lengths and all waypoints, the interpolating spline starts at zero, lasts the sum of the interval lengths, passes through every waypoint at its instant, has vanishing derivatives up to half the dimension minus one at both ends, and is continuous up to the dimension minus two at every inner waypoint. The result depends only on the arguments of the call: an interpolator that is used again with other interval lengths or waypoints gives the same spline as a new one. Wrong numbers of waypoints, components or intervals, too small interval lengths and odd dimensions are rejected with an exception, and interval lengths so extreme that the linear system cannot be solved raise one as well. Random splines are interpolating splines on the requested domain, codomain and basis.",
     ["inputs", "histories"], "all bases, sizes, interval lengths, waypoints, and sequences of calls on one interpolator",
     "Tests interpolate a few random configurations with a fresh object and check a few conditions.",
     ["src/Interpolator.cpp", "include/gsplines/Interpolator.hpp", "src/Tools.cpp"], [("interpolating matrix, vector and sparse solve", "src/Interpolator.cpp")],
     "stateful generation of call histories on one interpolator; invariants evaluated with reference basis functions plus differential with a fresh solver",
     "Randomised histories; tolerances scale with the conditioning of the generated intervals.")
prop("C11", "Coefficient sensitivities to interval lengths are exact",
     "For every interpolation problem and every interval, the reported derivative of the interpolating coefficients with respect to that interval's length equals the true derivative of the solution map, whatever the interpolator was used for before. An interval index that does not exist, wrong numbers of coefficients or interval lengths and too small interval lengths are rejected with an exception.",
     ["inputs", "histories"], "all interpolation problems, intervals and earlier uses of the interpolator",
     "Tests compare one numerical difference for one basis.",
     ["src/Interpolator.cpp"], [("derivative of the interpolating matrix and solve", "src/Interpolator.cpp get_coeff_derivative_wrt_tau")],
     "generated problems against extrapolated central differences of the solution map, and against the differentiated linear system",
     "Randomised search; finite differences limit accuracy to about 1e-5 relative.")
prop("C12", "The Sobolev cost and its gradient match the spline they describe",
     "For every basis, waypoints, interval lengths and list of weighted derivative degrees, the cost equals the weighted sum of the integrals of the squared derivatives of the interpolating spline, each weight applied to its own degree only. Its gradient with respect to the interval lengths is the true gradient wherever the basis offers one (the speed-jerk basis does for degrees one and three). Repeated evaluation on one object at other interval lengths gives the same numbers as a fresh object. Wrong numbers of interval lengths or buffers and too small interval lengths are rejected with an exception.",
     ["inputs", "histories"], "all waypoints, bases, weights, interval lengths and evaluation histories",
     "Tests check two bases with one weight by finite differences.",
     ["src/FunctionalAnalysis/Sobolev.cpp"], [("SobolevNorm value and gradient", "src/FunctionalAnalysis/Sobolev.cpp")],
     "generated problems against quadrature of the interpolating spline and extrapolated differences; histories on one object",
     "Randomised search with quadrature by an independent rule.")
prop("C13", "Function expressions evaluate the mathematics they spell",
     "Any expression built from the elementary functions (constant, identity, dilation, exponential, sine, cosine, polynomial, spline) with sum, difference, negation, product, scaling, composition, concatenation and dot product, in any nesting and with named or temporary operands, evaluates at every instant of its domain to the value of the formula (concatenated pieces may meet up to rounding only), has the domain and codomain dimension the formula implies (and tells instants inside its domain from those outside), and evaluating any number of times or through copies gives the same values.",
     ["programs", "inputs"], "all well-formed expression programs and evaluation points",
     "Tests build a few hand-written expressions; the simplifying constructors behave differently for temporaries and nested operands.",
     FUN, [("flattening constructors and evaluators of each expression type", "src/Functions/*.cpp")],
     "generated expression programs interpreted by the library and by a long double AST interpreter",
     "Randomised programs of bounded depth; values are compared with running error bounds of the interpreter.")
prop("C14", "Derivatives of function expressions are exact at every order",
     "For every well-formed expression and degree, the derivative evaluates to the exact derivative of the formula at every interior instant, keeps domain and codomain dimension, degree zero is the same function, and derivatives taken in steps equal those taken at once. Taking a derivative leaves the expression unchanged.",
     ["programs", "inputs"], "all well-formed expressions, degrees and points",
     "Tests differentiate hand-written expressions once or twice.",
     FUN, [("product, chain and sum rules", "src/Functions/*.cpp")],
     "generated expression programs against truncated Taylor arithmetic in long double",
     "Randomised programs; degrees up to four; an automatic-differentiation oracle with error bounds.")
prop("C15", "Ill-formed operations on functions are rejected and change nothing",
     "Summing, subtracting, multiplying, composing, concatenating or taking the dot product of functions whose domains or codomain dimensions do not allow it raises an invalid-argument error in every form of the operation (named and temporary operands, in-place and not). After the rejection every named operand still evaluates as before and can be used again. Elementary functions with a reversed domain or without components and polynomials without coefficients are rejected at construction.",
     ["programs", "inputs"], "all pairs of functions and all forms of the operations",
     "Tests try one or two rejections.",
     FUN, [("throws when domains or codomains differ", "src/Functions/*.cpp")],
     "generated incompatible operands in every value category, with a model of the operands before and after",
     "Randomised search; differences of domain are generated well above the comparison tolerance of the library.")
prop("C16", "Functions are values: copies, moves and clones are independent",
     "In every history of building, copying, moving, cloning, assigning in place, differentiating and destroying function and spline objects, each live object evaluates to the function it was last made to be, whatever happens to the objects it was built from. No operation other than assignment or in-place operators changes an operand.",
     ["histories"], "all histories of object life cycles",
     "Tests keep all operands alive and use each once.",
     FUN + ["src/GSpline.cpp", "include/gsplines/Functions/FunctionInheritanceHelper.hpp"], [("deep copies of expression trees", "src/Functions/FunctionExpression.cpp")],
     "stateful model-based histories over a pool of objects, each checked against its reference after every step, plain and under AddressSanitizer",
     "Randomised histories; use after free is detected by AddressSanitizer and poisoned memory.")
prop("C17", "Gauss-Lobatto points and weights integrate polynomials exactly",
     "For every number of points at least two, domain and subdivision into intervals (uniform or given by lengths), the points lie in the domain in increasing order with both ends of each interval present, the weights are positive, and the rule integrates every polynomial of degree at most twice the number of points minus three exactly on each interval. Repeated and interleaved requests give the same answer. Less than two points are rejected with an exception.",
     ["inputs", "histories"], "all numbers of points, domains, subdivisions and polynomials",
     "Tests check one size on the unit window.",
     ["src/Collocation/GaussLobattoPointsWeights.cpp"], [("Newton iteration and scaling to intervals", "src/Collocation/GaussLobattoPointsWeights.cpp")],
     "generated rules against reference nodes in long double and exact polynomial integrals",
     "Randomised search, numbers of points up to 60.")
prop("C18", "Integrals, inner products and norms of functions equal their definitions",
     "For every function (expression or spline) and every pair of functions, the integral, the inner products and norms of L2 and Sobolev type, with the requested number of points and intervals, equal the composite Gauss-Lobatto quadrature of the defining integrand, and equal the exact integral whenever the integrand is a polynomial the rule integrates exactly. Inner products are symmetric and bilinear, norms of the zero function vanish.",
     ["inputs", "programs"], "all functions, degrees, numbers of points and intervals",
     "Tests compare two or three functions.",
     ["src/FunctionalAnalysis/Integral.cpp", "src/FunctionalAnalysis/Sobolev.cpp"], [("composite quadrature", "src/FunctionalAnalysis/*.cpp")],
     "generated functions against long double quadrature and exact polynomial integrals; symmetry and bilinearity as metamorphic relations",
     "Randomised search.")
prop("C19", "Collocation splines hold node values and combine them pointwise",
     "For every function, number of points and subdivision, the collocation spline made from it takes the function's values at the collocation points and reproduces polynomials the nodes can represent; assignment from a function, from another spline or from an array of values does the same. Products with scalar splines or numbers, sums with vectors and splines, negation, reciprocal, norm and power yield the splines whose node values are the pointwise results, in every form of the operators. Operands that do not fit are rejected with an exception.",
     ["inputs", "histories"], "all functions, sizes, subdivisions and histories of operations",
     "Tests build one or two collocation splines with uniform intervals.",
     ["src/Collocation/GaussLobattoLagrange.cpp", "include/gsplines/Collocation/GaussLobattoLagrange.hpp"], [("node-value arithmetic", "src/Collocation/GaussLobattoLagrange.cpp")],
     "stateful generation of operation histories against a node-value model",
     "Randomised histories, plain and sanitised.")
prop("C20", "Time scaling keeps the path and meets the requested duration or bounds",
     "Scaling a spline to a new execution time gives a spline that starts at the same instant, lasts the new time, keeps the proportions of its intervals and follows the same path at proportional instants, so its derivatives scale accordingly. Scaling to velocity and acceleration bounds, given as one number or one per component and either of them optional, gives the unique uniform scaling for which at the sampled instants the bounds hold and at least one is reached. Missing bounds, wrong numbers of bounds and non-positive durations or sampling steps are rejected, and the original spline is unchanged.",
     ["inputs"], "all splines, durations, bounds and sampling steps",
     "Tests scale a couple of splines with both bounds given.",
     ["src/GSpline.cpp"], [("linear scaling functions", "src/GSpline.cpp linear_scaling_new_execution_time*")],
     "generated splines and bounds; metamorphic path relation and recomputed bounds in the reference model",
     "Randomised search with a long double oracle.")
prop("C21", "The Python interface computes and serialises what the C++ library does",
     "Every spline and basis survives the round trip through dictionaries (and JSON text) and through its parts as an equal object with the same values, and dictionaries with missing entries, entries of the wrong type, counts or basis data that do not fit together, or a reversed domain raise an error instead of giving an object. Values, derivatives, sums, products, compositions, concatenations, interpolation and norms obtained from Python equal the mathematical reference, in whatever layout the arrays are passed, with operands unchanged; arrays and objects handed out stay valid and unchanged whatever happens to the objects they came from. Errors of the library arrive as Python exceptions: no call with ordinary arguments, fitting or not, ends the process.",
     ["inputs", "programs"], "all objects and call sequences of the Python interface",
     "Tests round-trip a couple of splines.",
     ["bindings/bindings.cpp", "bindings/pybasis.hpp", "bindings/pyfunctions.hpp", "python/gsplines/serialization.py"], [("pybind11 module and dictionaries", "bindings/, python/gsplines/serialization.py")],
     "generated objects, call histories, expression programs and malformed dictionaries against numpy references and round trips, in forked interpreters with shrinking of choice sequences",
     "Randomised search in worker processes, so that an abort of the interpreter is seen as a violation.")
prop("C22", "Functionals on collocation splines and their Jacobians are consistent",
     "For every collocation spline with any interval lengths, the derivative, product, continuity-error, integral and distance functionals return the values their names define, and the matrices they report as differentials are the true Jacobians with respect to the node values. Linear functionals add, subtract, scale and compose as their matrices do and can be set from one another, dense or sparse. Updating a functional with other interval lengths or operands gives the same answers as building it anew, and a differential once handed out keeps its value. Splines that do not fit a functional are rejected with an exception.",
     ["inputs", "histories"], "all collocation splines, functionals and update histories",
     "No test covers them where the nonlinear-programming library is absent, as in the baseline build.",
     ["src/Collocation/GaussLobattoLagrangeFunctionals.cpp", "include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp"], [("linear functionals as sparse matrices", "include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp")],
     "generated node values and updates against reference functionals; Jacobians by exact linearity or differences",
     "Randomised search; the nonlinear-programming headers are replaced by a stub that only declares the interface.")
prop("C23", "The optimisation front end poses the problem it promises",
     "For every set of waypoints, basis, weights and execution time, the optimisation problem handed to the solver has positive interval lengths as variables whose sum is constrained to the execution time, and its cost and gradient are those of the Sobolev norm. The splines returned by the optimisation front end interpolate the waypoints, last the requested time and cost no more than the initial guess; when the solver reports anything but success no spline is returned. Options set by the user reach the solver, the last value of each.",
     ["inputs", "fault_sequences"], "all waypoints, weights, execution times and solver outcomes",
     "No test covers them where the nonlinear-programming library is absent, as in the baseline build.",
     ["src/Optimization/ipopt_solver.cpp", "src/Optimization/ipopt_interface.cpp", "include/gsplines/Optimization/ipopt_solver.hpp"], [("variable set, constraint set and cost term", "src/Optimization/ipopt_interface.cpp")],
     "generated problems against reference cost and gradient with a stub solver whose outcome is generated",
     "Randomised search; the external solver is a stub (projected gradient), so only the front end is judged.")

prop("C24", "Threads working on objects of their own do not disturb each other",
     "Threads that build, copy, evaluate, differentiate, combine, compare, interpolate, integrate and scale objects which no other thread touches get exactly what each would get alone, for every interleaving and without data races, whether the work succeeds or ends in an exception. This includes copies of a common original: copies belong to whoever holds them, and several threads may copy the same unmodified original at once. Text printed to the standard streams, the counters of created expressions and the solver's option store are excepted.",
     ["schedules", "inputs"], "all interleavings of all such jobs on different threads",
     "No test starts a thread.",
     ["src/Tools.cpp", "src/Functions/FunctionExpression.cpp", "src/GSpline.cpp", "src/Basis/Basis.cpp", "src/Interpolator.cpp", "src/Collocation/GaussLobattoLagrange.cpp"],
     [("no shared mutable state: scratch buffers belong to the objects", "src/GSpline.cpp, src/Basis/, src/Tools.cpp")],
     "generated sets of jobs (cases of the other properties with their own oracles, and probes of copies) run alone and then side by side, under a race detector and plain",
     "Randomised jobs and schedules with ThreadSanitizer, which also sees races whose effect does not show; the plain build judges values.")

prop("C25", "Plots show the curves they are given",
     "For every curve or list of curves, number of derivatives and sampling step, each plotting function draws, in the axis of each derivative and component, that derivative's values at instants that start at the start of the domain and follow each other in the given step, marks at the breakpoints of splines, and in the first row their waypoints at the breakpoints; every line lies in the visible range. Comparisons draw every curve with its marks and waypoints in its colour and their legends name the curves' lines. The plane plots also draw the path of each curve with its waypoints, and draw nothing for curves that are not plane. Line containers show the data of their last update.",
     ["inputs", "histories"], "all curves, lists of curves and plotting arguments",
     "No test draws anything.",
     ["python/gsplines/plot/plot.py", "python/gsplines/plot/LinesContainer.py"], [("line containers and figures", "python/gsplines/plot/")],
     "generated curves and arguments; the contents of the drawn figure against the curve evaluated at the drawn instants",
     "Randomised search over the figure's contents without rendering.")

prop("C26", "No memory is lost, also when a function of the user throws",
     "For every use of the library covered by the properties C01-C20, C22 and C23, doing the same again leaves no more memory in use than before, and many different uses of the same kind do not keep memory each. Whenever a function of the user (a class derived from Function) throws an exception while the library copies, evaluates or differentiates it - in sums, differences, products, compositions, concatenations, negatives, dot products, derivatives of any order, integrals, Sobolev norms or collocation approximations - that very exception reaches the caller, no memory and no copy of the function is lost, and expressions that were passed by const reference evaluate as before.",
     ["inputs", "fault_sequences", "histories"], "all uses, and all calls at which a function of the user may throw",
     "No test looks at memory or lets a function throw.",
     ["src/Functions/FunctionMul.cpp", "src/Functions/FunctionsComp.cpp", "src/Functions/FunctionsConcat.cpp", "src/Functions/FunctionSum.cpp", "src/Functions/ElementalFunctions.cpp", "src/FunctionalAnalysis/Integral.cpp", "src/Collocation/GaussLobattoPointsWeights.cpp", "src/Interpolator.cpp"],
     [("ownership by raw pointers", "src/Functions/*.cpp: deriv_*_functions"), ("clones", "include/gsplines/Functions/FunctionInheritanceHelper.hpp")],
     "the cases of the other properties repeated under a counting allocator; histories of operations in which a function of the user throws at a generated call",
     "Randomised search over jobs, histories and fault points; memory is counted in blocks.")

pending = {}
with open(V / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None},
        }) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    for q in p["files"]:
        assert (Path("/repo") / q).exists(), q
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                "thorough_cmd": f"python3 check.py {p['id']} thorough",
                "technique": "property-based testing: " + p["technique"], "level": "exploration", "level_note": p["note"]}
               for p in P if p["id"] in CATALOGUE],
    "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in CATALOGUE],
}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
