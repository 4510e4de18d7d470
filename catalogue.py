"""What each check builds and how much it explores."""
IFOPT_SOURCES = {
    "Optimization/ipopt_interface.cpp",
    "Optimization/ipopt_solver.cpp",
    "Collocation/GaussLobattoLagrangeFunctionals.cpp",
}
CATALOGUE = {
    "C01": {"sources": ["c01_basis_eval.cpp"], "cases": {"plain": 1500000, "asan": 150000},
            "rule": "at least three basis functions and a derivative of positive degree were compared, or a defining relation was checked on a basis with more than one function"},
    "C02": {"sources": ["c02_basis_tau.cpp"], "cases": {"plain": 1500000, "asan": 150000},
            "rule": "the derivative with respect to the interval length was compared for a time derivative of positive degree"},
    "C03": {"sources": ["c03_deriv_matrix.cpp"], "cases": {"plain": 1500000, "asan": 150000},
            "rule": "a derivative matrix of positive degree of a basis with more than two functions, or node tools on more than two nodes"},
    "C04": {"sources": ["c04_gram.cpp"], "cases": {"plain": 300000, "asan": 20000},
            "rule": "inner products of derivatives of positive degree of a basis with more than two functions"},
    "C05": {"sources": ["c05_sparse_ops.cpp"], "cases": {"plain": 500000, "asan": 50000},
            "rule": "a history of at least two requests on one basis object, or the jumps of a spline with at least two intervals"},
    "C06": {"sources": ["c06_spline_eval.cpp"], "cases": {"plain": 600000, "asan": 60000},
            "rule": "a spline with at least two intervals and two basis functions was evaluated"},
    "C07": {"sources": ["c07_spline_deriv.cpp"], "cases": {"plain": 600000, "asan": 60000},
            "rule": "a derivative of positive degree of a spline with more than two basis functions"},
    "C08": {"sources": ["c08_spline_algebra.cpp"], "cases": {"plain": 600000, "asan": 60000},
            "rule": "a history of at least two operations, or a pair of incompatible splines offered to every operation"},
    "C09": {"sources": ["c09_identity.cpp"], "cases": {"plain": 600000, "asan": 60000},
            "rule": "a basis with more than one function rebuilt or copied, or a pair that differs in exactly one respect"},
    "C10": {"sources": ["c10_interpolation.cpp"], "cases": {"plain": 150000, "asan": 15000},
            "rule": "a problem with at least two intervals, a history of at least two calls, or a malformed call"},
    "C11": {"sources": ["c11_sensitivity.cpp"], "cases": {"plain": 150000, "asan": 12000},
            "rule": "a problem with at least two intervals, a comparison with differences, or a malformed call"},
    "C12": {"sources": ["c12_sobolev_cost.cpp"], "cases": {"plain": 100000, "asan": 10000},
            "rule": "more than one weight or more than one interval"},
    "C13": {"sources": ["c13_expressions.cpp"], "cases": {"plain": 1000000, "asan": 100000},
            "rule": "an expression of at least three nodes compared at at least one instant"},
    "C14": {"sources": ["c14_expr_deriv.cpp"], "cases": {"plain": 700000, "asan": 70000},
            "rule": "a derivative of positive degree compared at at least one instant"},
    "C15": {"sources": ["c15_rejections.cpp"], "cases": {"plain": 300000, "asan": 30000},
            "rule": "an incompatible pair of functions offered to an operation"},
    "C16": {"sources": ["c16_lifetimes.cpp"], "cases": {"plain": 100000, "asan": 10000},
            "rule": "a history with at least three operations that create, consume or destroy objects"},
    "C17": {"sources": ["c17_quadrature.cpp"], "cases": {"plain": 250000, "asan": 20000},
            "rule": "more than two points per interval, and for composite rules more than one interval"},
    "C18": {"sources": ["c18_integrals.cpp"], "cases": {"plain": 250000, "asan": 20000},
            "rule": "compound operands with several subintervals, or polynomial integrands of degree at least four"},
    "C19": {"sources": ["c19_gll_spline.cpp"], "cases": {"plain": 250000, "asan": 25000},
            "rule": "a history of at least two operations on splines, a reproduced polynomial of degree at least two, or operands that do not fit"},
    "C20": {"sources": ["c20_time_scaling.cpp"], "cases": {"plain": 400000, "asan": 40000},
            "rule": "a spline with at least two intervals was scaled, or a call had to be rejected"},
    "C21": {"sources": ["c21.py"], "kind": "py", "cases": {"plain": 30000, "asan": 4000},
            "rule": "a spline or interpolation problem with several intervals or components, an expression of at least three nodes compared at some instant, or a malformed call"},
    "C22": {"sources": ["c22_functionals.cpp"], "cases": {"plain": 150000, "asan": 12000}, "ifopt": True,
            "rule": "more than one interval or component, or operands that do not fit"},
    "C23": {"sources": ["c23_optimisation.cpp"], "cases": {"plain": 60000, "asan": 4000}, "ifopt": True,
            "rule": "at least two intervals, so that there is something to optimise"},
    "C24": {"sources": ["c24_threads.cpp", "c01_basis_eval.cpp", "c02_basis_tau.cpp", "c03_deriv_matrix.cpp",
                        "c04_gram.cpp", "c05_sparse_ops.cpp", "c06_spline_eval.cpp", "c07_spline_deriv.cpp",
                        "c08_spline_algebra.cpp", "c09_identity.cpp", "c10_interpolation.cpp",
                        "c11_sensitivity.cpp", "c12_sobolev_cost.cpp", "c13_expressions.cpp",
                        "c14_expr_deriv.cpp", "c15_rejections.cpp", "c16_lifetimes.cpp",
                        "c17_quadrature.cpp", "c18_integrals.cpp", "c19_gll_spline.cpp",
                        "c20_time_scaling.cpp"],
            "cases": {"tsan": 24000, "plain": 80000},
            "rule": "at least two threads worked at the same time, on jobs that pass alone"},
    "C26": {"sources": ["c26_memory.cpp", "c01_basis_eval.cpp", "c02_basis_tau.cpp", "c03_deriv_matrix.cpp",
                        "c04_gram.cpp", "c05_sparse_ops.cpp", "c06_spline_eval.cpp", "c07_spline_deriv.cpp",
                        "c08_spline_algebra.cpp", "c09_identity.cpp", "c10_interpolation.cpp",
                        "c11_sensitivity.cpp", "c12_sobolev_cost.cpp", "c13_expressions.cpp",
                        "c14_expr_deriv.cpp", "c15_rejections.cpp", "c16_lifetimes.cpp",
                        "c17_quadrature.cpp", "c18_integrals.cpp", "c19_gll_spline.cpp",
                        "c20_time_scaling.cpp", "c22_functionals.cpp", "c23_optimisation.cpp"],
            "ifopt": True, "cases": {"plain": 84000},
            "rule": "the job ran again, or the function of the user threw"},
    "C25": {"sources": ["c25.py"], "kind": "py", "cases": {"plain": 2400},
            "rule": "several derivatives, components or curves were drawn"},
}
