// C23: the optimisation front end poses the problem it promises and returns
// interpolating splines of the requested duration.  The solver is a stand-in
// whose outcome is generated (see ifopt_stub).
#include "sobolev_ref.hpp"
#include <gsplines/Optimization/ipopt_interface.hpp>
#include <gsplines/Optimization/ipopt_solver.hpp>
#include <ifopt/ipopt_solver.h>
#include <ifopt/problem.h>
using namespace gen;
namespace go = gsplines::optimization;

namespace {
L tiny_cost(const Problem &p, const Weights &w) {
  L tiny = 1e-290L;
  for (auto &x : w) tiny += 1e-9L * (L)p.wp.squaredNorm() * fabsl((L)x.second) * powl(2 / (L)p.taus.minCoeff(), 2.0L * x.first);
  return tiny;
}
// weights for which every basis offers a gradient
Weights gen_pos_weights(Case &c, const BasisDesc &b) {
  Weights w;
  size_t n = (size_t)c.size(1, 3);
  for (size_t i = 0; i < n; i++)
    w.emplace_back(b.kind == B0101 ? (c.coin() ? 1 : 3) : 1 + c.pick(std::min<size_t>(b.dim - 1, 5)), c.pick(3) == 0 ? 1.0 : c.logreal(1e-3, 10));
  return w;
}
std::string wtext(const Weights &w) {
  std::ostringstream o;
  for (auto &x : w) o << " w[" << x.first << "]=" << num(x.second);
  return o.str();
}
Problem gen_opt(Case &c, const ProblemOpts &o) {
  Problem p = gen_problem(c, o);
  // the execution time decides the (initially equal) interval lengths
  VectorXd t = p.taus;
  p.taus = VectorXd::Constant(t.size(), t(0));
  if (p.basis.kind == B0101) p.taus.setConstant(1.5 / (double)p.basis.k() * (0.5 + c.unit()));
  return p;
}
ProblemOpts opts() {
  ProblemOpts o;
  o.max_intervals = 5;
  o.max_codom = 4;
  o.max_dim = 10;
  o.tau_lo = 0.4;
  o.tau_hi = 2.5;
  return o;
}
VectorXd feasible(Case &c, const VectorXd &initial) {
  VectorXd x = initial;
  double T = x.sum();
  for (long i = 0; i < x.size(); i++) x(i) *= 0.5 + c.unit();
  return x * (T / x.sum());
}
// what the statement promises about the problem, seen through the interface of
// the solver; p.taus: expected initial values
void check_problem(Case &c, ifopt::Problem &nlp, const Problem &p, const Weights &w, double T) {
  auto vars = nlp.GetOptVariables();
  VectorXd x0 = vars->GetValues();
  c.require(x0.size() == (long)p.n(), "one variable per interval");
  auto vb = vars->GetBounds();
  c.require(vb.size() == p.n(), "bounds of the variables");
  for (auto &b : vb) c.require(b.lower_ >= 0 && b.lower_ <= 1e-6 * T && b.upper_ >= T, "interval lengths are positive and not limited further");
  for (long i = 0; i < x0.size(); i++) close(c, x0(i), (L)T / (L)p.n(), (L)T, 1e-12, "initial interval lengths divide the execution time");
  size_t n = (size_t)c.integer(1, 2);
  for (size_t k = 0; k < n; k++) {
    VectorXd x = k ? feasible(c, x0) : x0;
    auto satisfied = [&](const VectorXd &y) {
      VectorXd g = nlp.EvaluateConstraints(y.data());
      auto cb = nlp.GetConstraints().GetBounds();
      c.require(g.size() == (long)cb.size() && g.size() >= 1, "size of the constraints");
      double worst = 0;
      for (long i = 0; i < g.size(); i++) worst = std::max({worst, cb[(size_t)i].lower_ - g(i), g(i) - cb[(size_t)i].upper_});
      return worst;
    };
    c.require(satisfied(x) <= 1e-9 * T, "interval lengths that sum up to the execution time violate the constraints");
    VectorXd y = x;
    y((long)c.pick(p.n())) += (c.coin() ? 0.1 : -0.1) * T / (double)p.n();
    c.require(satisfied(y) > 1e-9 * T, "interval lengths that do not sum up to the execution time satisfy the constraints");
    VectorXd g0 = nlp.EvaluateConstraints(x.data()), g1 = nlp.EvaluateConstraints(y.data());
    MatrixXd J = nlp.GetConstraints().GetJacobian();
    c.require(J.rows() == g0.size() && J.cols() == x.size(), "size of the Jacobian");
    VectorXd dg = J * (y - x);
    for (long i = 0; i < dg.size(); i++) close(c, g1(i) - g0(i), (L)dg(i), (L)T, 1e-9, "Jacobian of the constraint");
    Problem q = p;
    q.taus = x;
    CostRef r = cost_reference(q, w);
    L tiny = tiny_cost(q, w);
    bool first = c.coin();
    VectorXd grad;
    if (first) grad = nlp.EvaluateCostFunctionGradient(x.data());
    close(c, nlp.EvaluateCostFunction(x.data()), r.cost, r.scale + tiny, 1e-6, "cost of the problem");
    if (!first) grad = nlp.EvaluateCostFunctionGradient(x.data());
    c.require(grad.size() == x.size(), "size of the gradient");
    for (long i = 0; i < x.size(); i++)
      close(c, grad(i), r.grad[(size_t)i], r.gscale[(size_t)i] + tiny / (L)q.taus.minCoeff(), 1e-6, "gradient of the cost, interval " + std::to_string(i));
  }
  vars->SetVariables(x0);
}
int gen_status(Case &c) { return c.chance(1, 3) ? c.of({1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -10, -11, -12, -13, -100, -101, -102, -199}) : 0; }

// the solution costs no more than equal interval lengths
void check_cost(Case &c, Problem p, const Weights &w, double T) {
  CostRef a = cost_reference(p, w);
  p.taus = VectorXd::Constant(p.taus.size(), T / (double)p.n());
  CostRef b = cost_reference(p, w);
  L slack = 1e-6L * (a.scale + b.scale + tiny_cost(p, w));
  if (!(a.cost <= b.cost + slack))
    c.fail("the spline costs " + num((double)a.cost) + ", more than " + num((double)b.cost) + " of the initial guess");
  c.label(a.cost < b.cost - slack ? "improved" : "not improved");
}
}  // namespace

// the terms of the problem, used directly
PBT_SUB(terms, 2) {
  Problem p = gen_opt(c, opts());
  Weights w = gen_pos_weights(c, p.basis);
  double T = p.taus.sum();
  c << p.text() << wtext(w);
  if (p.n() > 1) c.mark();
  auto b = p.basis.make();
  ifopt::Problem nlp;
  auto var = std::make_shared<go::TimeSegmentLenghtsVar>(p.n(), T);
  nlp.AddVariableSet(var);
  auto con = std::make_shared<go::ExecTimeConstraint>(p.n(), T);
  nlp.AddConstraintSet(con);
  MatrixXd wp = p.wp;
  nlp.AddCostSet(std::make_shared<go::SobolevNorm>("cost", wp, *b, w));
  wp.setConstant(77);
  b.reset();
  check_problem(c, nlp, p, w, T);
  VectorXd x = feasible(c, p.taus);
  var->SetVariables(x);
  c.require(var->GetValues() == x, "values of the variables");
  close(c, con->GetValues()(0), (L)x.sum(), (L)T, 1e-12, "sum of the interval lengths");
}

PBT_SUB(optimal_spline, 4) {
  Problem p = gen_opt(c, opts());
  Weights w = gen_pos_weights(c, p.basis);
  double T = p.taus.sum();
  int status = gen_status(c);
  c << p.text() << " T=" << num(T) << wtext(w) << " status=" << status;
  auto &plan = ifopt::IpoptSolver::plan();
  plan = {};
  plan.status = status;
  plan.iterations = (int)c.integer(0, 10);
  plan.inspect = [&](ifopt::Problem &nlp) { check_problem(c, nlp, p, w, T); };
  auto b = p.basis.make();
  MatrixXd wp = p.wp;
  auto r = go::optimal_sobolev_norm(wp, *b, w, T);
  plan.inspect = nullptr;
  c.require(wp == p.wp, "waypoints changed");
  if (p.n() == 1) {
    c.require(r.has_value(), "a single interval needs no solver");
    c.label("single interval");
  } else {
    c.mark();
    c.label(status ? "failure" : "success");
    c.require(plan.solved >= 1, "the solver was not asked");
    c.require(r.has_value() == (status == 0), status ? "a spline was returned although the solver failed" : "no spline although the solver succeeded");
  }
  if (!r) return;
  const gsplines::GSpline &g = *r;
  close(c, g.get_domain().second - g.get_domain().first, (L)T, (L)T, 1e-9, "execution time");
  c.require(g.get_interval_lengths().size() == (long)p.n() && g.get_interval_lengths().minCoeff() > 0, "interval lengths of the result");
  if (p.n() > 1)
    for (long i = 0; i < plan.solution.size(); i++) close(c, g.get_interval_lengths()(i), (L)plan.solution(i), (L)T, 1e-9, "interval lengths are the solution of the solver");
  p.taus = g.get_interval_lengths();
  check_spline(c, p, g);
  check_cost(c, p, w, T);
}

// the named paths: fixed basis and weight, scaled to execution time one
PBT_SUB(named_paths, 4) {
  Problem p;
  int which = (int)c.pick(6);
  static const char *names[] = {"broken lines", "minimum acceleration", "minimum jerk", "minimum snap", "minimum crackle", "rojas"};
  size_t n = (size_t)c.size(1, which == 4 ? 4 : 6);
  p.wp = gen_waypoints(c, n + 1, (size_t)c.size(1, 4));
  double k = c.logreal(0.3, 2.5), T = (double)n;
  Weights w;
  if (which < 5) {
    p.basis.kind = LEGENDRE;
    p.basis.dim = 2 * (size_t)(which + 1);
    w = {{(size_t)which + 1, 1.0}};
  } else {
    p.basis.kind = B0101;
    p.basis.dim = 6;
    p.basis.alpha = std::pow(k, 4) / (1 + std::pow(k, 4));
    T = 4 * (double)n / std::sqrt(2.0);
    w = {{1, p.basis.alpha}, {3, 1 - p.basis.alpha}};
  }
  p.taus = VectorXd::Constant((long)n, T / (double)n);
  int status = gen_status(c);
  c << names[which] << " k=" << num(k) << " " << p.text() << " status=" << status;
  c.label(names[which]);
  auto &plan = ifopt::IpoptSolver::plan();
  plan = {};
  plan.status = status;
  plan.iterations = (int)c.integer(0, 10);
  bool posed = c.coin();
  if (posed) plan.inspect = [&](ifopt::Problem &nlp) { check_problem(c, nlp, p, w, T); };
  auto ask = [&]() -> std::optional<gsplines::GSpline> {
    switch (which) {
      case 0: return go::broken_lines_path(p.wp);
      case 1: return go::minimum_acceleration_path(p.wp);
      case 2: return go::minimum_jerk_path(p.wp);
      case 3: return go::minimum_snap_path(p.wp);
      case 4: return go::minimum_crackle_path(p.wp);
      default: return go::rojas_path(p.wp, k);
    }
  };
  auto r = ask();
  plan.inspect = nullptr;
  if (n == 1) c.require(r.has_value(), "a single interval needs no solver");
  else {
    c.mark();
    c.require(r.has_value() == (status == 0), status ? "a spline was returned although the solver failed" : "no spline although the solver succeeded");
  }
  if (!r) return;
  const gsplines::GSpline &g = *r;
  close(c, g.get_domain().first, 0, 1, 1e-12, "start of the path");
  close(c, g.get_domain().second, 1, 1, 1e-9, "execution time of the path");
  c.require(g.get_number_of_intervals() == n && g.get_codom_dim() == p.codom() && g.get_basis_dim() == p.basis.dim, "sizes of the path");
  VectorXd tn = g.get_interval_lengths();
  c.require(tn.size() == (long)n && tn.minCoeff() > 0, "interval lengths of the path");
  close(c, tn.sum(), 1, 1, 1e-9, "sum of the interval lengths");
  p.taus = tn * T;
  check_cost(c, p, w, T);
  // values: the interpolating spline with these (scaled) interval lengths
  RefSystem sys = solve_ref(p, false);
  SplineDesc d;
  d.basis = p.basis;
  d.taus = p.taus;
  d.codom = p.codom();
  d.coeffs.resize((long)(n * d.codom * p.basis.dim));
  for (size_t i = 0; i < n; i++)
    for (size_t q = 0; q < d.codom; q++)
      for (size_t j = 0; j < p.basis.dim; j++) d.coeffs((long)((i * d.codom + q) * p.basis.dim + j)) = (double)sys.sol((long)(i * p.basis.dim + j), (long)q);
  size_t m = (size_t)c.integer(1, 4);
  VectorXd t((long)m);
  for (size_t i = 0; i < m; i++) {
    size_t iv = c.pick(n);
    t((long)i) = (double)((d.left(iv) + (0.01L + 0.98L * (L)c.unit()) * (L)d.taus((long)iv)) / (L)T);
  }
  unsigned deg = (unsigned)c.integer(0, 2);
  MatrixXd y = g.derivate(deg)(t);
  L back = 1e-5L * matrix_norm(p) * (L)d.coeffs.cwiseAbs().maxCoeff();
  for (size_t i = 0; i < m; i++)
    for (size_t q = 0; q < d.codom; q++) {
      L sc, ref = d.value((L)t((long)i) * (L)T, q, deg, &sc);
      L f = powl((L)T, (L)deg);
      close(c, y((long)i, (long)q), ref * f, (sc + back * p.basis.scale(1, (L)d.taus.minCoeff(), deg)) * f + 1e-9L, 1e-7, std::string(names[which]) + " path, derivative " + std::to_string(deg));
    }
  VectorXd bp = g.get_domain_breakpoints();
  MatrixXd v = g(bp);
  L mx = p.wp.cwiseAbs().maxCoeff() + (L)d.coeffs.cwiseAbs().maxCoeff() + 1e-9L;
  for (long i = 0; i < v.rows(); i++)
    for (long q = 0; q < v.cols(); q++) close(c, v(i, q), (L)p.wp(i, q), mx * (1 + 1e-5L * matrix_norm(p)) * p.basis.scale(1, (L)d.taus.maxCoeff(), 0), 1e-7, "waypoint of the path");
}

// options set by the user reach the solver; the last value set wins
PBT_SUB(options, 1) {
  // some names begin or end others
  static const std::vector<std::string> names = {"tol", "acceptable_tol", "max_cpu_time", "mu_max", "mu_max_fact", "mu_min", "dual_inf_tol", "acceptable_dual_inf_tol",  // numbers
                                                 "print_level", "max_iter", "max_soc", "acceptable_iter", "limited_memory_max_history", "limited_memory_max",  // integers
                                                 "linear_solver", "mu_strategy", "derivative_test", "derivative_test_print_all", "hessian_approximation", "hessian_approximation_space"};
  std::map<std::string, std::string> want;
  size_t n = (size_t)c.integer(1, 10);
  for (size_t i = 0; i < n; i++) {
    size_t k = c.pick(names.size());
    if (k < 8) {
      double v = c.logreal(1e-9, 10);
      go::IpoptSolverOptions::set_option(names[k], v);
      char buf[64];
      snprintf(buf, sizeof buf, "d:%.17g", v);
      want[names[k]] = buf;
    } else if (k < 14) {
      int v = (int)c.integer(0, 3000);
      go::IpoptSolverOptions::set_option(names[k], v);
      want[names[k]] = "i:" + std::to_string(v);
    } else {
      std::string v = c.of<const char *>({"mumps", "ma27", "adaptive", "none", "first-order", ""});
      go::IpoptSolverOptions::set_option(names[k], v);
      want[names[k]] = "s:" + v;
    }
    c << names[k] << " ";
  }
  c.mark();
  std::map<std::string, std::vector<std::string>> got;
  if (c.coin()) {
    ifopt::IpoptSolver s;
    go::IpoptSolverOptions::set_options_on_interface(s);
    got = s.options;
  } else {
    auto &plan = ifopt::IpoptSolver::plan();
    plan = {};
    plan.iterations = 0;
    MatrixXd wp = gen_waypoints(c, 3, 1);
    go::broken_lines_path(wp);
    got = ifopt::IpoptSolver::last_options();
  }
  for (auto &x : want) c.require(got.count(x.first) && got[x.first].back() == x.second, "option " + x.first + " did not reach the solver as last set");
}

// what cannot be posed is rejected with an exception
PBT_SUB(rejections, 1) {
  auto &plan = ifopt::IpoptSolver::plan();
  plan = {};
  size_t rows = c.pick(2), cols = (size_t)c.size(1, 3);
  int which = (int)c.pick(3);
  MatrixXd wp = gen_waypoints(c, which == 2 ? 3 : rows, cols);
  c << "rows=" << wp.rows() << " which=" << which;
  c.mark();
  bool thrown = false;
  try {
    if (which == 0) go::optimal_sobolev_norm(wp, gb::BasisLegendre(4), {{2, 1.0}}, 2.0);
    else if (which == 1) go::minimum_jerk_path(wp);
    else go::optimal_sobolev_norm(wp, gb::BasisLegendre(3 + 2 * c.pick(3)), {{1, 1.0}}, 2.0);
  } catch (const std::exception &) {
    thrown = true;
  }
  c.require(thrown, "ill-posed problem was accepted");
}
