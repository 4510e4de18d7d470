// Reference model of the interpolation problem: the list of conditions, as
// linear functionals of the coefficients, in long double.
#pragma once
#include "gens.hpp"
#include <Eigen/Dense>
#include <gsplines/Interpolator.hpp>

namespace gen {
using MatL = Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic>;
using VecL = Eigen::Matrix<L, Eigen::Dynamic, 1>;

struct Problem {
  BasisDesc basis;
  VectorXd taus;
  MatrixXd wp;
  size_t n() const { return (size_t)taus.size(); }
  size_t codom() const { return (size_t)wp.cols(); }
  std::string text() const {
    std::ostringstream o;
    o << basis.text() << " taus=" << show(taus) << " waypoints=" << wp.rows() << "x" << wp.cols();
    if (wp.size() <= 16) o << show(VectorXd(Eigen::Map<const VectorXd>(wp.data(), wp.size())));
    return o.str();
  }
};

struct Term {
  size_t interval;
  int sign;
  L s;
  unsigned deg;
};
struct Row {
  std::vector<Term> terms;
  long waypoint = -1;  // right-hand side: waypoint row, or zero
  std::string what;
};
inline std::vector<Row> conditions(size_t n, size_t dim) {
  std::vector<Row> r;
  for (size_t i = 0; i < n; i++) {
    r.push_back({{{i, 1, -1, 0}}, (long)i, "waypoint at the start of an interval"});
    r.push_back({{{i, 1, 1, 0}}, (long)i + 1, "waypoint at the end of an interval"});
  }
  for (unsigned d = 1; d < dim / 2; d++) {
    r.push_back({{{0, 1, -1, d}}, -1, "derivative at the start"});
    r.push_back({{{n - 1, 1, 1, d}}, -1, "derivative at the end"});
  }
  for (size_t i = 0; i + 1 < n; i++)
    for (unsigned d = 1; d + 1 < dim; d++)
      r.push_back({{{i, 1, 1, d}, {i + 1, -1, -1, d}}, -1, "continuity at an inner waypoint"});
  return r;
}
// partial derivative with respect to tau, at a fixed window point
inline VL basis_tau_ref(const BasisDesc &b, L s, L tau, unsigned deg) {
  if (b.kind == B0101) {
    VL r = b.eval(s, tau, deg + 1);
    for (auto &x : r) x *= s / 2;
    return r;
  }
  VL r = b.eval(s, tau, deg);
  for (auto &x : r) x *= -(L)deg / tau;
  return r;
}

// largest entry of the matrix of conditions: a linear solver only promises a
// residual small with respect to it
inline L matrix_norm(const Problem &p) {
  L m = 0;
  for (size_t i = 0; i < p.n(); i++)
    for (L s : {-1.0L, 1.0L})
      for (unsigned d = 0; d + 1 < p.basis.dim || d == 0; d++)
        for (L v : p.basis.eval(s, (L)p.taus((long)i), d)) m = std::max(m, fabsl(v));
  return m;
}
const double SOLVE_TOL = 1e-8;

inline void check_coeffs(Case &c, const Problem &p, const VectorXd &co) {
  size_t dim = p.basis.dim, n = p.n(), k = p.codom();
  c.require((size_t)co.size() == dim * n * k, "wrong number of coefficients");
  auto rows = conditions(n, dim);
  L backward = 1e-5L * matrix_norm(p) * (L)co.cwiseAbs().maxCoeff();
  for (auto &r : rows) {
    std::vector<VL> phi;
    L sc = 0;
    for (auto &t : r.terms) phi.push_back(p.basis.eval(t.s, (L)p.taus((long)t.interval), t.deg));
    for (size_t comp = 0; comp < k; comp++) {
      L v = 0;
      sc = 0;
      for (size_t a = 0; a < r.terms.size(); a++)
        for (size_t j = 0; j < dim; j++) {
          L q = phi[a][j] * (L)co((long)((r.terms[a].interval * k + comp) * dim + j));
          v += r.terms[a].sign * q;
          sc += fabsl(q);
        }
      sc += backward;
      L w = r.waypoint >= 0 ? (L)p.wp(r.waypoint, (long)comp) : 0;
      // natural size of a derivative of this degree
      L h = 1e30L, m = p.wp.cwiseAbs().maxCoeff() + 1e-300;
      for (auto &t : r.terms) h = std::min(h, (L)p.taus((long)t.interval));
      sc += m * powl(2 / h, (L)r.terms[0].deg);
      close(c, (double)v, w, sc, SOLVE_TOL, r.what + " (derivative degree " + std::to_string(r.terms[0].deg) + ", component " + std::to_string(comp) + ")");
    }
  }
}

inline void check_spline(Case &c, const Problem &p, const gsplines::GSpline &g) {
  c.require(g.get_number_of_intervals() == p.n() && g.get_codom_dim() == p.codom() && g.get_basis_dim() == p.basis.dim,
            "sizes of the interpolating spline");
  c.require(g.get_interval_lengths() == p.taus, "interval lengths of the interpolating spline");
  c.require(g.get_basis() == *p.basis.direct(), "basis of the interpolating spline");
  L T = 0;
  for (long i = 0; i < p.taus.size(); i++) T += (L)p.taus(i);
  c.require(g.get_domain().first == 0.0, "the interpolating spline does not start at zero");
  close(c, g.get_domain().second, T, T, 1e-12, "end of the interpolating spline");
  check_coeffs(c, p, g.get_coefficients());
  // through the public evaluation as well
  L m = p.wp.cwiseAbs().maxCoeff() + g.get_coefficients().cwiseAbs().maxCoeff();
  L sc = 0;
  for (size_t i = 0; i < p.n(); i++)
    for (L s : {-1.0L, 1.0L}) sc = std::max(sc, p.basis.scale(s, (L)p.taus((long)i), 0) * (L)p.basis.dim);
  sc += 1e-5L * matrix_norm(p);
  MatrixXd w = g.get_waypoints();
  c.require(w.rows() == p.wp.rows() && w.cols() == p.wp.cols(), "number of waypoints of the spline");
  VectorXd bp = g.get_domain_breakpoints();
  c.require((size_t)bp.size() == p.n() + 1, "number of breakpoints");
  MatrixXd v = g(bp);
  L acc = 0;
  for (long i = 0; i < w.rows(); i++) {
    close(c, bp(i), acc, T, 1e-12, "instant of a waypoint");
    if (i + 1 < w.rows()) acc += (L)p.taus(i);
    for (long j = 0; j < w.cols(); j++) {
      close(c, w(i, j), (L)p.wp(i, j), m * sc, SOLVE_TOL, "get_waypoints of the interpolating spline");
      close(c, v(i, j), (L)p.wp(i, j), m * sc, SOLVE_TOL, "value of the interpolating spline at a waypoint");
    }
  }
}

// the matrix of conditions of one component (scaled rows) and its derivative
struct RefSystem {
  MatL A;
  std::vector<MatL> dA;
  MatL sol;                // (n*dim) x codom
  std::vector<MatL> dsol;  // per interval
};
inline RefSystem solve_ref(const Problem &p, bool deriv) {
  size_t dim = p.basis.dim, n = p.n(), N = n * dim;
  auto rows = conditions(n, dim);
  RefSystem R;
  R.A = MatL::Zero((long)N, (long)N);
  MatL b = MatL::Zero((long)N, (long)p.codom());
  if (deriv) R.dA.assign(n, MatL::Zero((long)N, (long)N));
  for (size_t i = 0; i < rows.size(); i++) {
    for (auto &t : rows[i].terms) {
      L tau = p.taus((long)t.interval);
      VL v = p.basis.eval(t.s, tau, t.deg);
      for (size_t j = 0; j < dim; j++) R.A((long)i, (long)(t.interval * dim + j)) += t.sign * v[j];
      if (deriv) {
        VL w = basis_tau_ref(p.basis, t.s, tau, t.deg);
        for (size_t j = 0; j < dim; j++) R.dA[t.interval]((long)i, (long)(t.interval * dim + j)) += t.sign * w[j];
      }
    }
    if (rows[i].waypoint >= 0)
      for (size_t k = 0; k < p.codom(); k++) b((long)i, (long)k) = (L)p.wp(rows[i].waypoint, (long)k);
    L m = R.A.row((long)i).cwiseAbs().maxCoeff();
    R.A.row((long)i) /= m;
    b.row((long)i) /= m;
    if (deriv)
      for (auto &d : R.dA) d.row((long)i) /= m;
  }
  Eigen::PartialPivLU<MatL> lu(R.A);
  R.sol = lu.solve(b);
  R.sol += lu.solve(MatL(b - R.A * R.sol));
  if (deriv)
    for (auto &d : R.dA) {
      MatL q = -(d * R.sol);
      R.dsol.push_back(lu.solve(q));
    }
  return R;
}

struct ProblemOpts {
  size_t max_dim = 10, max_intervals = 8, max_codom = 4;
  double tau_lo = 0.2, tau_hi = 5;
};
// interval lengths for which the problem stays reasonably conditioned
inline VectorXd gen_interp_taus(Case &c, const BasisDesc &b, size_t n, const ProblemOpts &o) {
  VectorXd t((long)n);
  int mode = (int)c.pick(4);
  double unit = 1;
  // the conditioning depends on the ratios of the lengths, not on the unit
  // (and, for basis0101, on the product with its rate)
  if (b.kind == B0101) unit = 1.0 / (double)b.k();
  else if (mode == 3) unit = b.dim <= 6 && c.chance(1, 6) ? c.logreal(1e-5, 1e4) : c.logreal(0.02, 50);
  for (size_t i = 0; i < n; i++) {
    double x;
    if (mode == 0) x = 1.0;
    else if (mode == 1) x = c.of({1.0, 2.0, 0.5, 1.5});
    else x = c.logreal(o.tau_lo, o.tau_hi);
    if (b.kind == B0101) x = std::min(std::max(x, 0.4), 4.0);
    t((long)i) = x * unit;
  }
  return t;
}
inline MatrixXd gen_waypoints(Case &c, size_t rows, size_t cols) {
  MatrixXd m((long)rows, (long)cols);
  int mode = (int)c.pick(4);
  for (long j = 0; j < m.cols(); j++)
    for (long i = 0; i < m.rows(); i++)
      m(i, j) = mode == 0 ? (double)c.integer(-3, 3) : mode == 1 && c.coin() ? 0.0 : -5 + 10 * c.unit();
  return m;
}
inline Problem gen_problem(Case &c, const ProblemOpts &o = {}) {
  Problem p;
  BasisOpts bo;
  bo.even = true;
  bo.min_dim = 2;
  bo.max_dim = o.max_dim;
  bo.max_lagrange = 8;
  bo.alpha_lo = 0.02;
  bo.alpha_hi = 0.98;
  p.basis = gen_basis(c, bo);
  size_t n = (size_t)c.size(1, (int64_t)o.max_intervals), k = (size_t)c.size(1, (int64_t)o.max_codom);
  p.taus = gen_interp_taus(c, p.basis, n, o);
  p.wp = gen_waypoints(c, n + 1, k);
  return p;
}
}  // namespace gen
