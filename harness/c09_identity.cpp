// C09: equality and reconstruction of bases and splines
#include "gens.hpp"
#include <gsplines/Tools.hpp>
using namespace gen;
using gsplines::GSpline;

// a basis rebuilt from what it reports about itself, or copied, is equal to it
// and behaves like it
PBT_SUB(basis_rebuild, 3) {
  BasisOpts o;
  o.max_dim = 12;
  BasisDesc b = gen_basis(c, o);
  c << b.text();
  if (b.dim > 1) c.mark();
  auto A = b.direct();
  std::vector<std::shared_ptr<gb::Basis>> all;
  all.push_back(gb::get_basis(A->get_name(), A->get_dim(), VectorXd(A->get_parameters())));
  {
    std::vector<double> p;
    for (long i = 0; i < A->get_parameters().size(); i++) p.push_back(A->get_parameters()(i));
    all.push_back(gb::get_basis(A->get_name(), A->get_dim(), p));
  }
  all.push_back(A->clone());
  all.push_back(b.direct()->move_clone());
  all.push_back(A->clone()->clone());
  if (b.kind == LEGENDRE) all.push_back(gb::BasisLegendre::get(b.dim));
  if (b.kind == B0101) {
    all.push_back(gb::Basis0101::get(b.alpha));
    c.require(static_cast<gb::Basis0101 &>(*A).get_alpha() == b.alpha, "alpha");
  }
  if (b.nodes.size()) {
    std::vector<double> p;
    for (long i = 0; i < A->get_parameters().size(); i++) p.push_back(A->get_parameters()(i));
    all.push_back(gb::BasisLagrange::get(A->get_parameters()));
    all.push_back(gb::BasisLagrange::get(p));
    all.push_back(std::make_shared<gb::BasisLagrange>(p));
    // points that are not contiguous in memory
    MatrixXd m = MatrixXd::Constant(3, (long)p.size(), 0.3125);
    m.row(1) = A->get_parameters().transpose();
    all.push_back(std::make_shared<gb::BasisLagrange>(m.row(1).transpose()));
  }
  double s = gen_window_point(c, b), tau = gen_tau(c, &b);
  unsigned deg = (unsigned)c.size(0, 3);
  VectorXd x((long)b.dim), y((long)b.dim);
  A->eval_derivative_on_window(s, tau, deg, x);
  for (auto &B : all) {
    c.require(*A == *B && *B == *A && !(*A != *B), "a rebuilt basis is not equal to the original");
    c.require(B->get_name() == A->get_name() && B->get_dim() == A->get_dim() && B->get_parameters() == A->get_parameters(), "a rebuilt basis reports other data");
    B->eval_derivative_on_window(s, tau, deg, y);
    c.require(x == y, "a rebuilt basis evaluates differently");
    MatrixXd ma = MatrixXd::Zero((long)b.dim, (long)b.dim), mb = ma;
    A->add_derivative_matrix(tau, std::min(deg, 3u), ma);
    B->add_derivative_matrix(tau, std::min(deg, 3u), mb);
    c.require(ma == mb, "a rebuilt basis has other inner products");
    c.require(A->get_derivative_matrix_block(deg) == B->get_derivative_matrix_block(deg), "a rebuilt basis has another derivative matrix");
  }
}

// different bases are different, whatever differs
PBT_SUB(basis_differ, 2) {
  BasisOpts o;
  o.max_dim = 10;
  BasisDesc a = gen_basis(c, o), b = a;
  int what = (int)c.pick(3);
  if (what == 0) {  // the kind
    BasisDesc q = gen_basis(c, o);
    bool a_l = a.nodes.size() > 0, q_l = q.nodes.size() > 0;
    if (a.kind == q.kind || (a_l && q_l)) c.discard();
    b = q;
  } else if (what == 1) {  // the dimension
    if (a.kind == B0101) c.discard();
    b.dim = a.dim + 1;
    if (a.kind == LAGRANGE) {
      b.nodes.conservativeResize((long)b.dim);
      b.nodes((long)a.dim) = 1.25;
    }
  } else {  // one parameter
    if (a.kind == LEGENDRE) c.discard();
    double d = std::pow(10.0, -(double)c.integer(2, 4));
    if (a.kind == B0101) b.alpha = a.alpha < 0.5 ? a.alpha * (1 + d) : a.alpha * (1 - d);
    else {
      b.kind = LAGRANGE;
      b.nodes((long)c.pick(a.dim)) += d;
    }
  }
  c << what << ": " << a.text() << " / " << b.text();
  c.mark();
  auto A = a.make(), B = b.make();
  c.require(!(*A == *B) && !(*B == *A) && *A != *B, "different bases compare equal");
}

// the comparison tools: closeness relative to the size of the operands,
// absolute when one of them is below the tolerance; symmetric
PBT_SUB(closeness, 2) {
  auto uni = [&](double lo, double hi) { return lo + (hi - lo) * c.unit(); };
  double tol = std::pow(10.0, -uni(1.0, 12.0));
  int scale = (int)c.integer(-6, 6);
  double size = std::pow(10.0, scale) * uni(1.0, 9.0);
  bool close = c.coin();
  int what = (int)c.pick(4);
  bool absolute = size < 2 * tol;
  if (absolute) size = tol * uni(0.0, 0.4);
  // the distance, well below or well above what is tolerated
  double lim = absolute ? tol : tol * size;
  double d = lim * (close ? uni(0.0, 0.5) : uni(2.0, 50.0));
  bool minus = c.coin();
  c << "tol " << num(tol) << " size " << num(size) << " dist " << num(d) << " what " << what << (close ? " close" : " far");
  c.mark();
  c.label("operand", what);
  auto ok = [&](bool r, const char *w) { c.require(r == close, std::string(w) + (close ? " says that close operands differ" : " says that distant operands agree")); };
  double sg = c.coin() ? 1 : -1;
  if (what == 0) {
    double a = sg * size, b = sg * (size + d);
    // rounding of a + d, for tolerances close to the precision
    if (!close && std::fabs(b - a) <= 1.5 * lim) c.discard();
    ok(gsplines::tools::approx_equal(a, b, tol), "approx_equal(double)");
    ok(gsplines::tools::approx_equal(b, a, tol), "approx_equal(double), swapped");
    ok(gsplines::tools::approx_zero(sg * (close ? 0.9 : 1.1) * tol, tol), "approx_zero(double)");
    return;
  }
  long rows = (long)c.size(1, 5), cols = (long)c.size(1, 5);
  MatrixXd a(rows, cols);
  for (long i = 0; i < a.size(); i++) a.data()[i] = size * uni(-0.9, 0.9);
  long big = (long)c.pick((size_t)a.size()), where = (long)c.pick((size_t)a.size());
  a.data()[big] = sg * size;
  MatrixXd b = a;
  // away from zero where the largest entry moves, so that the size stays
  b.data()[where] += (where == big ? sg : (minus ? -1 : 1)) * d;
  if (!close && (b - a).cwiseAbs().maxCoeff() <= 1.5 * tol * std::max({absolute ? 1.0 : 0.0, a.cwiseAbs().maxCoeff(), b.cwiseAbs().maxCoeff()})) c.discard();
  if (what == 1) {
    ok(gsplines::tools::approx_equal(a, b, tol), "approx_equal(matrix)");
    ok(gsplines::tools::approx_equal(b, a, tol), "approx_equal(matrix), swapped");
    MatrixXd z = a * ((close ? 0.9 : 1.1) * tol / std::max(size, 1e-300));
    if (size > 0) {
      ok(gsplines::tools::approx_zero(z, tol), "approx_zero(matrix)");
    }
    MatrixXd t = a.transpose(), more = MatrixXd::Zero(rows, cols + 1), less = MatrixXd::Zero(rows + 1, cols);
    more.leftCols(cols) = a;
    less.topRows(rows) = a;
    c.require(rows == cols || !gsplines::tools::approx_equal(a, t, tol), "matrices of different shape are close");
    c.require(!gsplines::tools::approx_equal(a, more, tol) && !gsplines::tools::approx_equal(more, a, tol), "matrices of different width are close");
    c.require(!gsplines::tools::approx_equal(a, less, tol) && !gsplines::tools::approx_equal(less, a, tol), "matrices of different height are close");
    return;
  }
  // splines: the coefficients, or the intervals
  VectorXd ca = Eigen::Map<VectorXd>(a.data(), a.size()), cb = Eigen::Map<VectorXd>(b.data(), b.size());
  gb::BasisLegendre base((std::size_t)cols);
  VectorXd taus = VectorXd::Ones(1);
  GSpline x({0, 1}, (std::size_t)rows, 1, base, ca, taus);
  if (what == 2) {
    GSpline y({0, 1}, (std::size_t)rows, 1, base, cb, taus);
    ok(gsplines::tools::approx_equal(x, y, tol), "approx_equal(spline)");
    ok(gsplines::tools::approx_equal(y, x, tol), "approx_equal(spline), swapped");
    if (size > 0) {
      GSpline z({0, 1}, (std::size_t)rows, 1, base, ca * ((close ? 0.9 : 1.1) * tol / size), taus);
      ok(gsplines::tools::approx_zero(z, tol), "approx_zero(spline)");
    }
  } else {
    if (tol > 0.2) tol = 0.2;
    double shift = tol * (close ? uni(0.0, 0.5) : uni(2.0, 5.0));
    if (!close && shift < 1e-9) c.discard();
    int w = (int)c.pick(2);
    VectorXd t2 = taus * (1 + shift);
    double at = w == 0 ? 0 : shift;  // absolute near zero
    std::pair<double, double> dom = w == 0 ? std::pair<double, double>{0, t2(0)} : std::pair<double, double>{at, 1 + at};
    GSpline y(dom, (std::size_t)rows, 1, base, ca, w == 0 ? t2 : taus);
    ok(gsplines::tools::approx_equal(x, y, tol), w == 0 ? "approx_equal(spline of other length)" : "approx_equal(shifted spline)");
    ok(gsplines::tools::approx_equal(y, x, tol), w == 0 ? "approx_equal(spline of other length), swapped" : "approx_equal(shifted spline), swapped");
  }
}

PBT_SUB(unknown_basis, 1) {
  std::string names[] = {"", "Legendre", "lagrange ", "basis0102", "bspline", "LAGRANGE", "basis1010"};
  std::string nm = names[c.pick(7)];
  int how = (int)c.pick(3);
  c << nm << how;
  c.mark();
  try {
    if (how == 0) gb::get_basis(nm, 4, VectorXd(VectorXd::LinSpaced(4, -1, 1)));
    else if (how == 2) {  // a basis without functions
      switch (c.pick(5)) {
        case 0: gb::get_basis("legendre", 0, VectorXd()); break;
        case 1: gb::get_basis("lagrange", 0, std::vector<double>()); break;
        case 2: gb::BasisLegendre(0); break;
        case 3: gb::BasisLegendre::get(0); break;
        default: gb::BasisLagrange{std::vector<double>()};
      }
    }
    else {
      // basis0101 takes exactly one parameter
      size_t n = c.coin() ? 0 : (size_t)c.size(2, 4);
      gb::get_basis("basis0101", 6, std::vector<double>(n, 0.5));
    }
  } catch (const std::invalid_argument &) {
    return;
  }
  c.fail("an unknown basis or a wrong number of parameters was accepted");
}

// splines: copies are equal, any relevant difference makes them different
PBT_SUB(splines, 4) {
  SplineOpts o;
  o.basis.max_dim = 8;
  o.max_intervals = 6;
  o.max_codom = 4;
  SplineDesc s = gen_spline(c, o);
  c << s.text();
  GSpline a = s.make();
  {
    GSpline b(a);
    GSpline tmp(a);
    GSpline m(std::move(tmp));
    auto cl = a.clone();
    GSpline r = s.make();
    for (const GSpline *p : std::initializer_list<const GSpline *>{&b, &m, dynamic_cast<const GSpline *>(cl.get()), &r})
      c.require(a == *p && *p == a && !(a != *p), "a copy of a spline is not equal to it");
    // a spline rebuilt from its parts
    GSpline q(a.get_domain(), a.get_codom_dim(), a.get_number_of_intervals(), a.get_basis(), a.get_coefficients(), a.get_interval_lengths());
    c.require(a == q, "a spline rebuilt from its parts is not equal to it");
  }
  SplineDesc r = s;
  int what = (int)c.pick(6);
  double rel = std::pow(10.0, -(double)c.integer(1, 4));
  switch (what) {
    case 0: {  // a coefficient, by a relative amount of the largest one
      long i = (long)c.pick((size_t)s.coeffs.size());
      double big = std::max(s.coeffs.cwiseAbs().maxCoeff(), 1e-2);
      r.coeffs(i) += (c.coin() ? 1 : -1) * rel * big;
      break;
    }
    case 1: r.taus((long)c.pick(s.n())) += rel * s.taus.maxCoeff(); break;
    case 2: r.t0 += std::max(1.0, std::fabs(s.t0)) * (0.001 + rel); break;
    case 3: {
      if (s.basis.kind == B0101) r.basis.alpha = s.basis.alpha < 0.5 ? s.basis.alpha * (1 + 0.01) : s.basis.alpha * 0.98;
      else if (s.basis.kind == LEGENDRE) {
        r.basis.kind = LAGRANGE;
        r.basis.nodes = gen_nodes(c, s.basis.dim);
      } else {
        r.basis.kind = LAGRANGE;
        r.basis.nodes((long)c.pick(s.basis.dim)) += 0.01;
      }
      break;
    }
    case 4: {  // split the same coefficients differently between intervals and components
      if (s.n() * s.codom < 2) c.discard();
      if (s.codom == 1) {
        r.codom = s.n();
        r.taus = s.taus.head(1);
      } else {
        r.codom = 1;
        r.taus = VectorXd::Constant((long)(s.n() * s.codom), s.taus(0));
      }
      break;
    }
    default: {  // negative
      if (s.coeffs.cwiseAbs().maxCoeff() < 1e-3) c.discard();
      r.coeffs = -s.coeffs;
    }
  }
  c.mark();
  c.label("difference", what);
  c << " difference " << what << " rel " << num(rel);
  GSpline b = r.make();
  c.require(!(a == b) && !(b == a) && a != b && b != a, "different splines compare equal (difference " + std::to_string(what) + ")");
}
