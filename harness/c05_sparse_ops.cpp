// C05: continuity matrix and spline derivative matrix, any call history on one
// basis object
#include "gens.hpp"
using namespace gen;

static void check_continuity(Case &c, const BasisDesc &b, const MatrixXd &M, size_t n, size_t codom, unsigned order,
                             const VectorXd &taus) {
  c.require(M.rows() == (long)((n - 1) * codom * (order + 1)) && M.cols() == (long)(n * codom * b.dim),
            "continuity matrix has a wrong size");
  MatrixXd R = MatrixXd::Zero(M.rows(), M.cols());
  MatrixXd S = MatrixXd::Zero(M.rows(), 1);
  for (unsigned d = 0; d <= order; d++)
    for (size_t i = 0; i + 1 < n; i++) {
      VL r = b.eval(1, taus((long)i), d), l = b.eval(-1, taus((long)i + 1), d);
      double sc = (double)std::max(b.scale(1, taus((long)i), d), b.scale(-1, taus((long)i + 1), d));
      for (size_t k = 0; k < codom; k++) {
        long row = (long)((d * (n - 1) + i) * codom + k);
        S(row, 0) = sc;
        for (size_t j = 0; j < b.dim; j++) {
          R(row, (long)((i * codom + k) * b.dim + j)) = (double)r[j];
          R(row, (long)(((i + 1) * codom + k) * b.dim + j)) = -(double)l[j];
        }
      }
    }
  for (long i = 0; i < M.rows(); i++)
    for (long j = 0; j < M.cols(); j++)
      close(c, M(i, j), (L)R(i, j), (L)S(i, 0), 1e-9, "continuity matrix entry (" + std::to_string(i) + "," + std::to_string(j) + ")");
}
static void check_derivative(Case &c, const BasisDesc &b, const MatrixXd &M, size_t n, size_t codom, unsigned deg,
                             const VectorXd &taus, const VectorXd &coef) {
  long sz = (long)(n * codom * b.dim);
  c.require(M.rows() == sz && M.cols() == sz, "spline derivative matrix has a wrong size");
  SplineDesc s;
  s.basis = b;
  s.taus = taus;
  s.codom = codom;
  s.coeffs = coef;
  SplineDesc d = s;
  d.coeffs = M * coef;
  // the image are the coefficients of the derivative of the spline
  L carry = (L)(M.cwiseAbs() * coef.cwiseAbs()).maxCoeff();
  for (size_t i = 0; i < n; i++)
    for (L f : {0.0L, 0.31L, 0.77L, 1.0L}) {
      L t = s.left(i) + f * (L)taus((long)i);
      for (size_t k = 0; k < codom; k++) {
        L sc, sc2;
        L ref = s.value_in(i, t, k, deg, &sc);
        L got = d.value_in(i, t, k, 0, &sc2);
        L lim = std::max<L>(std::max(sc, sc2), carry * b.scale(2 * f - 1, taus((long)i), 0));
        close(c, (double)got, ref, lim + 1e-12L, 1e-9, "spline of the derivative coefficients, interval " + std::to_string(i));
      }
    }
}

PBT_SUB(history, 4) {
  BasisOpts o;
  o.max_dim = 8;
  BasisDesc b = gen_basis(c, o);
  auto B = b.make();
  c << b.text();
  c.label("kind", b.kind);
  size_t steps = (size_t)c.size(1, 7);
  size_t n = (size_t)c.big(1, 5, 24), codom = (size_t)c.big(1, 3, 10);
  unsigned order = (unsigned)c.size(0, 4);
  for (size_t q = 0; q < steps; q++) {
    // usually keep most of the sizes: that is what re-uses the stored pattern
    if (c.chance(1, 3)) n = (size_t)c.big(1, 5, 24);
    if (c.chance(1, 3)) codom = (size_t)c.big(1, 3, 10);
    if (c.chance(1, 3)) order = (unsigned)c.size(0, 4);
    bool dy;
    VectorXd taus = gen_taus(c, n, &b, 0.05, 20, &dy);
    if (q >= 1) c.mark();
    switch (c.pick(5)) {
      case 0: case 1: {
        size_t nn = std::max<size_t>(2, n);
        if (nn != n) taus = gen_taus(c, nn, &b, 0.05, 20, &dy);
        c << "; continuity(" << nn << "," << codom << "," << order << "," << show(taus) << ")";
        MatrixXd M = B->continuity_matrix(nn, codom, order, taus);
        check_continuity(c, b, M, nn, codom, order, taus);
        break;
      }
      case 2: case 3: {
        c << "; derivative(" << n << "," << codom << "," << order << "," << show(taus) << ")";
        MatrixXd M = B->gspline_derivative_matrix(n, codom, order, taus);
        check_derivative(c, b, M, n, codom, order, taus, gen_coeffs(c, n * codom * b.dim, 2));
        break;
      }
      default: {
        c << "; copy";
        auto n2 = c.coin() ? B->clone() : B->move_clone();
        B = std::move(n2);
        break;
      }
    }
  }
}

// on a spline that is smooth everywhere the jumps are zero; on one with a jump
// the continuity matrix reports exactly the jumps, in the documented order
PBT_SUB(jumps, 2) {
  SplineOpts so;
  so.basis.max_dim = 8;
  so.max_intervals = 5;
  so.max_codom = 3;
  SplineDesc s = gen_spline(c, so);
  if (s.n() < 2) c.discard();
  unsigned order = (unsigned)c.size(0, 4);
  c << s.text() << " order=" << order;
  c.mark();
  gsplines::GSpline g = s.make();
  MatrixXd M = g.get_basis().continuity_matrix(s.n(), s.codom, order, s.taus);
  VectorXd j = M * s.coeffs;
  for (unsigned d = 0; d <= order; d++)
    for (size_t i = 0; i + 1 < s.n(); i++)
      for (size_t k = 0; k < s.codom; k++) {
        L s1, s2;
        L t = s.left(i + 1);
        L ref = s.value_in(i, t, k, d, &s1) - s.value_in(i + 1, t, k, d, &s2);
        close(c, j((long)((d * (s.n() - 1) + i) * s.codom + k)), ref, s1 + s2 + 1e-12L, 1e-8, "jump of derivative " + std::to_string(d));
      }
}
