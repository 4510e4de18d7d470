// C04: inner product matrices of the derivatives and their sensitivity
#include "gens.hpp"
using namespace gen;

struct Gram {
  std::vector<VL> m;
  L scale = 0;
};
// int_0^tau phi_i^(d) phi_j^(d) dt by Gauss quadrature in long double
static Gram gram_ref(const BasisDesc &b, L tau, unsigned deg) {
  Gram g;
  g.m.assign(b.dim, VL(b.dim, 0));
  int panels = b.kind == B0101 ? 4 : 1, n = b.kind == B0101 ? 40 : (int)b.dim + 2;
  auto &q = gauss(n);
  for (int p = 0; p < panels; p++)
    for (int k = 0; k < n; k++) {
      L s = -1 + (2.0L * p + 1 + q.first[(size_t)k]) / panels;
      L w = q.second[(size_t)k] / panels * tau / 2;
      VL v = b.eval(s, tau, deg);
      for (size_t i = 0; i < b.dim; i++)
        for (size_t j = 0; j < b.dim; j++) g.m[i][j] += w * v[i] * v[j];
    }
  for (auto &r : g.m)
    for (L x : r) g.scale = std::max(g.scale, fabsl(x));
  if (b.nodes.size()) {
    L sc = b.scale(1, tau, deg);
    g.scale = std::max(g.scale, sc * sc * tau);
  }
  return g;
}
static unsigned gen_deg(Case &c, const BasisDesc &b) {
  return (unsigned)(b.kind == B0101 ? c.integer(0, 3) : c.size(0, (int64_t)std::min<size_t>(b.dim + 2, 9)));
}

PBT_SUB(matrix, 3) {
  BasisOpts o;
  o.max_dim = 12;
  o.alpha_lo = 0.02;
  BasisDesc b = gen_basis(c, o);
  auto B = b.make();
  c << b.text();
  c.label("kind", b.kind);
  size_t n = (size_t)c.size(1, 4);
  MatrixXd acc = MatrixXd::Zero((long)b.dim, (long)b.dim);
  std::vector<VL> ref(b.dim, VL(b.dim, 0));
  L scale = 0;
  // the matrices are added to whatever the buffer holds
  if (c.coin()) {
    for (long i = 0; i < acc.rows(); i++)
      for (long j = 0; j < acc.cols(); j++) acc(i, j) = c.real(-1, 1);
    scale = 1;
    for (size_t i = 0; i < b.dim; i++)
      for (size_t j = 0; j < b.dim; j++) ref[i][j] = (L)acc((long)i, (long)j);
  }
  bool block = c.coin();  // write into a block of a larger matrix
  MatrixXd big = MatrixXd::Constant((long)b.dim + 3, (long)b.dim + 2, 6.5);
  if (block) big.block(2, 1, (long)b.dim, (long)b.dim) = acc;
  for (size_t q = 0; q < n; q++) {
    unsigned deg = gen_deg(c, b);
    if (b.kind == B0101 && c.chance(1, 6)) deg = (unsigned)c.integer(4, 6);  // not implemented: rejected, or right
    double tau = b.kind == B0101 ? std::max(gen_tau(c, &b), 0.5 / (double)b.k()) : gen_tau(c, &b);
    c << "; deg=" << deg << " tau=" << num(tau);
    if (b.dim > 2 && deg > 0) c.mark();
    try {
      if (block) B->add_derivative_matrix(tau, deg, big.block(2, 1, (long)b.dim, (long)b.dim));
      else B->add_derivative_matrix(tau, deg, acc);
    } catch (const std::invalid_argument &) {
      c.require(b.kind == B0101 && deg > 3, "an implemented degree was rejected");
      c.label("degree rejected");
      continue;
    }
    Gram g = gram_ref(b, tau, deg);
    scale += g.scale;
    for (size_t i = 0; i < b.dim; i++)
      for (size_t j = 0; j < b.dim; j++) ref[i][j] += g.m[i][j];
  }
  if (block) {
    acc = big.block(2, 1, (long)b.dim, (long)b.dim);
    for (long i = 0; i < big.rows(); i++)
      for (long j = 0; j < big.cols(); j++)
        if (i < 2 || j < 1 || i >= 2 + (long)b.dim || j >= 1 + (long)b.dim)
          c.require(big(i, j) == 6.5, "wrote outside of the destination block");
  }
  for (size_t i = 0; i < b.dim; i++)
    for (size_t j = 0; j < b.dim; j++)
      close(c, acc((long)i, (long)j), ref[i][j], scale, b.kind == B0101 ? 1e-8 : 1e-9,
            "inner product (" + std::to_string(i) + "," + std::to_string(j) + ")");
}

PBT_SUB(sensitivity, 3) {
  BasisOpts o;
  o.max_dim = 10;
  o.alpha_lo = 0.02;
  BasisDesc b = gen_basis(c, o);
  auto B = b.make();
  unsigned deg = b.kind == B0101 ? (c.coin() ? 1u : 3u) : gen_deg(c, b);
  if (b.kind == B0101 && c.chance(1, 6)) deg = (unsigned)c.of({0, 2, 4, 5});  // not implemented: rejected, or right
  double tau = b.kind == B0101 ? std::max(gen_tau(c, &b), 0.5 / (double)b.k()) : gen_tau(c, &b, 0.05, 20);
  c << b.text() << " deg=" << deg << " tau=" << num(tau);
  c.label("kind", b.kind);
  if (b.dim > 2 && deg > 0) c.mark();
  double init = c.coin() ? 0.0 : c.real(-1, 1);
  MatrixXd m = MatrixXd::Constant((long)b.dim, (long)b.dim, init);
  try {
    B->add_derivative_matrix_deriv_wrt_tau(tau, deg, m);
  } catch (const std::invalid_argument &) {
    c.require(b.kind == B0101 && deg != 1 && deg != 3, "an implemented degree was rejected");
    c.require((m.array() == init).all(), "a rejected degree changed the buffer");
    c.label("degree rejected");
    return;
  }
  // exact scaling law for polynomials, long double differences for basis0101
  std::vector<VL> ref(b.dim, VL(b.dim, 0));
  L scale = fabsl((L)init);
  if (b.kind != B0101) {
    Gram g = gram_ref(b, tau, deg);
    for (size_t i = 0; i < b.dim; i++)
      for (size_t j = 0; j < b.dim; j++) ref[i][j] = g.m[i][j] * (1 - 2 * (L)deg) / (L)tau;
    scale += g.scale * (1 + 2 * deg) / tau;
  } else {
    L h = 1e-4L * (L)tau;
    auto at = [&](L t) { return gram_ref(b, t, deg); };
    Gram p1 = at(tau + h), m1 = at(tau - h), p2 = at(tau + 2 * h), m2 = at(tau - 2 * h), p3 = at(tau + 3 * h), m3 = at(tau - 3 * h);
    for (size_t i = 0; i < b.dim; i++)
      for (size_t j = 0; j < b.dim; j++)
        ref[i][j] = (45 * (p1.m[i][j] - m1.m[i][j]) - 9 * (p2.m[i][j] - m2.m[i][j]) + (p3.m[i][j] - m3.m[i][j])) / (60 * h);
    scale += p1.scale * (1 / (L)tau + 4 * b.k());
  }
  for (size_t i = 0; i < b.dim; i++)
    for (size_t j = 0; j < b.dim; j++)
      close(c, m((long)i, (long)j), ref[i][j] + (L)init, scale, b.kind == B0101 ? 1e-8 : 1e-9,
            "d/dtau of the inner product (" + std::to_string(i) + "," + std::to_string(j) + ")");
}

// symmetric and positive semidefinite whatever the reference says
PBT_SUB(quadratic_form, 1) {
  BasisOpts o;
  o.max_dim = 10;
  o.alpha_lo = 0.02;
  BasisDesc b = gen_basis(c, o);
  auto B = b.make();
  unsigned deg = gen_deg(c, b);
  double tau = b.kind == B0101 ? std::max(gen_tau(c, &b), 0.5 / (double)b.k()) : gen_tau(c, &b, 0.05, 20);
  c << b.text() << " deg=" << deg << " tau=" << num(tau);
  if (b.dim > 2) c.mark();
  MatrixXd m = MatrixXd::Zero((long)b.dim, (long)b.dim);
  B->add_derivative_matrix(tau, deg, m);
  Gram g = gram_ref(b, tau, deg);
  for (long i = 0; i < m.rows(); i++)
    for (long j = 0; j < i; j++) close(c, m(i, j), (L)m(j, i), g.scale, 1e-8, "symmetry");
  VectorXd v = gen_coeffs(c, b.dim, 2);
  double q = v.dot(m * v);
  c.require(q >= -1e-8 * (double)g.scale * std::max(1.0, v.squaredNorm()), "the squared norm of a function is negative");
}
