// C03: derivative matrices and change of interpolation points
#include "gens.hpp"
using namespace gen;

// (D_deg)^T phi = phi^(deg): the coefficients of the derivative
PBT_SUB(block, 3) {
  BasisOpts o;
  o.max_dim = 12;
  BasisDesc b = gen_basis(c, o);
  auto B = b.make();
  c << b.text();
  c.label("kind", b.kind);
  size_t n = (size_t)c.size(1, 5);
  for (size_t q = 0; q < n; q++) {
    unsigned deg = (unsigned)c.size(0, (int64_t)std::min<size_t>(b.dim + 1, 8));
    double s = gen_window_point(c, b);
    c << "; deg=" << deg << " s=" << num(s);
    if (deg > 0 && b.dim > 2) c.mark();
    MatrixXd D = B->get_derivative_matrix_block(deg);
    c.require(D.rows() == (long)b.dim && D.cols() == (long)b.dim, "derivative matrix has a wrong size");
    // on an interval of length 2 the time derivative is the window derivative;
    // basis0101 blocks are with respect to time for any length
    double tau = b.kind == B0101 ? gen_tau(c, &b) : 2.0;
    VL phi = b.eval(s, tau, 0), ref = b.eval(s, tau, deg);
    L sc = b.scale(s, tau, deg);
    L dmax = std::max<L>(1e-300L, (L)D.cwiseAbs().maxCoeff());
    L pm = 0;
    for (L x : phi) pm += fabsl(x);
    for (size_t j = 0; j < b.dim; j++) {
      L got = 0;
      for (size_t i = 0; i < b.dim; i++) got += (L)D((long)i, (long)j) * phi[i];
      close(c, (double)got, ref[j], std::max(sc, dmax * pm), 1e-9,
            "derivative matrix of degree " + std::to_string(deg) + " column " + std::to_string(j));
    }
    // the matrix of degree a+b is the product of those of degrees a and b
    unsigned a = (unsigned)c.size(0, deg);
    MatrixXd A = B->get_derivative_matrix_block(a), Bm = B->get_derivative_matrix_block(deg - a);
    L m = std::max<L>((L)(A.cwiseAbs() * Bm.cwiseAbs()).maxCoeff(), dmax);
    if (b.nodes.size()) m = std::max(m, node_matrix_scale(b.nodesL(), deg));
    MatrixXd P = A * Bm;
    for (long i = 0; i < P.rows(); i++)
      for (long j = 0; j < P.cols(); j++) close(c, P(i, j), D(i, j), m, 1e-9, "product of derivative matrices");
  }
}

// node-based tools: weights, derivative matrix, change of points
PBT_SUB(nodes, 3) {
  size_t n = (size_t)c.size(1, 10);
  VectorXd x = gen_nodes(c, n);
  if (c.chance(1, 4)) {  // the tools take any set of points, not only of the window
    double a = c.logreal(0.2, 5), off = c.real(-2, 2);
    x = (a * x.array() + off).matrix();
  }
  c << "nodes=" << show(x);
  if (n > 2) c.mark();
  VL nd;
  for (long i = 0; i < x.size(); i++) nd.push_back((L)x(i));
  VectorXd w = gb::BasisLagrange::barycentric_weights(x);
  c.require(w.size() == x.size(), "number of weights");
  for (size_t j = 0; j < n; j++) {
    L p = 1;
    for (size_t m = 0; m < n; m++)
      if (m != j) p *= nd[j] - nd[m];
    close(c, w((long)j), 1 / p, fabsl(1 / p), 1e-10, "barycentric weight");
  }
  unsigned deg = (unsigned)c.size(0, (int64_t)std::min<size_t>(n + 1, 7));
  MatrixXd D = c.coin() && deg == 1 ? gb::BasisLagrange::derivative_matrix(x)
                                    : gb::BasisLagrange::derivative_matrix(x, deg);
  c.require(D.rows() == (long)n && D.cols() == (long)n, "size");
  L m = 0;
  std::vector<VL> R;
  for (size_t i = 0; i < n; i++) R.push_back(lagrange_ref(nd, nd[i], deg));
  m = node_matrix_scale(nd, deg) * powl(5, (L)deg);
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) close(c, D((long)i, (long)j), R[i][j], m, 1e-9, "derivative matrix of the nodes");
  // change of points: row k are the Lagrange functions at the k-th new point
  size_t k = (size_t)c.size(1, 8);
  VectorXd y((long)k);
  double lo = x.minCoeff(), hi = x.maxCoeff();
  for (size_t i = 0; i < k; i++) {
    switch (c.pick(4)) {
      case 0: y((long)i) = x((long)c.pick(n)); break;
      case 1: y((long)i) = x((long)c.pick(n)) + (c.coin() ? 1 : -1) * std::pow(10.0, -(double)c.integer(2, 7)); break;
      default: y((long)i) = n > 1 ? c.real(lo, hi) : c.real(-1, 1);
    }
  }
  c << " new=" << show(y) << " deg=" << deg;
  MatrixXd T = gb::BasisLagrange::change_interpolation_points(x, y);
  c.require(T.rows() == (long)k && T.cols() == (long)n, "size of the change matrix");
  for (size_t i = 0; i < k; i++) {
    VL ref = lagrange_ref(nd, (L)y((long)i), 0);
    VL der = lagrange_ref(nd, (L)y((long)i), 1);
    L s = 1, ds = 0;
    for (L v : ref) s += fabsl(v);
    for (L v : der) ds += fabsl(v);
    L snap = 0;
    for (L v : nd)
      if ((L)y((long)i) != v && fabsl((L)y((long)i) - v) < 2e-9L * std::max<L>(1, fabsl(v))) snap = ds * 4e-9L * std::max<L>(1, fabsl(v));
    for (size_t j = 0; j < n; j++)
      close(c, T((long)i, (long)j), ref[j], 1, (double)(1e-10L * s + snap), "change of interpolation points, row " + std::to_string(i));
  }
}

// a polynomial sampled at the nodes is derived and moved exactly
PBT_SUB(polynomial, 2) {
  size_t n = (size_t)c.size(2, 10);
  VectorXd x = gen_nodes(c, n);
  size_t pd = (size_t)c.size(0, (int64_t)n - 1);
  std::vector<double> p;
  for (size_t i = 0; i <= pd; i++) p.push_back(c.real(-2, 2));
  c << "nodes=" << show(x) << " poly=" << show(p);
  if (pd > 1) c.mark();
  auto ev = [&](L t, unsigned d) {
    L r = 0;
    for (size_t i = p.size(); i-- > d;) {
      L f = 1;
      for (unsigned q = 0; q < d; q++) f *= (L)(i - q);
      r = r * t + f * (L)p[i];
    }
    return r;
  };
  VectorXd v((long)n);
  for (size_t i = 0; i < n; i++) v((long)i) = (double)ev((L)x((long)i), 0);
  unsigned deg = (unsigned)c.size(0, 4);
  MatrixXd D = gb::BasisLagrange(x).get_derivative_matrix_block(deg);
  VectorXd dv = D * v;
  L sc = (L)(D.cwiseAbs() * v.cwiseAbs()).maxCoeff() + 1e-3L;
  for (size_t i = 0; i < n; i++) close(c, dv((long)i), ev((L)x((long)i), deg), sc, 1e-7, "derivative at the nodes");
}
