// C01: every basis evaluates its defining functions and their time derivatives
#include "gens.hpp"
using namespace gen;

static void check_eval(Case &c, const BasisDesc &b, gb::Basis &B, double s, double tau, unsigned deg,
                       int how) {
  VL ref = b.eval(s, tau, deg);
  L sc = b.scale(s, tau, deg);
  // Lagrange: points closer than 1e-9 to a node may be taken for the node
  L snap = 0;
  if (b.nodes.size())
    for (long i = 0; i < b.nodes.size(); i++)
      if (fabs(s - b.nodes(i)) < 2.1e-9 && s != b.nodes(i)) snap = b.scale(s, tau, deg + 1) * tau / 2 * 3e-9L;
  VectorXd out;
  std::string what;
  if (how == 0 || (how == 3 && deg != 0)) {
    out = VectorXd::Constant((long)b.dim, 77.0);
    B.eval_derivative_on_window(s, tau, deg, out);
    what = "eval_derivative_on_window";
  } else if (how == 3) {
    out = VectorXd::Constant((long)b.dim, -55.0);
    B.eval_on_window(s, tau, out);
    what = "eval_on_window";
  } else {
    // strided destination (a row of a column-major matrix), neighbours untouched
    MatrixXd m = MatrixXd::Constant(3, (long)b.dim, 13.25);
    if (deg == 0 && how == 2) B.eval_on_window(s, tau, m.row(1));
    else B.eval_derivative_on_window(s, tau, deg, m.row(1));
    for (long j = 0; j < (long)b.dim; j++)
      c.require(m(0, j) == 13.25 && m(2, j) == 13.25, "evaluation wrote outside its buffer");
    out = m.row(1).transpose();
    what = "strided evaluation";
  }
  for (size_t j = 0; j < b.dim; j++)
    close(c, out((long)j), ref[j], 1, 1e-10 * (double)sc + (double)snap,
          what + " function " + std::to_string(j) + " deg " + std::to_string(deg));
}

PBT_SUB(values, 4) {
  BasisOpts o;
  o.max_dim = 18;
  BasisDesc b = gen_basis(c, o);
  auto B = b.make();
  c << b.text();
  c.label("kind", b.kind);
  c.require(B->get_dim() == b.dim, "wrong dimension");
  size_t n = (size_t)c.size(1, 6);
  for (size_t i = 0; i < n; i++) {
    double s = gen_window_point(c, b);
    double tau = gen_tau(c, &b);
    unsigned dmax = (unsigned)std::min<size_t>(b.kind == B0101 ? 9 : b.dim + 2, 9);
    unsigned deg = (unsigned)c.size(0, dmax);
    if (b.dim > 2 && deg > 0) c.mark();
    c << "; s=" << num(s) << " tau=" << num(tau) << " deg=" << deg;
    check_eval(c, b, *B, s, tau, deg, (int)c.pick(4));
  }
}

// every degree at one point: zero beyond the polynomial degree, any order of
// requests (the derivative matrices are computed lazily)
PBT_SUB(all_degrees, 2) {
  BasisOpts o;
  o.max_dim = 12;
  BasisDesc b = gen_basis(c, o);
  auto B = b.make();
  double s = gen_window_point(c, b), tau = gen_tau(c, &b);
  c << b.text() << "; s=" << num(s) << " tau=" << num(tau);
  if (b.dim > 2) c.mark();
  std::vector<unsigned> degs;
  for (unsigned d = 0; d <= std::min<size_t>(b.dim + 3, 11); d++) degs.push_back(d);
  for (size_t i = degs.size(); i-- > 1;) std::swap(degs[i], degs[c.pick(i + 1)]);
  for (unsigned d : degs) check_eval(c, b, *B, s, tau, d, (int)c.pick(4));
}

// defining relations that need no reference at all
PBT_SUB(relations, 1) {
  BasisOpts o;
  BasisDesc b = gen_basis(c, o);
  auto B = b.make();
  double tau = gen_tau(c, &b);
  c << b.text() << " tau=" << num(tau);
  VectorXd v((long)b.dim);
  if (b.dim > 1) c.mark();
  if (b.nodes.size()) {
    // Kronecker property and partition of unity
    for (long i = 0; i < b.nodes.size(); i++) {
      B->eval_on_window(b.nodes(i), tau, v);
      for (long j = 0; j < v.size(); j++)
        c.require(std::fabs(v(j) - (i == j)) < 1e-9, "Lagrange function is not one at its node and zero at others");
    }
    double s = gen_window_point(c, b);
    B->eval_on_window(s, tau, v);
    close(c, v.sum(), 1, v.cwiseAbs().sum(), 1e-10, "partition of unity");
  } else if (b.kind == LEGENDRE) {
    B->eval_on_window(1.0, tau, v);
    for (long j = 0; j < v.size(); j++) c.require(std::fabs(v(j) - 1) < 1e-10, "P_n(1) != 1");
    B->eval_on_window(-1.0, tau, v);
    for (long j = 0; j < v.size(); j++) c.require(std::fabs(v(j) - (j % 2 ? -1 : 1)) < 1e-10, "P_n(-1) != (-1)^n");
  } else {
    // each function solves (1-alpha)... y'''''' + (alpha) y'' ~ the 4th power law
    // of the exponentials: y'''' = -4 (2k)^4 y for the first four
    double s = gen_window_point(c, b);
    VectorXd d4(6);
    B->eval_on_window(s, tau, v);
    B->eval_derivative_on_window(s, tau, 4, d4);
    L kk = 2 * b.k(), f = -4 * kk * kk * kk * kk;
    for (int j = 0; j < 4; j++)
      close(c, d4(j), f * (L)v(j), b.scale(s, tau, 4), 1e-10, "fourth derivative law");
  }
}
