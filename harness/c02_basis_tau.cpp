// C02: derivative of the basis (and of its time derivatives) with respect to
// the interval length
#include "gens.hpp"
using namespace gen;

static VL dtau_ref(const BasisDesc &b, L s, L tau, unsigned deg) {
  if (b.kind != B0101) {
    VL r = b.eval(s, tau, deg);
    for (auto &x : r) x *= -(L)deg / tau;
    return r;
  }
  // g(tau) = (2k)^d h^(d)(tau k s)  ->  (2k)^d k s h^(d+1) = value(d+1) * s/2
  VL r = b.eval(s, tau, deg + 1);
  for (auto &x : r) x *= s / 2;
  return r;
}
static L dtau_scale(const BasisDesc &b, L s, L tau, unsigned deg) {
  if (b.kind != B0101) return b.scale(s, tau, deg) * (L)deg / tau;
  return b.scale(s, tau, deg + 1);
}

PBT_SUB(closed_form, 3) {
  BasisDesc b = gen_basis(c);
  auto B = b.make();
  c << b.text();
  c.label("kind", b.kind);
  size_t n = (size_t)c.size(1, 6);
  for (size_t i = 0; i < n; i++) {
    double s = gen_window_point(c, b), tau = gen_tau(c, &b);
    unsigned deg = (unsigned)c.size(0, b.kind == B0101 ? 8 : (int64_t)std::min<size_t>(b.dim + 1, 8));
    if (deg > 0) c.mark();
    c << "; s=" << num(s) << " tau=" << num(tau) << " deg=" << deg;
    VL ref = dtau_ref(b, s, tau, deg);
    L snap = 0;
    if (b.nodes.size())
      for (long j = 0; j < b.nodes.size(); j++)
        if (fabs(s - b.nodes(j)) < 2.1e-9 && s != b.nodes(j))
          snap = b.scale(s, tau, deg + 1) * tau / 2 * 3e-9L * (L)deg / tau;
    bool strided = c.coin();
    VectorXd out((long)b.dim);
    if (strided) {
      MatrixXd m = MatrixXd::Constant(2, (long)b.dim, 4.5);
      B->eval_derivative_wrt_tau_on_window(s, tau, deg, m.row(0));
      for (long j = 0; j < (long)b.dim; j++) c.require(m(1, j) == 4.5, "wrote outside its buffer");
      out = m.row(0).transpose();
    } else {
      out.setConstant(99);
      B->eval_derivative_wrt_tau_on_window(s, tau, deg, out);
    }
    for (size_t j = 0; j < b.dim; j++)
      close(c, out((long)j), ref[j], 1, 1e-10 * (double)dtau_scale(b, s, tau, deg) + (double)snap + 1e-300,
            "d/dtau of function " + std::to_string(j) + " deg " + std::to_string(deg));
  }
}

// against a central difference of the evaluation of the same object
PBT_SUB(difference, 1) {
  BasisDesc b = gen_basis(c);
  auto B = b.make();
  double s = gen_window_point(c, b), tau = gen_tau(c, &b, 0.1, 20);
  for (long j = 0; j < b.nodes.size(); j++)
    if (s != b.nodes(j) && fabs(s - b.nodes(j)) < 1e-7) c.discard();
  unsigned deg = (unsigned)c.size(0, 5);
  c << b.text() << " s=" << num(s) << " tau=" << num(tau) << " deg=" << deg;
  if (deg > 0) c.mark();
  double h = 1e-3 * tau;
  if (b.kind == B0101) h = std::min(h, 1e-3 / (double)b.k());
  auto at = [&](double t) {
    VectorXd v((long)b.dim);
    B->eval_derivative_on_window(s, t, deg, v);
    return v;
  };
  // sixth order central difference
  VectorXd fd = (45.0 * (at(tau + h) - at(tau - h)) - 9.0 * (at(tau + 2 * h) - at(tau - 2 * h)) +
                 (at(tau + 3 * h) - at(tau - 3 * h))) / (60.0 * h);
  VectorXd out((long)b.dim);
  B->eval_derivative_wrt_tau_on_window(s, tau, deg, out);
  L sc = b.scale(s, tau, deg) * (1 + deg) / tau + b.scale(s, tau, deg + 1);
  for (long j = 0; j < (long)b.dim; j++) close(c, out(j), fd(j), sc, 1e-6, "difference quotient, function " + std::to_string(j));
}
