// C07: derivatives of a spline
#include "gens.hpp"
using namespace gen;

// magnitude of the rounding of the derivative coefficients: |D||c|
static L carry(const SplineDesc &s, const gsplines::GSpline &d) {
  L m = 0;
  (void)s;
  for (long i = 0; i < d.get_coefficients().size(); i++) m = std::max(m, fabsl((L)d.get_coefficients()(i)));
  return m;
}
static L deriv_scale(const SplineDesc &s, const gsplines::GSpline &d, L t, size_t k, unsigned deg) {
  size_t iv = s.interval(t);
  L sc;
  s.value_in(iv, t, k, deg, &sc);
  L w = 2 * (t - s.left(iv)) / (L)s.taus((long)iv) - 1;
  L extra = s.basis.scale(w, s.taus((long)iv), 0) * carry(s, d) * (L)s.basis.dim;
  // rounding of the window coordinate seen through the derivative spline
  L span = fabsl((L)s.t0) + fabsl(t) + (s.left(s.n()) - (L)s.t0);
  return sc + extra * (1 + span / (L)s.taus((long)iv) * 1e-4L) + 1e-13L;
}

PBT_SUB(value, 5) {
  SplineOpts o;
  o.basis.max_dim = 12;
  o.max_intervals = 10;
  o.tau_lo = 0.05;
  SplineDesc s = gen_spline(c, o);
  unsigned deg = (unsigned)c.size(0, (int64_t)std::min<size_t>(s.basis.dim + 1, 6));
  c << s.text() << " deg=" << deg;
  c.label("kind", s.basis.kind);
  c.label("deg", deg);
  if (deg > 0 && s.basis.dim > 2) c.mark();
  gsplines::GSpline g = s.make();
  VectorXd t = gen_times(c, s);
  c << " t=" << show(t);
  int how = (int)c.pick(5);
  MatrixXd v;
  gsplines::GSpline d = g.derivate(deg);
  if (how == 0) v = d(t);
  else if (how == 1) v = (*g.deriv(deg))(t);
  else if (how == 2) {
    const gsplines::functions::FunctionBase &fb = g;
    v = fb.derivate(deg)(t);
  } else if (how == 3) {
    // one at a time
    std::unique_ptr<gsplines::functions::FunctionBase> p = g.clone();
    for (unsigned i = 0; i < deg; i++) p = p->deriv();
    v = (*p)(t);
  } else v = gsplines::functions::FunctionExpression(g).derivate(deg)(t);
  c.require(d.get_domain() == g.get_domain() && d.get_codom_dim() == g.get_codom_dim() &&
                d.get_interval_lengths() == g.get_interval_lengths(),
            "the derivative lives on another domain or codomain");
  for (long i = 0; i < t.size(); i++)
    for (size_t k = 0; k < s.codom; k++)
      close(c, v(i, (long)k), s.value((L)t(i), k, deg), deriv_scale(s, d, t(i), k, deg), how == 3 ? 1e-7 : 1e-8,
            "derivative " + std::to_string(deg) + " at t=" + num(t(i)) + " component " + std::to_string(k));
}

// deriving a+b times is deriving a times and then b times; deriving does not
// touch the original
PBT_SUB(semigroup, 2) {
  SplineOpts o;
  o.basis.max_dim = 9;
  o.max_intervals = 6;
  o.tau_lo = 0.1;
  SplineDesc s = gen_spline(c, o);
  unsigned a = (unsigned)c.size(0, 3), b = (unsigned)c.size(0, 3);
  c << s.text() << " a=" << a << " b=" << b;
  if (a + b > 0) c.mark();
  gsplines::GSpline g = s.make();
  VectorXd before = g.get_coefficients();
  gsplines::GSpline d1 = g.derivate(a + b), da = g.derivate(a), d2 = da.derivate(b);
  c.require(g.get_coefficients() == before, "deriving changed the spline");
  c.require(d1.get_basis() == g.get_basis(), "basis of the derivative");
  // compare against the size of what is being cancelled: the largest
  // coefficient of every intermediate derivative carried through the matrices
  const MatrixXd &Db = g.get_basis().get_derivative_matrix_block(b);
  double tmin = s.taus.minCoeff();
  double f = s.basis.kind == B0101 ? 1.0 : std::pow(2.0 / tmin, (double)b);
  double cab = 0;
  {
    const MatrixXd &Da = g.get_basis().get_derivative_matrix_block(a);
    double fa = s.basis.kind == B0101 ? 1.0 : std::pow(2.0 / tmin, (double)a);
    cab = Da.cwiseAbs().rowwise().sum().maxCoeff() * fa * s.coeffs.cwiseAbs().maxCoeff();
  }
  L sc = (L)(Db.cwiseAbs().rowwise().sum().maxCoeff() * f * cab);
  if (s.basis.nodes.size()) sc = std::max<L>(sc, node_matrix_scale(s.basis.nodesL(), a + b) * powl(2 / (L)tmin, (L)(a + b)) * (L)s.coeffs.cwiseAbs().sum());
  for (long i = 0; i < d1.get_coefficients().size(); i++)
    close(c, d1.get_coefficients()(i), (L)d2.get_coefficients()(i), sc + 1e-13L, 1e-8, "derivative of the derivative");
}
