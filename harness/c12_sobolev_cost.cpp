// C12: value and gradient of the Sobolev cost of interpolating splines.
#include "sobolev_ref.hpp"
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
using namespace gen;
using gsplines::functional_analysis::SobolevNorm;

namespace {
Weights gen_weights(Case &c, const BasisDesc &b) {
  Weights w;
  size_t n = c.chance(1, 50) ? 0 : (size_t)c.size(1, 4);
  unsigned maxdeg = b.kind == B0101 ? 3 : (unsigned)std::min<size_t>(b.dim, 6);
  for (size_t i = 0; i < n; i++)
    w.emplace_back(b.kind == B0101 && c.chance(2, 3) ? (c.coin() ? 1 : 3) : c.pick(maxdeg + 1), c.pick(4) == 0 ? 1.0 : c.pick(8) == 0 ? 0.0 : c.pick(6) == 0 ? -0.5 : c.pick(4) == 0 ? c.logreal(1e-5, 100) : c.real(0.05, 3));
  return w;
}
std::string wtext(const Weights &w) {
  std::ostringstream o;
  for (auto &x : w) o << " w[" << x.first << "]=" << num(x.second);
  return o.str();
}
}  // namespace

PBT_SUB(cost_and_gradient, 4) {
  ProblemOpts o;
  o.max_intervals = 4;
  o.max_codom = 3;
  o.max_dim = 8;
  o.tau_lo = 0.4;
  o.tau_hi = 2.5;
  if (c.chance(1, 25)) o.max_intervals = 12, o.max_dim = 6, o.max_codom = 8;
  Problem p = gen_problem(c, o);
  Weights w = gen_weights(c, p.basis);
  c << p.text() << wtext(w);
  auto b = p.basis.make();
  SobolevNorm sn(p.wp, *b, w);
  b.reset();
  if (w.size() > 1 || p.n() > 1) c.mark();
  c.label("weights", w.size());
  // the gradient of basis0101 is offered for the degrees 1 and 3 only
  bool grad = true;
  if (p.basis.kind == B0101)
    for (auto &x : w) grad = grad && (x.first == 1 || x.first == 3);
  c.label(grad ? "with gradient" : "cost only");
  size_t steps = (size_t)c.integer(1, 3);
  std::vector<VectorXd> asked;
  for (size_t s = 0; s < steps; s++) {
    if (s) p.taus = c.chance(1, 3) ? asked[c.pick(asked.size())] : gen_interp_taus(c, p.basis, p.n(), o);
    asked.push_back(p.taus);
    CostRef r = cost_reference(p, w);
    bool grad_first = c.coin();
    VectorXd g((long)p.n());
    g.setConstant(-77.0);
    if (grad && grad_first) sn.deriv_wrt_interval_len(p.taus, g);
    double v = sn(p.taus);
    if (grad && !grad_first) sn.deriv_wrt_interval_len(p.taus, g);
    // 0 cost problems (all waypoints equal, no degree zero) have scale ~ 0
    L tiny = 1e-290L;
    for (auto &x : w) tiny += 1e-9L * (L)p.wp.squaredNorm() * fabsl((L)x.second) * powl(2 / (L)p.taus.minCoeff(), 2.0L * x.first);
    close(c, v, r.cost, r.scale + tiny, 1e-6, "cost");
    for (size_t i = 0; grad && i < p.n(); i++)
      close(c, g((long)i), r.grad[i], r.gscale[i] + tiny / (L)p.taus.minCoeff(), 1e-6, "gradient component " + std::to_string(i));
  }
}

// the cost is the integral of the squared derivatives of the spline returned by
// the interpolation functions
PBT_SUB(matches_spline, 1) {
  ProblemOpts o;
  o.max_intervals = 5;
  o.max_dim = 8;
  o.tau_lo = 0.4;
  o.tau_hi = 2.5;
  Problem p = gen_problem(c, o);
  Weights w = gen_weights(c, p.basis);
  c << p.text() << wtext(w);
  c.mark();
  auto b = p.basis.make();
  SobolevNorm sn(p.wp, *b, w);
  double v = sn(p.taus);
  gsplines::GSpline g = gsplines::interpolate(p.taus, p.wp, *b);
  SplineDesc d;
  d.basis = p.basis;
  d.taus = p.taus;
  d.codom = p.codom();
  d.coeffs = g.get_coefficients();
  L cost = 0, scale = 0;
  int q = p.basis.kind == B0101 ? 40 : (int)p.basis.dim + 1;
  auto &gw = gauss(q);
  for (auto &x : w)
    for (size_t i = 0; i < p.n(); i++)
      for (int k = 0; k < q; k++) {
        L tau = (L)p.taus((long)i), s = gw.first[(size_t)k], wt = gw.second[(size_t)k] * tau / 2 * (L)x.second;
        VL phi = p.basis.eval(s, tau, (unsigned)x.first);
        for (size_t comp = 0; comp < p.codom(); comp++) {
          L val = 0, a = 0;
          for (size_t j = 0; j < p.basis.dim; j++) {
            val += phi[j] * d.coef(i, comp, j);
            a += fabsl(phi[j] * d.coef(i, comp, j));
          }
          cost += wt * val * val;
          scale += fabsl(wt) * a * a;
        }
      }
  L tiny = 0;
  for (auto &x : w) tiny += 1e-9L * (L)p.wp.squaredNorm() * fabsl((L)x.second) * powl(2 / (L)p.taus.minCoeff(), 2.0L * x.first);
  close(c, v, cost, scale + tiny + 1e-290L, 1e-7, "cost against the integral over the interpolating spline");
}

PBT_SUB(rejections, 0.3) {
  ProblemOpts o;
  o.max_intervals = 4;
  o.max_dim = 6;
  o.tau_lo = 0.4;
  o.tau_hi = 2.5;
  Problem p = gen_problem(c, o);
  Weights w{{1, 0.5}, {3, 2.0}};
  auto b = p.basis.make();
  SobolevNorm sn(p.wp, *b, w);
  int what = (int)c.pick(5);
  c << p.text() << " what=" << what;
  c.label("rejection", what);
  c.mark();
  VectorXd t = p.taus, g((long)p.n()), more(t.size() + 1);
  more << t, 1.0;
  if (what == 2) t((long)c.pick(p.n())) = c.of({0.0, -1.0, 5e-7});
  bool thrown = false;
  try {
    switch (what) {
      case 0: sn(more); break;
      case 1: sn.deriv_wrt_interval_len(more, g); break;
      case 2: c.coin() ? (void)sn(t) : sn.deriv_wrt_interval_len(t, g); break;
      case 3: {
        VectorXd small((long)p.n() - 1);
        sn.deriv_wrt_interval_len(t, small);
        break;
      }
      default: c.coin() ? (void)sn(t.head(t.size() - 1)) : sn.deriv_wrt_interval_len(t.head(t.size() - 1), g);
    }
  } catch (const std::exception &) {
    thrown = true;
  }
  c.require(thrown, "a request that does not fit was accepted");
  CostRef r = cost_reference(p, w);
  L tiny = 1e-290L;
  for (auto &x : w) tiny += 1e-9L * (L)p.wp.squaredNorm() * fabsl((L)x.second) * powl(2 / (L)p.taus.minCoeff(), 2.0L * x.first);
  close(c, sn(p.taus), r.cost, r.scale + tiny, 1e-6, "cost after a rejected request");
}
