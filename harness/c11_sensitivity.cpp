// C11: derivative of the interpolating coefficients with respect to the
// interval lengths.
#include "interp.hpp"
using namespace gen;
using gsplines::Interpolator;

namespace {
// A dc + (dA/dtau_i) c = 0, condition by condition
void check_deriv(Case &c, const Problem &p, const VectorXd &co, size_t idx, const VectorXd &dc) {
  size_t dim = p.basis.dim, n = p.n(), k = p.codom();
  c.require(dc.size() == co.size(), "size of the derivative of the coefficients");
  L backward = 1e-5L * matrix_norm(p) * (L)dc.cwiseAbs().maxCoeff();
  for (auto &r : conditions(n, dim)) {
    for (size_t comp = 0; comp < k; comp++) {
      L v = 0, sc = 0;
      for (auto &t : r.terms) {
        L tau = (L)p.taus((long)t.interval);
        VL phi = p.basis.eval(t.s, tau, t.deg);
        long o = (long)((t.interval * k + comp) * dim);
        for (size_t j = 0; j < dim; j++) {
          L q = phi[j] * (L)dc(o + (long)j);
          v += t.sign * q;
          sc += fabsl(q);
        }
        if (t.interval == idx) {
          VL d = basis_tau_ref(p.basis, t.s, tau, t.deg);
          for (size_t j = 0; j < dim; j++) {
            L q = d[j] * (L)co(o + (long)j);
            v += t.sign * q;
            sc += fabsl(q);
          }
        }
      }
      sc += backward;
      L h = 1e30L, m = (L)dc.cwiseAbs().maxCoeff() + (L)co.cwiseAbs().maxCoeff() / (L)p.taus((long)idx) + 1e-300L;
      for (auto &t : r.terms) h = std::min(h, (L)p.taus((long)t.interval));
      sc += m * powl(2 / h, (L)r.terms[0].deg);
      close(c, (double)v, 0, sc, SOLVE_TOL, "differentiated condition: " + r.what + " (derivative degree " + std::to_string(r.terms[0].deg) + ")");
    }
  }
}
}  // namespace

PBT_SUB(exact, 5) {
  ProblemOpts o;
  o.max_intervals = 7;
  o.max_codom = 3;
  o.max_dim = 8;
  if (c.chance(1, 20)) o.max_intervals = 15, o.max_dim = 6;
  Problem p = gen_problem(c, o);
  c << p.text();
  auto b = p.basis.make();
  Interpolator it(p.codom(), p.n(), *b);
  size_t steps = (size_t)c.integer(1, 5);
  if (p.n() > 1) c.mark();
  VectorXd co;
  for (size_t s = 0; s < steps; s++) {
    int what = s ? (int)c.pick(4) : 0;
    if (s && what >= 2) p.taus = gen_interp_taus(c, p.basis, p.n(), o);
    if (s && what == 3) p.wp = gen_waypoints(c, p.n() + 1, p.codom());
    size_t idx = c.pick(p.n());
    c << " | step " << what << " idx=" << idx;
    c.label(p.n() == 1 ? "only interval" : idx == 0 ? "first interval" : idx + 1 == p.n() ? "last interval" : "inner interval");
    if (s == 0 || what >= 2) {
      if (c.chance(1, 3)) {
        Interpolator other(p.codom(), p.n(), *b);
        co = other.solve_interpolation(p.taus, p.wp);
      } else {
        co = it.solve_interpolation(p.taus, p.wp);
      }
    }
    VectorXd before = co;
    VectorXd dc;
    if (c.coin()) {
      dc = it.get_coeff_derivative_wrt_tau(co, p.taus, idx);
      c.require(co == before, "the given coefficients were changed");
    } else {
      // the coefficients as the interpolator hands them out
      const Eigen::Ref<const VectorXd> r = it.solve_interpolation(p.taus, p.wp);
      dc = it.get_coeff_derivative_wrt_tau(r, p.taus, idx);
      co = r;
    }
    check_deriv(c, p, co, idx, dc);
  }
}

// finite differences of the solution map itself: does not rely on the model of
// the conditions
PBT_SUB(differences, 1) {
  ProblemOpts o;
  o.max_intervals = 4;
  o.max_codom = 2;
  o.max_dim = 6;
  o.tau_lo = 0.6;
  o.tau_hi = 1.7;
  Problem p = gen_problem(c, o);
  if (p.basis.kind == LAGRANGE && p.basis.dim > 4) c.discard();
  c << p.text();
  auto b = p.basis.make();
  Interpolator it(p.codom(), p.n(), *b);
  size_t idx = c.pick(p.n());
  c << " idx=" << idx;
  c.mark();
  VectorXd co = it.solve_interpolation(p.taus, p.wp);
  VectorXd dc = it.get_coeff_derivative_wrt_tau(co, p.taus, idx);
  double tau = p.taus((long)idx), h = 2e-3 * tau;
  auto at = [&](double d) {
    VectorXd t = p.taus;
    t((long)idx) += d;
    return VectorXd(Interpolator(p.codom(), p.n(), *b).solve_interpolation(t, p.wp));
  };
  VectorXd d1 = (at(h) - at(-h)) / (2 * h), d2 = (at(h / 2) - at(-h / 2)) / h, d4 = (at(h / 4) - at(-h / 4)) / (h / 2);
  VectorXd r1 = (4 * d2 - d1) / 3, r2 = (4 * d4 - d2) / 3;
  VectorXd ref = (16 * r2 - r1) / 15;
  L sc = (L)ref.cwiseAbs().maxCoeff() + (L)co.cwiseAbs().maxCoeff() / (L)tau + 1e-300L;
  for (long i = 0; i < dc.size(); i++) close(c, dc(i), (L)ref(i), sc, 1e-5, "derivative of a coefficient against differences");
}

PBT_SUB(rejections, 1) {
  Problem p = gen_problem(c);
  auto b = p.basis.make();
  Interpolator it(p.codom(), p.n(), *b);
  VectorXd co = it.solve_interpolation(p.taus, p.wp);
  int what = (int)c.pick(4);
  c << p.text() << " what=" << what;
  c.mark();
  bool thrown = false;
  try {
    if (what == 0) it.get_coeff_derivative_wrt_tau(co, p.taus, p.n() + c.pick(3));
    if (what == 1) {
      VectorXd t(p.taus.size() + 1);
      t << p.taus, 1.0;
      it.get_coeff_derivative_wrt_tau(co, t, c.pick(p.n()));
    }
    if (what == 2) {
      VectorXd t = p.taus;
      t((long)c.pick(p.n())) = c.of({0.0, -1.0, 1e-8});
      it.get_coeff_derivative_wrt_tau(co, t, c.pick(p.n()));
    }
    if (what == 3) {
      VectorXd k = c.coin() ? VectorXd(co.head(co.size() - 1)) : VectorXd(VectorXd::Ones(co.size() + 1));
      it.get_coeff_derivative_wrt_tau(k, p.taus, c.pick(p.n()));
    }
  } catch (const std::exception &) {
    thrown = true;
  }
  c.require(thrown, "a request that does not fit was accepted");
  size_t idx = c.pick(p.n());
  VectorXd dc = it.get_coeff_derivative_wrt_tau(co, p.taus, idx);
  check_deriv(c, p, co, idx, dc);
}

// extreme interval lengths: the system may not be solvable in doubles, which
// raises an exception and leaves the interpolator usable
PBT_SUB(hopeless, 0.3) {
  ProblemOpts o;
  o.max_intervals = 4;
  o.max_codom = 2;
  Problem p = gen_problem(c, o);
  auto b = p.basis.make();
  Interpolator it(p.codom(), p.n(), *b);
  VectorXd co = it.solve_interpolation(p.taus, p.wp);
  VectorXd t = p.taus;
  for (long i = 0; i < t.size(); i++) t(i) = std::pow(10.0, c.real(-5.9, 6));
  c << p.text() << " then taus=" << show(t);
  if (p.n() > 1) c.mark();
  bool solved = true;
  try {
    VectorXd d = it.get_coeff_derivative_wrt_tau(co, t, c.pick(p.n()));
  } catch (const std::exception &) {
    solved = false;
  }
  c.label(solved ? "solved" : "refused");
  size_t idx = c.pick(p.n());
  VectorXd dc = it.get_coeff_derivative_wrt_tau(co, p.taus, idx);
  check_deriv(c, p, co, idx, dc);
}
