// C10: interpolation meets the waypoints with the promised smoothness, and
// depends only on the arguments of the call.
#include "interp.hpp"
using namespace gen;
using gsplines::GSpline;
using gsplines::Interpolator;

namespace {
const double TOL = SOLVE_TOL;

template <class F>
void rejects(Case &c, const std::string &what, F f) {
  bool thrown = false;
  try {
    f();
  } catch (const std::exception &) {
    thrown = true;
  }
  c.require(thrown, what + " was accepted");
}
}  // namespace

// one call of each form
PBT_SUB(single, 4) {
  ProblemOpts o;
  if (c.chance(1, 20)) {
    o.max_intervals = 40;
    o.max_codom = 16;
    o.max_dim = 6;
  }
  Problem p = gen_problem(c, o);
  int form = (int)c.pick(4);
  c << p.text() << " form=" << form;
  c.label("form", form);
  c.label("dim", p.basis.dim);
  if (p.n() > 1) c.mark();
  auto b = p.basis.make();
  switch (form) {
    case 0: check_spline(c, p, Interpolator(p.codom(), p.n(), *b).interpolate(p.taus, p.wp)); break;
    case 1: check_spline(c, p, gsplines::interpolate(p.taus, p.wp, *b)); break;
    case 2: {
      Interpolator it(p.codom(), p.n(), *b);
      b.reset();  // the interpolator keeps its own basis
      check_coeffs(c, p, VectorXd(it.solve_interpolation(p.taus, p.wp)));
      break;
    }
    default: {
      p.basis.kind = LEGENDRE;
      p.basis.nodes.resize(0);
      if (c.coin()) p.taus = gen_interp_taus(c, p.basis, p.n(), o);
      else if (p.taus.maxCoeff() > 60 * p.taus.minCoeff()) c.discard();
      check_spline(c, p, gsplines::pw_polynomial_interpolation(p.taus, p.wp, p.basis.dim));
    }
  }
}

// a history of calls on one interpolator, some of them rejected
PBT_SUB(history, 4) {
  ProblemOpts o;
  o.max_intervals = 5;
  o.max_codom = 3;
  o.max_dim = 8;
  Problem p = gen_problem(c, o);
  c << p.text();
  auto b = p.basis.make();
  Interpolator it(p.codom(), p.n(), *b);
  size_t steps = (size_t)c.integer(2, 5);
  std::vector<std::pair<Problem, GSpline>> kept;
  if (steps > 1) c.mark();
  for (size_t s = 0; s < steps; s++) {
    int what = (int)c.pick(6);
    if (what == 1 || what == 2) p.taus = gen_interp_taus(c, p.basis, p.n(), o);
    if (what == 0 || what == 2) p.wp = gen_waypoints(c, p.n() + 1, p.codom());
    c << " | step " << what;
    if (what == 4) {
      VectorXd coef = it.solve_interpolation(p.taus, p.wp);
      it.get_coeff_derivative_wrt_tau(coef, p.taus, c.pick(p.n()));
    }
    if (what == 5) {
      int bad = (int)c.pick(3);
      if (bad == 0) {
        VectorXd t = p.taus;
        t((long)c.pick(p.n())) = c.of({0.0, -1.0, 1e-8});
        rejects(c, "a too small interval length", [&] { it.interpolate(t, p.wp); });
      } else if (bad == 1) {
        MatrixXd w = gen_waypoints(c, p.n() + (c.coin() ? 2 : 0), p.codom());
        rejects(c, "a wrong number of waypoints", [&] { it.interpolate(p.taus, w); });
      } else {
        MatrixXd w = gen_waypoints(c, p.n() + 1, p.codom() + 1);
        rejects(c, "waypoints of another dimension", [&] { it.interpolate(p.taus, w); });
      }
    }
    GSpline g = it.interpolate(p.taus, p.wp);
    check_spline(c, p, g);
    kept.emplace_back(p, g);
  }
  // splines handed out before are not affected by later calls
  for (auto &k : kept) check_coeffs(c, k.first, k.second.get_coefficients());
}

PBT_SUB(rejections, 1) {
  Problem p = gen_problem(c);
  int what = (int)c.pick(8);
  c << p.text() << " what=" << what;
  c.label("rejection", what);
  c.mark();
  auto b = p.basis.make();
  switch (what) {
    case 0: {  // odd dimension
      size_t d = 2 * (size_t)c.integer(0, 5) + 1;
      rejects(c, "a basis of odd dimension", [&] { Interpolator(p.codom(), p.n(), gb::BasisLegendre(d)); });
      if (d > 1) rejects(c, "a basis of odd dimension", [&] { gsplines::interpolate(p.taus, p.wp, gb::BasisLagrangeGaussLobatto(d)); });
      rejects(c, "an odd dimension", [&] { gsplines::pw_polynomial_interpolation(p.taus, p.wp, d); });
      break;
    }
    case 1: {
      VectorXd t(p.taus.size() + 1);
      t << p.taus, 1.0;
      rejects(c, "too many intervals", [&] { gsplines::interpolate(t, p.wp, *b); });
      rejects(c, "too many intervals", [&] { Interpolator(p.codom(), p.n(), *b).solve_interpolation(t, p.wp); });
      break;
    }
    case 2: {
      VectorXd t = p.taus.head(p.taus.size() - 1);
      rejects(c, "too few intervals", [&] { gsplines::interpolate(t, p.wp, *b); });
      rejects(c, "too few intervals", [&] { Interpolator(p.codom(), p.n(), *b).interpolate(t, p.wp); });
      break;
    }
    case 3: {
      VectorXd t = p.taus;
      t((long)c.pick(p.n())) = c.of({0.0, -0.5, -1e3, 5e-7});
      rejects(c, "a too small interval length", [&] { gsplines::interpolate(t, p.wp, *b); });
      rejects(c, "a too small interval length", [&] { gsplines::pw_polynomial_interpolation(t, p.wp, 4); });
      rejects(c, "a too small interval length", [&] { Interpolator(p.codom(), p.n(), *b).solve_interpolation(t, p.wp); });
      break;
    }
    case 4: {
      MatrixXd w = gen_waypoints(c, p.n() + 1 + (c.coin() ? 1 : -1), p.codom());
      rejects(c, "a wrong number of waypoints", [&] { gsplines::interpolate(p.taus, w, *b); });
      rejects(c, "a wrong number of waypoints", [&] { Interpolator(p.codom(), p.n(), *b).solve_interpolation(p.taus, w); });
      break;
    }
    case 5: {
      rejects(c, "an interpolator without components", [&] { Interpolator(0, p.n(), *b); });
      rejects(c, "an interpolator without intervals", [&] { Interpolator(p.codom(), 0, *b); });
      rejects(c, "an interpolator without basis functions", [&] { Interpolator(p.codom(), p.n(), gb::BasisLegendre(0)); });
      break;
    }
    case 6: {
      size_t rows = c.pick(2);
      rejects(c, "less than two waypoints", [&] { gsplines::interpolate(p.taus, p.wp.topRows((long)rows), *b); });
      rejects(c, "less than two waypoints", [&] { gsplines::interpolate(VectorXd(0), p.wp.topRows((long)rows), *b); });
      rejects(c, "less than two waypoints", [&] { gsplines::pw_polynomial_interpolation(VectorXd(0), p.wp.topRows((long)rows), 4); });
      break;
    }
    default: {
      if (p.codom() == 1 && c.coin()) c.discard();
      MatrixXd w = gen_waypoints(c, p.n() + 1, p.codom() == 1 || c.coin() ? p.codom() + 1 : p.codom() - 1);
      rejects(c, "waypoints of another dimension", [&] { Interpolator(p.codom(), p.n(), *b).solve_interpolation(p.taus, w); });
      rejects(c, "waypoints of another dimension", [&] { Interpolator(p.codom(), p.n(), *b).interpolate(p.taus, w); });
    }
  }
}

// interval lengths so extreme that the linear system may not be solvable in
// doubles: the call may fail, but then with an exception, and it never answers
// with the solution of an earlier call
PBT_SUB(hopeless, 0.3) {
  ProblemOpts o;
  o.max_intervals = 4;
  o.max_codom = 2;
  Problem p = gen_problem(c, o);
  c << p.text();
  auto b = p.basis.make();
  Interpolator it(p.codom(), p.n(), *b);
  Problem q = p;
  for (long i = 0; i < q.wp.rows(); i++) q.wp.row(i).array() += 20.0;
  VectorXd before = it.solve_interpolation(q.taus, q.wp);
  for (long i = 0; i < p.taus.size(); i++) p.taus(i) = std::pow(10.0, c.real(-5.9, 6));
  c << " then taus=" << show(p.taus);
  if (p.n() > 1) c.mark();
  bool solved = true;
  VectorXd after;
  try {
    after = it.solve_interpolation(p.taus, p.wp);
  } catch (const std::exception &) {
    solved = false;
  }
  if (solved) {
    c.require(after.size() == before.size(), "number of coefficients");
    c.require(after != before, "the coefficients are those of the previous problem");
  }
  c.label(solved ? "solved" : "refused");
  // and the interpolator still works
  check_spline(c, q, it.interpolate(q.taus, q.wp));
}

// random splines are interpolating splines on the domain asked for (their
// waypoints come from the library's own random device, so only what must hold
// for all of them is judged)
PBT_SUB(random_splines, 0.2) {
  BasisOpts bo;
  bo.even = true;
  bo.min_dim = 2;
  bo.max_dim = 8;
  bo.max_lagrange = 6;
  bo.alpha_lo = 0.05;
  bo.alpha_hi = 0.9;
  Problem p;
  p.basis = gen_basis(c, bo);
  size_t codom = (size_t)c.size(1, 6);
  double t0 = c.real(-20, 20), len = c.logreal(0.05, 60);
  // the parameter of basis0101 cannot express very short intervals accurately
  if (p.basis.kind == B0101) len += 4;
  bool defaulted = c.chance(1, 4);
  if (defaulted) {
    p.basis = BasisDesc();
    p.basis.dim = 6;
  }
  c << p.basis.text() << " codom=" << codom << " t0=" << num(t0) << " length=" << num(len) << " default=" << defaulted;
  std::pair<double, double> dom(t0, t0 + len);
  GSpline g = defaulted ? gsplines::random_gspline(dom, codom) : gsplines::random_gspline(dom, codom, *p.basis.make());
  c.mark();
  c.require(g.get_codom_dim() == codom, "components of a random spline");
  c.require(g.get_number_of_intervals() >= 1, "intervals of a random spline");
  close(c, g.get_domain().first, (L)dom.first, fabsl((L)t0) + len, 1e-12, "start of a random spline");
  close(c, g.get_domain().second, (L)dom.second, fabsl((L)t0) + len, 1e-12, "end of a random spline");
  p.taus = g.get_interval_lengths();
  c.require(p.taus.minCoeff() > 0, "a random spline with an empty interval");
  close(c, p.taus.sum(), (L)dom.second - (L)dom.first, (L)len + fabsl((L)t0), 1e-12, "sum of the interval lengths of a random spline");
  c.require(g.get_basis_name() == p.basis.make()->get_name() && g.get_basis_dim() == p.basis.dim, "basis of a random spline");
  if (p.basis.kind == B0101) p.basis.alpha = g.get_basis().get_parameters()(0);
  else c.require(g.get_basis() == *p.basis.make(), "basis of a random spline");
  VectorXd bp = g.get_domain_breakpoints();
  p.wp = g(bp);
  c.require(p.wp.allFinite(), "a random spline without values");
  check_coeffs(c, p, g.get_coefficients());
}
