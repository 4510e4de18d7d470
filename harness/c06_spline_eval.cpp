// C06: a spline is the piecewise function of its coefficients
#include "gens.hpp"
using namespace gen;

static void compare(Case &c, const SplineDesc &s, const VectorXd &t, const MatrixXd &v, unsigned deg, double tol) {
  c.require(v.rows() == t.size() && v.cols() == (long)s.codom, "result has a wrong size");
  for (long i = 0; i < t.size(); i++)
    for (size_t k = 0; k < s.codom; k++) {
      L sc;
      L ref = s.value((L)t(i), k, deg, &sc);
      close(c, v(i, (long)k), ref, sc + 1e-14L, tol, "value at t=" + num(t(i)) + " component " + std::to_string(k));
    }
}

PBT_SUB(value, 6) {
  SplineOpts o;
  o.max_intervals = 20;
  o.max_codom = 8;
  SplineDesc s = gen_spline(c, o);
  c << s.text();
  if (s.n() > 1 && s.basis.dim > 1) c.mark();
  c.label("kind", s.basis.kind);
  c.label(s.dyadic ? "exact breakpoints" : "rounded breakpoints");
  gsplines::GSpline g = s.make();
  size_t calls = (size_t)c.size(1, 4);
  for (size_t q = 0; q < calls; q++) {
    VectorXd t = gen_times(c, s);
    c << "; t=" << show(t);
    MatrixXd v;
    switch (c.pick(5)) {
      case 0: v = g(t); break;
      case 1: v = g.value(t); break;
      case 2: {
        v = MatrixXd::Constant(t.size(), (long)s.codom, 7);
        g.value(t, v);
        break;
      }
      case 3: {  // destination is a block of a larger matrix
        MatrixXd big = MatrixXd::Constant(t.size() + 2, (long)s.codom + 2, 3.5);
        g.value(t, big.block(1, 1, t.size(), (long)s.codom));
        for (long i = 0; i < big.rows(); i++)
          for (long j = 0; j < big.cols(); j++)
            if (i < 1 || j < 1 || i > t.size() || j > (long)s.codom) c.require(big(i, j) == 3.5, "wrote outside its buffer");
        v = big.block(1, 1, t.size(), (long)s.codom);
        break;
      }
      default: v = g.to_expression()(t);
    }
    compare(c, s, t, v, 0, 1e-9);
    // point by point gives the same result as all together
    if (t.size() > 1 && c.chance(1, 4)) {
      long i = (long)c.pick((size_t)t.size());
      VectorXd one(1);
      one(0) = t(i);
      MatrixXd w = g(one);
      for (size_t k = 0; k < s.codom; k++) {
        L sc;
        s.value((L)t(i), k, 0, &sc);
        close(c, w(0, (long)k), (L)v(i, (long)k), sc + 1e-14L, 1e-10, "single point against batch");
      }
    }
  }
}

// what the object reports about itself
PBT_SUB(accessors, 2) {
  SplineOpts o;
  SplineDesc s = gen_spline(c, o);
  c << s.text();
  if (s.n() > 1) c.mark();
  bool moved = c.coin();
  auto b = s.basis.make();
  gsplines::GSpline g = moved ? gsplines::GSpline(s.domain(), s.codom, s.n(), *b, VectorXd(s.coeffs), VectorXd(s.taus), "abc")
                              : gsplines::GSpline(s.domain(), s.codom, s.n(), *b, s.coeffs, s.taus, "abc");
  b.reset();  // the spline does not depend on the caller's basis
  c.require(g.get_codom_dim() == s.codom && g.get_number_of_intervals() == s.n() && g.get_basis_dim() == s.basis.dim, "sizes");
  c.require(g.get_domain() == s.domain(), "domain");
  c.require(g.get_coefficients() == s.coeffs && g.get_interval_lengths() == s.taus, "coefficients or interval lengths");
  c.require(g.get_name() == "abc", "name");
  c.require(g.get_basis().get_dim() == s.basis.dim && g.get_basis_name() == g.get_basis().get_name(), "basis");
  VectorXd bp = g.get_domain_breakpoints();
  MatrixXd wp = g.get_waypoints();
  c.require(bp.size() == (long)s.n() + 1 && wp.rows() == (long)s.n() + 1 && wp.cols() == (long)s.codom, "sizes of breakpoints");
  for (size_t i = 0; i <= s.n(); i++) {
    L span = fabsl((L)s.t0) + s.left(s.n()) - (L)s.t0;
    close(c, bp((long)i), s.left(i), span + 1, 1e-13, "breakpoint " + std::to_string(i));
    for (size_t k = 0; k < s.codom; k++) {
      // at an interior breakpoint the interval that ends there owns the value
      // (only decidable when the breakpoints are exact)
      L sc, sc2;
      L a = s.value_in(i == 0 ? 0 : i - 1, s.left(i), k, 0, &sc);
      L b2 = s.value_in(i == s.n() ? i - 1 : i, s.left(i), k, 0, &sc2);
      double w = wp((long)i, (long)k);
      L tolv = 1e-9L * (sc + sc2) + 1e-12L;
      bool okl = fabsl((L)w - a) <= tolv, okr = fabsl((L)w - b2) <= tolv;
      c.require(s.dyadic ? okl : (okl || okr), "waypoint " + std::to_string(i) + " component " + std::to_string(k) + " is " + num(w) + " expected " + num((double)a));
    }
  }
}

// moving the whole spline in time moves its values
PBT_SUB(translation, 1) {
  SplineOpts o;
  SplineDesc s = gen_spline(c, o);
  double d = c.integer(-64, 64) * 0.5;
  SplineDesc r = s;
  r.t0 = s.t0 + d;
  c << s.text() << " shift=" << num(d);
  c.mark();
  VectorXd t = gen_times(c, s);
  VectorXd u = (t.array() + d).matrix();
  if (!s.dyadic)
    for (long i = 0; i < t.size(); i++)
      for (size_t j = 0; j <= s.n(); j++)
        if (fabsl((L)t(i) - s.left(j)) < 1e-9L) c.discard();
  MatrixXd a = s.make()(t), b = r.make()(u);
  for (long i = 0; i < t.size(); i++)
    for (size_t k = 0; k < s.codom; k++) {
      L sc, sc2;
      s.value((L)t(i), k, 0, &sc);
      r.value((L)u(i), k, 0, &sc2);
      close(c, a(i, (long)k), (L)b(i, (long)k), sc + sc2 + 1e-14L, 1e-9, "translated spline");
    }
}

// data whose sizes do not fit together are rejected
PBT_SUB(construction, 1) {
  SplineOpts o;
  SplineDesc s = gen_spline(c, o);
  auto b = s.basis.make();
  size_t n = s.n(), q = s.codom;
  long nc = s.coeffs.size(), nt = s.taus.size();
  int k = (int)c.pick(9);
  std::pair<double, double> dom = s.domain();
  switch (k) {
    case 0: nc += (long)c.integer(1, 8); break;
    case 1: nc -= (long)c.integer(1, nc); break;
    case 2: nt += (long)c.integer(1, 3); break;
    case 3: nt -= (long)c.integer(1, nt); break;
    case 4: n += (size_t)c.integer(1, 3); break;
    case 5: q += (size_t)c.integer(1, 3); break;
    case 6: n = 0, nc = 0, nt = 0; break;  // no pieces, no components: nothing to evaluate
    case 7: q = 0, nc = 0; break;
    default: std::swap(dom.first, dom.second);
  }
  bool moved = c.coin();
  c << s.text() << " built with " << nc << " coefficients, " << nt << " lengths, " << n << " intervals, " << q << " components, domain ["
    << num(dom.first) << "," << num(dom.second) << "]";
  c.label("what", k);
  c.mark();
  VectorXd co = VectorXd::Ones(nc), ta = VectorXd::Ones(nt);
  co.head(std::min(nc, s.coeffs.size())) = s.coeffs.head(std::min(nc, s.coeffs.size()));
  ta.head(std::min(nt, s.taus.size())) = s.taus.head(std::min(nt, s.taus.size()));
  bool ok = false;
  try {
    if (moved) gsplines::GSpline g(dom, q, n, *b, VectorXd(co), VectorXd(ta), "abc");
    else gsplines::GSpline g(dom, q, n, *b, co, ta, "abc");
  } catch (const std::invalid_argument &) {
    ok = true;
  }
  c.require(ok, "data that do not fit together were accepted");
}
