// C17: Gauss-Lobatto points and weights.
#include "gens.hpp"
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
using namespace gen;
namespace gc = gsplines::collocation;

static const double TOL = 1e-11;

static L ref_weight(size_t n, L x) {
  L p = legendre_ref(n, x, 0)[n - 1];
  return 2 / ((L)n * (L)(n - 1) * p * p);
}
static size_t gen_n(Case &c) { return (size_t)(c.chance(1, 6) ? c.integer(21, 64) : c.size(2, 20)); }

static void check_window(Case &c, size_t n, const VectorXd &x, const VectorXd &w, const std::string &what) {
  const VL &r = gll_ref_nodes(n);
  c.require(x.size() == (long)n && w.size() == (long)n, what + ": number of points and weights");
  c.require(x(0) == -1 && x((long)n - 1) == 1, what + ": the borders are points");
  for (size_t i = 0; i < n; i++) {
    std::ostringstream o;
    o << what << " n=" << n << " i=" << i;
    close(c, x((long)i), r[i], 1, TOL, o.str() + " point");
    L rw = ref_weight(n, r[i]);
    close(c, w((long)i), rw, rw, 1e-9, o.str() + " weight");
    c.require(w((long)i) > 0, o.str() + " weight is not positive");
    if (i) c.require(x((long)i) > x((long)i - 1), o.str() + " points are not increasing");
  }
}

PBT_SUB(window_rule, 1) {
  size_t k = (size_t)c.size(1, 4);
  std::vector<std::pair<size_t, std::pair<VectorXd, VectorXd>>> seen;
  for (size_t i = 0; i < k; i++) {
    size_t n = gen_n(c);
    VectorXd x, w;
    if (c.coin()) std::tie(x, w) = gc::legendre_gauss_lobatto_points_and_weights(n);
    else if (c.coin()) x = gc::legendre_gauss_lobatto_points(n), w = gc::legendre_gauss_lobatto_weights(n);
    else w = gc::legendre_gauss_lobatto_weights(n), x = gc::legendre_gauss_lobatto_points(n);
    c << (i ? " " : "n=") << n;
    check_window(c, n, x, w, "rule on the window");
    for (auto &s : seen)
      if (s.first == n) c.require(s.second.first == x && s.second.second == w, "the same request gave another answer");
    seen.push_back({n, {x, w}});
    if (n > 2) c.mark();
    c.label(n <= 8 ? "n<=8" : n <= 20 ? "n<=20" : "n>20");
  }
}

// integral of a polynomial given in Legendre polynomials of the window of an interval
PBT_SUB(composite_rule, 2) {
  size_t n = gen_n(c);
  size_t ni = (size_t)c.big(1, 8, 150);
  bool dy;
  VectorXd taus = gen_taus(c, ni, nullptr, 1e-2, 20, &dy);
  double t0 = gen_t0(c, dy);
  bool uniform = c.coin();
  double t1 = t0;
  if (uniform) {
    double len = taus.sum();
    t1 = t0 + len;
    taus.setConstant((t1 - t0) / (double)ni);
  }
  c << "n=" << n << " t0=" << num(t0) << " taus=" << show(taus) << " uniform=" << uniform;
  VectorXd x, w;
  if (uniform) {
    x = gc::legendre_gauss_lobatto_points(std::tuple<double, double>(t0, t1), n, ni);
    w = gc::legendre_gauss_lobatto_weights(std::tuple<double, double>(t0, t1), n, ni);
  } else {
    VectorXd in = taus;
    x = gc::legendre_gauss_lobatto_points(t0, n, in);
    w = gc::legendre_gauss_lobatto_weights(n, in);
    c.require(in == taus, "the interval lengths were changed");
  }
  c.require(x.size() == (long)(n * ni) && w.size() == (long)(n * ni), "number of points and weights");
  const VL &r = gll_ref_nodes(n);
  L left = t0, span = fabsl((L)t0) + (L)taus.sum();
  for (size_t k = 0; k < ni; k++) {
    L tau = taus((long)k);
    std::ostringstream o;
    o << "interval " << k;
    for (size_t i = 0; i < n; i++) {
      long q = (long)(k * n + i);
      close(c, x(q), left + (r[i] + 1) / 2 * tau, span, TOL, o.str() + " point " + std::to_string(i));
      L rw = ref_weight(n, r[i]) * tau / 2;
      close(c, w(q), rw, rw, 1e-9, o.str() + " weight " + std::to_string(i));
      c.require(w(q) > 0, o.str() + ": weight is not positive");
      if (i) c.require(x(q) > x(q - 1), o.str() + ": points are not increasing");
    }
    // a polynomial of the highest degree the rule is exact for
    size_t deg = (size_t)c.integer(0, (int64_t)(2 * n - 3));
    VectorXd a = gen_coeffs(c, deg + 1, 2);
    L sum = 0, scale = 0;
    for (size_t i = 0; i < n; i++) {
      long q = (long)(k * n + i);
      L s = 2 * ((L)x(q) - left) / tau - 1;
      VL p = legendre_ref(deg + 1, s, 0), pb = legendre_ref(deg + 2, 1, 1);
      L v = 0;
      for (size_t j = 0; j <= deg; j++) {
        v += p[j] * (L)a((long)j);
        // rounding of the point, seen through the polynomial's slope
        scale += fabsl((L)w(q) * (L)a((long)j)) * (1 + pb[j] * (span / tau) * 1e-3L);
      }
      sum += v * (L)w(q);
    }
    close(c, (double)sum, (L)a(0) * tau, scale, 1e-9, o.str() + ": integral of a polynomial of degree " + std::to_string(deg));
    left += tau;
  }
  close(c, w.sum(), (L)taus.sum(), (L)taus.sum(), 1e-10, "sum of the weights");
  if (n > 2 && ni > 1) c.mark();
  c.label(uniform ? "uniform intervals" : "given intervals");
  c.label(ni == 1 ? "one interval" : "several intervals");
}

PBT_SUB(rejections, 0.1) {
  size_t n = c.pick(2), ni = (size_t)c.integer(1, 6);
  double t0 = c.real(-10, 10), len = c.logreal(0.1, 50);
  VectorXd taus((long)ni);
  for (size_t i = 0; i < ni; i++) taus((long)i) = c.logreal(0.1, 5);
  int what = (int)c.pick(7);
  c << "points=" << n << " what=" << what << " t0=" << num(t0) << " taus=" << show(taus);
  c.mark();
  bool thrown = false;
  try {
    std::tuple<double, double> dom(t0, t0 + len);
    switch (what) {
      case 0: gc::legendre_gauss_lobatto_points(n); break;
      case 1: gc::legendre_gauss_lobatto_weights(n); break;
      case 2: gc::legendre_gauss_lobatto_points_and_weights(n); break;
      case 3: gc::legendre_gauss_lobatto_points(dom, n, ni); break;
      case 4: gc::legendre_gauss_lobatto_weights(dom, n, ni); break;
      case 5: gc::legendre_gauss_lobatto_points(t0, n, taus); break;
      default: gc::legendre_gauss_lobatto_weights(n, taus);
    }
  } catch (const std::exception &) {
    thrown = true;
  }
  c.require(thrown, "a rule with less than two points was accepted");
}
