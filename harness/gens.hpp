// Generators and long-double reference models shared by the checks.
// Nothing in here calls the code under test except make()/make_spline(), which
// build the objects from the generated descriptions.
#pragma once
#include "pbt.hpp"
#include <Eigen/Core>
#include <algorithm>
#include <complex>
#include <gsplines/Basis/Basis.hpp>
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/GSpline.hpp>
#include <iomanip>
#include <memory>
#include <numeric>

namespace gen {
using L = long double;
using VL = std::vector<L>;
using pbt::Case;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace gb = gsplines::basis;

template <class V>
std::string show(const V &v) {
  std::ostringstream o;
  o << std::setprecision(17) << "[";
  for (long i = 0; i < (long)v.size(); i++) o << (i ? " " : "") << (double)v[(size_t)i];
  o << "]";
  return o.str();
}
inline std::string show(const VectorXd &v) {
  std::ostringstream o;
  o << std::setprecision(17) << "[";
  for (long i = 0; i < v.size(); i++) o << (i ? " " : "") << v(i);
  o << "]";
  return o.str();
}
inline std::string num(double x) {
  std::ostringstream o;
  o << std::setprecision(17) << x;
  return o.str();
}

// |got - ref| <= tol * scale, NaN never passes
inline void close(Case &c, double got, L ref, L scale, double tol, const std::string &what) {
  // development aid: shows the inputs whose rounding comes closest to the tolerance
  static const double tight = getenv("PBT_TIGHT") ? atof(getenv("PBT_TIGHT")) : 1.0;
  tol *= tight;
  L err = fabsl((L)got - ref);
  if (!(err <= (L)tol * scale)) {
    std::ostringstream o;
    o << what << ": got " << std::setprecision(17) << got << " expected " << (double)ref << " error "
      << (double)err << " allowed " << (double)((L)tol * scale);
    c.fail(o.str());
  }
  // how close honest rounding comes to the tolerance (reported in the evidence)
  if (err > 0.01L * (L)tol * scale) c.label(err > 0.1L * (L)tol * scale ? "rounding>0.1 of tolerance" : "rounding>0.01 of tolerance");
}

// ---------------------------------------------------------------- quadrature
// Gauss-Legendre nodes/weights on [-1,1] in long double (independent of the
// Gauss-Lobatto code under test)
inline const std::pair<VL, VL> &gauss(int n) {
  thread_local std::map<int, std::pair<VL, VL>> cache;
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  VL x((size_t)n), w((size_t)n);
  for (int i = 0; i < n; i++) {
    L z = cosl(3.14159265358979323846264338327950288L * ((L)i + 0.75L) / ((L)n + 0.5L));
    L pp = 0;
    for (int k = 0; k < 100; k++) {
      L p0 = 1, p1 = 0;
      for (int j = 0; j < n; j++) {
        L p2 = p1;
        p1 = p0;
        p0 = ((2.0L * j + 1) * z * p1 - j * p2) / (j + 1);
      }
      pp = n * (z * p0 - p1) / (z * z - 1);
      L dz = p0 / pp;
      z -= dz;
      if (fabsl(dz) < 1e-19L) break;
    }
    x[(size_t)(n - 1 - i)] = z;
    w[(size_t)(n - 1 - i)] = 2 / ((1 - z * z) * pp * pp);
  }
  return cache[n] = {x, w};
}

// ---------------------------------------------------------------- bases
enum Kind { LEGENDRE = 0, GLL = 1, LAGRANGE = 2, B0101 = 3 };

// d-th derivatives (wrt the window variable) of the Legendre polynomials
inline VL legendre_ref(size_t dim, L x, unsigned deg) {
  VL prev(dim + 2, 0), cur(dim + 2, 0);
  cur[0] = 1;
  if (dim > 1) cur[1] = x;
  for (size_t n = 1; n + 1 < dim; n++)
    cur[n + 1] = ((2.0L * n + 1) * x * cur[n] - (L)n * cur[n - 1]) / (L)(n + 1);
  for (unsigned d = 1; d <= deg; d++) {
    prev = cur;
    std::fill(cur.begin(), cur.end(), 0.0L);
    // P'_{n+1} = P'_{n-1} + (2n+1) P_n, differentiated d-1 times
    for (size_t n = 0; n + 1 < dim; n++)
      cur[n + 1] = (n >= 1 ? cur[n - 1] : 0.0L) + (2.0L * n + 1) * prev[n];
  }
  cur.resize(dim);
  return cur;
}
// d-th derivatives of the Lagrange polynomials of given nodes: coefficient of
// h^d in prod_m ((x - x_m) + h)/(x_j - x_m), times d!
inline VL lagrange_ref(const VL &nodes, L x, unsigned deg) {
  size_t n = nodes.size();
  VL out(n, 0);
  if (deg >= n) return out;
  L fact = 1;
  for (unsigned i = 2; i <= deg; i++) fact *= i;
  for (size_t j = 0; j < n; j++) {
    VL p(deg + 1, 0);
    p[0] = 1;
    for (size_t m = 0; m < n; m++) {
      if (m == j) continue;
      L den = nodes[j] - nodes[m], a = (x - nodes[m]) / den, b = 1 / den;
      for (size_t k = deg + 1; k-- > 0;) p[k] = p[k] * a + (k ? p[k - 1] * b : 0.0L);
    }
    out[j] = p[deg] * fact;
  }
  return out;
}

// magnitude of the derivative matrix of the nodes; beyond the polynomial degree
// it is what the rounding of the last non-zero matrix is amplified by
inline L node_matrix_scale(const VL &nd, unsigned deg) {
  size_t n = nd.size();
  if (deg == 0) return 1;
  if (n == 1) return 1e-12L;
  L d = 0, h = 1e30L;
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < i; j++) h = std::min(h, fabsl(nd[i] - nd[j]));
  unsigned e = std::min<unsigned>(deg, (unsigned)n - 1);
  for (L x : nd)
    for (L v : lagrange_ref(nd, x, e)) d = std::max(d, fabsl(v));
  for (unsigned k = e + 1; k <= deg; k++) d *= 2 * (L)k / h;
  return d;
}

struct BasisDesc {
  Kind kind = LEGENDRE;
  size_t dim = 2;
  VectorXd nodes;  // Lagrange families
  double alpha = 0.5;
  int path = 0;  // how the object is obtained

  L k() const {
    return sqrtl(2.0L) / 4 * powl((L)alpha, 0.25L) / powl(1 - (L)alpha, 0.25L);
  }
  VL nodesL() const {
    VL r;
    for (long i = 0; i < nodes.size(); i++) r.push_back((L)nodes(i));
    return r;
  }
  // derivative of degree deg of the basis functions with respect to time, for
  // an interval of length tau, at window point s
  VL eval(L s, L tau, unsigned deg) const {
    VL r;
    if (kind == B0101) {
      using C = std::complex<L>;
      L kk = k(), p = tau * kk * s;
      C z1(1, 1), z2(-1, 1);
      C a = std::exp(z1 * p), b = std::exp(z2 * p);
      for (unsigned i = 0; i < deg; i++) {
        a *= z1 * (2 * kk);
        b *= z2 * (2 * kk);
      }
      r = {a.real(), a.imag(), b.real(), b.imag(), deg == 0 ? p : (deg == 1 ? 2 * kk : 0.0L),
           deg == 0 ? 1.0L : 0.0L};
      return r;
    }
    r = kind == LEGENDRE ? legendre_ref(dim, s, deg) : lagrange_ref(nodesL(), s, deg);
    L f = powl(2 / tau, (L)deg);
    for (auto &x : r) x *= f;
    return r;
  }
  // magnitude against which rounding errors of eval are measured
  L scale(L s, L tau, unsigned deg) const {
    L m = 0;
    if (kind == B0101) {
      L kk = k(), p = fabsl(tau * kk * s);
      return (expl(p) * powl(2 * kk * sqrtl(2.0L), (L)deg)) * (1 + p);
    }
    if (kind == LEGENDRE) {
      // |P_n^(d)(s)| <= bound at max(1,|s|)
      for (L v : legendre_ref(dim, std::max<L>(1, fabsl(s)), deg)) m = std::max(m, fabsl(v));
      m = std::max<L>(m, deg == 0 ? 1 : 0);
    } else {
      VL nd = nodesL();
      L d = node_matrix_scale(nd, deg);
      L sum = 0;
      for (L v : lagrange_ref(nd, s, 0)) sum += fabsl(v);
      // rounding grows with every application of the recurrence of the nodes
      m = d * std::max<L>(1, sum) * powl(5, (L)deg);
    }
    return m * powl(2 / tau, (L)deg);
  }
  std::string text() const {
    std::ostringstream o;
    o << (kind == LEGENDRE ? "legendre" : kind == GLL ? "gll" : kind == LAGRANGE ? "lagrange" : "b0101")
      << "(dim=" << dim;
    if (kind == LAGRANGE) o << ",nodes=" << show(nodes);
    if (kind == B0101) o << ",alpha=" << num(alpha);
    o << ",path=" << path << ")";
    return o.str();
  }
  std::unique_ptr<gb::Basis> direct() const {
    switch (kind) {
      case LEGENDRE: return std::make_unique<gb::BasisLegendre>(dim);
      case GLL: return std::make_unique<gb::BasisLagrangeGaussLobatto>(dim);
      case LAGRANGE: return std::make_unique<gb::BasisLagrange>(nodes);
      default: return std::make_unique<gb::Basis0101>(alpha);
    }
  }
  // the same basis, obtained in different ways
  std::unique_ptr<gb::Basis> make() const {
    switch (path) {
      case 1: return direct()->clone();
      case 2: return direct()->move_clone();
      case 3: {
        auto b = direct();
        auto r = gb::get_basis(b->get_name(), b->get_dim(), VectorXd(b->get_parameters()));
        return r->clone();
      }
      case 4: {
        auto b = direct();
        // warmed-up caches must not change what a copy does
        b->get_derivative_matrix_block(3);
        VectorXd buf(b->get_dim());
        b->eval_derivative_on_window(0.3, 1.7, 2, buf);
        return b->clone()->move_clone();
      }
      default: return direct();
    }
  }
};

struct BasisOpts {
  size_t min_dim = 1, max_dim = 14;
  bool even = false;
  bool allow_0101 = true;
  bool allow_poly = true;
  bool allow_lagrange = true;  // arbitrary nodes
  size_t max_lagrange = 9;
  size_t huge_dim = 24;  // now and then, Legendre and Gauss-Lobatto only
  double alpha_lo = 1e-3, alpha_hi = 0.999;
};

inline VL gll_ref_nodes(size_t n);

inline VectorXd gen_nodes(Case &c, size_t n) {
  VectorXd v((long)n);
  if (n == 1) {
    v(0) = c.real(-1, 1);
    return v;
  }
  switch (c.pick(4)) {
    case 0:  // equispaced incl. borders
      for (size_t i = 0; i < n; i++) v((long)i) = -1.0 + 2.0 * (double)i / (double)(n - 1);
      break;
    case 1:  // Chebyshev (borders not included)
      for (size_t i = 0; i < n; i++) v((long)i) = -std::cos(M_PI * (2.0 * (double)i + 1) / (2.0 * (double)n));
      break;
    default: {  // jittered grid; spacing at least 0.5 of the uniform one
      double h = 2.0 / (double)n;
      for (size_t i = 0; i < n; i++) v((long)i) = -1.0 + h * ((double)i + 0.25 + 0.5 * c.unit());
      if (c.coin()) {
        v(0) = -1;
        v((long)n - 1) = 1;
      }
    }
  }
  if (c.chance(1, 5))  // order of the nodes is free
    for (size_t i = n; i-- > 1;) std::swap(v((long)i), v((long)c.pick(i + 1)));
  return v;
}

// Gauss-Lobatto nodes in long double: roots of P'_{n-1} and +-1, bisection
inline VL gll_ref_nodes(size_t n) {
  thread_local std::map<size_t, VL> cache;
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  VL r(n);
  r[0] = -1;
  r[n - 1] = 1;
  size_t N = n - 1;  // P'_N has N-1 interior roots
  auto dp = [&](L x) { return legendre_ref(N + 1, x, 1)[N]; };
  auto d2p = [&](L x) { return legendre_ref(N + 1, x, 2)[N]; };
  std::vector<L> roots;
  const int M = 4000;
  L prevx = -1 + 1e-14L, prev = dp(prevx);
  for (int i = 1; i <= M; i++) {
    // cosine grid: roots cluster at the borders
    L x = -cosl(3.14159265358979323846264338327950288L * i / M);
    if (i == M) x = 1 - 1e-14L;
    L v = dp(x);
    if ((prev < 0) != (v < 0)) {
      L a = prevx, b = x, fa = prev;
      for (int k = 0; k < 60; k++) {
        L m = (a + b) / 2, fm = dp(m);
        if ((fm < 0) == (fa < 0)) a = m, fa = fm;
        else b = m;
      }
      L z = (a + b) / 2;
      for (int k = 0; k < 4; k++) z -= dp(z) / d2p(z);
      roots.push_back(z);
    }
    prevx = x;
    prev = v;
  }
  for (size_t i = 0; i < roots.size() && i + 2 < n; i++) r[i + 1] = roots[i];
  return cache[n] = r;
}

inline BasisDesc gen_basis(Case &c, const BasisOpts &o = {}) {
  BasisDesc b;
  std::vector<Kind> kinds;
  if (o.allow_poly) {
    kinds = {LEGENDRE, GLL};
    if (o.allow_lagrange) kinds.push_back(LAGRANGE);
  }
  if (o.allow_0101) kinds.push_back(B0101);
  b.kind = kinds[c.pick(kinds.size())];
  auto dim = [&](size_t lo, size_t hi) {
    if (o.even) return 2 * (size_t)c.size((int64_t)(lo + 1) / 2, (int64_t)hi / 2);
    return (size_t)c.big((int64_t)lo, (int64_t)hi, b.kind == LAGRANGE ? 0 : (int64_t)o.huge_dim);
  };
  switch (b.kind) {
    case LEGENDRE: b.dim = dim(o.min_dim, o.max_dim); break;
    case GLL: {
      b.dim = dim(std::max<size_t>(2, o.min_dim), o.max_dim);
      VL nd = gll_ref_nodes(b.dim);
      b.nodes.resize((long)b.dim);
      for (size_t i = 0; i < b.dim; i++) b.nodes((long)i) = (double)nd[i];
      break;
    }
    case LAGRANGE:
      b.dim = dim(o.min_dim, std::min(o.max_dim, o.max_lagrange));
      b.nodes = gen_nodes(c, b.dim);
      break;
    default:
      b.dim = 6;
      b.alpha = c.pick(4) == 0 ? 0.5 : o.alpha_lo + (o.alpha_hi - o.alpha_lo) * c.unit();
  }
  b.path = (int)c.pick(5);
  return b;
}

// window point; nodes exactly, borders, near nodes, inside, slightly outside
inline double gen_window_point(Case &c, const BasisDesc &b) {
  switch (c.pick(8)) {
    case 0: return 0.0;
    case 1: return c.coin() ? 1.0 : -1.0;
    case 2:
      if (b.nodes.size()) return b.nodes((long)c.pick((size_t)b.nodes.size()));
      return c.real(-1, 1);
    case 3:
      if (b.nodes.size()) {
        double d = std::pow(10.0, -(double)c.integer(2, 8)) * (c.coin() ? 1 : -1) * (1 + c.unit());
        return b.nodes((long)c.pick((size_t)b.nodes.size())) + d;
      }
      return c.real(-1, 1);
    case 4: return b.dim > 14 && b.nodes.size() ? c.real(-1.02, 1.02) : c.real(-1.25, 1.25);
    default: return c.real(-1, 1);
  }
}

// interval length such that |tau*k| stays moderate for basis0101
inline double gen_tau(Case &c, const BasisDesc *b = nullptr, double lo = 1e-2, double hi = 50) {
  double t;
  switch (c.pick(4)) {
    case 0: t = 2.0; break;
    case 1: t = c.of({1.0, 0.5, 0.25, 4.0, 3.0}); break;
    default: t = c.logreal(lo, hi);
  }
  if (b && b->kind == B0101) {
    double k = (double)b->k();
    if (t * k > 6) t = 6 / k * (0.1 + 0.9 * c.unit());
  }
  return t;
}

// ---------------------------------------------------------------- splines
struct SplineDesc {
  BasisDesc basis;
  double t0 = 0;
  VectorXd taus, coeffs;
  size_t codom = 1;
  bool dyadic = false;  // breakpoints are exact in double for any summation order

  size_t n() const { return (size_t)taus.size(); }
  std::pair<double, double> domain() const {
    double e = t0;
    for (long i = 0; i < taus.size(); i++) e += taus(i);
    return {t0, e};
  }
  L left(size_t i) const {
    L x = t0;
    for (size_t j = 0; j < i; j++) x += (L)taus((long)j);
    return x;
  }
  L coef(size_t iv, size_t comp, size_t b) const {
    return (L)coeffs((long)((iv * codom + comp) * basis.dim + b));
  }
  // interval that owns t: (left, right], first/last extended outside
  size_t interval(L t) const {
    for (size_t i = 0; i < n(); i++)
      if (t <= left(i + 1)) return i;
    return n() - 1;
  }
  // value of the deg-th time derivative in a given interval's polynomial;
  // err: absolute rounding allowance for relative tolerance tol
  L value_in(size_t iv, L t, size_t comp, unsigned deg, L *scale = nullptr) const {
    L tau = taus((long)iv), s = 2 * (t - left(iv)) / tau - 1;
    VL phi = basis.eval(s, tau, deg);
    L r = 0;
    for (size_t j = 0; j < basis.dim; j++) r += phi[j] * coef(iv, comp, j);
    if (scale) {
      L m = 0;
      for (size_t j = 0; j < basis.dim; j++) m += fabsl(coef(iv, comp, j));
      L span = fabsl((L)t0) + fabsl(t) + (left(n()) - (L)t0);
      // rounding of the window coordinate, seen through the next derivative
      L sp = basis.scale(s, tau, deg) * m;
      L amp = basis.scale(s, tau, deg + 1) * m * span * 1e-5L;
      // within 1e-9 of a node the value at the node is as good
      if (basis.kind == GLL || basis.kind == LAGRANGE)
        for (L x : basis.nodesL())
          if (x != s && fabsl(x - s) < 4e-9L) {
            amp += basis.scale(s, tau, deg + 1) * m * tau / 2;
            break;
          }
      *scale = sp + amp;
    }
    return r;
  }
  L value(L t, size_t comp, unsigned deg = 0, L *scale = nullptr) const {
    return value_in(interval(t), t, comp, deg, scale);
  }
  std::string text() const {
    std::ostringstream o;
    o << basis.text() << " t0=" << num(t0) << " taus=" << show(taus) << " codom=" << codom;
    if (coeffs.size() <= 24) o << " coeffs=" << show(coeffs);
    return o.str();
  }
  gsplines::GSpline make() const {
    auto b = basis.make();
    return gsplines::GSpline(domain(), codom, n(), *b, coeffs, taus);
  }
};

struct SplineOpts {
  BasisOpts basis;
  size_t max_intervals = 12, max_codom = 6, huge_intervals = 90, huge_codom = 24;
  double tau_lo = 1e-2, tau_hi = 20;
  double coef = 3;
};

inline VectorXd gen_taus(Case &c, size_t n, const BasisDesc *b, double lo, double hi, bool *dyadic) {
  VectorXd t((long)n);
  int mode = (int)c.pick(4);
  *dyadic = mode == 0 || mode == 3;
  for (size_t i = 0; i < n; i++) {
    double x;
    if (mode == 0) x = c.of({1.0, 2.0, 0.5, 0.25, 1.5, 3.0});
    else if (mode == 3) x = i ? t(0) : c.of({1.0, 2.0, 0.5, 0.75});
    else if (mode == 1) x = c.real(0.3, 3);
    else x = c.logreal(lo, hi);
    if (b && b->kind == B0101 && x * (double)b->k() > 6) {
      x = 6 / (double)b->k() * (0.1 + 0.9 * c.unit());
      *dyadic = false;
    }
    t((long)i) = x;
  }
  return t;
}
inline double gen_t0(Case &c, bool dyadic) {
  switch (c.pick(4)) {
    case 0: return 0;
    case 1: return (double)c.integer(-8, 8) * 0.25;
    case 2: return dyadic ? (double)c.integer(-400, 400) * 0.5 : c.real(-5, 5);
    default: return dyadic ? (double)c.integer(-20, 20) : c.real(-200, 200);
  }
}
inline VectorXd gen_coeffs(Case &c, size_t n, double m) {
  VectorXd v((long)n);
  int mode = (int)c.pick(6);
  for (size_t i = 0; i < n; i++) {
    if (mode == 5) v((long)i) = (c.coin() ? 1 : -1) * c.logreal(1e-7, 10 * m);
    else if (mode == 0) v((long)i) = (double)c.integer(-3, 3);
    else if (mode == 1) v((long)i) = c.chance(1, 4) ? c.real(-m, m) : 0.0;
    else v((long)i) = -m + 2 * m * c.unit();
  }
  return v;
}
inline SplineDesc gen_spline(Case &c, const SplineOpts &o = {}) {
  SplineDesc s;
  s.basis = gen_basis(c, o.basis);
  size_t n = (size_t)c.big(1, (int64_t)o.max_intervals, (int64_t)o.huge_intervals);
  s.codom = (size_t)c.big(1, (int64_t)o.max_codom, n > 12 ? 0 : (int64_t)o.huge_codom);
  s.taus = gen_taus(c, n, &s.basis, o.tau_lo, o.tau_hi, &s.dyadic);
  s.t0 = gen_t0(c, s.dyadic);
  s.coeffs = gen_coeffs(c, n * s.codom * s.basis.dim, o.coef);
  return s;
}
// a second description in the same vector space
inline SplineDesc gen_sibling(Case &c, const SplineDesc &a, double m = 3) {
  SplineDesc s = a;
  s.coeffs = gen_coeffs(c, (size_t)a.coeffs.size(), m);
  s.basis.path = (int)c.pick(5);
  return s;
}

// evaluation instants: inside, exact breakpoints (only when exact), borders,
// outside, repeated, unsorted, none
inline VectorXd gen_times(Case &c, const SplineDesc &s, size_t maxn = 8, bool outside = true) {
  size_t n = c.chance(1, 40) ? 0 : (size_t)c.big(1, (int64_t)maxn, 70);
  VectorXd t((long)n);
  auto dom = s.domain();
  double len = dom.second - dom.first;
  for (size_t i = 0; i < n; i++) {
    switch (c.pick(8)) {
      case 0:
        if (s.dyadic) {
          t((long)i) = (double)s.left(c.pick(s.n() + 1));
          break;
        }
        [[fallthrough]];
      case 1:
        if (i && c.coin()) {
          t((long)i) = t((long)c.pick(i));
          break;
        }
        [[fallthrough]];
      case 2:
        if (outside && c.coin()) {
          // a little before or after the domain: the border polynomials extend
          double d = 0.1 * (c.coin() ? -s.taus(0) : s.taus((long)s.n() - 1)) * (0.1 + c.unit());
          t((long)i) = d < 0 ? dom.first + d : dom.second + d;
          break;
        }
        [[fallthrough]];
      case 3: {  // close to a breakpoint, on a known side
        size_t iv = c.pick(s.n());
        double f = std::pow(10.0, -(double)c.integer(1, 7));
        double lo = (double)s.left(iv), hi = (double)s.left(iv + 1);
        if (f * (hi - lo) < 1e-12 * (1 + std::fabs(dom.first) + std::fabs(dom.second)) * (double)s.n()) f = 1e-4;
        t((long)i) = c.coin() ? lo + f * (hi - lo) : hi - f * (hi - lo);
        break;
      }
      case 4: {
        size_t iv = c.pick(s.n());
        t((long)i) = (double)(s.left(iv) + 0.5L * (L)s.taus((long)iv));
        break;
      }
      default: {
        size_t iv = c.pick(s.n());
        t((long)i) = (double)(s.left(iv) + (L)s.taus((long)iv) * (0.001L + 0.998L * (L)c.unit()));
      }
    }
  }
  (void)len;
  return t;
}
}  // namespace gen
