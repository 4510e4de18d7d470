// C20: time scaling keeps the path and meets the duration or the bounds.
#include "gens.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <optional>
using namespace gen;
using gsplines::GSpline;
using GLLS = gsplines::collocation::GLLSpline;
using OD = std::optional<double>;
using OV = std::optional<std::vector<double>>;

static SplineDesc gen_desc(Case &c) {
  SplineOpts o;
  o.basis.max_dim = 8;
  o.basis.max_lagrange = 7;
  o.basis.alpha_lo = 0.02;
  o.basis.alpha_hi = 0.98;
  o.max_intervals = 6;
  o.max_codom = 4;
  o.tau_lo = 0.05;
  o.tau_hi = 5;
  return gen_spline(c, o);
}
// rel. change of the window coordinate and of the parameter of basis0101 grow
// with the squeeze; beyond this the parameter cannot be represented
static bool representable(const SplineDesc &s, double f) {
  if (s.basis.kind != B0101) return true;
  L k = s.basis.k() / (L)f, k4 = 64 * k * k * k * k;
  return 1 / (1 + k4) > 1e-3L && k4 > 1e-9L;
}
// the result must be the original at proportional instants
template <class T>
static void check_scaled(Case &c, const SplineDesc &s, const T &r, double f, double ftol, const std::string &what) {
  auto dom = s.domain();
  double len = dom.second - dom.first;
  c.require(r.get_codom_dim() == s.codom, what + ": codomain");
  c.require(r.get_number_of_intervals() == s.n(), what + ": number of intervals");
  L span = fabsl((L)dom.first) + (L)len * (L)f;
  close(c, r.get_domain().first, (L)dom.first, 1 + span, 1e-12, what + ": start");
  close(c, r.get_domain().second - dom.first, (L)f * (L)len, span, ftol, what + ": duration");
  for (size_t i = 0; i < s.n(); i++) close(c, r.get_interval_lengths()((long)i), (L)f * (L)s.taus((long)i), (L)f * (L)s.taus((long)i), ftol, what + ": interval length");
  // compare against the factor that was actually used, the requested one was checked above
  L fa = (L)r.get_interval_lengths().sum() / (L)s.taus.sum();
  unsigned d = (unsigned)c.integer(0, 3);
  size_t n = (size_t)c.size(1, 4);
  VectorXd t((long)n), u((long)n);
  for (size_t i = 0; i < n; i++) {
    size_t iv = c.pick(s.n());
    t((long)i) = (double)(s.left(iv) + (L)s.taus((long)iv) * (0.01L + 0.98L * (L)c.unit()));
    u((long)i) = (double)((L)dom.first + fa * ((L)t((long)i) - (L)dom.first));
  }
  c << " degree=" << d << " t=" << show(t);
  T dr = r.derivate(d);
  MatrixXd y = dr(u), y0 = r(u);
  for (size_t i = 0; i < n; i++)
    for (size_t q = 0; q < s.codom; q++) {
      L sc, ref = s.value((L)t((long)i), q, 0, &sc);
      L sh = fabsl((L)dom.first) / fa + (L)len;
      L sc1;
      s.value((L)t((long)i), q, 1, &sc1);
      close(c, y0((long)i, (long)q), ref, sc + sc1 * sh * 1e-3L, 1e-8, what + ": path at a proportional instant");
      L scd, scd1, refd = s.value((L)t((long)i), q, d, &scd);
      s.value((L)t((long)i), q, d + 1, &scd1);
      L g = powl(fa, -(L)d);
      close(c, y((long)i, (long)q), refd * g, (scd + scd1 * sh * 1e-3L) * g * 10, 1e-8, what + ": derivative " + std::to_string(d) + " at a proportional instant");
    }
}
template <class F>
static bool throws_invalid(F f) {
  try {
    f();
  } catch (const std::invalid_argument &) {
    return true;
  }
  return false;
}

template <class T>
static void new_time(Case &c, const SplineDesc &s, const T &g) {
  double len = s.domain().second - s.domain().first;
  double T1 = c.pick(4) == 0 ? c.of({1.0, 2.0, 0.5, 10.0}) : len * c.logreal(0.02, 50);
  c << " new time=" << num(T1);
  if (!representable(s, T1 / len)) c.discard();
  T r = g.linear_scaling_new_execution_time(T1);
  check_scaled(c, s, r, T1 / len, 1e-10, "new execution time");
  close(c, r.get_domain_length(), (L)T1, fabsl((L)s.t0) + (L)T1, 1e-12, "new execution time: duration");
}

PBT_SUB(new_execution_time, 2) {
  SplineDesc s = gen_desc(c);
  c << s.text();
  GSpline g = s.make();
  if (s.basis.kind == GLL && c.coin()) new_time(c, s, GLLS(g));
  else new_time(c, s, g);
  c.require(g == s.make(), "the scaled spline was changed");
  if (s.n() > 1) c.mark();
  c.label("basis", (int)s.basis.kind);
}

struct Bounds {
  bool hv, ha, vec;
  std::vector<double> v, a;
  double dt;
};
template <class T>
static T scale(const T &g, const Bounds &b, bool def) {
  if (b.vec) {
    OV v = b.hv ? OV(b.v) : OV(), a = b.ha ? OV(b.a) : OV();
    return def ? g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a) : g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a, b.dt);
  }
  OD v = b.hv ? OD(b.v[0]) : OD(), a = b.ha ? OD(b.a[0]) : OD();
  return def ? g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a) : g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a, b.dt);
}

template <class T>
static void bounded(Case &c, const SplineDesc &s, const T &g) {
  double len = s.domain().second - s.domain().first;
  Bounds b;
  int which = (int)c.pick(3);
  b.hv = which != 1;
  b.ha = which != 2;
  b.vec = c.coin();
  double v0 = c.logreal(0.05, 20), a0 = c.logreal(0.05, 20);
  bool differ = c.coin();
  for (size_t q = 0; q < s.codom; q++) {
    b.v.push_back(b.vec && differ ? c.logreal(0.05, 20) : v0);
    b.a.push_back(b.vec && differ ? c.logreal(0.05, 20) : a0);
  }
  bool def = len > 0.05 && len < 3 && c.chance(1, 8);
  if (def) b.dt = 0.01;
  else if (s.dyadic && c.coin()) b.dt = c.of({0.25, 0.125, 0.0625});
  else b.dt = len / ((double)c.big(1, 60, 1500) + 0.05 + 0.9 * c.unit());
  L q = (L)len / (L)b.dt;
  bool exact = s.dyadic && (b.dt == 0.25 || b.dt == 0.125 || b.dt == 0.0625);
  if (b.dt > len || (!exact && fabsl(q - roundl(q)) < 1e-6L * q)) c.discard();
  long seg = (long)floorl(q);
  c << " bounds v=" << (b.hv ? show(b.v) : "-") << " a=" << (b.ha ? show(b.a) : "-") << " vec=" << b.vec << " dt=" << num(b.dt);
  // the factor; instants on a breakpoint may be attributed to either side
  L lo = 0, hi = 0, slack = 0;
  L span = fabsl((L)s.t0) + (L)len;
  for (long i = 0; i <= seg; i++) {
    L t = (L)s.t0 + (L)len * (L)i / (L)seg;
    size_t iv = s.interval(t);
    std::vector<size_t> alt = {iv};
    if (iv + 1 < s.n() && fabsl(t - s.left(iv + 1)) < 1e-9L * span) alt.push_back(iv + 1);
    if (iv > 0 && fabsl(t - s.left(iv)) < 1e-9L * span) alt.push_back(iv - 1);
    for (size_t k = 0; k < s.codom; k++) {
      L mn = 1e30L, mx = 0;
      for (size_t j : alt) {
        L sv, sa, av, aa;
        L v = fabsl(s.value_in(j, t, k, 1, &sv)), a = fabsl(s.value_in(j, t, k, 2, &sa));
        s.value_in(j, t, k, 2, &av);
        s.value_in(j, t, k, 3, &aa);
        sv += av * span * 1e-3L;
        sa += aa * span * 1e-3L;
        L rv = b.hv ? v / (L)b.v[k] : 0, ra = b.ha ? sqrtl(a / (L)b.a[k]) : 0;
        if (b.hv) slack = std::max(slack, sv / (L)b.v[k]);
        if (b.ha && a > 0) slack = std::max(slack, sa / (L)b.a[k] / std::max<L>(ra, 1e-3L));
        mn = std::min(mn, std::max(rv, ra));
        mx = std::max(mx, std::max(rv, ra));
      }
      lo = std::max(lo, mn);
      hi = std::max(hi, mx);
    }
  }
  if (lo < 1e-3L || hi > 1e4L || slack > 1e4L * lo || !representable(s, (double)hi) || !representable(s, (double)lo)) c.discard();
  T r = scale(g, b, def);
  L f = (L)r.get_interval_lengths().sum() / (L)s.taus.sum();
  L tol = 1e-8L * (slack + hi);
  if (!(f >= lo - tol && f <= hi + tol)) {
    std::ostringstream o;
    o << "time scale factor is " << num((double)f) << ", the bounds require " << num((double)lo);
    if (hi > lo) o << " to " << num((double)hi);
    c.fail(o.str());
  }
  check_scaled(c, s, r, (double)f, 1e-9, "scaling to bounds");
  c.label(b.hv && b.ha ? "both bounds" : b.hv ? "velocity bound" : "acceleration bound");
  c.label(b.vec ? "bounds per component" : "one bound");
  c.label(f > 1 ? "slower" : "faster");
}

PBT_SUB(bounds, 4) {
  SplineDesc s = gen_desc(c);
  c << s.text();
  GSpline g = s.make();
  if (s.basis.kind == GLL && c.coin()) bounded(c, s, GLLS(g));
  else bounded(c, s, g);
  c.require(g == s.make(), "the scaled spline was changed");
  if (s.n() > 1) c.mark();
}

PBT_SUB(rejections, 1) {
  SplineDesc s = gen_desc(c);
  c << s.text();
  GSpline g = s.make();
  double bad = c.of({0.0, -1.0, -1e-3, 1e-10, -0.0});
  int what = (int)c.pick(5);
  c << " rejection " << what << " " << num(bad);
  Bounds b;
  b.hv = c.coin();
  b.ha = !b.hv || c.coin();
  b.vec = c.coin();
  b.v.assign(s.codom, 1.0);
  b.a.assign(s.codom, 2.0);
  b.dt = 0.1;
  bool ok = false;
  switch (what) {
    case 0: ok = throws_invalid([&] { g.linear_scaling_new_execution_time(bad); }); break;
    case 1:
      b.hv = b.ha = false;
      ok = throws_invalid([&] { scale(g, b, c.coin()); });
      break;
    case 2:
      b.dt = bad;
      ok = throws_invalid([&] { scale(g, b, false); });
      break;
    default: {
      b.vec = true;
      auto &w = b.hv && (what == 3 || !b.ha) ? b.v : b.a;
      if (c.coin() && s.codom > 1) w.resize(c.coin() ? s.codom - 1 : 0);
      else w.resize(s.codom + (size_t)c.integer(1, 3), 1.0);
      ok = throws_invalid([&] { scale(g, b, c.coin()); });
    }
  }
  c.require(ok, "the call is not rejected with an invalid-argument error");
  c.require(g == s.make(), "the spline was changed by a rejected call");
  c.mark();
  c.label("rejection", what);
}
