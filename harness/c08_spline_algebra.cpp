// C08: splines of one space form a vector space; others are rejected
#include "gens.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
using namespace gen;
using gsplines::GSpline;
using gsplines::collocation::GLLSpline;

// model: linear combination of coefficient vectors
struct Item {
  GSpline g;
  std::vector<L> m;
  L mag;
};
static void check(Case &c, const SplineDesc &s, const GSpline &g, const std::vector<L> &m, L mag, const char *op) {
  c.require(g.get_domain() == s.domain() && g.get_codom_dim() == s.codom && g.get_interval_lengths() == s.taus &&
                g.get_basis_dim() == s.basis.dim,
            std::string(op) + " changed domain, codomain, intervals or basis");
  c.require(g.get_coefficients().size() == (long)m.size(), std::string(op) + ": number of coefficients");
  for (size_t i = 0; i < m.size(); i++) close(c, g.get_coefficients()((long)i), m[i], mag + 1e-12L, 1e-12, std::string(op) + " coefficient " + std::to_string(i));
}
static void check_value(Case &c, const SplineDesc &s, const GSpline &g, const std::vector<L> &m, L mag) {
  SplineDesc r = s;
  for (size_t i = 0; i < m.size(); i++) r.coeffs((long)i) = (double)m[i];
  VectorXd t = gen_times(c, s, 3);
  MatrixXd v = g(t);
  for (long i = 0; i < t.size(); i++)
    for (size_t k = 0; k < s.codom; k++) {
      L sc;
      L ref = r.value((L)t(i), k, 0, &sc);
      L w = s.basis.scale(2 * ((L)t(i) - s.left(s.interval(t(i)))) / s.taus((long)s.interval(t(i))) - 1, s.taus((long)s.interval(t(i))), 0);
      close(c, v(i, (long)k), ref, sc + mag * w * (L)s.basis.dim + 1e-12L, 1e-9, "value of the combination");
    }
}

// a pool of splines of one space and a history of operations with every value
// category; operands that are not moved from keep their value
PBT_SUB(history, 5) {
  SplineOpts o;
  o.basis.max_dim = 8;
  o.max_intervals = 5;
  o.max_codom = 4;
  SplineDesc s = gen_spline(c, o);
  c << s.text();
  std::vector<Item> pool;
  auto add = [&](GSpline g, std::vector<L> m, L mag) {
    if (pool.size() < 6) pool.push_back(Item{std::move(g), std::move(m), mag});
  };
  for (int i = 0; i < 2; i++) {
    SplineDesc d = gen_sibling(c, s);
    std::vector<L> m;
    L mg = 0;
    for (long j = 0; j < d.coeffs.size(); j++) m.push_back((L)d.coeffs(j)), mg = std::max(mg, fabsl((L)d.coeffs(j)));
    add(d.make(), m, mg);
  }
  size_t steps = (size_t)c.size(1, 10);
  if (steps > 1) c.mark();
  for (size_t q = 0; q < steps; q++) {
    size_t ia = c.pick(pool.size()), ib = c.pick(pool.size());
    double a = c.of({2.0, -1.0, 0.5, 0.0, -3.25});
    if (c.coin()) a = c.real(-4, 4);
    int op = (int)c.pick(13);
    c << "; op" << op << "(" << ia << "," << ib << "," << num(a) << ")";
    Item &A = pool[ia], &B = pool[ib];
    std::vector<L> m(A.m.size());
    L mag = A.mag;
    auto lin = [&](L x, L y) {
      for (size_t i = 0; i < m.size(); i++) m[i] = x * A.m[i] + y * B.m[i];
      mag = fabsl(x) * A.mag + fabsl(y) * B.mag;
    };
    auto done = [&](GSpline g, const char *name) {
      check(c, s, g, m, mag, name);
      if (c.chance(1, 4)) check_value(c, s, g, m, mag);
      add(std::move(g), m, mag);
    };
    switch (op) {
      case 0: lin(1, 1); done(A.g + B.g, "a+b"); break;
      case 1: lin(1, 1); done(GSpline(A.g) + B.g, "move(a)+b"); break;
      case 2: lin(1, 1); done(A.g + GSpline(B.g), "a+move(b)"); break;
      case 3: lin(1, 1); done(GSpline(A.g) + GSpline(B.g), "move(a)+move(b)"); break;
      case 4: lin(1, -1); done(A.g - B.g, "a-b"); break;
      case 5: lin(1, -1); done(GSpline(A.g) - B.g, "move(a)-b"); break;
      case 6: lin(1, -1); done(A.g - GSpline(B.g), "a-move(b)"); break;
      case 7: lin(1, -1); done(GSpline(A.g) - GSpline(B.g), "move(a)-move(b)"); break;
      case 8: lin(a, 0); done(c.coin() ? a * A.g : A.g * a, "scalar product"); break;
      case 9: lin(a, 0); done(c.coin() ? a * GSpline(A.g) : GSpline(A.g) * a, "scalar product of a temporary"); break;
      case 10: lin(-1, 0); done(c.coin() ? -A.g : -GSpline(A.g), "negative"); break;
      case 11: lin(1, 1); A.g += B.g; A.m = m; A.mag = mag; check(c, s, A.g, m, mag, "a+=b"); break;
      default: lin(1, -1); A.g -= B.g; A.m = m; A.mag = mag; check(c, s, A.g, m, mag, "a-=b"); break;
    }
    // operands keep their value
    for (size_t i = 0; i < pool.size(); i++) check(c, s, pool[i].g, pool[i].m, pool[i].mag, "an operand after the operation,");
  }
}

// every space mismatch is rejected by every operation and leaves the operands alone
PBT_SUB(mismatch, 2) {
  SplineOpts o;
  o.basis.max_dim = 8;
  o.max_intervals = 5;
  o.max_codom = 4;
  SplineDesc s = gen_spline(c, o);
  SplineDesc r = gen_sibling(c, s);
  int kind = (int)c.pick(6);
  switch (kind) {
    case 0: r.codom = s.codom + (size_t)c.size(1, 2); break;
    case 1: {  // one interval length differs
      long i = (long)c.pick(s.n());
      r.taus(i) *= c.coin() ? 1.01 : 1.5;
      // keep the same total length sometimes
      if (s.n() > 1 && c.coin()) {
        long j = (i + 1) % (long)s.n();
        r.taus = s.taus;
        double d = 0.3 * std::min(r.taus(i), r.taus(j));
        r.taus(i) += d;
        r.taus(j) -= d;
      }
      break;
    }
    case 2: r.t0 = s.t0 + c.of({0.5, -1.0, 3.0, 0.001}); break;
    case 3: {  // another basis
      if (s.basis.kind == B0101) r.basis.alpha = s.basis.alpha < 0.5 ? s.basis.alpha + 0.1 : s.basis.alpha - 0.1;
      else if (s.basis.kind == LEGENDRE) {
        if (s.basis.dim < 2) c.discard();
        BasisOpts bo;
        r.basis = BasisDesc();
        r.basis.kind = LAGRANGE;
        r.basis.dim = s.basis.dim;
        r.basis.nodes = gen_nodes(c, s.basis.dim);
      } else if (c.coin() && s.basis.dim > 1) {
        r.basis.kind = LEGENDRE;
        r.basis.nodes.resize(0);
      } else {
        r.basis.kind = LAGRANGE;
        r.basis.nodes = s.basis.nodes;
        r.basis.nodes((long)c.pick(s.basis.dim)) += 0.01;
      }
      break;
    }
    case 4: {  // other dimension
      if (s.basis.kind == B0101) c.discard();
      r.basis.kind = LEGENDRE;
      r.basis.nodes.resize(0);
      r.basis.dim = s.basis.dim + 1;
      break;
    }
    default: {  // other number of intervals
      r.taus.conservativeResize((long)s.n() + 1);
      r.taus((long)s.n()) = 1.0;
    }
  }
  r.coeffs = gen_coeffs(c, r.n() * r.codom * r.basis.dim, 2);
  c << "mismatch " << kind << ": " << s.text() << " / " << r.text();
  c.label("mismatch", kind);
  c.mark();
  GSpline a = s.make(), b = r.make();
  c.require(!a.same_vector_space(b) && !b.same_vector_space(a), "splines of different spaces reported as compatible");
  auto rejects = [&](const char *name, auto f) {
    try {
      f();
    } catch (const std::invalid_argument &) {
      c.require(a.get_coefficients() == s.coeffs && b.get_coefficients() == r.coeffs && a.get_interval_lengths() == s.taus, "a rejected operation changed an operand");
      return;
    }
    c.fail(std::string(name) + " of incompatible splines was accepted");
  };
  rejects("a+b", [&] { GSpline x = a + b; });
  rejects("b+a", [&] { GSpline x = b + a; });
  rejects("a-b", [&] { GSpline x = a - b; });
  rejects("a+=b", [&] { a += b; });
  rejects("a-=b", [&] { a -= b; });
  rejects("tmp+b", [&] { GSpline x = GSpline(a) + b; });
  rejects("a+tmp", [&] { GSpline x = a + GSpline(b); });
  rejects("tmp+tmp", [&] { GSpline x = GSpline(a) + GSpline(b); });
  rejects("tmp-b", [&] { GSpline x = GSpline(a) - b; });
  rejects("a-tmp", [&] { GSpline x = a - GSpline(b); });
  rejects("tmp-tmp", [&] { GSpline x = GSpline(a) - GSpline(b); });
}
