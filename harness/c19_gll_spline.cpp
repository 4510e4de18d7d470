// C19: collocation splines hold node values and combine them pointwise.
#include "expr.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <list>
using namespace gen;
namespace gc = gsplines::collocation;
using S = gc::GLLSpline;

static const double TOL = 1e-9;

struct Model {
  Dom dom;
  size_t codom = 1, nglp = 2;
  VectorXd taus;
  std::vector<VL> v, e;  // [node][component]: value, magnitude of rounding

  size_t ni() const { return (size_t)taus.size(); }
  size_t nodes() const { return ni() * nglp; }
  void alloc() {
    v.assign(nodes(), VL(codom, 0));
    e.assign(nodes(), VL(codom, 0));
  }
  L left(size_t k) const {
    L x = dom.first;
    for (size_t j = 0; j < k; j++) x += (L)taus((long)j);
    return x;
  }
  L node(size_t i) const {
    size_t k = i / nglp, j = i % nglp;
    return left(k) + (gll_ref_nodes(nglp)[j] + 1) / 2 * (L)taus((long)k);
  }
  VectorXd coeffs() const {
    VectorXd r((long)(nodes() * codom));
    for (size_t k = 0; k < ni(); k++)
      for (size_t q = 0; q < codom; q++)
        for (size_t j = 0; j < nglp; j++) r((long)((k * codom + q) * nglp + j)) = (double)v[k * nglp + j][q];
    return r;
  }
  bool sane() const {
    for (size_t i = 0; i < nodes(); i++)
      for (size_t q = 0; q < codom; q++)
        if (!(fabsl(v[i][q]) < 1e10L) || !(e[i][q] < 1e10L)) return false;
    return true;
  }
  std::string text() const {
    std::ostringstream o;
    o << "[" << num(dom.first) << "," << num(dom.second) << "] taus=" << show(taus) << " nglp=" << nglp << " codom=" << codom;
    return o.str();
  }
  template <class F>
  void map(F f) {
    for (size_t i = 0; i < nodes(); i++)
      for (size_t q = 0; q < codom; q++) f(v[i][q], e[i][q], i, q);
  }
};
struct Obj {
  Model m;
  std::unique_ptr<S> s;
};

static void same(Case &c, const Model &m, const S &s, const std::string &what, bool eval = true) {
  c.require(s.get_codom_dim() == m.codom, what + ": codomain dimension");
  c.require(s.get_nglp() == m.nglp, what + ": number of points");
  c.require(s.get_number_of_intervals() == m.ni(), what + ": number of intervals");
  L span = fabsl((L)m.dom.first) + fabsl((L)m.dom.second);
  close(c, s.get_domain().first, m.dom.first, 1 + span, 1e-11, what + ": start of the domain");
  close(c, s.get_domain().second, m.dom.second, 1 + span, 1e-11, what + ": end of the domain");
  c.require(s.get_interval_lengths().size() == (long)m.ni(), what + ": number of interval lengths");
  for (size_t k = 0; k < m.ni(); k++) close(c, s.get_interval_lengths()((long)k), (L)m.taus((long)k), 1 + span, 1e-11, what + ": interval length");
  VectorXd d = s.get_domain_discretization();
  c.require(d.size() == (long)m.nodes(), what + ": number of collocation points");
  VectorXd co = s.get_coefficients();
  c.require(co.size() == (long)(m.nodes() * m.codom), what + ": number of coefficients");
  for (size_t i = 0; i < m.nodes(); i++) {
    std::string w = what + " node " + std::to_string(i);
    close(c, d((long)i), m.node(i), span, 1e-11, w + ": collocation point");
    VectorXd x = s.value_at(i);
    c.require(x.size() == (long)m.codom, w + ": size of the value");
    size_t k = i / m.nglp, j = i % m.nglp;
    for (size_t q = 0; q < m.codom; q++) {
      close(c, x((long)q), m.v[i][q], m.e[i][q] + fabsl(m.v[i][q]) + 1e-4L, TOL, w + " component " + std::to_string(q));
      close(c, co((long)((k * m.codom + q) * m.nglp + j)), m.v[i][q], m.e[i][q] + fabsl(m.v[i][q]) + 1e-4L, TOL, w + " coefficient");
    }
  }
  if (!eval) return;
  // evaluation of the spline passes through the nodes inside of the intervals
  MatrixXd y = s(d);
  for (size_t i = 0; i < m.nodes(); i++) {
    size_t k = i / m.nglp, j = i % m.nglp;
    if (j == 0 || j + 1 == m.nglp) continue;
    for (size_t q = 0; q < m.codom; q++) {
      L mx = 1e-4L;
      for (size_t jj = 0; jj < m.nglp; jj++) mx = std::max(mx, fabsl(m.v[k * m.nglp + jj][q]) + m.e[k * m.nglp + jj][q]);
      L amp = (L)(m.nglp * m.nglp) * (1 + span / (L)m.taus((long)k));
      close(c, y((long)i, (long)q), m.v[i][q], mx * amp, TOL, what + " evaluated at node " + std::to_string(i));
    }
  }
}

struct World {
  Case &c;
  std::list<Obj> pool;
  Dom dom;
  size_t ni = 1, nglp = 2;
  VectorXd taus;
  bool dy = false;
  explicit World(Case &cc) : c(cc) {}

  Model space(size_t codom, bool uniform = false) {
    Model m;
    m.dom = dom;
    m.codom = codom;
    m.nglp = nglp;
    m.taus = taus;
    if (uniform) m.taus.setConstant((dom.second - dom.first) / (double)ni);
    m.alloc();
    return m;
  }
  // sample a reference function at the nodes; false when it is not determined
  bool sample(Model &m, const Node &n) {
    // borders are exact when everything is a multiple of a moderate power of two
    auto dyadic = [](double x) { return std::fabs(x) < 1e4 && x * 1048576 == std::round(x * 1048576); };
    bool exact = dyadic(m.dom.first) && dyadic(m.dom.second);
    for (size_t k = 0; k < m.ni(); k++) exact = exact && dyadic(m.taus((long)k));
    exact = exact && (m.taus.isConstant(m.taus(0)) ? (m.ni() & (m.ni() - 1)) == 0 : true);
    L span = fabsl((L)m.dom.first) + fabsl((L)m.dom.second);
    for (size_t i = 0; i < m.nodes(); i++) {
      size_t j = i % m.nglp;
      bool border = j == 0 || j + 1 == m.nglp;
      try {
        auto y = n.eval(Jet::var(m.node(i), border && exact ? 0 : span, 0));
        for (size_t q = 0; q < m.codom; q++) {
          m.v[i][q] = y[q].v[0];
          m.e[i][q] = y[q].e[0] * 5;
        }
      } catch (const Undetermined &) {
        return false;
      }
    }
    return m.sane();
  }
  Obj &add(Model m, S &&s) {
    pool.push_back({std::move(m), nullptr});
    Obj &o = pool.back();
    // an S can be obtained from an S in several ways
    switch (c.pick(3)) {
      case 0: o.s = std::make_unique<S>(static_cast<const S &>(s)); break;
      default: o.s = std::make_unique<S>(std::move(s));
    }
    return o;
  }
  Obj *some(int codom = 0) {
    std::vector<Obj *> v;
    for (auto &o : pool)
      if (!codom || (int)o.m.codom == codom) v.push_back(&o);
    return v.empty() ? nullptr : v[c.pick(v.size())];
  }
  void drop(Obj *o) {
    for (auto it = pool.begin(); it != pool.end(); ++it)
      if (&*it == o) {
        pool.erase(it);
        return;
      }
  }
  Obj &create() {
    size_t codom = c.coin() ? 1 : (size_t)c.size(2, 4);
    int how = (int)c.pick(7);
    c.label(std::string("create ") + std::to_string(how));
    if (how <= 2) {
      Model m = space(codom);
      VectorXd co = gen_coeffs(c, m.nodes() * codom, 3);
      bool positive = codom == 1 && c.coin();
      if (positive) co = co.array().abs() + 0.25;
      for (size_t k = 0; k < m.ni(); k++)
        for (size_t q = 0; q < codom; q++)
          for (size_t j = 0; j < nglp; j++) m.v[k * nglp + j][q] = (L)co((long)((k * codom + q) * nglp + j));
      c << " new(codom=" << codom << ",coeffs=" << show(co) << ")";
      if (how == 0) {
        VectorXd a = co, b = taus;
        S s(dom, codom, ni, nglp, a, b);
        a.setConstant(77);
        b.setConstant(77);
        return add(m, std::move(s));
      }
      if (how == 1) return add(m, S(dom, codom, ni, nglp, VectorXd(co), VectorXd(taus)));
      gsplines::GSpline g(dom, codom, ni, gb::BasisLagrangeGaussLobatto(nglp), co, taus);
      if (c.coin()) return add(m, S(static_cast<const gsplines::GSpline &>(g)));
      return add(m, S(std::move(g)));
    }
    if (how == 3) {
      c << " zero(codom=" << codom << ")";
      return add(space(codom, true), S(dom, codom, ni, nglp));
    }
    if (how == 4) {
      Model m = space(1, true);
      for (size_t i = 0; i < m.nodes(); i++) m.v[i][0] = m.node(i), m.e[i][0] = 10 * fabsl(m.node(i)) + 1;
      c << " identity";
      return add(m, S::identity(dom, nglp, ni));
    }
    ExprOpts o;
    Model m = space(codom, true);
    NodeP f = gen_node(c, dom, codom, (int)c.size(1, 5), o);
    c << " approximate(" << f->text() << ")";
    if (!sample(m, *f)) c.discard();
    Builder b(c);
    FP p = b.build(f);
    if (how == 5) return add(m, S::approximate(*p, nglp, ni));
    return add(m, S(static_cast<const gf::FunctionBase &>(*p), ni, nglp));
  }
  bool compatible(const Model &a, const Model &b) const { return (a.taus - b.taus).cwiseAbs().maxCoeff() < 1e-12 * (1 + a.taus.sum()); }
  void unchanged(Obj &o, const std::string &what) { same(c, o.m, *o.s, what, false); }
};

static World make_world(Case &c) {
  World w(c);
  w.nglp = (size_t)c.big(2, 8, 18);
  w.ni = (size_t)c.big(1, 5, 40);
  w.taus = gen_taus(c, w.ni, nullptr, 0.05, 5, &w.dy);
  double t0 = gen_t0(c, w.dy);
  w.dom = {t0, t0};
  for (long i = 0; i < w.taus.size(); i++) w.dom.second += w.taus(i);
  c << "[" << num(w.dom.first) << "," << num(w.dom.second) << "] taus=" << show(w.taus) << " nglp=" << w.nglp;
  return w;
}

template <class F>
static bool throws_invalid(F f) {
  try {
    f();
  } catch (const std::invalid_argument &) {
    return true;
  }
  return false;
}

// the four value categories of a binary operation
template <class F>
static void with_categories(World &w, Obj *a, Obj *b, Model m, const std::string &what, F op) {
  Case &c = w.c;
  bool am = c.chance(1, 3), bm = a != b && c.chance(1, 3);
  Obj *r;
  const S &ca = *a->s, &cb = *b->s;
  if (am && bm) r = &w.add(m, op(std::move(*a->s), std::move(*b->s)));
  else if (am && a != b) r = &w.add(m, op(std::move(*a->s), cb));
  else if (bm) r = &w.add(m, op(ca, std::move(*b->s)));
  else r = &w.add(m, op(ca, cb));
  if (am && a == b) am = false;
  same(c, m, *r->s, what);
  if (!am) w.unchanged(*a, what + ": left operand");
  if (!bm) w.unchanged(*b, what + ": right operand");
  if (am) w.drop(a);
  if (bm) w.drop(b);
}
template <class F>
static void with_categories1(World &w, Obj *a, Model m, const std::string &what, F op) {
  Case &c = w.c;
  bool am = c.coin();
  const S &ca = *a->s;
  Obj *r = am ? &w.add(m, op(std::move(*a->s))) : &w.add(m, op(ca));
  same(c, m, *r->s, what);
  if (am) w.drop(a);
  else w.unchanged(*a, what + ": operand");
}

PBT_SUB(histories, 5) {
  World w = make_world(c);
  w.create();
  size_t steps = (size_t)c.size(1, 12), done = 0;
  for (size_t st = 0; st < steps; st++) {
    if (w.pool.size() > 5) w.drop(w.some());
    int op = (int)c.pick(16);
    if (w.pool.size() < 2 || op == 0) {
      Obj &o = w.create();
      same(c, o.m, *o.s, "new spline");
      continue;
    }
    Obj *a = w.some(), *b = w.some();
    if (!a->m.sane()) {
      w.drop(a);
      continue;
    }
    if (!b->m.sane()) {
      w.drop(b);
      continue;
    }
    done++;
    switch (op) {
      case 1:
      case 2: {  // product
        c << " product";
        if (!w.compatible(a->m, b->m) || (a->m.codom > 1 && b->m.codom > 1)) {
          bool fits = w.compatible(a->m, b->m);
          const S &x = *a->s, &y = *b->s;
          if (!fits && a->m.taus.isApprox(b->m.taus, 1e-4)) break;
          c.require(throws_invalid([&] { x *y; }), "product of splines that do not fit is not rejected");
          if (a != b) {
            c.require(throws_invalid([&] { x *std::move(*b->s); }), "product of splines that do not fit is not rejected (&&)");
            c.require(throws_invalid([&] { std::move(*a->s) * y; }), "product of splines that do not fit is not rejected (&&)");
            c.require(throws_invalid([&] { std::move(*a->s) * std::move(*b->s); }), "product of splines that do not fit is not rejected (&&)");
          }
          w.unchanged(*a, "left operand of a rejected product");
          w.unchanged(*b, "right operand of a rejected product");
          c.label("rejected product");
          break;
        }
        Model m = a->m.codom >= b->m.codom ? a->m : b->m;
        const Model &s = a->m.codom >= b->m.codom ? b->m : a->m;
        m.map([&](L &v, L &e, size_t i, size_t) {
          e = fabsl(v) * s.e[i][0] + e * fabsl(s.v[i][0]) + fabsl(v * s.v[i][0]);
          v *= s.v[i][0];
        });
        with_categories(w, a, b, m, "product", [](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) * std::forward<decltype(y)>(y); });
        c.label("product");
        break;
      }
      case 3:
      case 4: {  // sum and difference
        bool sum = op == 3;
        c << (sum ? " sum" : " difference");
        if (!w.compatible(a->m, b->m) || a->m.codom != b->m.codom) {
          if (w.compatible(a->m, b->m) == false && a->m.taus.isApprox(b->m.taus, 1e-4)) break;
          const S &x = *a->s, &y = *b->s;
          c.require(throws_invalid([&] { sum ? x + y : x - y; }), "sum of splines that do not fit is not rejected");
          c.require(throws_invalid([&] { sum ? *a->s += y : *a->s -= y; }), "in-place sum of splines that do not fit is not rejected");
          w.unchanged(*a, "left operand of a rejected sum");
          w.unchanged(*b, "right operand of a rejected sum");
          c.label("rejected sum");
          break;
        }
        Model m = a->m;
        const Model &bm = b->m;
        m.map([&](L &v, L &e, size_t i, size_t q) {
          v = sum ? v + bm.v[i][q] : v - bm.v[i][q];
          e += bm.e[i][q] + fabsl(bm.v[i][q]) + fabsl(v);
        });
        if (c.chance(1, 3)) {
          const S &y = *b->s;
          if (sum) *a->s += y;
          else *a->s -= y;
          if (a == b) {
            a->m = m;
          } else {
            w.unchanged(*b, "operand of an in-place sum");
            a->m = m;
          }
          same(c, a->m, *a->s, "in-place sum");
          c.label("in-place sum");
          break;
        }
        if (sum) with_categories(w, a, b, m, "sum", [](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) + std::forward<decltype(y)>(y); });
        else with_categories(w, a, b, m, "difference", [](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) - std::forward<decltype(y)>(y); });
        c.label("sum");
        break;
      }
      case 5: {  // number times spline
        double k = gen_const(c);
        Model m = a->m;
        m.map([&](L &v, L &e, size_t, size_t) { e = (e + fabsl(v)) * fabsl((L)k), v *= (L)k; });
        c << " scale(" << num(k) << ")";
        if (c.coin()) with_categories1(w, a, m, "number times spline", [&](auto &&x) { return k * std::forward<decltype(x)>(x); });
        else with_categories1(w, a, m, "spline times number", [&](auto &&x) { return std::forward<decltype(x)>(x) * k; });
        c.label("scale");
        break;
      }
      case 6: {
        Model m = a->m;
        m.map([&](L &v, L &, size_t, size_t) { v = -v; });
        c << " negate";
        with_categories1(w, a, m, "negative", [&](auto &&x) { return -std::forward<decltype(x)>(x); });
        c.label("negate");
        break;
      }
      case 7:
      case 8: {  // with a vector
        VectorXd u = gen_coeffs(c, a->m.codom, 2);
        int form = (int)c.pick(4);
        c << " vector" << form << show(u);
        if (c.chance(1, 6)) {
          VectorXd bad = gen_coeffs(c, a->m.codom + 1, 2);
          if (a->m.codom > 1 && c.coin()) bad = gen_coeffs(c, a->m.codom - 1, 2);
          const S &x = *a->s;
          c.require(throws_invalid([&] { bad + x; }) && throws_invalid([&] { x + bad; }) && throws_invalid([&] { bad - x; }) && throws_invalid([&] { x - bad; }), "a vector of another size is not rejected");
          c.require(throws_invalid([&] { bad + std::move(*a->s); }) && throws_invalid([&] { std::move(*a->s) + bad; }) && throws_invalid([&] { bad - std::move(*a->s); }) && throws_invalid([&] { std::move(*a->s) - bad; }), "a vector of another size is not rejected (&&)");
          w.unchanged(*a, "operand after a rejected vector");
          c.label("rejected vector");
        }
        Model m = a->m;
        m.map([&](L &v, L &e, size_t, size_t q) {
          L uq = (L)u((long)q);
          v = form < 2 ? v + uq : form == 2 ? v - uq : uq - v;
          e += fabsl(uq) + fabsl(v);
        });
        VectorXd u0 = u;
        switch (form) {
          case 0: with_categories1(w, a, m, "vector plus spline", [&](auto &&x) { return u + std::forward<decltype(x)>(x); }); break;
          case 1: with_categories1(w, a, m, "spline plus vector", [&](auto &&x) { return std::forward<decltype(x)>(x) + u; }); break;
          case 2: with_categories1(w, a, m, "spline minus vector", [&](auto &&x) { return std::forward<decltype(x)>(x) - u; }); break;
          default: with_categories1(w, a, m, "vector minus spline", [&](auto &&x) { return u - std::forward<decltype(x)>(x); });
        }
        c.require(u == u0, "the vector was changed");
        c.label("vector");
        break;
      }
      case 9: {  // reciprocal
        double k = gen_const(c);
        c << " reciprocal(" << num(k) << ")";
        if (a->m.codom > 1) {
          const S &x = *a->s;
          c.require(throws_invalid([&] { k / x; }) && throws_invalid([&] { k / std::move(*a->s); }), "division by a vector function is not rejected");
          w.unchanged(*a, "operand after a rejected division");
          c.label("rejected division");
          break;
        }
        bool ok = true;
        for (auto &v : a->m.v) ok = ok && fabsl(v[0]) > 0.05L;
        for (auto &e : a->m.e) ok = ok && e[0] < 1e5L;
        if (!ok) break;
        Model m = a->m;
        m.map([&](L &v, L &e, size_t, size_t) { e = fabsl((L)k / (v * v)) * e + fabsl((L)k / v), v = (L)k / v; });
        with_categories1(w, a, m, "number over spline", [&](auto &&x) { return k / std::forward<decltype(x)>(x); });
        c.label("reciprocal");
        break;
      }
      case 10: {  // norm
        c << " norm";
        Model m = a->m;
        m.codom = 1;
        m.alloc();
        for (size_t i = 0; i < m.nodes(); i++) {
          L s = 0, e = 0;
          for (size_t q = 0; q < a->m.codom; q++) s += a->m.v[i][q] * a->m.v[i][q], e += a->m.e[i][q] + fabsl(a->m.v[i][q]);
          m.v[i][0] = sqrtl(s);
          m.e[i][0] = e;
        }
        const S &x = *a->s;
        Obj &r = w.add(m, norm(x));
        same(c, m, *r.s, "norm");
        w.unchanged(*a, "operand of the norm");
        c.label("norm");
        break;
      }
      case 11: {  // power
        if (a->m.codom > 1) {
          const S &x = *a->s;
          c.require(throws_invalid([&] { pow(x, 2.0); }) && throws_invalid([&] { pow(std::move(*a->s), 2.0); }), "power of a vector function is not rejected");
          w.unchanged(*a, "operand after a rejected power");
          c.label("rejected power");
          break;
        }
        bool pos = true;
        for (auto &v : a->m.v) pos = pos && v[0] > 0.05L;
        for (auto &e : a->m.e) pos = pos && e[0] < 1e5L;
        double p = pos ? c.of({2.0, 0.5, -1.0, 1.0, 3.0, -0.5, 0.0, 1.7}) : c.of({2.0, 1.0, 3.0});
        c << " pow(" << num(p) << ")";
        Model m = a->m;
        m.map([&](L &v, L &e, size_t, size_t) {
          L d = fabsl((L)p * powl(v, (L)p - 1));
          if (!(d < 1e30L)) d = 0;
          v = powl(v, (L)p);
          e = d * e + fabsl(v);
        });
        with_categories1(w, a, m, "power", [&](auto &&x) { return pow(std::forward<decltype(x)>(x), p); });
        c.label("power");
        break;
      }
      case 12: {  // assignment of a spline
        if (a->m.codom != b->m.codom) {
          const S &y = *b->s;
          c.require(throws_invalid([&] { *a->s = y; }) && throws_invalid([&] { *a->s = std::move(*b->s); }) && throws_invalid([&] { *a->s = static_cast<const gf::FunctionBase &>(y); }), "assignment from another codomain is not rejected");
          w.unchanged(*a, "target of a rejected assignment");
          w.unchanged(*b, "source of a rejected assignment");
          c.label("rejected assignment");
          break;
        }
        c << " assign";
        if (a == b) {
          const S &y = *b->s;
          if (c.coin()) *a->s = y;
          w.unchanged(*a, "assignment to itself");
          break;
        }
        if (c.coin()) {
          const S &y = *b->s;
          *a->s = y;
          a->m = b->m;
          w.unchanged(*b, "source of an assignment");
        } else {
          *a->s = std::move(*b->s);
          a->m = b->m;
          w.drop(b);
        }
        same(c, a->m, *a->s, "assigned spline");
        c.label("assign");
        break;
      }
      case 13: {  // assignment of a function
        ExprOpts o;
        Dom d = c.coin() ? a->m.dom : gen_dom(c);
        NodeP f = gen_node(c, d, a->m.codom, (int)c.size(1, 5), o);
        c << " from function " << f->text();
        Model m = a->m;
        m.dom = d;
        m.taus = a->m.taus * ((d.second - d.first) / a->m.taus.sum());
        if (!w.sample(m, *f)) break;
        Builder bl(c);
        FP p = bl.build(f);
        *a->s = static_cast<const gf::FunctionBase &>(*p);
        a->m = m;
        same(c, m, *a->s, "spline assigned from a function");
        if (d != w.dom) w.drop(a);
        c.label("assign function");
        break;
      }
      case 14: {  // array of values
        Dom d = c.coin() ? a->m.dom : gen_dom(c);
        size_t n = a->m.nodes();
        if (c.chance(1, 5)) {
          bool few = c.coin() && n > 1;
          std::vector<Eigen::RowVectorXd> bad(few ? n - 1 : n + 1, Eigen::RowVectorXd::Zero((long)a->m.codom));
          bool thrown = false;
          try {
            a->s->set_from_array(d, bad.begin(), bad.end());
          } catch (const std::exception &) {
            thrown = true;
          }
          c.require(thrown, "an array with another number of values is not rejected");
          w.unchanged(*a, "spline after a rejected array");
          c.label("rejected array");
          break;
        }
        std::vector<Eigen::RowVectorXd> arr;
        for (size_t i = 0; i < n; i++) arr.push_back(gen_coeffs(c, a->m.codom, 2).transpose());
        c << " from array";
        Model m = a->m;
        m.dom = d;
        m.taus = a->m.taus * ((d.second - d.first) / a->m.taus.sum());
        for (size_t i = 0; i < n; i++)
          for (size_t q = 0; q < m.codom; q++) m.v[i][q] = (L)arr[i]((long)q), m.e[i][q] = 0;
        if (c.chance(1, 6)) {
          size_t at = c.pick(n);
          arr[at] = Eigen::RowVectorXd::Zero((long)a->m.codom + 1);
          c.require(throws_invalid([&] { a->s->set_from_array(d, arr.begin(), arr.end()); }), "a value of another size is not rejected");
          w.drop(a);  // what it holds now is not specified
          c.label("rejected array");
          break;
        }
        if (c.coin()) a->s->set_from_array(d, arr.begin(), arr.end());
        else {
          m.map([](L &v, L &, size_t, size_t) { v = 2 * v; });
          a->s->set_from_array(d, arr.begin(), arr.end(), [](const Eigen::RowVectorXd &r) -> Eigen::RowVectorXd { return 2 * r; });
        }
        a->m = m;
        same(c, m, *a->s, "spline from an array");
        if (d != w.dom) w.drop(a);
        c.label("array");
        break;
      }
      default: {  // other ways to the same object
        c << " copy";
        const S &x = *a->s;
        bool out = throws_invalid([&] { x.value_at(a->m.nodes()); });
        c.require(out, "an index beyond the last node is not rejected");
        if (c.coin()) {
          auto q = x.clone();
          S *p = dynamic_cast<S *>(q.get());
          c.require(p != nullptr, "clone has another type");
          same(c, a->m, *p, "clone");
        } else {
          S y(x);
          same(c, a->m, y, "copy");
          c.require(y == x && !(y != x), "a copy is not equal");
        }
        w.unchanged(*a, "copied spline");
      }
    }
  }
  for (auto &o : w.pool) same(c, o.m, *o.s, "spline at the end");
  if (done >= 2) c.mark();
}

// polynomials the nodes can represent are reproduced between the nodes, with
// their derivatives
PBT_SUB(reproduction, 2) {
  ExprOpts o;
  o.poly_only = true;
  o.splines = false;
  o.concat = false;
  Dom dom = gen_dom(c);
  size_t codom = (size_t)c.size(1, 3);
  NodeP f = gen_node(c, dom, codom, (int)c.size(1, 5), o);
  size_t deg = f->poly_degree();
  if (deg > 9) c.discard();
  size_t nglp = std::max<size_t>(2, deg + 1) + (size_t)c.integer(0, 2), ni = (size_t)c.big(1, 5, 40);
  c << f->text() << " nglp=" << nglp << " ni=" << ni;
  Builder b(c);
  FP p = b.build(f);
  std::unique_ptr<S> s;
  switch (c.pick(3)) {
    case 0: s = std::make_unique<S>(S::approximate(*p, nglp, ni)); break;
    case 1: s = std::make_unique<S>(static_cast<const gf::FunctionBase &>(*p), ni, nglp); break;
    default: {
      bool dy;
      VectorXd taus = gen_taus(c, ni, nullptr, 0.1, 3, &dy);
      double t0 = gen_t0(c, dy);
      s = std::make_unique<S>(Dom{t0, t0 + taus.sum()}, codom, ni, nglp, gen_coeffs(c, ni * nglp * codom, 2), taus);
      *s = static_cast<const gf::FunctionBase &>(*p);
      c << " by assignment taus=" << show(taus);
    }
  }
  unsigned d = (unsigned)c.integer(0, 2);
  VectorXd t = gen_points(c, *f, false);
  VL v, e;
  S ds = s->derivate(d);
  MatrixXd y = ds(t);
  L h = s->get_interval_lengths().minCoeff();
  L amp = powl((L)(nglp * nglp) * 2 / h, (L)d) * (L)(nglp * nglp) * 10 * (1 + (fabsl((L)dom.first) + fabsl((L)dom.second)) / h);
  L big = 0;
  for (double x = 0; x <= 1.0; x += 0.125)
    if (f->reference(dom.first + x * (dom.second - dom.first), 0, v, e))
      for (auto q : v) big = std::max(big, fabsl(q));
  for (long i = 0; i < t.size(); i++) {
    if (!f->reference(t(i), d, v, e)) continue;
    for (size_t k = 0; k < codom; k++) close(c, y(i, (long)k), v[k], e[k] + (big + 1e-3L) * amp, 1e-9, "reproduced polynomial, derivative " + std::to_string(d));
  }
  if (deg >= 2) c.mark();
  c.label("polynomial degree", deg);
}

// operands of another discretization or domain
PBT_SUB(rejections, 1) {
  World w = make_world(c);
  Obj &a = w.create();
  World v(c);
  v.dom = w.dom;
  v.nglp = w.nglp;
  v.ni = w.ni;
  v.taus = w.taus;
  int what = (int)c.pick(4);
  if (what == 0) {
    v.nglp = w.nglp + (size_t)c.integer(1, 2);
    if (w.nglp > 2 && c.coin()) v.nglp = w.nglp - 1;
  } else if (what == 1) {
    v.ni = w.ni + 1;
    v.taus = VectorXd::Constant((long)v.ni, w.taus.sum() / (double)v.ni);
  } else if (what == 2) {
    double d = c.of({0.01, 1.0, -0.5});
    v.dom = {w.dom.first + d, w.dom.second + d};
  } else {
    if (w.ni < 2) c.discard();
    double d = 0.3 * w.taus.minCoeff();
    v.taus(0) += d;
    v.taus(1) -= d;
  }
  c << " other: " << what;
  v.dy = false;
  Obj &b = v.create();
  if (what >= 2 && std::fabs(a.m.dom.first - b.m.dom.first) < 1e-3 && a.m.taus.isApprox(b.m.taus, 1e-3)) c.discard();
  const S &x = *a.s, &y = *b.s;
  bool scal = a.m.codom == 1 || b.m.codom == 1;
  c.require(throws_invalid([&] { x *y; }), "product is not rejected");
  c.require(throws_invalid([&] { x *std::move(*b.s); }), "product with && is not rejected");
  c.require(throws_invalid([&] { std::move(*a.s) * y; }), "product of && is not rejected");
  c.require(throws_invalid([&] { std::move(*a.s) * std::move(*b.s); }), "product of && and && is not rejected");
  c.require(throws_invalid([&] { x + y; }) && throws_invalid([&] { x - y; }), "sum is not rejected");
  c.require(throws_invalid([&] { *a.s += y; }) && throws_invalid([&] { *a.s -= y; }), "in-place sum is not rejected");
  if (what < 2 || a.m.codom != b.m.codom) {
    c.require(throws_invalid([&] { *a.s = y; }), "assignment is not rejected");
    c.require(throws_invalid([&] { *a.s = std::move(*b.s); }), "move assignment is not rejected");
  }
  c.require(x.same_discretization(y) == (what >= 2), "same_discretization");
  same(c, a.m, *a.s, "left operand after rejections");
  same(c, b.m, *b.s, "right operand after rejections");
  if (scal) c.mark();
}
