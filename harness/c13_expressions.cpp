// C13: function expressions evaluate the mathematics they spell.
#include "expr.hpp"
using namespace gen;

PBT_SUB(programs, 6) {
  ExprOpts o;
  Dom dom = gen_dom(c);
  size_t codom = (size_t)c.big(1, 4, 12);
  int budget = (int)c.big(2, 14, 28);
  NodeP n = gen_node(c, dom, codom, budget, o);
  c << n->text();
  if (n->cost(0) > 20000) c.discard();
  Builder b(c);
  FP f = b.build(n);
  check_shape(c, *n, *f, "expression");
  VectorXd t = gen_points(c, *n, true);
  c << " t=" << show(t);
  size_t cnt = check_values(c, *n, (*f)(t), t, 0, "value");
  // the other ways to evaluate, in any order, any number of times
  switch (c.pick(5)) {
    case 0: check_values(c, *n, f->value(t), t, 0, "value()"); break;
    case 1: {
      MatrixXd m = MatrixXd::Constant(t.size() + 2, (long)codom + 2, -55.0);
      f->value(t, m.block(1, 1, t.size(), (long)codom));
      check_values(c, *n, MatrixXd(m.block(1, 1, t.size(), (long)codom)), t, 0, "value into a block");
      m.block(1, 1, t.size(), (long)codom).setConstant(-55.0);
      c.require((m.array() == -55.0).all(), "evaluation wrote outside of its output");
      break;
    }
    case 2: {
      FP g = f->clone();
      f.reset();
      check_shape(c, *n, *g, "clone");
      check_values(c, *n, (*g)(t), t, 0, "value of a clone");
      break;
    }
    case 3: {
      gf::FunctionExpression e = f->to_expression();
      f.reset();
      check_shape(c, *n, e, "expression");
      check_values(c, *n, e(t), t, 0, "value of the expression");
      break;
    }
    default:
      for (long i = 0; i < t.size(); i++) {
        VectorXd one = t.segment(i, 1);
        check_values(c, *n, (*f)(one), one, 0, "value at a single instant");
      }
  }
  c.label(std::string("root ") + op_name(n->op));
  for (int k = SUM; k < OPS; k++)
    if (n->has((Op)k)) c.label(std::string("has ") + op_name((Op)k));
  if (cnt && n->nodes() >= 3) c.mark();
  if (!cnt) c.label("no determined instant");
}

// nestings of one or two kinds of operation only, which the library merges
// into one list of operands
PBT_SUB(same_kind, 2) {
  ExprOpts o;
  o.only = {c.of({SUM, MUL, COMP, COMP, CONC, CONC, DIFF})};
  if (c.chance(1, 3)) o.only.push_back(c.of({SUM, MUL, COMP, CONC, NEG, SCALE}));
  Dom dom = gen_dom(c);
  size_t codom = (size_t)c.size(1, 3);
  NodeP n = gen_node(c, dom, codom, (int)c.size(3, 12), o);
  c << n->text();
  if (n->cost(0) > 20000) c.discard();
  Builder b(c);
  FP f = b.build(n);
  check_shape(c, *n, *f, "expression");
  VectorXd t = gen_points(c, *n, true);
  c << " t=" << show(t);
  c.label(std::string("nested ") + op_name(o.only[0]));
  size_t cnt = check_values(c, *n, (*f)(t), t, 0, "value");
  for (auto &x : b.kept) {
    VectorXd u = gen_points(c, *x.node, true, 2);
    check_values(c, *x.node, (*x.f)(u), u, 0, "named operand after its use");
  }
  double x = dom.first + (dom.second - dom.first) * c.real(0.001, 0.999), out = c.of({1e-6, 0.5, 3.0}) * (1 + dom.second - dom.first);
  c.require(f->is_point_in_domain(x) && f->is_point_in_domain(f->get_domain().first), "an instant of the domain is said to be outside");
  c.require(!f->is_point_in_domain(dom.first - out) && !f->is_point_in_domain(dom.second + out), "an instant outside of the domain is said to be in it");
  if (cnt && n->nodes() >= 5) c.mark();
}

// the same object used as both operands
PBT_SUB(shared_operand, 1) {
  ExprOpts o;
  Dom dom = gen_dom(c);
  size_t codom = (size_t)c.size(1, 3);
  NodeP n = gen_node(c, dom, codom, (int)c.size(1, 6), o);
  Builder b(c);
  FP f0 = b.build(n);
  gf::FunctionExpression f = f0->to_expression();
  if (Builder::expr(f0) && c.coin()) {
    gf::FunctionExpression g(*Builder::expr(f0));
    f += g;  // now a sum in place
    f += -g;
  }
  auto r = std::make_shared<Node>();
  r->dom = dom;
  r->codom = codom;
  r->ch = {n, n};
  int what = (int)c.pick(7);
  c << n->text() << " with itself: " << what;
  FP g;
  using E = gf::FunctionExpression;
  switch (what) {
    case 0: r->op = SUM; g = std::make_unique<E>(f + f); break;
    case 1: r->op = DIFF; g = std::make_unique<E>(f - f); break;
    case 2:
      if (codom > 1) c.discard();
      r->op = MUL;
      g = std::make_unique<E>(f * f);
      break;
    case 3:
      if (codom > 1) c.discard();
      r->op = COMP;
      g = std::make_unique<E>(f.compose(f));
      break;
    case 4: r->op = DOT; r->codom = 1; g = std::make_unique<gf::DotProduct>(f.dot(f)); break;
    case 5: {
      r->op = SUM;
      g = std::make_unique<E>(f);
      E &e = *Builder::expr(g);
      e += e;
      break;
    }
    default: {
      if (codom > 1) c.discard();
      r->op = MUL;
      g = std::make_unique<E>(f);
      E &e = *Builder::expr(g);
      e *= e;
    }
  }
  check_shape(c, *r, *g, "combination with itself");
  VectorXd t = gen_points(c, *r, true);
  c << " t=" << show(t);
  size_t cnt = check_values(c, *r, (*g)(t), t, 0, "value");
  check_values(c, *n, f(t), t, 0, "value of the operand afterwards");
  if (cnt) c.mark();
}

// pieces whose domains meet only up to rounding (or up to the tolerance of the
// library) can be concatenated: the result is defined all the way along
PBT_SUB(seams, 1) {
  using E = gf::FunctionExpression;
  size_t n = (size_t)c.size(2, 6);
  // how pieces are laid out: the intended breakpoints, and the actual domains
  std::vector<double> cut{c.real(-2, 2)};
  std::vector<std::pair<double, double>> dom(n);
  std::vector<double> off(n, 0.0), slope(n), val(n);
  for (size_t i = 0; i < n; i++) {
    cut.push_back(cut.back() + c.logreal(0.1, 3));
    slope[i] = c.real(-2, 2);
    val[i] = 10.0 * (double)i + c.real(-1, 1);
  }
  bool gap = false;
  for (size_t i = 0; i < n; i++) {
    double a = cut[i], b = cut[i + 1];
    if (i > 0) {
      switch (c.pick(4)) {
        case 0: break;
        case 1: a = std::nextafter(a, 100.0); break;
        case 2: a = std::nextafter(a, -100.0); break;
        default: a += c.real(-8e-10, 8e-10);
      }
      gap = gap || a > cut[i];
    }
    dom[i] = {a, b};
  }
  auto piece = [&](size_t i) {
    return E(gf::CanonicPolynomial(dom[i], VectorXd((VectorXd(2) << val[i] - slope[i] * cut[i], slope[i]).finished())));
  };
  // the order of the concatenations: any association
  std::function<E(size_t, size_t)> build = [&](size_t lo, size_t hi) -> E {
    if (hi - lo == 1) return piece(lo);
    size_t mid = lo + 1 + c.pick(hi - lo - 1);
    E l = build(lo, mid), r = build(mid, hi);
    switch (c.pick(4)) {
      case 0: return l.concat(r);
      case 1: return l.concat(std::move(r));
      case 2: return std::move(l).concat(r);
      default: return std::move(l).concat(std::move(r));
    }
  };
  E f = build(0, n);
  size_t deg = c.chance(1, 3) ? 1 : 0;
  E g = deg ? f.derivate() : E(f);
  for (size_t i = 0; i < n; i++) c << "[" << num(dom[i].first) << "," << num(dom[i].second) << "] ";
  c << "deg " << deg;
  c.require(g.get_domain().first == dom[0].first && g.get_domain().second == dom[n - 1].second, "domain of the concatenation");
  for (size_t i = 1; i < n; i++) {
    double a = std::min(dom[i - 1].second, dom[i].first), b = std::max(dom[i - 1].second, dom[i].first);
    VectorXd t(7);
    t << a, b, a + 0.5 * (b - a), std::nextafter(a, -100.0), std::nextafter(b, 100.0), a + c.unit() * (b - a), c.coin() ? a - 1e-6 : b + 1e-6;
    MatrixXd v = g(t);
    for (long k = 0; k < t.size(); k++) {
      auto at = [&](size_t j) { return deg ? slope[j] : val[j] + slope[j] * (t(k) - cut[j]); };
      auto ok = [&](double e) { return std::fabs(v(k, 0) - e) < 1e-7; };
      bool left = t(k) <= b + 1e-8, right = t(k) >= a - 1e-8;
      c.require((left && ok(at(i - 1))) || (right && ok(at(i))), "value " + num(v(k, 0)) + " at " + num(t(k)) + " next to a seam belongs to neither piece");
    }
  }
  if (gap) c.mark();
}
