// C14: derivatives of function expressions are exact at every order.
#include "expr.hpp"
using namespace gen;

static FP derive(Case &c, const gf::FunctionBase &f, unsigned d) {
  switch (c.pick(3)) {
    case 0: return f.deriv(d);
    case 1: return std::make_unique<gf::FunctionExpression>(f.derivate(d));
    default: {
      gf::FunctionExpression e = f.to_expression();
      return e.deriv(d);
    }
  }
}

PBT_SUB(programs, 6) {
  ExprOpts o;
  o.deriv = c.chance(1, 3);
  Dom dom = gen_dom(c);
  size_t codom = (size_t)c.big(1, 3, 10);
  NodeP n = gen_node(c, dom, codom, (int)c.size(1, 10), o);
  unsigned maxd = 0;
  while (maxd < 5 && n->cost(maxd + 1) < 3000) maxd++;
  unsigned d = (unsigned)c.integer(0, maxd);
  c << n->text() << " d=" << d;
  c.label("degree", d);
  Builder b(c);
  b.inplace = true;
  FP f = b.build(n);
  VectorXd t = gen_points(c, *n, c.coin());
  c << " t=" << show(t);
  FP g;
  int mode = (int)c.pick(3);
  if (mode == 0 && d >= 2) {  // in steps
    unsigned k = (unsigned)c.integer(1, d - 1);
    c << " steps " << k << "+" << d - k;
    FP h = derive(c, *f, k);
    check_shape(c, *n, *h, "derivative");
    check_values(c, *n, (*h)(t), t, k, "first derivative step");
    g = derive(c, *h, d - k);
  } else {
    g = derive(c, *f, d);
  }
  check_shape(c, *n, *g, "derivative");
  bool drop = c.coin();
  if (!drop) check_values(c, *n, (*f)(t), t, 0, "the expression after differentiation");
  if (drop) {
    f.reset();
    b.kept.clear();
  }
  size_t cnt = check_values(c, *n, (*g)(t), t, d, "derivative");
  for (int k = SUM; k < OPS; k++)
    if (n->has((Op)k)) c.label(std::string("has ") + op_name((Op)k));
  if (cnt && d && n->nodes() >= 2) c.mark();
}

// every elementary function, high degrees
PBT_SUB(elementary, 1) {
  ExprOpts o;
  Dom dom = gen_dom(c);
  size_t codom = (size_t)c.size(1, 4);
  NodeP n = gen_leaf(c, dom, codom, o);
  unsigned d = (unsigned)c.size(0, 9);
  if (n->op == SPLINE && d > 5) d = 5;
  c << n->text() << " d=" << d;
  Builder b(c);
  FP f = b.build(n);
  FP g = derive(c, *f, d);
  check_shape(c, *n, *g, "derivative");
  VectorXd t = gen_points(c, *n, true);
  size_t cnt = check_values(c, *n, (*g)(t), t, d, "derivative");
  check_values(c, *n, (*f)(t), t, 0, "the function after differentiation");
  c.label(op_name(n->op));
  if (cnt && d) c.mark();
}
