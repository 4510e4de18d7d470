// C18: integrals, inner products and norms equal their definitions.
#include "expr.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
using namespace gen;
namespace fa = gsplines::functional_analysis;
using Terms = std::vector<std::pair<size_t, double>>;

static NodeP mk(Op op, Dom d, size_t codom, std::vector<NodeP> ch, double a = 0, unsigned deg = 0) {
  auto n = std::make_shared<Node>();
  n->op = op;
  n->dom = d;
  n->codom = codom;
  n->ch = std::move(ch);
  n->a = a;
  n->deg = deg;
  return n;
}
// the integrand a semi inner product stands for
static NodeP integrand(const NodeP &f, const NodeP &g, const Terms &t) {
  NodeP s = mk(ZERO, f->dom, 1, {});
  for (auto &w : t) {
    NodeP p = mk(DOT, f->dom, 1, {mk(DERIV, f->dom, f->codom, {f}, 0, (unsigned)w.first), mk(DERIV, g->dom, g->codom, {g}, 0, (unsigned)w.first)});
    s = mk(SUM, f->dom, 1, {s, mk(SCALE, f->dom, 1, {p}, w.second)});
  }
  return s;
}
static L gll_weight(size_t n, L x) {
  L p = legendre_ref(n, x, 0)[n - 1];
  return 2 / ((L)n * (L)(n - 1) * p * p);
}
// composite Gauss-Lobatto quadrature of the reference; false when undetermined
static bool quadrature(const Node &n, size_t nglp, size_t nint, L &val, L &err) {
  const VL &r = gll_ref_nodes(nglp);
  val = 0;
  err = 1e-6L;
  L len = ((L)n.dom.second - (L)n.dom.first) / (L)nint;
  L span = fabsl((L)n.dom.first) + fabsl((L)n.dom.second);
  bool exact = (nint & (nint - 1)) == 0;  // generated domains are dyadic
  for (size_t k = 0; k < nint; k++)
    for (size_t i = 0; i < nglp; i++) {
      L x = (L)n.dom.first + len * ((L)k + (r[i] + 1) / 2);
      bool border = i == 0 || i + 1 == nglp;
      try {
        auto y = n.eval(Jet::var(x, border && exact ? 0 : span, 0));
        L w = gll_weight(nglp, r[i]) * len / 2;
        val += w * y[0].v[0];
        err += w * (y[0].e[0] + fabsl(y[0].v[0]));
      } catch (const Undetermined &) {
        return false;
      }
    }
  return true;
}
// exact integral of a polynomial
static bool exact_integral(const Node &n, size_t deg, L &val, L &err) {
  auto &g = gauss((int)(deg / 2 + 1));
  L a = n.dom.first, len = (L)n.dom.second - a;
  val = 0;
  err = 1e-6L;
  for (size_t i = 0; i < g.first.size(); i++) {
    try {
      auto y = n.eval(Jet::var(a + (g.first[i] + 1) / 2 * len, fabsl(a) + len, 0));
      val += g.second[i] * len / 2 * y[0].v[0];
      err += g.second[i] * len / 2 * (y[0].e[0] + fabsl(y[0].v[0]));
    } catch (const Undetermined &) {
      return false;
    }
  }
  return true;
}
static Terms gen_terms(Case &c, unsigned maxdeg) {
  Terms t;
  size_t k = (size_t)c.size(0, 3);
  for (size_t i = 0; i < k; i++) t.push_back({(size_t)c.integer(0, maxdeg), gen_const(c)});
  return t;
}
static std::string show(const Terms &t) {
  std::ostringstream o;
  for (auto &x : t) o << "(" << x.first << "," << num(x.second) << ")";
  return o.str();
}

// what was asked: the reference integrand and the number the library gave
static NodeP ask(Case &c, const NodeP &f, const NodeP &g, size_t nglp, size_t nint, bool defaults, double &got, std::string &what, unsigned maxdeg) {
  Builder b(c);
  FP pf = b.build(f), pg = b.build(g);
  const gf::FunctionBase &F = *pf, &G = *pg;
  int which = (int)c.pick(7);
  if (which == 0 && f->codom != 1) which = 1;
  NodeP in;
  Terms t;
  unsigned deg = (unsigned)c.integer(0, maxdeg);
  switch (which) {
    case 0:
      what = "integral";
      in = f;
      got = defaults ? fa::integral(F) : fa::integral(F, nglp, nint);
      break;
    case 1:
      what = "l2_inner_product";
      in = integrand(f, g, {{0, 1.0}});
      got = defaults ? fa::l2_inner_product(F, G) : fa::l2_inner_product(F, G, nglp, nint);
      break;
    case 2:
      what = "l2_norm";
      in = integrand(f, f, {{0, 1.0}});
      got = defaults ? fa::l2_norm(F) : fa::l2_norm(F, nglp, nint);
      break;
    case 3:
    case 4:
      for (unsigned i = 0; i <= deg; i++) t.push_back({i, 1.0});
      if (which == 3) {
        what = "sobolev_inner_product";
        in = integrand(f, g, t);
        if (in->cost(0) > 3000) c.discard();
        got = defaults ? fa::sobolev_inner_product(F, G, deg) : fa::sobolev_inner_product(F, G, deg, nglp, nint);
      } else {
        what = "sobolev_norm";
        in = integrand(f, f, t);
        if (in->cost(0) > 3000) c.discard();
        got = defaults ? fa::sobolev_norm(F, deg) : fa::sobolev_norm(F, deg, nglp, nint);
      }
      what += " degree " + std::to_string(deg);
      break;
    default:
      t = gen_terms(c, maxdeg);
      if (which == 5) {
        what = "sobolev_semi_inner_product";
        in = integrand(f, g, t);
        if (in->cost(0) > 3000) c.discard();
        got = defaults ? fa::sobolev_semi_inner_product(F, G, t) : fa::sobolev_semi_inner_product(F, G, t, nglp, nint);
      } else {
        what = "sobolev_semi_norm";
        in = integrand(f, f, t);
        if (in->cost(0) > 3000) c.discard();
        got = defaults ? fa::sobolev_semi_norm(F, t) : fa::sobolev_semi_norm(F, t, nglp, nint);
      }
      what += " " + show(t);
  }
  c.label(what.substr(0, what.find(' ')));
  // operands are untouched
  VectorXd ts = gen_points(c, *f, false, 2);
  check_values(c, *f, F(ts), ts, 0, "first operand afterwards");
  ts = gen_points(c, *g, false, 2);
  check_values(c, *g, G(ts), ts, 0, "second operand afterwards");
  return in;
}

PBT_SUB(quadrature_of_definition, 3) {
  ExprOpts o;
  Dom dom = gen_dom(c);
  size_t codom = (size_t)c.size(1, 3);
  NodeP f = gen_node(c, dom, codom, (int)c.size(1, 6), o), g = gen_node(c, dom, codom, (int)c.size(1, 5), o);
  unsigned maxdeg = 2;
  if (f->cost(maxdeg) > 300 || g->cost(maxdeg) > 300) c.discard();
  bool defaults = c.chance(1, 5);
  size_t nglp = defaults ? 10 : (size_t)c.big(2, 12, 48), nint = defaults ? 1 : (size_t)c.big(1, 6, nglp > 12 ? 8 : 300);
  c << "f=" << f->text() << " g=" << g->text() << " nglp=" << nglp << " nint=" << nint << " ";
  double got;
  std::string what;
  NodeP in = ask(c, f, g, nglp, nint, defaults, got, what, maxdeg);
  c << what;
  L val, err;
  if (!quadrature(*in, nglp, nint, val, err)) {
    c.label("undetermined");
    c.discard();
  }
  close(c, got, val, err, EXPR_TOL, what);
  if (f->nodes() + g->nodes() > 2 && nint > 1) c.mark();
  c.label(nint == 1 ? "one subinterval" : "several subintervals");
}

PBT_SUB(exact_for_polynomials, 2) {
  ExprOpts o;
  o.poly_only = true;
  o.splines = false;
  o.concat = false;
  Dom dom = gen_dom(c);
  size_t codom = (size_t)c.size(1, 3);
  NodeP f = gen_node(c, dom, codom, (int)c.size(1, 5), o), g = gen_node(c, dom, codom, (int)c.size(1, 5), o);
  size_t d = 2 * std::max(f->poly_degree(), g->poly_degree());
  size_t need = d / 2 + 2;  // 2n-3 >= d
  if (need > 24 || f->cost(3) > 500 || g->cost(3) > 500) c.discard();
  size_t nglp = need + (size_t)c.integer(0, 2), nint = (size_t)c.big(1, 5, 200);
  bool defaults = need <= 10 && c.chance(1, 4);
  c << "f=" << f->text() << " g=" << g->text() << " nglp=" << nglp << " nint=" << nint << " ";
  double got;
  std::string what;
  NodeP in = ask(c, f, g, nglp, nint, defaults, got, what, 3);
  c << what;
  L val, err;
  if (!exact_integral(*in, d, val, err)) c.discard();
  close(c, got, val, err, EXPR_TOL, what);
  if (d >= 4) c.mark();
}

PBT_SUB(path_integral, 1) {
  ExprOpts o;
  Dom dom = gen_dom(c), d2 = c.coin() ? dom : Dom{-4, 4};
  NodeP diffeo = gen_node(c, dom, 1, (int)c.size(1, 4), o);
  NodeP path = gen_node(c, d2, (size_t)c.size(1, 3), (int)c.size(1, 5), o);
  c << "diffeo=" << diffeo->text() << " path=" << path->text();
  NodeP in = mk(COMP, dom, 1, {mk(DOT, d2, 1, {path, path}), diffeo});
  L val, err;
  if (!quadrature(*in, 10, 1, val, err)) c.discard();
  Builder b(c);
  FP a = b.build(diffeo), p = b.build(path);
  double got = gsplines::collocation::integral(*a, *p);
  close(c, got, val, err, EXPR_TOL, "integral of a squared path along a parametrisation");
  if (diffeo->nodes() + path->nodes() > 2) c.mark();
}
