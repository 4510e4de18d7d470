// Function expressions: abstract syntax, reference interpreter (truncated
// Taylor series in long double with first-order error bounds) and a builder
// that makes the same expression with the library, in generated value
// categories.
#pragma once
#include "gens.hpp"
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>

namespace gen {
namespace gf = gsplines::functions;
using Dom = std::pair<double, double>;

// the reference value is not determined here (a jump within rounding) or too
// large to be compared
struct Undetermined {};

// Taylor coefficients with error bounds in units of the relative rounding error
struct Jet {
  VL v, e;
  explicit Jet(size_t k = 0) : v(k + 1, 0), e(k + 1, 0) {}
  size_t order() const { return v.size() - 1; }
  static Jet var(L x, L err, size_t k) {
    Jet j(k);
    j.v[0] = x;
    j.e[0] = err;
    if (k) j.v[1] = 1;
    return j;
  }
  static Jet cst(L x, size_t k) {
    Jet j(k);
    j.v[0] = x;
    j.e[0] = fabsl(x);
    return j;
  }
  void guard() const {
    for (size_t i = 0; i < v.size(); i++)
      if (!(fabsl(v[i]) < 1e8L) || !(e[i] < 1e11L)) throw Undetermined();
  }
};
inline Jet operator+(const Jet &a, const Jet &b) {
  Jet r(a.order());
  for (size_t i = 0; i < r.v.size(); i++) {
    r.v[i] = a.v[i] + b.v[i];
    r.e[i] = a.e[i] + b.e[i] + fabsl(r.v[i]);
  }
  r.guard();
  return r;
}
inline Jet operator*(const Jet &a, const Jet &b) {
  Jet r(a.order());
  for (size_t i = 0; i < r.v.size(); i++)
    for (size_t j = 0; j <= i; j++) {
      r.v[i] += a.v[j] * b.v[i - j];
      r.e[i] += fabsl(a.v[j]) * b.e[i - j] + a.e[j] * fabsl(b.v[i - j]) + fabsl(a.v[j] * b.v[i - j]);
    }
  r.guard();
  return r;
}
inline Jet neg(Jet a) {
  for (auto &x : a.v) x = -x;
  return a;
}
// sum_k G[k] (x - x0)^k ; E: error of G[k]
inline Jet series(const VL &G, const VL &E, Jet x) {
  size_t K = x.order();
  x.v[0] = 0;
  x.e[0] = 0;
  Jet r(K);
  for (size_t k = K + 1; k-- > 0;) {
    if (k < K) r = r * x;
    r.v[0] += G[k];
    r.e[0] += E[k];
  }
  r.guard();
  return r;
}
// g applied to a jet, d[k] (k <= K+1): derivatives of g at x0, s[k]: their scale
inline Jet apply(const VL &d, const VL &s, const Jet &x) {
  size_t K = x.order();
  VL G(K + 1), E(K + 1);
  L f = 1;
  for (size_t k = 0; k <= K; k++) {
    if (k) f *= (L)k;
    G[k] = d[k] / f;
    E[k] = (s[k] + s[k + 1] * x.e[0]) / f;
  }
  return series(G, E, x);
}

enum Op { CONST, ZERO, IDENT, DILAT, EXPO, COSI, SINE, POLY, SPLINE, SUM, DIFF, NEG, SCALE, MUL, COMP, CONC, DOT, DERIV, OPS };
inline const char *op_name(Op o) {
  static const char *n[] = {"const", "zero", "id", "dil", "exp", "cos", "sin", "poly", "spline", "sum", "diff", "neg", "scale", "mul", "compose", "concat", "dot", "deriv"};
  return n[o];
}
struct Node;
using NodeP = std::shared_ptr<const Node>;
struct Node {
  Op op = CONST;
  Dom dom;
  size_t codom = 1;
  std::vector<NodeP> ch;
  double a = 0;
  VectorXd vec;
  SplineDesc sp;
  unsigned deg = 0;

  std::string text() const {
    std::ostringstream o;
    o << op_name(op);
    if (op == CONST || op == POLY) o << show(vec);
    if (op == DILAT || op == SCALE) o << "[" << num(a) << "]";
    if (op == DERIV) o << "[" << deg << "]";
    if (op == SPLINE) o << "{" << sp.text() << "}";
    if (op == COMP || op < SUM) o << "@[" << num(dom.first) << "," << num(dom.second) << "]";
    if (!ch.empty()) {
      o << "(";
      for (size_t i = 0; i < ch.size(); i++) o << (i ? ", " : "") << ch[i]->text();
      o << ")";
    }
    return o.str();
  }
  size_t nodes() const {
    size_t n = 1;
    for (auto &c : ch) n += c->nodes();
    return n;
  }
  bool has(Op o) const {
    if (op == o) return true;
    for (auto &c : ch)
      if (c->has(o)) return true;
    return false;
  }
  // rough number of terms of the d-th derivative when expanded naively
  double cost(unsigned d) const {
    double s = 0;
    if (op == DERIV) return ch[0]->cost(d + deg);
    for (auto &c : ch) s += c->cost(d);
    switch (op) {
      case MUL: {
        double n = (double)factors(MUL);
        return std::pow(n, d) * s + 1;
      }
      case SCALE: return std::pow(2.0 + 0.0, d) * (s + 1);
      case COMP: {
        double n = (double)factors(COMP);
        return d == 0 ? s + 1 : n * std::pow(n * n, d - 1.0) * s * 2 + 1;
      }
      case DOT: return std::pow(2.0, d) * s + 1;
      default: return s + 1;
    }
  }
  // degree of a polynomial expression (without splines and concatenations)
  size_t poly_degree() const {
    size_t a = ch.size() > 0 ? ch[0]->poly_degree() : 0, b = ch.size() > 1 ? ch[1]->poly_degree() : 0;
    switch (op) {
      case IDENT:
      case DILAT: return 1;
      case POLY: return (size_t)vec.size() - 1;
      case MUL:
      case DOT: return a + b;
      case DERIV: return a;
      default: return std::max(a, b);
    }
  }
  size_t factors(Op o) const {
    if (op != o) return 1;
    size_t n = 0;
    for (auto &c : ch) n += c->factors(o);
    return n;
  }

  std::vector<Jet> eval(const Jet &x) const {
    size_t K = x.order();
    std::vector<Jet> r;
    L x0 = x.v[0];
    switch (op) {
      case CONST:
        for (size_t i = 0; i < codom; i++) r.push_back(Jet::cst((L)vec((long)i), K));
        break;
      case ZERO:
        for (size_t i = 0; i < codom; i++) r.push_back(Jet::cst(0, K));
        break;
      case IDENT: r.push_back(x); break;
      case DILAT: r.push_back(Jet::cst((L)a, K) * x); break;
      case EXPO: {
        if (x0 > 20 || x0 < -600) throw Undetermined();  // below, doubles underflow
        VL d(K + 2, expl(x0));
        r.push_back(apply(d, d, x));
        break;
      }
      case COSI:
      case SINE: {
        if (fabsl(x0) > 1e4L) throw Undetermined();
        VL d(K + 2), s(K + 2, 1);
        L sn = sinl(x0), cs = cosl(x0);
        for (size_t k = 0; k < d.size(); k++) {
          size_t q = (k + (op == COSI ? 1 : 0)) % 4;
          d[k] = q == 0 ? sn : q == 1 ? cs : q == 2 ? -sn : -cs;
        }
        r.push_back(apply(d, s, x));
        break;
      }
      case POLY: {
        VL d(K + 2, 0), s(K + 2, 0);
        for (size_t k = 0; k < d.size(); k++)
          for (long i = (long)k; i < vec.size(); i++) {
            L f = 1;
            for (size_t q = 0; q < k; q++) f *= (L)(i - (long)q);
            L t = (L)vec(i) * f * powl(x0, (L)(i - (long)k));
            d[k] += t;
            s[k] += fabsl(t);
          }
        r.push_back(apply(d, s, x));
        break;
      }
      case SPLINE: {
        L span = fabsl((L)sp.t0) + (sp.left(sp.n()) - (L)sp.t0);
        L len = sp.left(sp.n()) - (L)sp.t0;
        if (x0 < (L)sp.t0 - 0.3L * len || x0 > sp.left(sp.n()) + 0.3L * len) throw Undetermined();
        if (!(sp.dyadic && x.e[0] == 0))
          for (size_t i = 1; i < sp.n(); i++)  // the outer pieces extend beyond the domain
            if (fabsl(x0 - sp.left(i)) < 1e-10L * (span + x.e[0])) throw Undetermined();
        size_t iv = sp.interval(x0);
        for (size_t i = 0; i < codom; i++) {
          VL d(K + 2), s(K + 2);
          for (size_t k = 0; k < d.size(); k++) d[k] = sp.value_in(iv, x0, i, (unsigned)k, &s[k]);
          r.push_back(apply(d, s, x));
        }
        break;
      }
      case SUM:
      case DIFF: {
        auto p = ch[0]->eval(x), q = ch[1]->eval(x);
        for (size_t i = 0; i < codom; i++) r.push_back(p[i] + (op == SUM ? q[i] : neg(q[i])));
        break;
      }
      case NEG:
        for (auto &j : ch[0]->eval(x)) r.push_back(neg(j));
        break;
      case SCALE:
        for (auto &j : ch[0]->eval(x)) r.push_back(Jet::cst((L)a, K) * j);
        break;
      case MUL: {
        auto p = ch[0]->eval(x), q = ch[1]->eval(x);
        if (p.size() < q.size()) std::swap(p, q);
        for (auto &j : p) r.push_back(j * q[0]);
        break;
      }
      case COMP: {  // ch[0] o ch[1]
        Jet in = ch[1]->eval(x)[0];
        return ch[0]->eval(in);
      }
      case CONC: {
        L p = (L)ch[0]->dom.second;
        if (x0 < (L)dom.first || x0 > (L)dom.second) throw Undetermined();
        if (x.e[0] > 0)
          for (L b : {(L)dom.first, p, (L)dom.second})
            if (fabsl(x0 - b) < 1e-10L * (1 + fabsl(b) + x.e[0])) throw Undetermined();
        return (x0 < p ? ch[0] : ch[1])->eval(x);
      }
      case DOT: {
        auto p = ch[0]->eval(x), q = ch[1]->eval(x);
        Jet s = p[0] * q[0];
        for (size_t i = 1; i < p.size(); i++) s = s + p[i] * q[i];
        r.push_back(s);
        break;
      }
      case DERIV: {
        auto y = ch[0]->eval(Jet::var(x0, x.e[0], K + deg));
        for (auto &j : y) {
          VL G(K + 1), E(K + 1);
          for (size_t k = 0; k <= K; k++) {
            L f = 1;
            for (unsigned q = 0; q < deg; q++) f *= (L)(k + deg - q);
            G[k] = j.v[k + deg] * f;
            E[k] = j.e[k + deg] * f;
          }
          r.push_back(series(G, E, x));
        }
        break;
      }
      default: break;
    }
    return r;
  }
  // derivative of degree d at instant t, per component: value and error unit
  bool reference(double t, unsigned d, VL &val, VL &err) const {
    try {
      auto y = eval(Jet::var((L)t, 0, d));
      L f = 1;
      for (unsigned i = 2; i <= d; i++) f *= (L)i;
      val.clear();
      err.clear();
      for (auto &j : y) {
        val.push_back(j.v[d] * f);
        err.push_back(j.e[d] * f + 1e-6L);
      }
      return true;
    } catch (const Undetermined &) {
      return false;
    }
  }
};

// ------------------------------------------------------------- generation
struct ExprOpts {
  std::vector<Op> only;  // operations to choose from, all when empty
  size_t max_codom = 4;
  bool splines = true;
  bool deriv = true;
  bool poly_only = false;  // only nodes that are polynomials
  bool concat = true;
};
inline double gen_const(Case &c) {
  if (c.chance(1, 12)) return (c.coin() ? 1 : -1) * c.logreal(1e-6, 60);
  return c.pick(3) == 0 ? (double)c.integer(-2, 2) : -2 + 4 * c.unit();
}

inline Dom gen_dom(Case &c) {
  double a = c.pick(3) == 0 ? 0 : (double)c.integer(-8, 8) * 0.25;
  if (c.chance(1, 12)) a = (double)c.integer(-400, 400) * 0.25;
  double l = c.of({1.0, 2.0, 0.5, 3.0, 1.25});
  if (c.chance(1, 12)) l = c.of({0.03125, 0.125, 8.0, 24.0});
  return {a, a + l};
}
inline NodeP gen_leaf(Case &c, Dom dom, size_t codom, const ExprOpts &o) {
  auto n = std::make_shared<Node>();
  n->dom = dom;
  n->codom = codom;
  std::vector<Op> ops = {CONST};
  if (codom == 1) {
    ops.insert(ops.end(), {IDENT, DILAT, POLY});
    if (!o.poly_only) ops.insert(ops.end(), {EXPO, COSI, SINE});
  }
  if (o.splines) ops.push_back(SPLINE);
  if (o.splines && codom > 1) ops.push_back(SPLINE);
  ops.push_back(ZERO);
  n->op = ops[c.pick(ops.size())];
  switch (n->op) {
    case CONST: n->vec = gen_coeffs(c, codom, 2); break;
    case DILAT: n->a = gen_const(c); break;
    case POLY: n->vec = gen_coeffs(c, (size_t)c.big(1, 5, 14, 12), 1.5); break;
    case SPLINE: {
      SplineDesc &s = n->sp;
      BasisOpts bo;
      bo.max_dim = 6;
      bo.max_lagrange = 5;
      bo.huge_dim = 9;
      bo.allow_0101 = !o.poly_only;
      bo.alpha_lo = 0.05;
      bo.alpha_hi = 0.95;
      s.basis = gen_basis(c, bo);
      size_t k = (size_t)c.big(1, 4, 12);
      s.codom = codom;
      s.t0 = dom.first;
      s.taus = VectorXd((long)k);
      double len = dom.second - dom.first, done = 0;
      // dyadic fractions of the length that sum exactly to it
      for (size_t i = 0; i + 1 < k; i++) {
        double rest = len - done;
        double f = rest * c.of({0.5, 0.25, 0.125, 0.75});
        s.taus((long)i) = f;
        done += f;
      }
      s.taus((long)k - 1) = len - done;
      s.dyadic = std::fabs(dom.first * 1048576 - std::round(dom.first * 1048576)) == 0 && std::fabs(dom.second * 1048576 - std::round(dom.second * 1048576)) == 0;
      s.coeffs = gen_coeffs(c, k * codom * s.basis.dim, 1.5);
      break;
    }
    default: break;
  }
  return n;
}
inline NodeP gen_node(Case &c, Dom dom, size_t codom, int budget, const ExprOpts &o = {}) {
  if (budget <= 1) return gen_leaf(c, dom, codom, o);
  auto n = std::make_shared<Node>();
  n->dom = dom;
  n->codom = codom;
  std::vector<Op> ops = {SUM, DIFF, NEG, SCALE, MUL, MUL, COMP, COMP, CONC, CONC};
  if (codom == 1) ops.push_back(DOT);
  if (o.deriv) ops.push_back(DERIV);
  if (o.poly_only) ops = {SUM, DIFF, NEG, SCALE, MUL, CONC};
  if (!o.concat) ops.erase(std::remove(ops.begin(), ops.end(), CONC), ops.end());
  if (!o.only.empty()) ops = o.only;
  n->op = ops[c.pick(ops.size())];
  auto split = [&](int &l, int &r) {
    l = 1 + (int)c.pick((size_t)std::max(1, budget - 2));
    r = std::max(1, budget - 1 - l);
  };
  int l, r;
  switch (n->op) {
    case SUM:
    case DIFF:
      split(l, r);
      n->ch = {gen_node(c, dom, codom, l, o), gen_node(c, dom, codom, r, o)};
      break;
    case NEG: n->ch = {gen_node(c, dom, codom, budget - 1, o)}; break;
    case SCALE:
      n->a = gen_const(c);
      n->ch = {gen_node(c, dom, codom, budget - 1, o)};
      break;
    case MUL: {
      split(l, r);
      bool first = c.coin();
      n->ch = {gen_node(c, dom, first ? codom : 1, l, o), gen_node(c, dom, first ? 1 : codom, r, o)};
      break;
    }
    case COMP: {
      split(l, r);
      Dom d2 = c.coin() ? Dom{-4, 4} : c.coin() ? dom : gen_dom(c);
      n->ch = {gen_node(c, d2, codom, l, o), gen_node(c, dom, 1, r, o)};
      break;
    }
    case CONC: {
      split(l, r);
      double p = dom.first + (dom.second - dom.first) * c.of({0.5, 0.25, 0.75, 0.125});
      n->ch = {gen_node(c, {dom.first, p}, codom, l, o), gen_node(c, {p, dom.second}, codom, r, o)};
      break;
    }
    case DOT: {
      split(l, r);
      size_t k = (size_t)c.size(1, (int64_t)o.max_codom);
      n->ch = {gen_node(c, dom, k, l, o), gen_node(c, dom, k, r, o)};
      break;
    }
    case DERIV:
      n->deg = (unsigned)c.integer(0, 2);
      n->ch = {gen_node(c, dom, codom, std::min(budget - 1, 5), o)};
      break;
    default: break;
  }
  return n;
}

// -------------------------------------------------------------- building
using FP = std::unique_ptr<gf::FunctionBase>;
struct Built {
  NodeP node;
  FP f;
};
struct Builder {
  Case &c;
  std::vector<Built> kept;  // operands passed as named objects, still alive
  bool inplace = true;
  explicit Builder(Case &cc) : c(cc) {}

  static gf::FunctionExpression *expr(const FP &f) { return dynamic_cast<gf::FunctionExpression *>(f.get()); }

  FP leaf(const Node &n) {
    switch (n.op) {
      case CONST: {
        if (n.codom == 1 && c.coin()) return std::make_unique<gf::ConstFunction>(n.dom, (size_t)1, n.vec(0));
        VectorXd v = n.vec;
        auto r = std::make_unique<gf::ConstFunction>(n.dom, v);
        v.setConstant(99);
        return r;
      }
      case ZERO:
        if (c.coin()) return std::make_unique<gf::ConstFunction>(n.dom, n.codom, 0.0);
        return std::make_unique<gf::FunctionExpression>(n.dom, n.codom);
      case IDENT: return std::make_unique<gf::Identity>(n.dom);
      case DILAT: return std::make_unique<gf::DomainLinearDilation>(n.dom, n.a);
      case EXPO: return std::make_unique<gf::Exponential>(n.dom);
      case COSI: return std::make_unique<gf::Cos>(n.dom);
      case SINE: return std::make_unique<gf::Sin>(n.dom);
      case POLY:
        if (c.coin()) return std::make_unique<gf::CanonicPolynomial>(n.dom, n.vec);
        else return std::make_unique<gf::CanonicPolynomial>(n.dom, VectorXd(n.vec));
      default: {
        auto b = n.sp.basis.make();
        return std::make_unique<gsplines::GSpline>(n.dom, n.codom, n.sp.n(), *b, n.sp.coeffs, n.sp.taus);
      }
    }
  }
  FP wrap(gf::FunctionExpression &&e) {
    switch (c.pick(4)) {
      case 0: return std::make_unique<gf::FunctionExpression>(static_cast<const gf::FunctionExpression &>(e));
      case 1: return e.move_clone();
      case 2: return static_cast<const gf::FunctionBase &>(e).clone();
      default: return std::make_unique<gf::FunctionExpression>(std::move(e));
    }
  }
  // objects of the same function obtained by another route
  FP vary(FP f) {
    switch (c.pick(10)) {
      case 0: return f->clone();
      case 1: return f->move_clone();
      case 2: return std::make_unique<gf::FunctionExpression>(f->to_expression());
      case 3: return std::make_unique<gf::FunctionExpression>(std::move(*f).to_expression());
      case 4: return std::make_unique<gf::FunctionExpression>(static_cast<const gf::FunctionBase &>(*f));
      case 5: return std::make_unique<gf::FunctionExpression>(std::move(*f));
      default: return f;
    }
  }
  // binary operation with every combination of named and temporary operands
  template <class LL, class LR, class RL, class RR>
  FP binary(const Node &n, LL ll, LR lr, RL rl, RR rr) {
    FP l = build(n.ch[0]), r = build(n.ch[1]);
    bool lm = c.coin(), rm = c.coin();
    if (!expr(r)) {
      // the right operand is taken as an expression
      if (rm && c.coin()) r = std::make_unique<gf::FunctionExpression>(std::move(*r));
      else r = std::make_unique<gf::FunctionExpression>(static_cast<const gf::FunctionBase &>(*r));
    }
    gf::FunctionExpression &re = *expr(r);
    FP out;
    const gf::FunctionBase &cl = *l;
    const gf::FunctionExpression &cr = re;
    if (lm && rm) out = wrap(rr(std::move(*l), std::move(re)));
    else if (lm) out = wrap(rl(std::move(*l), cr));
    else if (rm) out = wrap(lr(cl, std::move(re)));
    else out = wrap(ll(cl, cr));
    if (!lm) kept.push_back({n.ch[0], std::move(l)});
    if (!rm) kept.push_back({n.ch[1], std::move(r)});
    return out;
  }
  FP build(const NodeP &np) { return vary(build_raw(*np)); }
  FP build_raw(const Node &n) {
    using E = gf::FunctionExpression;
    using B = gf::FunctionBase;
    switch (n.op) {
      case SUM:
        if (inplace && c.chance(1, 4)) {
          FP l = build(n.ch[0]), r = build(n.ch[1]);
          E e(static_cast<const B &>(*l));
          if (E *le = expr(l)) {
            E e2(*le);
            if (c.coin()) e2 += E(static_cast<const B &>(*r));
            else {
              E re(static_cast<const B &>(*r));
              const E &cr = expr(r) ? *expr(r) : re;
              e2 += cr;
            }
            kept.push_back({n.ch[0], std::move(l)});
            kept.push_back({n.ch[1], std::move(r)});
            return wrap(std::move(e2));
          }
          if (c.coin() && expr(r)) e += std::move(*expr(r));
          else e += E(static_cast<const B &>(*r));
          return wrap(std::move(e));
        }
        return binary(n, [](const B &a, const E &b) { return a + b; }, [](const B &a, E &&b) { return a + std::move(b); },
                      [](B &&a, const E &b) { return std::move(a) + b; }, [](B &&a, E &&b) { return std::move(a) + std::move(b); });
      case DIFF:
        return binary(n, [](const B &a, const E &b) { return a - b; }, [](const B &a, E &&b) { return a - std::move(b); },
                      [](B &&a, const E &b) { return std::move(a) - b; }, [](B &&a, E &&b) { return std::move(a) - std::move(b); });
      case MUL:
        if (inplace && n.ch[0]->codom >= n.ch[1]->codom && c.chance(1, 4)) {
          FP l = build(n.ch[0]), r = build(n.ch[1]);
          E e = expr(l) ? E(*expr(l)) : E(static_cast<const B &>(*l));
          if (c.coin() && expr(r)) e *= std::move(*expr(r));
          else if (expr(r)) {
            e *= static_cast<const E &>(*expr(r));
            kept.push_back({n.ch[1], std::move(r)});
          } else e *= E(static_cast<const B &>(*r));
          kept.push_back({n.ch[0], std::move(l)});
          return wrap(std::move(e));
        }
        return binary(n, [](const B &a, const E &b) { return a * b; }, [](const B &a, E &&b) { return a * std::move(b); },
                      [](B &&a, const E &b) { return std::move(a) * b; }, [](B &&a, E &&b) { return std::move(a) * std::move(b); });
      case COMP:
        return binary(n, [](const B &a, const E &b) { return a.compose(b); }, [](const B &a, E &&b) { return a.compose(std::move(b)); },
                      [](B &&a, const E &b) { return std::move(a).compose(b); }, [](B &&a, E &&b) { return std::move(a).compose(std::move(b)); });
      case CONC:
        return binary(n, [](const B &a, const E &b) { return a.concat(b); }, [](const B &a, E &&b) { return a.concat(std::move(b)); },
                      [](B &&a, const E &b) { return std::move(a).concat(b); }, [](B &&a, E &&b) { return std::move(a).concat(std::move(b)); });
      case NEG: {
        FP l = build(n.ch[0]);
        if (c.coin()) return wrap(-std::move(*l));
        const B &cl = *l;
        FP r = wrap(-cl);
        kept.push_back({n.ch[0], std::move(l)});
        return r;
      }
      case SCALE: {
        FP l = build(n.ch[0]);
        if (!expr(l)) l = std::make_unique<E>(std::move(*l));
        if (c.coin()) return wrap(n.a * std::move(*expr(l)));
        const E &cl = *expr(l);
        FP r = wrap(n.a * cl);
        kept.push_back({n.ch[0], std::move(l)});
        return r;
      }
      case DOT: {
        FP l = build(n.ch[0]), r = build(n.ch[1]);
        const B &cl = *l, &cr = *r;
        FP out;
        switch (c.pick(4)) {
          case 0: out = std::make_unique<gf::DotProduct>(cl.dot(cr)); break;
          case 1:
            out = std::make_unique<gf::DotProduct>(cl.dot(std::move(*r)));
            r.reset();
            break;
          case 2:
            out = std::make_unique<gf::DotProduct>(std::move(*l).dot(cr));
            l.reset();
            break;
          default:
            out = std::make_unique<gf::DotProduct>(std::move(*l).dot(std::move(*r)));
            l.reset();
            r.reset();
        }
        if (l) kept.push_back({n.ch[0], std::move(l)});
        if (r) kept.push_back({n.ch[1], std::move(r)});
        return out;
      }
      case DERIV: {
        FP l = build(n.ch[0]);
        FP out;
        switch (c.pick(3)) {
          case 0: out = static_cast<const B &>(*l).deriv(n.deg); break;
          case 1: out = wrap(static_cast<const B &>(*l).derivate(n.deg)); break;
          default:
            if (expr(l)) out = expr(l)->deriv(n.deg);
            else out = l->deriv(n.deg);
        }
        kept.push_back({n.ch[0], std::move(l)});
        return out;
      }
      default: return leaf(n);
    }
  }
};

// evaluation instants of an expression: borders, junctions, inside
inline void junctions(const Node &n, std::vector<double> &out) {
  if (n.op == CONC) out.push_back(n.ch[0]->dom.second);
  if (n.op == SPLINE)
    for (size_t i = 0; i <= n.sp.n(); i++) out.push_back((double)n.sp.left(i));
  if (n.op == COMP) junctions(*n.ch[1], out);
  else
    for (auto &c : n.ch) junctions(*c, out);
}
inline VectorXd gen_points(Case &c, const Node &n, bool jumps, size_t maxn = 5) {
  size_t k = (size_t)c.big(1, (int64_t)maxn, 50);
  VectorXd t((long)k);
  std::vector<double> js;
  junctions(n, js);
  for (size_t i = 0; i < k; i++) {
    int m = (int)c.pick(6);
    double x = n.dom.first + (n.dom.second - n.dom.first) * c.unit();
    if (jumps && m == 0) x = c.coin() ? n.dom.first : n.dom.second;
    if (jumps && m == 1 && !js.empty()) {
      double j = js[c.pick(js.size())];
      if (j >= n.dom.first && j <= n.dom.second) x = j;
    }
    t((long)i) = x;
  }
  // only instants where the reference is determined are evaluated: elsewhere
  // intermediate values may overflow
  VL v, e;
  long m = 0;
  for (long i = 0; i < t.size(); i++)
    if (n.reference(t(i), 0, v, e)) t(m++) = t(i);
  return t.head(m);
}
const double EXPR_TOL = 5e-9;
// returns the number of compared values
inline size_t check_values(Case &c, const Node &n, const MatrixXd &got, const VectorXd &t, unsigned d, const std::string &what, double tol = EXPR_TOL) {
  c.require(got.rows() == t.size() && got.cols() == (long)n.codom, what + ": size of the result");
  size_t cnt = 0;
  VL v, e;
  for (long i = 0; i < t.size(); i++) {
    if (!n.reference(t(i), d, v, e)) continue;
    for (size_t k = 0; k < n.codom; k++) {
      std::ostringstream o;
      o << what << " at t=" << num(t(i)) << " component " << k << " degree " << d;
      close(c, got(i, (long)k), v[k], e[k], tol, o.str());
      cnt++;
    }
  }
  return cnt;
}
inline void check_shape(Case &c, const Node &n, const gf::FunctionBase &f, const std::string &what) {
  c.require(f.get_codom_dim() == n.codom, what + ": codomain dimension " + std::to_string(f.get_codom_dim()) + ", expected " + std::to_string(n.codom));
  c.require(std::fabs(f.get_domain().first - n.dom.first) < 1e-12 && std::fabs(f.get_domain().second - n.dom.second) < 1e-12,
            what + ": domain [" + num(f.get_domain().first) + "," + num(f.get_domain().second) + "], expected [" + num(n.dom.first) + "," + num(n.dom.second) + "]");
}
}  // namespace gen
