// C15: ill-formed operations on functions are rejected and change nothing.
#include "expr.hpp"
using namespace gen;
using E = gf::FunctionExpression;
using B = gf::FunctionBase;

namespace {
template <class F>
void rejects(Case &c, const std::string &what, F f) {
  bool ok = false;
  std::string other;
  try {
    f();
  } catch (const std::invalid_argument &) {
    ok = true;
  } catch (const std::exception &e) {
    other = std::string(" (other exception: ") + e.what() + ")";
  }
  c.require(ok, what + " was not rejected as invalid argument" + other);
}
// another domain, clearly different from d
Dom other_dom(Case &c, Dom d) {
  double len = d.second - d.first;
  double x = c.of({1e-6, 1e-3, 0.1, 1.0, 7.0}) * (1 + c.unit());
  switch (c.pick(6)) {
    case 0: return {d.first - x, d.second};
    case 1: return {d.first, d.second + x};
    case 2: return {d.first + x, d.second + x};
    case 3: return {d.first - x, d.second - x};
    case 4: return {d.first + len * 0.25, d.second};
    default: return {d.first, d.second - len * 0.25};
  }
}
}  // namespace

PBT_SUB(binary, 6) {
  ExprOpts o;
  o.max_codom = 3;
  enum W { SUMDOM, SUMCOD, MULDOM, MULCOD, COMPCOD, CONCGAP, CONCCOD, DOTDOM, DOTCOD, MULIN, NW };
  W w = (W)c.pick(NW);
  Dom dom = gen_dom(c), dr = dom;
  size_t cl = (size_t)c.integer(1, 4), cr = cl;
  switch (w) {
    case SUMDOM:
    case DOTDOM: dr = other_dom(c, dom); break;
    case MULDOM:
      dr = other_dom(c, dom);
      (c.coin() ? cl : cr) = 1;
      break;
    case SUMCOD:
    case DOTCOD: cr = cl + (size_t)c.integer(1, 3); if (c.coin()) std::swap(cl, cr); break;
    case CONCCOD:
      cr = cl + (size_t)c.integer(1, 3);
      if (c.coin()) std::swap(cl, cr);
      dr = {dom.second, dom.second + 1};
      break;
    case MULCOD:
      cl = (size_t)c.integer(2, 4);
      cr = (size_t)c.integer(2, 4);
      break;
    case COMPCOD:
      cr = (size_t)c.integer(2, 4);
      if (c.coin()) dr = gen_dom(c);
      break;
    case CONCGAP: {
      double g = c.of({1e-6, 1e-3, 0.5, 3.0}) * (c.coin() ? 1 : -1) * (1 + c.unit());
      dr = {dom.second + g, dom.second + g + c.of({0.5, 1.0, 4.0})};
      if (c.chance(1, 4)) dr = dom;                                // on top of each other
      else if (c.chance(1, 4)) dr = {dom.first - 1.0, dom.first};  // wrong order
      break;
    }
    default:  // a scalar function multiplied in place by a vectorial one
      cl = 1;
      cr = (size_t)c.integer(2, 4);
  }
  NodeP nl = gen_node(c, dom, cl, (int)c.size(1, 5), o), nr = gen_node(c, dr, cr, (int)c.size(1, 5), o);
  c << "what=" << (int)w << " left " << nl->text() << " on [" << num(dom.first) << "," << num(dom.second) << "] right " << nr->text()
    << " on [" << num(dr.first) << "," << num(dr.second) << "]";
  Builder b(c);
  FP l = b.build(nl), r = b.build(nr);
  std::unique_ptr<E> re = Builder::expr(r) ? std::make_unique<E>(*Builder::expr(r)) : std::make_unique<E>(static_cast<const B &>(*r));
  std::unique_ptr<E> le = Builder::expr(l) ? std::make_unique<E>(*Builder::expr(l)) : std::make_unique<E>(static_cast<const B &>(*l));
  const B &L0 = *l;
  const E &R0 = *re;
  int form = (int)c.pick(6);
  c.label("form", form);
  c.label("what", (int)w);
  c.mark();
  // temporaries are copies, so that the named operands can be examined later
  auto tl = [&] { return L0.clone(); };
  auto tr = [&] { return E(R0); };
  auto binop = [&](const std::string &name, auto ll, auto lr, auto rl, auto rr) {
    switch (form % 4) {
      case 0: rejects(c, name + " of named operands", [&] { ll(L0, R0); }); break;
      case 1: rejects(c, name + " with a temporary right operand", [&] { lr(L0, tr()); }); break;
      case 2: rejects(c, name + " with a temporary left operand", [&] { auto t = tl(); rl(std::move(*t), R0); }); break;
      default: rejects(c, name + " of temporaries", [&] { auto t = tl(); rr(std::move(*t), tr()); });
    }
  };
  switch (w) {
    case SUMDOM:
    case SUMCOD:
      if (form >= 4) {
        if (c.coin()) rejects(c, "+= of a named function", [&] { *le += R0; });
        else rejects(c, "+= of a temporary function", [&] { *le += tr(); });
      } else if (c.coin())
        binop("sum", [](const B &a, const E &x) { return a + x; }, [](const B &a, E &&x) { return a + std::move(x); },
              [](B &&a, const E &x) { return std::move(a) + x; }, [](B &&a, E &&x) { return std::move(a) + std::move(x); });
      else
        binop("difference", [](const B &a, const E &x) { return a - x; }, [](const B &a, E &&x) { return a - std::move(x); },
              [](B &&a, const E &x) { return std::move(a) - x; }, [](B &&a, E &&x) { return std::move(a) - std::move(x); });
      break;
    case MULDOM:
    case MULCOD:
      if (form >= 4) {
        if (c.coin()) rejects(c, "*= of a named function", [&] { *le *= R0; });
        else rejects(c, "*= of a temporary function", [&] { *le *= tr(); });
      } else
        binop("product", [](const B &a, const E &x) { return a * x; }, [](const B &a, E &&x) { return a * std::move(x); },
              [](B &&a, const E &x) { return std::move(a) * x; }, [](B &&a, E &&x) { return std::move(a) * std::move(x); });
      break;
    case MULIN:
      if (form % 2) rejects(c, "*= of a scalar function by a vectorial one", [&] { *le *= R0; });
      else rejects(c, "*= of a scalar function by a temporary vectorial one", [&] { *le *= tr(); });
      break;
    case COMPCOD:
      binop("composition", [](const B &a, const E &x) { return a.compose(x); }, [](const B &a, E &&x) { return a.compose(std::move(x)); },
            [](B &&a, const E &x) { return std::move(a).compose(x); }, [](B &&a, E &&x) { return std::move(a).compose(std::move(x)); });
      break;
    case CONCGAP:
    case CONCCOD:
      binop("concatenation", [](const B &a, const E &x) { return a.concat(x); }, [](const B &a, E &&x) { return a.concat(std::move(x)); },
            [](B &&a, const E &x) { return std::move(a).concat(x); }, [](B &&a, E &&x) { return std::move(a).concat(std::move(x)); });
      break;
    default:
      switch (form % 4) {
        case 0: rejects(c, "dot product of named functions", [&] { L0.dot(R0); }); break;
        case 1: rejects(c, "dot product with a temporary", [&] { L0.dot(tr()); }); break;
        case 2: rejects(c, "dot product of a temporary", [&] { auto t = tl(); std::move(*t).dot(R0); }); break;
        default: rejects(c, "dot product of temporaries", [&] { auto t = tl(); std::move(*t).dot(tr()); });
      }
  }
  // the named operands are as before and can be used again
  VectorXd t1 = gen_points(c, *nl, true), t2 = gen_points(c, *nr, true);
  check_shape(c, *nl, *l, "left operand");
  check_shape(c, *nr, *re, "right operand");
  check_shape(c, *nl, *le, "operand of the in-place operation");
  check_values(c, *nl, (*l)(t1), t1, 0, "left operand after the rejection");
  check_values(c, *nr, (*re)(t2), t2, 0, "right operand after the rejection");
  check_values(c, *nl, (*le)(t1), t1, 0, "operand of the in-place operation after the rejection");
  auto s = std::make_shared<Node>();
  s->op = SUM;
  s->dom = dom;
  s->codom = cl;
  s->ch = {nl, nl};
  E sum = *le + *le;
  check_values(c, *s, sum(t1), t1, 0, "sum built after the rejection");
  *le += E(L0);
  check_values(c, *s, (*le)(t1), t1, 0, "in-place sum built after the rejection");
}

// functions that cannot exist cannot be built
PBT_SUB(construction, 1) {
  Dom d = gen_dom(c);
  double len = d.second - d.first;
  Dom rev = c.coin() ? Dom{d.second, d.first} : Dom{d.first, d.first - c.of({1e-6, 1e-3, 1.0}) * (1 + len)};
  int k = (int)c.pick(9);
  c << "kind " << k << " on [" << num(rev.first) << "," << num(rev.second) << "]";
  c.label("kind", k);
  c.mark();
  VectorXd co = VectorXd::Ones((long)c.integer(1, 4));
  switch (k) {
    case 0: rejects(c, "a sine on a reversed domain", [&] { gf::Sin f(rev); }); break;
    case 1: rejects(c, "a cosine on a reversed domain", [&] { gf::Cos f(rev); }); break;
    case 2: rejects(c, "an exponential on a reversed domain", [&] { gf::Exponential f(rev); }); break;
    case 3: rejects(c, "an identity on a reversed domain", [&] { gf::Identity f(rev); }); break;
    case 4: rejects(c, "a constant on a reversed domain", [&] { gf::ConstFunction f(rev, (size_t)c.integer(1, 3), 1.0); }); break;
    case 5: rejects(c, "a polynomial on a reversed domain", [&] { gf::CanonicPolynomial f(rev, co); }); break;
    case 6: rejects(c, "a dilation on a reversed domain", [&] { gf::DomainLinearDilation f(rev, 2.0); }); break;
    case 7:
      if (c.coin()) rejects(c, "a constant without components", [&] { gf::ConstFunction f(d, 0, 1.0); });
      else rejects(c, "an expression without components", [&] { gf::FunctionExpression f(d, 0); });
      break;
    default:
      if (c.coin()) rejects(c, "a polynomial without coefficients", [&] { gf::CanonicPolynomial f(d, VectorXd()); });
      else rejects(c, "a polynomial without coefficients", [&] { const VectorXd none; gf::CanonicPolynomial f(d, none); });
  }
}
