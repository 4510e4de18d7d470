// C16: functions are values; histories of building, copying, moving, combining
// and destroying over a pool of objects, each with its reference.
#include "expr.hpp"
using namespace gen;
using E = gf::FunctionExpression;
using B = gf::FunctionBase;

namespace {
NodeP mk(Op op, Dom d, size_t codom, std::vector<NodeP> ch, double a = 0, unsigned deg = 0) {
  auto n = std::make_shared<Node>();
  n->op = op;
  n->dom = d;
  n->codom = codom;
  n->ch = std::move(ch);
  n->a = a;
  n->deg = deg;
  return n;
}
struct Pool {
  Case &c;
  std::vector<Built> p;
  explicit Pool(Case &cc) : c(cc) {}
  void check(size_t i, const char *when) {
    Built &x = p[i];
    check_shape(c, *x.node, *x.f, std::string("object ") + when);
    VectorXd t = gen_points(c, *x.node, true, 2);
    check_values(c, *x.node, (*x.f)(t), t, 0, std::string("value of an object ") + when);
  }
  // second operand with the given shape
  long partner(size_t i, bool any_codom) {
    std::vector<size_t> ok;
    for (size_t j = 0; j < p.size(); j++)
      if (p[j].node->dom == p[i].node->dom &&
          (any_codom ? (p[j].node->codom == 1 || p[i].node->codom == 1) : p[j].node->codom == p[i].node->codom))
        ok.push_back(j);
    return ok.empty() ? -1 : (long)ok[c.pick(ok.size())];
  }
};
}  // namespace

PBT_SUB(histories, 1) {
  Pool pool(c);
  ExprOpts o;
  Dom dom = gen_dom(c);
  Dom next{dom.second, dom.second + 1.0};
  size_t codom = (size_t)c.size(1, 3);
  size_t steps = (size_t)(c.chance(1, 40) ? c.integer(25, 80) : c.integer(3, 24));
  size_t ops = 0;
  auto fresh = [&] {
    Dom d = c.chance(1, 4) ? next : dom;
    size_t k = c.chance(1, 3) ? 1 : codom;
    NodeP n = gen_node(c, d, k, (int)c.size(1, 4), o);
    Builder b(c);
    pool.p.push_back({n, b.build(n)});
    for (auto &x : b.kept)
      if (c.chance(1, 3)) pool.p.push_back(std::move(x));
  };
  fresh();
  fresh();
  auto add = [&](NodeP n, FP f) {
    ops++;
    if (n->nodes() > 60 || n->cost(0) > 1500) return;
    pool.p.push_back({n, std::move(f)});
  };
  auto erase = [&](size_t i) { pool.p.erase(pool.p.begin() + (long)i); };
  for (size_t s = 0; s < steps; s++) {
    if (pool.p.empty()) fresh();
    size_t i = c.pick(pool.p.size());
    Built &x = pool.p[i];
    const Node &n = *x.node;
    int what = (int)c.pick(15);
    c << " " << what << ":" << i;
    c.label("step", what);
    switch (what) {
      case 0: fresh(); break;
      case 1: add(x.node, static_cast<const B &>(*x.f).clone()); break;
      case 2: {  // copy construction
        FP f = std::make_unique<E>(static_cast<const B &>(*x.f));
        if (auto *e = Builder::expr(x.f)) f = std::make_unique<E>(static_cast<const E &>(*e));
        if (auto *g = dynamic_cast<gsplines::GSpline *>(x.f.get())) f = std::make_unique<gsplines::GSpline>(*g);
        add(x.node, std::move(f));
        break;
      }
      case 3: {  // moves: the source is gone afterwards
        NodeP nn = x.node;
        FP f;
        switch (c.pick(3)) {
          case 0: f = x.f->move_clone(); break;
          case 1: f = std::move(*x.f).to_expression().move_clone(); break;
          default:
            if (auto *e = Builder::expr(x.f)) f = std::make_unique<E>(std::move(*e));
            else if (auto *g = dynamic_cast<gsplines::GSpline *>(x.f.get())) f = std::make_unique<gsplines::GSpline>(std::move(*g));
            else f = std::make_unique<E>(std::move(*x.f));
        }
        erase(i);
        add(nn, std::move(f));
        break;
      }
      case 4:  // destruction
        erase(i);
        ops++;
        break;
      case 5: {  // negative
        if (c.coin()) {
          NodeP nn = mk(NEG, n.dom, n.codom, {x.node});
          FP f = std::make_unique<E>(-std::move(*x.f));
          erase(i);
          add(nn, std::move(f));
        } else {
          const B &b = *x.f;
          FP f = std::make_unique<E>(-b);
          add(mk(NEG, n.dom, n.codom, {x.node}), std::move(f));
        }
        break;
      }
      case 6: {  // scaling
        double a = gen_const(c);
        FP f = Builder::expr(x.f) ? std::make_unique<E>(a * static_cast<const E &>(*Builder::expr(x.f))) : std::make_unique<E>(a * E(static_cast<const B &>(*x.f)));
        add(mk(SCALE, n.dom, n.codom, {x.node}, a), std::move(f));
        break;
      }
      case 7: {  // derivative
        if (n.cost(1) > 400) break;
        FP f = static_cast<const B &>(*x.f).deriv(1);
        if (c.coin()) f = std::make_unique<E>(static_cast<const B &>(*x.f).derivate(1));
        add(mk(DERIV, n.dom, n.codom, {x.node}, 0, 1), std::move(f));
        break;
      }
      case 8: {  // in-place sum
        E *e = Builder::expr(x.f);
        long j = pool.partner(i, false);
        if (!e || j < 0 || n.nodes() + pool.p[(size_t)j].node->nodes() > 50) break;
        Built &y = pool.p[(size_t)j];
        NodeP nn = mk(SUM, n.dom, n.codom, {x.node, y.node});
        E *ye = Builder::expr(y.f);
        if (ye && c.coin()) *e += static_cast<const E &>(*ye);  // may be itself
        else *e += E(static_cast<const B &>(*y.f));
        x.node = nn;
        ops++;
        break;
      }
      case 9: {  // in-place product
        E *e = Builder::expr(x.f);
        long j = pool.partner(i, true);
        if (!e || j < 0 || pool.p[(size_t)j].node->codom != 1 || n.nodes() + pool.p[(size_t)j].node->nodes() > 50) break;
        Built &y = pool.p[(size_t)j];
        NodeP nn = mk(MUL, n.dom, n.codom, {x.node, y.node});
        E *ye = Builder::expr(y.f);
        if (ye && c.coin()) *e *= static_cast<const E &>(*ye);
        else *e *= E(static_cast<const B &>(*y.f));
        x.node = nn;
        ops++;
        break;
      }
      default: {  // binary operations, named or consumed operands
        int op = what - 10;  // sum, difference, product, composition, concatenation/dot
        bool dot = op == 4 && c.coin();
        long j;
        if (op == 3) {
          std::vector<size_t> ok;
          for (size_t q = 0; q < pool.p.size(); q++)
            if (pool.p[q].node->codom == 1) ok.push_back(q);
          j = ok.empty() ? -1 : (long)ok[c.pick(ok.size())];
        } else if (op == 4 && !dot) {
          std::vector<size_t> ok;
          for (size_t q = 0; q < pool.p.size(); q++)
            if (pool.p[q].node->codom == n.codom && pool.p[q].node->dom.first == n.dom.second) ok.push_back(q);
          j = ok.empty() ? -1 : (long)ok[c.pick(ok.size())];
        } else {
          j = pool.partner(i, op == 2);
        }
        if (j < 0) break;
        Built &y = pool.p[(size_t)j];
        if (n.nodes() + y.node->nodes() > 40) break;
        bool lm = c.chance(1, 3) && (size_t)j != i, rm = c.chance(1, 3) && (size_t)j != i;
        NodeP nn;
        if (op == 0) nn = mk(SUM, n.dom, n.codom, {x.node, y.node});
        else if (op == 1) nn = mk(DIFF, n.dom, n.codom, {x.node, y.node});
        else if (op == 2) nn = mk(MUL, n.dom, std::max(n.codom, y.node->codom), {x.node, y.node});
        else if (op == 3) nn = mk(COMP, y.node->dom, n.codom, {x.node, y.node});
        else if (dot) nn = mk(DOT, n.dom, 1, {x.node, y.node});
        else nn = mk(CONC, {n.dom.first, y.node->dom.second}, n.codom, {x.node, y.node});
        FP f;
        const B &cl = *x.f;
        if (dot) {
          const B &cr = *y.f;
          if (lm && rm) f = std::make_unique<gf::DotProduct>(std::move(*x.f).dot(std::move(*y.f)));
          else if (lm) f = std::make_unique<gf::DotProduct>(std::move(*x.f).dot(cr));
          else if (rm) f = std::make_unique<gf::DotProduct>(cl.dot(std::move(*y.f)));
          else f = std::make_unique<gf::DotProduct>(cl.dot(cr));
        } else {
          std::unique_ptr<E> tmp;
          E *ye = Builder::expr(y.f);
          if (!ye) {
            tmp = std::make_unique<E>(static_cast<const B &>(*y.f));
            ye = tmp.get();
          }
          const E &cr = *ye;
          auto go = [&](auto fn) {
            if (lm && rm) f = std::make_unique<E>(fn(std::move(*x.f), std::move(*ye)));
            else if (lm) f = std::make_unique<E>(fn(std::move(*x.f), cr));
            else if (rm) f = std::make_unique<E>(fn(cl, std::move(*ye)));
            else f = std::make_unique<E>(fn(cl, cr));
          };
          if (op == 0) go([](auto &&a, auto &&b) { return std::forward<decltype(a)>(a) + std::forward<decltype(b)>(b); });
          else if (op == 1) go([](auto &&a, auto &&b) { return std::forward<decltype(a)>(a) - std::forward<decltype(b)>(b); });
          else if (op == 2) go([](auto &&a, auto &&b) { return std::forward<decltype(a)>(a) * std::forward<decltype(b)>(b); });
          else if (op == 3) go([](auto &&a, auto &&b) { return std::forward<decltype(a)>(a).compose(std::forward<decltype(b)>(b)); });
          else go([](auto &&a, auto &&b) { return std::forward<decltype(a)>(a).concat(std::forward<decltype(b)>(b)); });
        }
        size_t hi = std::max(i, (size_t)j), lo = std::min(i, (size_t)j);
        bool hm = hi == i ? lm : rm, lom = lo == i ? lm : rm;
        if (hi != lo) {
          if (hm) erase(hi);
          if (lom) erase(lo);
        }
        add(nn, std::move(f));
      }
    }
    if (!pool.p.empty()) pool.check(c.coin() ? pool.p.size() - 1 : c.pick(pool.p.size()), "during the history");
  }
  for (size_t i = 0; i < pool.p.size(); i++) pool.check(i, "at the end of the history");
  if (ops >= 3) c.mark();
  // destruction in any order leaves the others intact
  while (pool.p.size() > 1) {
    erase(c.pick(pool.p.size()));
    pool.check(c.pick(pool.p.size()), "after the destruction of another one");
  }
}
