// C26: memory. The jobs are the cases of the other properties: a job that is run
// again must not leave more memory in use than before. And a function of the
// user that throws, at any call the library makes to it, must reach the caller
// with its own exception, without a loss of memory and without harm to the
// expressions that only lent it.
//
// The allocation functions of this binary are replaced: they count what is in
// use.
#include "pbt.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <cmath>
#include <list>
#include <cerrno>
#include <cstring>
#include <malloc.h>
#include <new>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}
namespace mem {
struct State {
  bool on = false;
  long blocks = 0;    // in use, taken since the start of the watch
  long bytes = 0;
};
static State st;  // the jobs have no threads
static inline void took(void *p) {
  if (st.on && p) {
    st.blocks++;
    st.bytes += (long)malloc_usable_size(p);
  }
}
static inline void gave(void *p) {
  if (st.on && p) {
    st.blocks--;
    st.bytes -= (long)malloc_usable_size(p);
  }
}
}  // namespace mem
extern "C" {
void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  mem::took(p);
  return p;
}
void free(void *p) {
  mem::gave(p);
  __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  void *p = __libc_calloc(a, b);
  mem::took(p);
  return p;
}
void *realloc(void *q, size_t n) {
  long old = q && mem::st.on ? (long)malloc_usable_size(q) : 0;
  void *p = __libc_realloc(q, n);
  if (mem::st.on) {
    if (p) mem::took(p);
    if (q && (p || n == 0)) {
      mem::st.blocks--;
      mem::st.bytes -= old;
    }
  }
  return p;
}
void *memalign(size_t a, size_t n) {
  void *p = __libc_memalign(a, n);
  mem::took(p);
  return p;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) {
  void *p = memalign(a, n);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
}

namespace {
struct Job {
  size_t sub;
  uint64_t seed;
};
struct Use {
  bool failed = false;
  long blocks = 0, bytes = 0;  // left in use
};
Use perform(const Job &j) {
  Use r;
  mem::st = mem::State();
  mem::st.on = true;
  try {
    pbt::Case jc{pbt::Source(j.seed)};
    pbt::registry()[j.sub].fn(jc);
  } catch (const pbt::Discard &) {
  } catch (...) {
    r.failed = true;
  }
  mem::st.on = false;
  r.blocks = mem::st.blocks;
  r.bytes = mem::st.bytes;
  return r;
}
Job draw(pbt::Case &c) {
  std::vector<size_t> subs;
  for (size_t i = 0; i < pbt::registry().size(); i++)
    if (strncmp(pbt::registry()[i].name, "memory_", 7) != 0) subs.push_back(i);
  Job j{subs[c.pick(subs.size())], (uint64_t)c.integer(0, (1ll << 40))};
  c << pbt::registry()[j.sub].name << ":" << j.seed;
  return j;
}
}  // namespace

PBT_SUB(memory_leaks, 3) {
  Job j = draw(c);
  int more = c.chance(1, 3) ? 12 : 0;
  // what fails is a matter of another property; the first runs also fill tables
  // that are kept for the rest of the process
  if (perform(j).failed) c.discard();
  perform(j);
  c.label("job", pbt::registry()[j.sub].name);
  c.mark();
  // a block that lives on from run to run may change its size with the state of
  // the allocator: bytes count when they add up
  Use r;
  bool lost = true;
  for (int i = 0; i < 4 && lost; i++) {
    r = perform(j);
    lost = r.blocks > 0;
  }
  if (lost) c.fail("each run of the job leaves " + std::to_string(r.blocks) + " blocks, " + std::to_string(r.bytes) + " bytes in use");
  long total = 0;
  for (int i = 0; i < more; i++) total += perform(j).bytes;
  c.require(total < 2048, "twelve further runs of the job leave " + std::to_string(total) + " bytes in use");
}

// different jobs of one kind: what is kept for later use comes to an end
PBT_SUB(memory_growth, 1) {
  Job j = draw(c);
  c.label("job", pbt::registry()[j.sub].name);
  int n = 24, grown = 0, failed = 0;
  long blocks = 0;
  for (int i = 0; i < 3 * n; i++) {
    Use r = perform({j.sub, j.seed + (uint64_t)i});
    failed += r.failed;
    if (i >= 2 * n && r.blocks > 0) {
      grown++;
      blocks += r.blocks;
    }
  }
  if (failed) c.discard();
  c.mark();
  c.require(2 * grown < n, std::to_string(grown) + " of " + std::to_string(n) + " further jobs of the same kind leave " + std::to_string(blocks) + " blocks in use");
}

namespace {
namespace gf = gsplines::functions;
struct Boom {};
struct BoomStd : std::runtime_error {
  BoomStd() : std::runtime_error("the function of the user throws") {}
};
struct TooLarge {};
struct Fault {
  bool on = false;
  long steps = 0, at = -1;
  bool standard = false;
  void step() {
    if (!on) return;
    if (steps > 4000) throw TooLarge();
    if (steps++ != at) return;
    if (standard) throw BoomStd();
    throw Boom();
  }
};
static Fault fault;
static long alive;
// component i: s^d sin(s x + p + i + d pi/2)
class Moody : public gf::FunctionInheritanceHelper<Moody, gf::Function, Moody> {
  double s_, p_;
  size_t d_;

 public:
  Moody(std::pair<double, double> dom, size_t dim, double s, double p, size_t d)
      : gf::FunctionInheritanceHelper<Moody, gf::Function, Moody>(dom, dim, "Moody"), s_(s), p_(p), d_(d) {
    alive++;
  }
  Moody(const Moody &o) : gf::FunctionInheritanceHelper<Moody, gf::Function, Moody>(o), s_(o.s_), p_(o.p_), d_(o.d_) {
    fault.step();
    alive++;
  }
  ~Moody() { alive--; }
  void value_impl(const Eigen::Ref<const Eigen::VectorXd> x, Eigen::Ref<Eigen::MatrixXd> r) const override {
    fault.step();
    for (long i = 0; i < x.size(); i++)
      for (long k = 0; k < (long)get_codom_dim(); k++)
        r(i, k) = std::pow(s_, (double)d_) * std::sin(s_ * x(i) + p_ + (double)k + (double)d_ * M_PI / 2);
  }

 protected:
  Moody *deriv_impl(size_t d) const override {
    fault.step();
    return new Moody(get_domain(), get_codom_dim(), s_, p_, d_ + d);
  }
};
struct Member {
  gf::FunctionExpression f;
  Eigen::MatrixXd v;
};
struct Op {
  int kind;
  size_t a, b, deg;
  int cat;
};
struct Script {
  std::vector<std::array<double, 4>> leaves;  // dimension, s, p, start
  std::vector<Op> ops;
};
struct Run {
  std::string error;
  bool large = false, thrown = false;
  long steps = 0, blocks = 0, alive = 0;
};
const char *kinds[] = {"+", "-", "*", "compose", "neg", "derivate", "deriv", "copy", "dot", "value", "+=", "*=", "concat", "integral", "sobolev norm", "approximate"};

void play(const Script &sc, long at, bool standard, Run &out) {
  std::list<Member> pool;
  auto at_points = [](const gf::FunctionExpression &f) {
    Eigen::VectorXd t(4);
    t << 0.125, 0.5, 0.625, 0.875;
    t = (t.array() * f.get_domain_length() + f.get_domain().first).matrix().eval();
    return f(t);
  };
  fault = Fault();
  fault.at = at;
  fault.standard = standard;
  auto nth = [&](size_t i) {
    auto it = pool.begin();
    std::advance(it, (long)(i % pool.size()));
    return it;
  };
  for (auto &l : sc.leaves) {
    gf::FunctionExpression e(Moody({l[3], l[3] + 1}, (size_t)l[0], l[1], l[2], 0));
    pool.push_back({e, at_points(e)});
  }
  auto put = [&](gf::FunctionExpression &&e) {
    fault.on = false;
    Eigen::MatrixXd v = at_points(e);
    pool.push_back({std::move(e), v});
  };
  for (const Op &o : sc.ops) {
    if (pool.size() < 2) break;
    auto a = o.a >= 8 ? std::prev(pool.end()) : nth(o.a), b = nth(o.b);
    // a partner that fits, if there is one
    for (size_t k = 0; k < pool.size(); k++) {
      auto x = nth(o.b + k);
      bool fits = o.kind == 12 ? a->f.get_domain().second == x->f.get_domain().first && a->f.get_codom_dim() == x->f.get_codom_dim()
                  : o.kind == 3 ? x->f.get_codom_dim() == 1
                  : o.kind == 2 || o.kind == 11 ? a->f.get_domain() == x->f.get_domain() && x->f.get_codom_dim() == 1
                                                : a->f.get_domain() == x->f.get_domain() && a->f.get_codom_dim() == x->f.get_codom_dim();
      if (!fits || (x == a && o.cat)) continue;
      b = x;
      break;
    }
    if (o.cat && a == b) continue;  // a moved operand is not also the other one
    size_t da = a->f.get_codom_dim(), db = b->f.get_codom_dim();
    bool use_a = (o.cat & 1) != 0, use_b = (o.cat & 2) != 0;
    bool same = a->f.get_domain() == b->f.get_domain();
    auto two = [&](auto op) {
      fault.on = true;
      if (use_a && use_b) return op(std::move(a->f), std::move(b->f));
      if (use_a) return op(std::move(a->f), b->f);
      if (use_b) return op(a->f, std::move(b->f));
      return op(a->f, b->f);
    };
    bool gone_a = false, gone_b = false;
    try {
      fault.on = false;
      switch (o.kind) {
        case 0:
        case 1:
          if (da != db || !same) continue;
          gone_a = use_a, gone_b = use_b;
          if (o.kind == 0) put(two([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) + std::forward<decltype(y)>(y); }));
          else put(two([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) - std::forward<decltype(y)>(y); }));
          break;
        case 2:
          if ((da > 1 && db > 1) || !same) continue;
          gone_a = use_a, gone_b = use_b;
          put(two([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x) * std::forward<decltype(y)>(y); }));
          break;
        case 3:
          if (db > 1) continue;
          gone_a = use_a, gone_b = use_b;
          put(two([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x).compose(std::forward<decltype(y)>(y)); }));
          break;
        case 4: {
          gone_a = use_a;
          fault.on = true;
          if (use_a) put(-std::move(a->f));
          else put(-a->f);
          break;
        }
        case 5:
          fault.on = true;
          put(a->f.derivate(o.deg));
          break;
        case 6: {
          fault.on = true;
          auto d = a->f.deriv(o.deg);
          put(gf::FunctionExpression(*d));
          break;
        }
        case 7:
          fault.on = true;
          put(gf::FunctionExpression(a->f));
          break;
        case 8:
          if (da != db || !same) continue;
          fault.on = true;
          put(gf::FunctionExpression(a->f.dot(b->f)));
          break;
        case 9:
          fault.on = true;
          at_points(a->f);
          break;
        case 10:
        case 11: {
          if (a == b || !same || (o.kind == 10 ? da != db : db > 1)) continue;
          gone_a = true;
          gf::FunctionExpression x(std::move(a->f));
          fault.on = true;
          if (o.kind == 10) x += b->f;
          else x *= b->f;
          put(std::move(x));
          break;
        }
        case 12:
          if (da != db || a->f.get_domain().second != b->f.get_domain().first) continue;
          gone_a = use_a, gone_b = use_b;
          put(two([](auto &&x, auto &&y) { return std::forward<decltype(x)>(x).concat(std::forward<decltype(y)>(y)); }));
          break;
        case 13:
          if (da > 1) continue;
          fault.on = true;
          gsplines::functional_analysis::integral(a->f, 4, 1 + o.deg);
          break;
        case 14:
          fault.on = true;
          gsplines::functional_analysis::sobolev_norm(a->f, o.deg % 3, 4, 2);
          break;
        case 15: {
          fault.on = true;
          auto g = gsplines::collocation::GaussLobattoLagrangeSpline::approximate(a->f, 3 + o.deg, 2);
          fault.on = false;
          put(gf::FunctionExpression(g));
          break;
        }
      }
      fault.on = false;
    } catch (const Boom &) {
      fault.on = false;
      out.thrown = !standard;
    } catch (const BoomStd &) {
      fault.on = false;
      out.thrown = standard;
    }
    if (gone_a) pool.erase(a);
    if (gone_b && a != b) pool.erase(b);
    for (auto &m : pool) {
      Eigen::MatrixXd v = at_points(m.f);
      if (v.rows() != m.v.rows() || v.cols() != m.v.cols() || !(v.array() == m.v.array() || (v.array() != v.array() && m.v.array() != m.v.array())).all()) {
        out.error = std::string("an expression that was only read has changed after ") + kinds[o.kind];
        return;
      }
    }
  }
}
Run go(const Script &sc, long at, bool standard = false) {
  Run r;
  r.error.reserve(400);
  alive = 0;
  mem::st = mem::State();
  mem::st.on = true;
  try {
    play(sc, at, standard, r);
  } catch (const TooLarge &) {
    r.large = true;
  } catch (const std::exception &e) {
    r.error.append(e.what(), std::min<size_t>(strlen(e.what()), 300));
  }
  mem::st.on = false;
  fault.on = false;
  r.steps = fault.steps;
  r.blocks = mem::st.blocks;
  r.alive = alive;
  return r;
}
}  // namespace

PBT_SUB(memory_throwing, 10) {
  Script sc;
  size_t nl = 2 + c.pick(3), no = 1 + c.pick(6);
  for (size_t i = 0; i < nl; i++) sc.leaves.push_back({(double)(1 + c.pick(2)), (double)(1 + c.pick(3)) / 2, (double)c.pick(5) / 4, (double)c.pick(2)});
  for (size_t i = 0; i < no; i++) sc.ops.push_back({(int)c.pick(16), c.pick(14), c.pick(8), c.pick(4), (int)c.pick(4)});
  for (auto &l : sc.leaves) c << "leaf " << l[0] << "," << l[1] << "," << l[2] << " on [" << l[3] << "," << l[3] + 1 << "]; ";
  for (auto &o : sc.ops) c << kinds[o.kind] << " " << o.a << " " << o.b << " deg " << o.deg << " moves " << o.cat << "; ";
  Run base = go(sc, -1);
  if (base.large) c.discard();
  c.require(base.error.empty(), base.error);
  if (base.steps == 0) c.discard();
  long at = (long)c.integer(0, base.steps - 1);
  c << "throws at call " << at << " of " << base.steps;
  bool standard = c.chance(1, 2);
  Run r = go(sc, at, standard);
  c.require(r.error.empty(), r.error);
  c.require(r.thrown || r.large, "the exception of the user's function has not reached the caller");
  c.mark();
  c.require(r.alive == 0, std::to_string(r.alive) + " functions of the user are still alive");
  for (int i = 0; i < 4 && r.blocks > 0; i++) r = go(sc, at, standard);
  c.require(r.blocks <= 0, "after the exception " + std::to_string(r.blocks) + " blocks stay in use");
  Run after = go(sc, -1);
  c.require(after.error.empty() && after.steps == base.steps, "after an exception the same operations behave differently");
}
