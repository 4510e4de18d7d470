// C24: threads that work on objects of their own do not disturb each other.
// The jobs are the cases of the other properties (each with its own oracle),
// which first pass alone and must then pass side by side; and copies of common
// originals, which belong to different threads.
#include "expr.hpp"
#include <atomic>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Interpolator.hpp>
#include <gsplines/Tools.hpp>
#include <thread>
using namespace gen;
using gsplines::GSpline;
using GLLS = gsplines::collocation::GLLSpline;

namespace {
struct Gate {
  std::atomic<size_t> waiting{0};
  std::atomic<size_t> n;
  explicit Gate(size_t k) : n(k) {}
  void pass() {
    waiting.fetch_add(1);
    for (int i = 0; waiting.load() < n.load(); i++)
      if (i > 200) std::this_thread::yield();
  }
};
// run(i) on thread i, all released together; the first complaint, if any
template <class F>
std::string side_by_side(size_t k, F run) {
  Gate gate(k);
  std::vector<std::string> err(k);
  std::vector<std::thread> th;
  try {
    for (size_t i = 0; i < k; i++)
      th.emplace_back([&, i] {
        gate.pass();
        try {
          run(i);
        } catch (const std::exception &e) {
          err[i] = e.what();
          if (err[i].empty()) err[i] = "exception";
        }
      });
  } catch (const std::system_error &) {  // no more threads to be had: fewer do as well
    gate.n = th.size();
  }
  for (auto &t : th) t.join();
  for (auto &e : err)
    if (!e.empty()) return e;
  return "";
}
struct Job {
  size_t sub;
  uint64_t seed;
};
// empty: passed or nothing to decide
std::string perform(const Job &j) {
  Case jc{pbt::Source(j.seed)};
  try {
    pbt::registry()[j.sub].fn(jc);
  } catch (const pbt::Discard &) {
  } catch (const std::exception &e) {
    return std::string(pbt::registry()[j.sub].name) + ": " + e.what() + "; input of the job: " + jc.desc.str();
  }
  return "";
}
}  // namespace

PBT_SUB(threads_cases, 3) {
  std::vector<size_t> subs;
  for (size_t i = 0; i < pbt::registry().size(); i++)
    if (strncmp(pbt::registry()[i].name, "threads_", 8) != 0) subs.push_back(i);
  size_t k = (size_t)c.integer(2, 4);
  int mode = (int)c.pick(3);  // jobs of any kind, of one kind, one job for all
  std::vector<Job> jobs(k);
  for (size_t i = 0; i < k; i++) {
    jobs[i] = {subs[c.pick(subs.size())], (uint64_t)c.integer(0, (1ll << 40))};
    if (i && mode) jobs[i].sub = jobs[0].sub;
    if (i && mode == 2) jobs[i].seed = jobs[0].seed;
    c << " " << pbt::registry()[jobs[i].sub].name << ":" << jobs[i].seed;
  }
  int rep = (int)c.integer(1, 4);
  c << " repetitions=" << rep;
  // what fails alone is a matter of another property
  for (auto &j : jobs)
    if (!perform(j).empty()) c.discard();
  c.label("mode", mode);
  c.label("threads", k);
  for (auto &j : jobs) c.label("job", pbt::registry()[j.sub].name);
  c.mark();
  std::string e = side_by_side(k, [&](size_t i) {
    for (int r = 0; r < rep; r++) {
      std::string m = perform(jobs[i]);
      if (!m.empty()) throw std::runtime_error(m);
    }
  });
  c.require(e.empty(), "a job that passes alone fails next to others: " + e);
}

namespace {
void put(std::vector<double> &r, const MatrixXd &m) {
  for (long j = 0; j < m.cols(); j++)
    for (long i = 0; i < m.rows(); i++) r.push_back(m(i, j));
}
struct Probe {
  virtual ~Probe() = default;
  virtual void take() = 0;  // copy the original
  virtual std::vector<double> ask(uint64_t seed) = 0;
};
// T: the type of the copies
struct SplineProbe : Probe {
  const SplineDesc &s;
  const GSpline &o;
  std::unique_ptr<GSpline> g;
  SplineProbe(const SplineDesc &d, const GSpline &x) : s(d), o(x) {}
  void take() override { g = std::make_unique<GSpline>(o); }
  std::vector<double> ask(uint64_t seed) override {
    Case jc{pbt::Source(seed)};
    std::vector<double> r;
    VectorXd t = gen_times(jc, s, 6);
    unsigned d = (unsigned)jc.integer(1, 3);
    MatrixXd v = (*g)(t);
    put(r, v);
    GSpline dg = g->derivate(d);
    put(r, dg(t));
    GSpline sum = *g + dg;
    put(r, sum(t));
    put(r, (-2.0 * (*g))(t));
    put(r, g->linear_scaling_new_execution_time(1.5 * (s.domain().second - s.t0))(t));
    auto b = g->get_basis().clone();
    VectorXd buf((long)s.basis.dim);
    b->eval_on_window(0.25, s.taus(0), buf);
    put(r, buf);
    b->eval_derivative_on_window(-0.5, s.taus(0), 1, buf);
    put(r, buf);
    r.push_back(gsplines::tools::approx_equal(v, MatrixXd(v * (1.0 + 1e-3 * (double)(seed % 7))), 1e-12));
    r.push_back(gsplines::tools::last_error);
    r.push_back(*g == o);
    return r;
  }
};
struct ExprProbe : Probe {
  const Node &n;
  const gf::FunctionBase &o;
  FP f;
  ExprProbe(const Node &d, const gf::FunctionBase &x) : n(d), o(x) {}
  void take() override { f = o.clone(); }
  std::vector<double> ask(uint64_t seed) override {
    Case jc{pbt::Source(seed)};
    std::vector<double> r;
    VectorXd t = gen_points(jc, n, true, 5);
    put(r, (*f)(t));
    gf::FunctionExpression e(*f);
    put(r, (e + e)(t));
    put(r, (-e)(t));
    FP d = f->deriv(1);
    put(r, (*d)(t));
    return r;
  }
};
struct GllProbe : Probe {
  const GLLS &o;
  std::unique_ptr<GLLS> g;
  explicit GllProbe(const GLLS &x) : o(x) {}
  void take() override { g = std::make_unique<GLLS>(o); }
  std::vector<double> ask(uint64_t seed) override {
    Case jc{pbt::Source(seed)};
    std::vector<double> r;
    auto d = g->get_domain();
    VectorXd t(4);
    for (long i = 0; i < 4; i++) t(i) = d.first + (d.second - d.first) * jc.unit();
    put(r, (*g)(t));
    GLLS dg = g->derivate(1);
    put(r, dg(t));
    put(r, (*g + dg)(t));
    put(r, g->get_coefficients());
    put(r, g->get_domain_discretization());
    return r;
  }
};
bool same(const std::vector<double> &a, const std::vector<double> &b) {
  if (a.size() != b.size()) return false;
  double m = 1;
  for (double x : a)
    if (std::isfinite(x)) m = std::max(m, std::fabs(x));
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))) continue;
    if (!(std::fabs(a[i] - b[i]) <= 1e-11 * m)) return false;
  }
  return true;
}
}  // namespace

PBT_SUB(threads_copies, 2) {
  size_t k = (size_t)c.integer(2, 4);
  bool copied_by_threads = c.coin();
  int kind = (int)c.pick(3);
  SplineDesc s;
  NodeP n;
  std::unique_ptr<GSpline> g;
  std::unique_ptr<GLLS> gl;
  FP f;
  std::vector<std::unique_ptr<Probe>> p(k + 1);
  if (kind == 1) {
    ExprOpts o;
    n = gen_node(c, gen_dom(c), (size_t)c.size(1, 3), (int)c.size(1, 6), o);
    Builder b(c);
    f = b.build(n);
    for (auto &x : p) x = std::make_unique<ExprProbe>(*n, *f);
  } else {
    SplineOpts o;
    o.max_intervals = 5;
    o.max_codom = 3;
    o.basis.max_dim = 8;
    o.tau_lo = 0.2;
    o.tau_hi = 5;
    s = gen_spline(c, o);
    g = std::make_unique<GSpline>(s.make());
    if (kind == 2) gl = std::make_unique<GLLS>(gsplines::collocation::GLLSpline::approximate(*g, (size_t)c.integer(3, 8), s.n()));
    for (auto &x : p) {
      if (kind == 2) x = std::make_unique<GllProbe>(*gl);
      else x = std::make_unique<SplineProbe>(s, *g);
    }
    c << s.text();
  }
  bool used = c.coin();  // the original was used before it was copied
  std::vector<uint64_t> seed(k);
  for (auto &x : seed) x = (uint64_t)c.integer(0, 1 << 30);
  if (c.coin()) std::fill(seed.begin(), seed.end(), seed[0]);
  if (used) {
    VectorXd t(2);
    const gf::FunctionBase &o = kind == 1 ? *f : kind == 2 ? (const gf::FunctionBase &)*gl : *g;
    t << o.get_domain().first, o.get_domain().second;
    o(t);
  }
  int rep = (int)c.integer(1, 6);
  c << " kind=" << kind << " threads=" << k << " repetitions=" << rep;
  c.label("kind", kind);
  c.label(copied_by_threads ? "copied by the threads" : "copied before");
  c.mark();
  std::vector<std::vector<double>> want(k);
  p[k]->take();
  for (size_t i = 0; i < k; i++) want[i] = p[k]->ask(seed[i]);
  if (!copied_by_threads)
    for (size_t i = 0; i < k; i++) p[i]->take();
  std::string e = side_by_side(k, [&](size_t i) {
    for (int r = 0; r < rep; r++) {
      if (copied_by_threads) p[i]->take();
      if (!same(want[i], p[i]->ask(seed[i]))) throw std::runtime_error("the copy of thread " + std::to_string(i) + " answers differently");
    }
  });
  c.require(e.empty(), e);
}
