// C22: functionals on collocation splines return what their names define, and
// the differentials they report are the Jacobians with respect to node values.
#include "expr.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
#include <ifopt/problem.h>
using namespace gen;
namespace gc = gsplines::collocation;
using S = gc::GLLSpline;
using Sparse = Eigen::SparseMatrix<double>;

namespace {
const double TOL = 1e-9;

// node values of a piecewise polynomial, in the layout of the coefficients
struct Space {
  Dom dom;
  VectorXd taus;
  size_t nglp = 2, codom = 1;
  size_t ni() const { return (size_t)taus.size(); }
  long size() const { return (long)(ni() * nglp * codom); }
  long at(size_t k, size_t q, size_t j) const { return (long)((k * codom + q) * nglp + j); }
  S make(const VectorXd &co) const { return S(dom, codom, ni(), nglp, co, taus); }
  L node(size_t k, size_t j) const {
    L x = dom.first;
    for (size_t i = 0; i < k; i++) x += (L)taus((long)i);
    return x + (gll_ref_nodes(nglp)[j] + 1) / 2 * (L)taus((long)k);
  }
  L weight(size_t k, size_t j) const {
    L x = gll_ref_nodes(nglp)[j], p = legendre_ref(nglp, x, 0)[nglp - 1];
    return 2 / ((L)nglp * (L)(nglp - 1) * p * p) * (L)taus((long)k) / 2;
  }
  std::string text() const {
    std::ostringstream o;
    o << "[" << num(dom.first) << "," << num(dom.second) << "] taus=" << show(taus) << " nglp=" << nglp << " codom=" << codom;
    return o.str();
  }
};
void set_lengths(Space &s, const VectorXd &taus) {
  s.taus = taus;
  s.dom.second = s.dom.first;
  for (long i = 0; i < taus.size(); i++) s.dom.second += taus(i);
}
VectorXd lengths(Case &c, size_t n) {
  bool dy;
  return gen_taus(c, n, nullptr, 0.05, 8, &dy);
}
Space gen_space(Case &c, size_t max_codom = 4) {
  Space s;
  s.nglp = (size_t)c.big(2, 8, 16);
  s.codom = (size_t)c.big(1, (int64_t)max_codom, (int64_t)max_codom == 1 ? 0 : 9);
  double t0 = gen_t0(c, false);
  s.dom = {t0, t0};
  set_lengths(s, lengths(c, (size_t)c.big(1, 5, 20)));
  return s;
}
// derivatives of the node polynomials at the nodes, on the window
const std::vector<VL> &dmat(size_t nglp, unsigned deg) {
  static std::map<std::pair<size_t, unsigned>, std::vector<VL>> cache;
  auto &r = cache[{nglp, deg}];
  if (r.empty())
    for (L x : gll_ref_nodes(nglp)) r.push_back(lagrange_ref(gll_ref_nodes(nglp), x, deg));
  return r;
}
L dscale(size_t nglp, unsigned deg) {
  static std::map<std::pair<size_t, unsigned>, L> cache;
  auto it = cache.find({nglp, deg});
  if (it != cache.end()) return it->second;
  return cache[{nglp, deg}] = node_matrix_scale(gll_ref_nodes(nglp), deg) * powl(5, (L)deg) * (L)nglp;
}
// reference derivative at a node; scale: magnitude of the rounding
L dref(const Space &s, const VectorXd &co, size_t k, size_t q, size_t j, unsigned deg, L *scale = nullptr) {
  const VL &w = dmat(s.nglp, deg)[j];
  L f = powl(2 / (L)s.taus((long)k), (L)deg), r = 0, m = 0;
  for (size_t i = 0; i < s.nglp; i++) {
    r += w[i] * (L)co(s.at(k, q, i));
    m = std::max<L>(m, fabsl((L)co(s.at(k, q, i))));
  }
  if (scale) *scale = f * m * dscale(s.nglp, deg) + 1e-12L;
  return r * f;
}

// everything a linear functional offers gives the same matrix; returns it
template <class F>
MatrixXd matrix_of(Case &c, const F &f, const S &in, const std::string &what) {
  MatrixXd a = f.to_dense_matrix(), b = MatrixXd(f.to_sparse_matrix());
  c.require(a.rows() == b.rows() && a.cols() == b.cols() && a == b, what + ": dense and sparse matrix differ");
  auto d = f.differential(in);
  MatrixXd e = d->to_dense_matrix();
  c.require(a.rows() == e.rows() && a.cols() == e.cols() && a == e, what + ": the differential of a linear functional is itself");
  c.require(MatrixXd(f.to_matrix()) == a, what + ": matrix");
  c.require(f.get_codom_dim() == (size_t)a.rows() && d->get_codom_dim() == (size_t)a.rows(), what + ": number of values announced");
  return a;
}
void equal(Case &c, const MatrixXd &got, const MatrixXd &ref, const std::string &what) {
  c.require(got.rows() == ref.rows() && got.cols() == ref.cols(), what + ": size");
  L m = (L)(ref.size() ? ref.cwiseAbs().maxCoeff() : 0) + 1e-12L;
  for (long i = 0; i < ref.rows(); i++)
    for (long j = 0; j < ref.cols(); j++) close(c, got(i, j), (L)ref(i, j), m, 1e-9, what);
}
void same_space(Case &c, const Space &s, const S &g, const std::string &what) {
  L span = fabsl((L)s.dom.first) + fabsl((L)s.dom.second);
  c.require(g.get_codom_dim() == s.codom && g.get_nglp() == s.nglp && g.get_number_of_intervals() == s.ni(), what + ": shape of the result");
  close(c, g.get_domain().first, (L)s.dom.first, 1 + span, 1e-11, what + ": domain");
  close(c, g.get_domain().second, (L)s.dom.second, 1 + span, 1e-11, what + ": domain");
  c.require(g.get_interval_lengths().size() == s.taus.size(), what + ": number of interval lengths");
  for (long i = 0; i < s.taus.size(); i++) close(c, g.get_interval_lengths()(i), (L)s.taus(i), 1 + span, 1e-11, what + ": interval length");
}
template <class E, class F>
bool throws(F f) {
  try {
    f();
  } catch (const E &) {
    return true;
  }
  return false;
}
void check_derivative(Case &c, const gc::Derivative &D, const Space &s, const VectorXd &co, unsigned deg, const std::string &what) {
  S in = s.make(co);
  VectorXd v = D(in);
  c.require(v.size() == s.size() && D.get_codom_dim() == (size_t)s.size(), what + ": size");
  S out = D * in;
  same_space(c, s, out, what);
  for (size_t k = 0; k < s.ni(); k++)
    for (size_t q = 0; q < s.codom; q++)
      for (size_t j = 0; j < s.nglp; j++) {
        L sc, r = dref(s, co, k, q, j, deg, &sc);
        std::string w = what + " interval " + std::to_string(k) + " component " + std::to_string(q) + " node " + std::to_string(j);
        close(c, v(s.at(k, q, j)), r, sc, TOL, w);
        close(c, out.value_at(k * s.nglp + j)((long)q), r, sc, TOL, w + " (spline)");
      }
  if (s.size() <= 120) {
    MatrixXd M = matrix_of(c, D, in, what);
    c.require(M.rows() == s.size() && M.cols() == s.size(), what + ": size of the matrix");
    VectorXd e = VectorXd::Zero(s.size());
    for (long col = 0; col < s.size(); col++) {
      e.setZero();
      e(col) = 1;
      for (size_t k = 0; k < s.ni(); k++)
        for (size_t q = 0; q < s.codom; q++)
          for (size_t j = 0; j < s.nglp; j++) {
            L sc, r = dref(s, e, k, q, j, deg, &sc);
            close(c, M(s.at(k, q, j), col), r, sc, TOL, what + ": Jacobian");
          }
    }
  }
  c.require((in.get_coefficients() - co).cwiseAbs().maxCoeff() == 0, what + ": operand changed");
}
}  // namespace

PBT_SUB(derivative, 3) {
  Space s = gen_space(c);
  unsigned deg = (unsigned)c.size(0, 4);
  int how = (int)c.pick(5);
  c << s.text() << " deg=" << deg << " how=" << how;
  std::unique_ptr<gc::Derivative> D;
  switch (how) {
    case 0: {  // uniform intervals over a domain
      set_lengths(s, VectorXd::Constant((long)s.ni(), s.taus(0)));
      D = std::make_unique<gc::Derivative>(s.dom, s.codom, s.nglp, s.ni(), deg);
      break;
    }
    case 1: D = std::make_unique<gc::Derivative>(s.codom, s.nglp, s.taus, deg); break;
    case 2:
      deg = 1;
      D = std::make_unique<gc::Derivative>(s.make(VectorXd::Ones(s.size())));
      break;
    case 3:
      deg = 1;
      D = std::make_unique<gc::Derivative>(s.codom, s.nglp, s.taus);
      break;
    default:
      deg = 1;
      set_lengths(s, VectorXd::Constant((long)s.ni(), s.taus(0)));
      D = std::make_unique<gc::Derivative>(s.dom, s.codom, s.nglp, s.ni());
  }
  if (s.ni() > 1 || s.codom > 1) c.mark();
  check_derivative(c, *D, s, gen_coeffs(c, (size_t)s.size(), 3), deg, "derivative");
  size_t n = (size_t)c.integer(0, 3);
  for (size_t i = 0; i < n; i++) {
    if (c.chance(1, 3)) {
      double h = gen_tau(c, nullptr, 0.05, 8);
      D->update(h);
      set_lengths(s, VectorXd::Constant((long)s.ni(), h));
    } else {
      VectorXd t = lengths(c, s.ni());
      D->update(t);
      set_lengths(s, t);
    }
    c << " update" << show(s.taus);
    check_derivative(c, *D, s, gen_coeffs(c, (size_t)s.size(), 3), deg, "derivative after an update");
  }
}

PBT_SUB(transpose_product, 2) {
  Space s = gen_space(c), one = s;
  one.codom = 1;
  VectorXd a = gen_coeffs(c, (size_t)s.size(), 3), b;
  c << s.text();
  std::unique_ptr<gc::TransposeLeftMultiplication> T;
  VL scale((size_t)s.size(), 0);
  auto check = [&](const std::string &what) {
    b = gen_coeffs(c, (size_t)s.size(), 3);
    S in = s.make(b);
    VectorXd v = (*T)(in);
    S out = *T * in;
    same_space(c, one, out, what);
    c.require(v.size() == one.size(), what + ": size");
    for (size_t k = 0; k < s.ni(); k++)
      for (size_t j = 0; j < s.nglp; j++) {
        L r = 0, m = 1e-12L;
        for (size_t q = 0; q < s.codom; q++) {
          r += (L)a(s.at(k, q, j)) * (L)b(s.at(k, q, j));
          m += (fabsl((L)a(s.at(k, q, j))) + scale[(size_t)s.at(k, q, j)]) * fabsl((L)b(s.at(k, q, j)));
        }
        close(c, v(one.at(k, 0, j)), r, m, TOL, what);
        close(c, out.value_at(k * s.nglp + j)(0), r, m, TOL, what + " (spline)");
      }
    if (s.size() <= 150) {
      MatrixXd M = matrix_of(c, *T, in, what), R = MatrixXd::Zero(one.size(), s.size());
      for (size_t k = 0; k < s.ni(); k++)
        for (size_t j = 0; j < s.nglp; j++)
          for (size_t q = 0; q < s.codom; q++) R(one.at(k, 0, j), s.at(k, q, j)) = a(s.at(k, q, j));
      c.require(M.rows() == R.rows() && M.cols() == R.cols(), what + ": size of the matrix");
      for (long i = 0; i < R.rows(); i++)
        for (long j = 0; j < R.cols(); j++) close(c, M(i, j), (L)R(i, j), fabsl((L)R(i, j)) + scale[(size_t)j] + 1e-12L, TOL, what + ": Jacobian");
    }
  };
  if (s.codom > 1 || s.ni() > 1) c.mark();
  bool sized = c.coin();
  if (sized) T = std::make_unique<gc::TransposeLeftMultiplication>(s.codom, s.nglp, s.ni());
  else {
    T = std::make_unique<gc::TransposeLeftMultiplication>(s.make(a));
    check("product with a transposed spline");
  }
  size_t n = (size_t)c.integer(sized ? 1 : 0, 3);
  for (size_t i = 0; i < n; i++) {
    if (c.chance(1, 4)) {  // a codomain that does not fit
      size_t k = s.codom + 1;
      c.require(throws<std::invalid_argument>([&] { *T = S(s.dom, k, s.ni(), s.nglp); }), "spline of another codomain was accepted");
      c.require(throws<std::invalid_argument>([&] { *T = static_cast<const gf::FunctionBase &>(gf::ConstFunction(s.dom, k, 1.0)); }), "function of another codomain was accepted");
    }
    if (c.coin()) {
      a = gen_coeffs(c, (size_t)s.size(), 3);
      std::fill(scale.begin(), scale.end(), 0.0L);
      *T = s.make(a);
      check("product after assignment of a spline");
    } else {  // a function is sampled at the nodes of a uniform partition of its domain
      ExprOpts o;
      o.concat = false;
      o.splines = false;
      NodeP f = gen_node(c, s.dom, s.codom, (int)c.size(1, 4), o);
      c << " f=" << f->text();
      Space u = s;
      set_lengths(u, VectorXd::Constant((long)s.ni(), (s.dom.second - s.dom.first) / (double)s.ni()));
      bool ok = true;
      L span = fabsl((L)s.dom.first) + fabsl((L)s.dom.second);
      VectorXd na = a;
      VL ns = scale;
      for (size_t k = 0; ok && k < s.ni(); k++)
        for (size_t j = 0; ok && j < s.nglp; j++) try {
            auto y = f->eval(Jet::var(u.node(k, j), span, 0));
            for (size_t q = 0; q < s.codom; q++) {
              na(s.at(k, q, j)) = (double)y[q].v[0];
              ns[(size_t)s.at(k, q, j)] = 5 * y[q].e[0];
            }
          } catch (const Undetermined &) {
            ok = false;
          }
      if (!ok) c.discard();
      a = na;
      scale = ns;
      Builder bl(c);
      FP p = bl.build(f);
      *T = static_cast<const gf::FunctionBase &>(*p);
      check("product after assignment of a function");
    }
  }
}

// splines with another number of node values are rejected by every functional
PBT_SUB(misfits, 1) {
  Space s = gen_space(c), o = s;
  int which = (int)c.pick(6), how = (int)c.pick(4);
  if (which == 3) s.codom = 1, o.codom = 1;
  if (which == 4 && s.ni() < 2) set_lengths(s, lengths(c, 2)), o = s;
  switch (how) {
    case 0: o.codom = s.codom + (size_t)c.integer(1, 2); break;
    case 1: o.nglp = s.nglp + (size_t)c.integer(1, 3); break;
    case 2: set_lengths(o, lengths(c, s.ni() + (size_t)c.integer(1, 2))); break;
    default:
      if (s.ni() > 1) set_lengths(o, lengths(c, s.ni() - 1));
      else if (s.nglp > 2) o.nglp--;
      else o.codom++;
  }
  c << which << how << " " << s.text() << " / " << o.text();
  c.label("functional", which);
  c.mark();
  S in = o.make(gen_coeffs(c, (size_t)o.size(), 3)), good = s.make(gen_coeffs(c, (size_t)s.size(), 3));
  VectorXd before = in.get_coefficients();
  auto check = [&](auto &f, const char *w) {
    VectorXd v = f(good);
    c.require(throws<std::invalid_argument>([&] { f(in); }), std::string(w) + " was applied to a spline that does not fit");
    c.require(v == f(good), std::string(w) + " changed by a rejected spline");
  };
  auto product = [&](auto &f, const char *w) {
    c.require(throws<std::invalid_argument>([&] { f *in; }), std::string(w) + " was multiplied by a spline that does not fit");
  };
  if (which == 0) {
    gc::Derivative f(good);
    check(f, "a derivative");
    product(f, "a derivative");
  } else if (which == 1 || which == 5) {
    gc::TransposeLeftMultiplication f(good);
    check(f, "a product");
    product(f, "a product");
    VectorXd v = f(good);
    c.require(throws<std::invalid_argument>([&] { f = in; }), "a product was assigned a spline that does not fit");
    c.require(v == f(good), "a product changed by a rejected assignment");
  } else if (which == 2) {
    gc::MatrixLeftMultiplication f(s.codom, s.nglp, s.ni(), (size_t)c.size(1, 3));
    f.update(MatrixXd(MatrixXd::Random((long)f.to_matrix().rows() / (long)(s.nglp * s.ni()), (long)s.codom)));
    check(f, "a matrix product");
    product(f, "a matrix product");
  } else if (which == 3) {
    gc::Integral f(good);
    check(f, "an integral");
  } else {
    gc::ContinuityError f(good, (size_t)c.size(0, 3));
    check(f, "a continuity error");
  }
  c.require(before == in.get_coefficients(), "the rejected spline changed");
}

PBT_SUB(matrix_product, 2) {
  Space s = gen_space(c), out = s;
  out.codom = (size_t)c.size(1, 4);
  size_t N = s.ni() * s.nglp;
  gc::MatrixLeftMultiplication M(s.codom, s.nglp, s.ni(), out.codom);
  std::vector<MatrixXd> ms(N, MatrixXd::Zero((long)out.codom, (long)s.codom));
  c << s.text() << " rows=" << out.codom;
  c.mark();
  auto rnd = [&](size_t r, size_t k) {
    VectorXd v = gen_coeffs(c, r * k, 3);
    return MatrixXd(Eigen::Map<MatrixXd>(v.data(), (long)r, (long)k));
  };
  size_t n = (size_t)c.integer(1, 3);
  for (size_t i = 0; i < n; i++) {
    int how = (int)c.pick(5);
    c << " " << how;
    c.label("update", how);
    std::string what = "matrix product";
    if (how == 0) {
      MatrixXd m = rnd(out.codom, s.codom);
      M.update(m);
      ms.assign(N, m);
    } else if (how == 1) {
      for (auto &m : ms) m = rnd(out.codom, s.codom);
      M.update(ms.begin(), ms.end());
    } else if (how == 2) {
      std::vector<double> x(N);
      for (auto &v : x) v = gen_const(c);
      MatrixXd m = rnd(out.codom, s.codom);
      M.update(x.begin(), x.end(), [&](double v) { return MatrixXd(v * m); });
      for (size_t j = 0; j < N; j++) ms[j] = x[j] * m;
    } else {
      // sizes that do not fit
      c.require(throws<std::runtime_error>([&] { M.update(rnd(out.codom + 1, s.codom)); }), "matrix with too many rows was accepted");
      c.require(throws<std::runtime_error>([&] { M.update(rnd(out.codom, s.codom + 1)); }), "matrix with too many columns was accepted");
      std::vector<MatrixXd> x(N + (how == 3 ? 1 : 0), rnd(out.codom, s.codom));
      if (how == 4) x.pop_back();
      c.require(throws<std::runtime_error>([&] { M.update(x.begin(), x.end()); }), "wrong number of matrices was accepted");
      std::vector<MatrixXd> y(N, rnd(out.codom + 1, s.codom));
      c.require(throws<std::runtime_error>([&] { M.update(y.begin(), y.end()); }), "matrices of a wrong size were accepted");
    }
    VectorXd b = gen_coeffs(c, (size_t)s.size(), 3);
    S in = s.make(b);
    VectorXd v = M(in);
    S r = M * in;
    same_space(c, out, r, what);
    c.require(v.size() == out.size(), what + ": size");
    for (size_t k = 0; k < s.ni(); k++)
      for (size_t j = 0; j < s.nglp; j++)
        for (size_t p = 0; p < out.codom; p++) {
          L ref = 0, m = 1e-12L;
          for (size_t q = 0; q < s.codom; q++) {
            L t = (L)ms[k * s.nglp + j]((long)p, (long)q) * (L)b(s.at(k, q, j));
            ref += t;
            m += fabsl(t);
          }
          close(c, v(out.at(k, p, j)), ref, m, TOL, what);
          close(c, r.value_at(k * s.nglp + j)((long)p), ref, m, TOL, what + " (spline)");
        }
    if (s.size() <= 100) {
      MatrixXd D = matrix_of(c, M, in, what), R = MatrixXd::Zero(out.size(), s.size());
      for (size_t k = 0; k < s.ni(); k++)
        for (size_t j = 0; j < s.nglp; j++)
          for (size_t p = 0; p < out.codom; p++)
            for (size_t q = 0; q < s.codom; q++) R(out.at(k, p, j), s.at(k, q, j)) = ms[k * s.nglp + j]((long)p, (long)q);
      equal(c, D, R, what + ": Jacobian");
    }
  }
}

PBT_SUB(continuity, 2) {
  Space s = gen_space(c);
  if (s.ni() < 2) set_lengths(s, lengths(c, 2));
  unsigned deg = (unsigned)c.size(0, 4);
  c << s.text() << " deg=" << deg;
  std::unique_ptr<gc::ContinuityError> E;
  if (c.coin()) E = std::make_unique<gc::ContinuityError>(s.make(VectorXd::Ones(s.size())), deg);
  else E = std::make_unique<gc::ContinuityError>(s.nglp, s.taus, s.codom, deg);
  c.mark();
  size_t n = (size_t)c.integer(1, 3);
  for (size_t i = 0; i < n; i++) {
    if (i) {
      set_lengths(s, lengths(c, s.ni()));
      E->update(s.taus);
      c << " update" << show(s.taus);
    }
    VectorXd co = gen_coeffs(c, (size_t)s.size(), 3);
    S in = s.make(co);
    VectorXd v = (*E)(in);
    c.require(v.size() == (long)((deg + 1) * (s.ni() - 1) * s.codom) && E->get_codom_dim() == (size_t)v.size(), "number of continuity errors");
    auto jump = [&](const VectorXd &x, unsigned d, size_t k, size_t q, L *sc) {
      L s1, s2, r = dref(s, x, k, q, s.nglp - 1, d, &s1) - dref(s, x, k + 1, q, 0, d, &s2);
      *sc = s1 + s2;
      return r;
    };
    for (unsigned d = 0; d <= deg; d++)
      for (size_t k = 0; k + 1 < s.ni(); k++)
        for (size_t q = 0; q < s.codom; q++) {
          L sc, r = jump(co, d, k, q, &sc);
          close(c, v((long)((d * (s.ni() - 1) + k) * s.codom + q)), r, sc, TOL, "jump of derivative " + std::to_string(d) + " at breakpoint " + std::to_string(k));
        }
    if (s.size() <= 100) {
      MatrixXd M = matrix_of(c, *E, in, "continuity");
      VectorXd e(s.size());
      for (long col = 0; col < s.size(); col++) {
        e.setZero();
        e(col) = 1;
        for (unsigned d = 0; d <= deg; d++)
          for (size_t k = 0; k + 1 < s.ni(); k++)
            for (size_t q = 0; q < s.codom; q++) {
              L sc, r = jump(e, d, k, q, &sc);
              close(c, M((long)((d * (s.ni() - 1) + k) * s.codom + q), col), r, sc, TOL, "continuity: Jacobian");
            }
      }
    }
  }
}

PBT_SUB(integral, 2) {
  Space s = gen_space(c, 1);
  s.codom = 1;
  int how = (int)c.pick(3);
  c << s.text() << " how=" << how;
  std::unique_ptr<gc::Integral> I;
  auto uniform = [&] { set_lengths(s, VectorXd::Constant((long)s.ni(), s.taus(0))); };
  if (how == 0) {
    uniform();
    I = std::make_unique<gc::Integral>(std::tuple<double, double>(s.dom.first, s.dom.second), s.nglp, s.ni());
  } else I = std::make_unique<gc::Integral>(s.make(VectorXd::Ones(s.size())));
  if (s.ni() > 1 && s.nglp > 2) c.mark();
  auto check = [&](const std::string &what) {
    VectorXd co = gen_coeffs(c, (size_t)s.size(), 3);
    S in = s.make(co);
    VectorXd v = (*I)(in);
    c.require(v.size() == 1, what + ": size");
    MatrixXd M = matrix_of(c, *I, in, what);
    c.require(M.rows() == 1 && M.cols() == s.size(), what + ": size of the matrix");
    L r = 0, m = 1e-12L;
    for (size_t k = 0; k < s.ni(); k++)
      for (size_t j = 0; j < s.nglp; j++) {
        L w = s.weight(k, j), x = (L)co(s.at(k, 0, j));
        r += w * x;
        m += w * fabsl(x);
        close(c, M(0, s.at(k, 0, j)), w, w, TOL, what + ": weight");
      }
    close(c, v(0), r, m, TOL, what);
  };
  check("integral");
  size_t n = (size_t)c.integer(0, 3);
  for (size_t i = 0; i < n; i++) {
    if (c.chance(1, 4)) {
      c.require(throws<std::invalid_argument>([&] { I->update(lengths(c, s.ni() + 1)); }), "interval lengths of a wrong number were accepted");
    } else if (c.chance(1, 3)) {
      s.nglp = (size_t)c.size(2, 8);
      set_lengths(s, VectorXd::Constant((long)c.size(1, 5), s.taus(0)));
      I->update(std::tuple<double, double>(s.dom.first, s.dom.second), s.nglp, s.ni());
    } else {
      set_lengths(s, lengths(c, s.ni()));
      I->update(s.taus);
    }
    c << " then " << s.text();
    check("integral after an update");
  }
}

namespace {
// reference of the distance between a function and a spline and its gradient
struct DistRef {
  L value = 0, vscale = 1e-9L;
  VL grad, gscale;
};
struct Sampled {
  VectorXd f, d;  // values and derivatives at the nodes
  VL ef, ed;
};
bool sample(const Space &s, const Node &n, Sampled &r) {
  L span = fabsl((L)s.dom.first) + fabsl((L)s.dom.second);
  r.f.resize(s.size());
  r.d.resize(s.size());
  r.ef.assign((size_t)s.size(), 0);
  r.ed.assign((size_t)s.size(), 0);
  for (size_t k = 0; k < s.ni(); k++)
    for (size_t j = 0; j < s.nglp; j++) try {
        auto y = n.eval(Jet::var(s.node(k, j), span, 1));
        for (size_t q = 0; q < s.codom; q++) {
          long i = s.at(k, q, j);
          r.f(i) = (double)y[q].v[0];
          r.d(i) = (double)y[q].v[1];
          r.ef[(size_t)i] = 5 * y[q].e[0];
          r.ed[(size_t)i] = 5 * y[q].e[1];
        }
      } catch (const Undetermined &) {
        return false;
      }
  return true;
}
DistRef distance(const Space &s, const Sampled &f, const VectorXd &co) {
  DistRef r;
  r.grad.assign((size_t)s.size(), 0);
  r.gscale.assign((size_t)s.size(), 1e-9L);
  const auto &D = dmat(s.nglp, 1);
  for (size_t k = 0; k < s.ni(); k++)
    for (size_t q = 0; q < s.codom; q++)
      for (size_t j = 0; j < s.nglp; j++) {
        long i = s.at(k, q, j);
        L w = s.weight(k, j), sc, dv = dref(s, co, k, q, j, 1, &sc);
        L a = (L)f.f(i) - (L)co(i), b = (L)f.d(i) - dv;
        L ma = fabsl((L)f.f(i)) + fabsl((L)co(i)) + f.ef[(size_t)i], mb = fabsl((L)f.d(i)) + sc + f.ed[(size_t)i];
        r.value += w * (a * a + b * b);
        r.vscale += w * (ma * ma + mb * mb);
        r.grad[(size_t)i] += -2 * w * a;
        r.gscale[(size_t)i] += 2 * w * ma;
        L h = 2 / (L)s.taus((long)k);
        for (size_t p = 0; p < s.nglp; p++) {
          r.grad[(size_t)s.at(k, q, p)] += -2 * w * b * D[j][p] * h;
          r.gscale[(size_t)s.at(k, q, p)] += 2 * w * mb * dscale(s.nglp, 1) * h;
        }
      }
  return r;
}
Space uniform_space(Case &c) {
  Space s = gen_space(c, 3);
  double l = c.of({1.0, 2.0, 0.5, 3.0});
  s.dom.second = s.dom.first + l;
  s.taus = VectorXd::Constant((long)s.ni(), l / (double)s.ni());
  return s;
}
NodeP gen_target(Case &c, const Space &s) {
  ExprOpts o;
  o.concat = false;
  o.splines = false;
  o.deriv = false;
  NodeP f = gen_node(c, s.dom, s.codom, (int)c.size(1, 4), o);
  if (f->cost(1) > 300) c.discard();
  return f;
}
}  // namespace

PBT_SUB(sobolev_distance, 2) {
  Space s = uniform_space(c);
  NodeP f = gen_target(c, s);
  c << s.text() << " f=" << f->text();
  Sampled smp;
  if (!sample(s, *f, smp)) c.discard();
  Builder b(c);
  FP p = b.build(f);
  gc::SobolevDistance dist(*p, s.nglp, s.ni(), (size_t)c.integer(0, 2));
  p.reset();
  if (s.ni() > 1 && s.nglp > 2) c.mark();
  size_t n = (size_t)c.integer(1, 3);
  using Diff = decltype(dist.differential(s.make(smp.f)));
  std::vector<std::pair<Diff, MatrixXd>> kept;
  for (size_t i = 0; i < n; i++) {
    VectorXd co = gen_coeffs(c, (size_t)s.size(), 3);
    if (c.chance(1, 6)) co = smp.f;
    S in = s.make(co);
    DistRef r = distance(s, smp, co);
    if (c.coin()) (void)dist.differential(s.make(gen_coeffs(c, (size_t)s.size(), 3)));
    VectorXd v = dist(in);
    c.require(v.size() == 1, "size of the distance");
    close(c, v(0), r.value, r.vscale, TOL, "distance");
    auto d = dist.differential(in);
    MatrixXd g = d->to_dense_matrix();
    c.require(g.rows() == 1 && g.cols() == s.size(), "size of the differential");
    c.require(MatrixXd(d->to_sparse_matrix()) == g, "sparse and dense differential");
    for (long j = 0; j < g.cols(); j++) close(c, g(0, j), r.grad[(size_t)j], r.gscale[(size_t)j], TOL, "differential of the distance, node value " + std::to_string(j));
    c.require((in.get_coefficients() - co).cwiseAbs().maxCoeff() == 0, "operand changed");
    kept.emplace_back(d, g);
  }
  // a differential that was handed out stays the one at its own point
  for (auto &k : kept) c.require(k.first->to_dense_matrix() == k.second, "an earlier differential changed when another one was requested");
}

// sums, differences, multiples and compositions of linear functionals
PBT_SUB(algebra, 2) {
  using FS = gc::LinearFunctionalSparse;
  using FD = gc::LinearFunctionalDense;
  Space s = gen_space(c, 2);
  if (s.size() > 60) c.discard();
  long n = s.size(), m = c.integer(1, 8);
  auto rnd = [&](long r, long k) {
    VectorXd v = gen_coeffs(c, (size_t)(r * k), 2);
    return MatrixXd(Eigen::Map<MatrixXd>(v.data(), r, k));
  };
  c << s.text();
  c.mark();
  MatrixXd A = rnd(n, n), B = rnd(n, n), R = rnd(m, n);
  double a = gen_const(c);
  VectorXd co = gen_coeffs(c, (size_t)n, 3);
  S in = s.make(co);
  auto run = [&](auto &&FA, auto &&FB, auto &&FR) {
    equal(c, (FA * FB).to_dense_matrix(), A * B, "composition");
    equal(c, (FR * FA).to_dense_matrix(), R * A, "composition");
    equal(c, (FA + FB).to_dense_matrix(), A + B, "sum");
    equal(c, (FA - FB).to_dense_matrix(), A - B, "difference");
    equal(c, (-FA).to_dense_matrix(), -A, "negative");
    equal(c, (a * FA).to_dense_matrix(), a * A, "multiple");
    equal(c, (a * (FA + FB)).to_dense_matrix(), a * (A + B), "multiple of a sum");
    equal(c, (a * FR * (FA - FB)).to_dense_matrix(), a * R * (A - B), "nested composition");
    equal(c, FR(in), R * co, "value");
    equal(c, FR(FA * in), R * (A * co), "value of a value");
    equal(c, FA.to_dense_matrix(), A, "first operand afterwards");
    equal(c, FB.to_dense_matrix(), B, "second operand afterwards");
    equal(c, MatrixXd(FA.to_sparse_matrix()), A, "sparse matrix");
    auto cp = FA;
    equal(c, FA.differential(in)->to_dense_matrix(), A, "differential");
    FA.set(FB);
    equal(c, FA.to_dense_matrix(), B, "set");
    FA.set(FB + FB);
    equal(c, FA.to_dense_matrix(), 2 * B, "set");
    equal(c, FB.to_dense_matrix(), B, "source of set");
    equal(c, cp.to_dense_matrix(), A, "copy");
  };
  Sparse sA = A.sparseView(0.0, 0.0), sB = B.sparseView(0.0, 0.0), sR = R.sparseView(0.0, 0.0);
  switch (c.pick(2)) {
    case 0: run(FS(sA), FS(sB), FS(sR)); break;
    default: run(FD(A), FD(B), FD(R));
  }
  FD mix(R);
  FS fa(sA);
  equal(c, (mix * fa).to_dense_matrix(), R * A, "dense functional after a sparse one");
  FD target(1, 1);
  target.set(fa);
  equal(c, target.to_dense_matrix(), A, "dense functional set from a sparse one");
  using RowMajor = Eigen::SparseMatrix<double, Eigen::RowMajor>;
  auto setter = [&](auto dest, auto &&src, const char *what) {
    dest.set(std::forward<decltype(src)>(src));
    equal(c, dest.to_dense_matrix(), A, what);
    equal(c, dest(in), A * co, what);
  };
  FD fd(A);
  gc::LinearFunctional<RowMajor> fr{RowMajor(sA)};
  switch (c.pick(6)) {
    case 0: setter(FS(sB), fd, "sparse functional set from a dense one"); break;
    case 1: setter(FS(sB), FD(A), "sparse functional set from a temporary dense one"); break;
    case 2: setter(FD(B), FS(sA), "dense functional set from a temporary sparse one"); break;
    case 3: setter(FS(sB), fr, "functional set from one that is stored by rows"); break;
    case 4: setter(gc::LinearFunctional<RowMajor>(RowMajor(sB)), fa, "functional stored by rows set from one stored by columns"); break;
    default: setter(FD(B), fr, "dense functional set from one stored by rows");
  }
}

// the same functionals as terms of an optimisation problem
PBT_SUB(problem_terms, 2) {
  Space s = uniform_space(c);
  if (s.size() > 120) c.discard();
  NodeP f = gen_target(c, s);
  unsigned deg = (unsigned)c.size(0, 2);
  c << s.text() << " f=" << f->text() << " deg=" << deg;
  Sampled smp;
  if (!sample(s, *f, smp)) c.discard();
  Builder b(c);
  FP p = b.build(f);
  VectorXd co = gen_coeffs(c, (size_t)s.size(), 3);
  ifopt::Problem nlp;
  auto var = std::make_shared<gc::GLLSplineVariable>(s.make(co));
  c.require(var->GetName() == "GLL" && var->GetRows() == (int)s.size(), "variables are the node values");
  c.require(var->GetValues().size() == s.size() && (var->GetValues() - co).cwiseAbs().maxCoeff() == 0, "initial values of the variables");
  c.require(var->GetBounds().size() == (size_t)s.size(), "bounds of the variables");
  for (auto &x : var->GetBounds()) c.require(x.lower_ <= -ifopt::inf && x.upper_ >= ifopt::inf, "node values are free");
  nlp.AddVariableSet(var);
  nlp.AddCostSet(std::make_shared<gc::CostWrapper<gc::SobolevDistance>>(*p, s.nglp, s.ni(), (std::size_t)1));
  double lo = c.real(-3, 0), hi = lo + c.real(0, 3), lo2 = c.real(-3, 0), hi2 = lo2 + c.real(0, 3);
  long r1 = s.size(), r2 = (long)((deg + 1) * (s.ni() - 1) * s.codom);
  auto D = std::make_shared<gc::ConstraintWrapper<gc::Derivative>>(lo, hi, s.codom, s.nglp, s.taus, (std::size_t)deg);
  nlp.AddConstraintSet(D);
  bool cont = s.ni() > 1;
  if (cont) {
    nlp.AddConstraintSet(std::make_shared<gc::ConstraintWrapper<gc::ContinuityError>>(lo2, hi2, s.nglp, s.taus, s.codom, (std::size_t)deg));
    c.mark();
  } else r2 = 0;
  auto bd = nlp.GetConstraints().GetBounds();
  c.require((long)bd.size() == r1 + r2, "number of bounds of the constraints");
  for (long i = 0; i < r1 + r2; i++)
    c.require(bd[(size_t)i].lower_ == (i < r1 ? lo : lo2) && bd[(size_t)i].upper_ == (i < r1 ? hi : hi2), "bounds of the constraints");
  size_t n = (size_t)c.integer(1, 3);
  for (size_t step = 0; step < n; step++) {
    if (step) {
      co = gen_coeffs(c, (size_t)s.size(), 3);
      nlp.GetOptVariables()->SetVariables(co);
    }
    VectorXd got = nlp.GetOptVariables()->GetValues();
    c.require((got - co).cwiseAbs().maxCoeff() == 0, "values of the variables");
    DistRef r = distance(s, smp, co);
    close(c, nlp.GetCosts().GetValues()(0), r.value, r.vscale, TOL, "cost");
    MatrixXd g = nlp.GetCosts().GetJacobian();
    for (long j = 0; j < s.size(); j++) close(c, g(0, j), r.grad[(size_t)j], r.gscale[(size_t)j], TOL, "gradient of the cost");
    VectorXd v = nlp.GetConstraints().GetValues();
    MatrixXd J = nlp.GetConstraints().GetJacobian();
    c.require(v.size() == r1 + r2 && J.rows() == r1 + r2 && J.cols() == s.size(), "size of the constraints");
    for (size_t k = 0; k < s.ni(); k++)
      for (size_t q = 0; q < s.codom; q++)
        for (size_t j = 0; j < s.nglp; j++) {
          L sc, x = dref(s, co, k, q, j, deg, &sc);
          close(c, v(s.at(k, q, j)), x, sc, TOL, "derivative constraint");
        }
    for (unsigned d = 0; cont && d <= deg; d++)
      for (size_t k = 0; k + 1 < s.ni(); k++)
        for (size_t q = 0; q < s.codom; q++) {
          L s1, s2, x = dref(s, co, k, q, s.nglp - 1, d, &s1) - dref(s, co, k + 1, q, 0, d, &s2);
          close(c, v(r1 + (long)((d * (s.ni() - 1) + k) * s.codom + q)), x, s1 + s2, TOL, "continuity constraint");
        }
    // both constraints are linear
    VectorXd lin = J * co, mag = J.cwiseAbs() * co.cwiseAbs();
    for (long i = 0; i < v.size(); i++) close(c, v(i), (L)lin(i), (L)mag(i) + 1e-9L, TOL, "constraint against its Jacobian");
  }
}
