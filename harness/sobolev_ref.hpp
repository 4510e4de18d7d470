// Reference of the Sobolev cost of an interpolating spline and its gradient.
#pragma once
#include "interp.hpp"

namespace gen {
using Weights = std::vector<std::pair<std::size_t, double>>;
// integrals of products of the d-th derivatives, and derivative wrt tau
inline void gram_ref(const BasisDesc &b, L tau, unsigned d, MatL &Q, MatL &dQ) {
  size_t n = b.dim;
  int g = b.kind == B0101 ? 40 : (int)n + 1;
  auto &gw = gauss(g);
  Q = MatL::Zero((long)n, (long)n);
  MatL R = MatL::Zero((long)n, (long)n);
  for (int i = 0; i < g; i++) {
    L s = gw.first[(size_t)i], w = gw.second[(size_t)i] * tau / 2;
    VL f = b.eval(s, tau, d), df = basis_tau_ref(b, s, tau, d);
    Eigen::Map<VecL> F(f.data(), (long)n), D(df.data(), (long)n);
    Q += w * F * F.transpose();
    R += w * (F * D.transpose() + D * F.transpose());
  }
  dQ = Q / tau + R;
}
struct CostRef {
  L cost = 0, scale = 0;
  VL grad, gscale;
};
inline CostRef cost_reference(const Problem &p, const Weights &ws) {
  RefSystem sys = solve_ref(p, true);
  size_t n = p.n(), dim = p.basis.dim;
  CostRef r;
  std::vector<MatL> Q(n), dQ(n);
  for (size_t i = 0; i < n; i++) {
    Q[i] = dQ[i] = MatL::Zero((long)dim, (long)dim);
    for (auto &w : ws) {
      MatL a, b;
      gram_ref(p.basis, (L)p.taus((long)i), (unsigned)w.first, a, b);
      Q[i] += (L)w.second * a;
      dQ[i] += (L)w.second * b;
    }
  }
  auto quad = [](const VecL &a, const MatL &m, const VecL &b, L &s) {
    s += (a.cwiseAbs().transpose() * m.cwiseAbs() * b.cwiseAbs())(0, 0);
    return (a.transpose() * m * b)(0, 0);
  };
  for (size_t i = 0; i < n; i++)
    for (size_t k = 0; k < p.codom(); k++) {
      VecL y = sys.sol.col((long)k).segment((long)(i * dim), (long)dim);
      r.cost += quad(y, Q[i], y, r.scale);
    }
  for (size_t t = 0; t < n; t++) {
    L g = 0, s = 0;
    for (size_t k = 0; k < p.codom(); k++) {
      VecL y = sys.sol.col((long)k).segment((long)(t * dim), (long)dim);
      g += quad(y, dQ[t], y, s);
      for (size_t i = 0; i < n; i++) {
        VecL yi = sys.sol.col((long)k).segment((long)(i * dim), (long)dim);
        VecL dy = sys.dsol[t].col((long)k).segment((long)(i * dim), (long)dim);
        g += 2 * quad(yi, Q[i], dy, s);
      }
    }
    r.grad.push_back(g);
    r.gscale.push_back(s);
  }
  return r;
}
}  // namespace gen
