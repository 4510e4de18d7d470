"""Reference mathematics for the Python interface, independent of the library."""
import math

import numpy as np
from numpy.polynomial import legendre as L


# ---------------------------------------------------------------- bases
class RefBasis:
    """kind: legendre | lagrange | basis0101"""

    def __init__(self, kind, dim=None, nodes=None, alpha=None):
        self.kind, self.nodes, self.alpha = kind, nodes, alpha
        self.dim = {"legendre": dim, "lagrange": len(nodes) if nodes is not None else 0, "basis0101": 6}[kind]
        if kind == "lagrange":
            self.polys = []
            for i, x in enumerate(nodes):
                p = np.array([1.0])
                for j, y in enumerate(nodes):
                    if j != i:
                        p = np.convolve(p, np.array([1.0, -y])) / (x - y)
                self.polys.append(p)

    def params(self):
        return {"legendre": [], "lagrange": list(self.nodes or []), "basis0101": [self.alpha]}[self.kind]

    def window(self, s, deg):
        """derivatives with respect to s (legendre, lagrange)"""
        res = np.zeros(self.dim)
        for i in range(self.dim):
            if self.kind == "legendre":
                e = np.zeros(i + 1)
                e[i] = 1
                res[i] = L.legval(s, L.legder(e, deg)) if deg <= i else 0.0
            else:
                p = np.polyder(self.polys[i], deg) if deg < len(self.polys[i]) else np.array([0.0])
                res[i] = np.polyval(p, s)
        return res

    def eval(self, s, tau, deg=0):
        if self.kind != "basis0101":
            return self.window(s, deg) * (2.0 / tau) ** deg
        k = math.sqrt(2) / 4 * (self.alpha / (1 - self.alpha)) ** 0.25
        p = tau * k * s
        a = ((1 + 1j) * 2 * k) ** deg * np.exp((1 + 1j) * p)
        b = ((-1 + 1j) * 2 * k) ** deg * np.exp((-1 + 1j) * p)
        lin = [p, 2 * k][deg] if deg < 2 else 0.0
        return np.array([a.real, a.imag, b.real, b.imag, lin, 1.0 if deg == 0 else 0.0])

    def eval_wrt_tau(self, s, tau, deg=0):
        if self.kind != "basis0101":
            return -deg / tau * self.eval(s, tau, deg)
        k = math.sqrt(2) / 4 * (self.alpha / (1 - self.alpha)) ** 0.25
        p = tau * k * s
        a = ((1 + 1j) * 2 * k) ** deg * np.exp((1 + 1j) * p) * (1 + 1j) * k * s
        b = ((-1 + 1j) * 2 * k) ** deg * np.exp((-1 + 1j) * p) * (-1 + 1j) * k * s
        return np.array([a.real, a.imag, b.real, b.imag, k * s if deg == 0 else 0.0, 0.0])


class RefSpline:
    def __init__(self, t0, codom, basis, coeffs, taus):
        self.t0, self.codom, self.basis = t0, codom, basis
        self.taus = np.asarray(taus, dtype=float)
        self.c = np.asarray(coeffs, dtype=float).reshape(len(self.taus), codom, basis.dim)
        self.bp = t0 + np.concatenate([[0.0], np.cumsum(self.taus)])

    def in_interval(self, i, s, deg=0):
        return self.c[i] @ self.basis.eval(s, self.taus[i], deg)

    def scale(self, deg=0):
        m = 0.0
        for i, tau in enumerate(self.taus):
            for s in (-1.0, -0.5, 0.0, 0.5, 1.0):
                m = max(m, float(np.max(np.abs(self.c[i]) @ np.abs(self.basis.eval(s, tau, deg)), initial=0.0)))
            if self.basis.kind == "lagrange":
                d = self.basis.dim
                m = max(m, float(np.max(np.abs(self.c[i]), initial=0.0)) * (2.0 / tau) ** deg * float(d) ** (2 * deg))
        return m

    def value(self, t, deg=0):
        """t strictly inside an interval or an end of the domain"""
        i = int(np.searchsorted(self.bp, t, side="right")) - 1
        i = min(max(i, 0), len(self.taus) - 1)
        s = 2.0 * (t - self.bp[i]) / self.taus[i] - 1.0
        return self.in_interval(i, s, deg)


# ---------------------------------------------------------------- quadrature
def gll(n):
    if n == 2:
        return np.array([-1.0, 1.0]), np.array([1.0, 1.0])
    e = np.zeros(n)
    e[n - 1] = 1
    x = np.concatenate([[-1.0], np.sort(L.legroots(L.legder(e)).real), [1.0]])
    for _ in range(3):
        d1, d2 = L.legval(x[1:-1], L.legder(e)), L.legval(x[1:-1], L.legder(e, 2))
        x[1:-1] -= d1 / d2
    w = 2.0 / (n * (n - 1) * L.legval(x, e) ** 2)
    return x, w


def composite(f, dom, n, m):
    """f: t -> number"""
    x, w = gll(n)
    h = (dom[1] - dom[0]) / m
    tot = mag = 0.0
    for i in range(m):
        for xx, ww in zip(x, w):
            v = f(dom[0] + i * h + (xx + 1) * h / 2)
            tot += ww * h / 2 * v
            mag += abs(ww * h / 2 * v)
    return tot, mag


# ---------------------------------------------------------------- Taylor arithmetic
class Undetermined(Exception):
    pass


def tmul(a, b):
    n = a.shape[-1]
    r = np.zeros(np.broadcast(a, b).shape)
    for i in range(n):
        for j in range(n - i):
            r[..., i + j] += a[..., i] * b[..., j]
    return r


def tcompose(f, g):
    """f: series of the outer function at g[0] (codom x n), g: series (n,)"""
    n = g.shape[-1]
    h = g.copy()
    h[0] = 0.0
    r = np.zeros_like(f)
    p = np.zeros(n)
    p[0] = 1.0
    for k in range(n):
        r += f[:, k:k + 1] * p[None, :]
        p = tmul(p, h)
    return r


class Node:
    """expression: series(t, n) -> (values, magnitudes), both codom x n Taylor coefficients"""

    def __init__(self, op, dom, codom, kids=(), **kw):
        self.op, self.dom, self.codom, self.kids, self.kw = op, dom, codom, kids, kw

    def __repr__(self):
        a = ",".join(map(repr, self.kids)) + "".join(f",{k}={v}" for k, v in self.kw.items() if k != "sp")
        return f"{self.op}[{self.dom[0]:.4g},{self.dom[1]:.4g}]({a})"

    def count(self):
        return 1 + sum(k.count() for k in self.kids)

    def series(self, t, n):
        op, kw = self.op, self.kw
        if op in ("sin", "cos", "exp", "id", "dil", "const", "poly", "zero"):
            r = np.zeros((self.codom, n))
            for k in range(n):
                f = math.factorial(k)
                if op == "sin":
                    v = math.sin(t + k * math.pi / 2) / f
                elif op == "cos":
                    v = math.cos(t + k * math.pi / 2) / f
                elif op == "exp":
                    if t > 12:
                        raise Undetermined()
                    v = math.exp(t) / f
                elif op == "id":
                    v = t if k == 0 else (1.0 if k == 1 else 0.0)
                elif op == "dil":
                    a = kw["a"]
                    v = a * t if k == 0 else (a if k == 1 else 0.0)
                elif op == "const":
                    v = kw["v"] if k == 0 else 0.0
                elif op == "zero":
                    v = 0.0
                else:
                    p = np.polynomial.polynomial.Polynomial(kw["c"])
                    v = (p.deriv(k)(t) if k else p(t)) / f
                r[:, k] = v
            m = np.abs(r) + 1.0
            if op == "poly":
                p = np.polynomial.polynomial.Polynomial(np.abs(kw["c"]))
                for k in range(n):
                    m[:, k] = abs((p.deriv(k)(abs(t)) if k else p(abs(t)))) / math.factorial(k) + 1.0
            return r, m
        if op == "spline":
            sp = kw["sp"]
            if not (sp.bp[0] - 1e-12 <= t <= sp.bp[-1] + 1e-12):
                raise Undetermined()
            if len(sp.bp) > 2 and np.min(np.abs(sp.bp[1:-1] - t)) < 1e-6 * (sp.bp[-1] - sp.bp[0]):
                raise Undetermined()
            r = np.stack([sp.value(t, k) / math.factorial(k) for k in range(n)], axis=1)
            m = np.stack([np.full(self.codom, sp.scale(k) / math.factorial(k) + 1.0) for k in range(n)], axis=1)
            return r, m
        if op in ("add", "sub"):
            (a, ma), (b, mb) = self.kids[0].series(t, n), self.kids[1].series(t, n)
            return (a + b if op == "add" else a - b), ma + mb
        if op == "neg":
            a, m = self.kids[0].series(t, n)
            return -a, m
        if op in ("mul", "dot"):
            (a, ma), (b, mb) = self.kids[0].series(t, n), self.kids[1].series(t, n)
            r, m = tmul(a, b), tmul(ma, mb)
            if op == "dot":
                r, m = r.sum(axis=0, keepdims=True), m.sum(axis=0, keepdims=True)
            return r, m
        if op == "comp":
            g, mg = self.kids[1].series(t, n)
            f, mf = self.kids[0].series(float(g[0, 0]), n + 1)
            r = tcompose(f[:, :n], g[0])
            # the error of the inner value enters through the derivative of the outer function
            m = tcompose(mf[:, :n], mg[0]) + tcompose(mf[:, 1:n + 1], mg[0]) * mg[0, 0] * (n + 1)
            return r, m
        if op == "cat":
            a, b = self.kids
            x = a.dom[1]
            if abs(t - x) < 1e-6 or t < a.dom[0] - 1e-12 or t > b.dom[1] + 1e-12:
                raise Undetermined()
            return (a if t < x else b).series(t, n)
        if op == "der":
            d = kw["deg"]
            a, m = self.kids[0].series(t, n + d)
            f = np.array([math.factorial(k + d) / math.factorial(k) for k in range(n)])
            return a[:, d:] * f, m[:, d:] * f
        raise AssertionError(op)

    def value(self, t):
        r, m = self.series(t, 1)
        if not np.all(np.isfinite(m)) or np.max(m) > 1e8:
            raise Undetermined()
        return r[:, 0], m[:, 0]
