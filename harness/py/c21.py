"""C21: the Python interface."""
import copy
import gc
import json
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np

try:
    import gsplines
    from gsplines import basis as B
    from gsplines import collocation as CO
    from gsplines import functional_analysis as FA
    from gsplines import functions as F
    from gsplines import optimization as O
    from gsplines import serialization as S
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(2)

from pypbt import Fail, sub, main
from ref import Node, RefBasis, RefSpline, Undetermined, composite, gll
from numpy.polynomial import legendre as L


def close(c, got, ref, scale, tol, what):
    got, ref = np.asarray(got, dtype=float), np.asarray(ref, dtype=float)
    c.require(got.shape == ref.shape, f"{what}: shape {got.shape} instead of {ref.shape}")
    lim = tol * np.maximum(scale, np.abs(ref)) + 1e-300
    bad = ~(np.abs(got - ref) <= lim)
    if np.any(bad):
        i = tuple(int(x[0]) for x in np.nonzero(bad)) if bad.ndim else ()
        c.fail(f"{what}: got {got[i]!r} instead of {ref[i]!r} (at {i}, limit {np.broadcast_to(lim, got.shape)[i]:.3g})")


def raises(c, fn, what, kinds=(ValueError, TypeError, RuntimeError, IndexError, OverflowError, KeyError)):
    try:
        fn()
    except kinds:
        return
    except Exception as e:  # any other exception is an answer too
        c.note(f"{what}: {type(e).__name__}")
        return
    c.fail(f"{what}: accepted")


# ------------------------------------------------------------ generators
def gen_basis(c, even=False, maxdim=9):
    kind = c.pick(["legendre", "lagrange", "basis0101"])
    if kind == "basis0101":
        return RefBasis(kind, alpha=c.real(0.05, 0.95))
    if even:
        dim = 2 * c.size(1, maxdim // 2)
    else:
        dim = c.size(1 if kind == "legendre" else 2, maxdim)
    if kind == "legendre":
        return RefBasis(kind, dim=dim)
    if c.coin():
        nodes = list(gll(dim)[0])
    else:
        cuts = np.cumsum([c.real(0.6, 1.4) for _ in range(dim)])
        a, b = (-1.0, 1.0) if c.coin() else (c.real(-1.0, -0.6), c.real(0.6, 1.0))
        nodes = list(a + (b - a) * (cuts - cuts[0]) / (cuts[-1] - cuts[0]))
    return RefBasis(kind, nodes=[float(x) for x in nodes])


def as_input(c, v):
    """one of the forms a user may pass a vector in; returns (object, label)"""
    v = np.asarray(v, dtype=float)
    k = c.integer(0, 6)
    if k == 0:
        return v.tolist(), "list"
    if k == 1:
        return v.copy(), "array"
    if k == 2:
        big = np.full(2 * len(v) + 1, 7.0)
        big[1:2 * len(v):2] = v
        return big[1:2 * len(v):2], "strided"
    if k == 3 and len(v) > 1:  # pybind11 takes no array of one element with a negative stride
        return v[::-1].copy()[::-1], "reversed"
    if k == 4:
        return tuple(v.tolist()), "tuple"
    if k == 5:
        r = v.copy()
        r.flags.writeable = False
        return r, "read-only"
    return v.reshape(-1, 1).copy(), "column"


def as_matrix(c, m):
    m = np.asarray(m, dtype=float)  # no negative strides: pybind11 takes none
    k = c.integer(0, 5)
    if k == 0:
        return m.tolist(), "lists"
    if k == 1:
        return np.array(m, order="C"), "C"
    if k == 2:
        return np.array(m, order="F"), "F"
    if k == 3:
        big = np.full((2 * m.shape[0], 3 * m.shape[1]), 9.0)
        big[::2, ::3] = m
        return big[::2, ::3], "strided"
    if k == 4:
        return np.array(m.T, order="C").T, "transposed"
    r = m.copy()
    r.flags.writeable = False
    return r, "read-only"


def make_basis(c, rb):
    """through one of the constructors"""
    k = c.integer(0, 3)
    p, _ = as_input(c, rb.params()) if rb.kind == "lagrange" else (rb.params(), "")
    if k == 0:
        r = {"legendre": lambda: B.BasisLegendre(rb.dim), "lagrange": lambda: B.BasisLagrange(p),
             "basis0101": lambda: B.Basis0101(rb.alpha)}[rb.kind]()
    elif k == 1:
        r = {"legendre": lambda: B.BasisLegendre.get(rb.dim), "lagrange": lambda: B.BasisLagrange.get(p),
             "basis0101": lambda: B.Basis0101.get(rb.alpha)}[rb.kind]()
    elif k == 2:
        r = B.get_basis(rb.kind, rb.dim, rb.params())
    else:
        r = S.dict_to_basis(json.loads(json.dumps({"name": rb.kind, "dim": rb.dim, "parameters": rb.params()})))
    c.label(f"basis route {k}")
    return r


def check_basis(c, b, rb, what):
    c.require(b.get_name() == rb.kind and b.get_dim() == rb.dim, f"{what}: {b.get_name()} {b.get_dim()}")
    c.require(np.array_equal(np.asarray(b.get_parameters()), np.asarray(rb.params(), dtype=float)), f"{what}: parameters")
    s, tau, deg = c.real(-1, 1), c.logreal(0.1, 10), c.integer(0, 4)
    k = c.integer(0, 3)
    n = rb.dim
    hold = np.full(3 * n + 2, 5.5)
    buf = {0: hold[:n], 1: hold[1:2 * n + 1:2], 2: hold[2:n + 2], 3: hold[0:3 * n:3]}[k]
    before = hold.copy()
    which = c.integer(0, 2)
    if which == 0:
        b.eval_on_window(s, tau, buf)
        want = rb.eval(s, tau, 0)
    elif which == 1:
        b.eval_derivative_on_window(s, tau, deg, buf)
        want = rb.eval(s, tau, deg)
    else:
        b.eval_derivative_wrt_tau_on_window(s, tau, deg, buf)
        want = rb.eval_wrt_tau(s, tau, deg)
    sc = np.max(np.abs(want), initial=0.0) + (2.0 / tau) ** deg * (float(n) ** (2 * deg) if rb.kind != "basis0101" else 1.0)
    close(c, buf.copy(), want, sc * max(1.0, 1.0 / tau), 1e-8, f"{what}: evaluation {which} degree {deg} at s={s} tau={tau}, buffer {k}")
    buf[:] = 5.5
    c.require(np.array_equal(hold, before), f"{what}: wrote outside the buffer")


def gen_spline(c, maxint=6, rb=None, t0=None, codom=None, total=None):
    rb = rb or gen_basis(c)
    codom = codom or c.size(1, 4)
    n = c.size(1, maxint)
    taus = np.array([c.logreal(0.1, 5) for _ in range(n)])
    if total is not None:
        taus *= total / taus.sum()
    t0 = c.pick([0.0, c.real(-5, 5)]) if t0 is None else t0
    mode = c.integer(0, 2)
    co = np.array([c.real(-2, 2) if mode == 0 else float(c.integer(-3, 3)) if mode == 1 else (0.0 if c.coin() else c.real(-1, 1))
                   for _ in range(n * codom * rb.dim)])
    return RefSpline(t0, codom, rb, co, taus)


def make_spline(c, rs, b=None, keep=None):
    b = b or make_basis(c, rs.basis)
    co, l1 = as_input(c, rs.c.ravel())
    ta, l2 = as_input(c, rs.taus)
    c.label("coefficients as " + l1)
    sp = gsplines.GSpline((rs.t0, rs.bp[-1]), rs.codom, len(rs.taus), b, co, ta, "s")
    for a in (co, ta):
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = np.nan
    return sp


def points_of(c, rs, n):
    ts = []
    for _ in range(n):
        i = c.integer(0, len(rs.taus) - 1)
        ts.append(float(rs.bp[i] + rs.taus[i] * c.real(0.01, 0.99)))
    if c.chance(4):
        ts.append(float(rs.bp[0]))
    return ts


def check_values(c, sp, rs, what, deg=0, pts=None):
    ts = pts or points_of(c, rs, c.integer(1, 4))
    arg, lab = as_input(c, ts)
    got = sp(arg)
    ref = np.array([rs.value(t, deg) for t in ts]).reshape(len(ts), rs.codom)
    close(c, got, ref, rs.scale(deg) + 1e-30, 1e-7, f"{what} at {ts} given as {lab}")


# ------------------------------------------------------------ checks
@sub(3)
def bases(c):
    rb = gen_basis(c)
    c.note(f"{rb.kind} {rb.dim} {rb.params()}")
    b = make_basis(c, rb)
    check_basis(c, b, rb, "basis")
    b2 = make_basis(c, rb)
    c.require((b == b2) is True and (b != b2) is False and (b2 == b) is True, "equal bases compare different")
    d = S.basis_to_dict(b)
    c.require(set(d) == {"name", "dim", "parameters"}, f"keys {sorted(d)}")
    text = json.dumps(d)
    b3 = S.dict_to_basis(json.loads(text))
    c.require(b3 == b, "basis changed in the round trip through JSON")
    check_basis(c, b3, rb, "basis from JSON")
    c.require(json.dumps(S.basis_to_dict(b3)) == text, "second dictionary differs")
    other = gen_basis(c)
    same = other.kind == rb.kind and other.dim == rb.dim and np.allclose(other.params(), rb.params(), atol=1e-6)
    ob = make_basis(c, other)
    if not same:
        c.require((b == ob) is False and (b != ob) is True, f"{rb.kind} {rb.dim} equals {other.kind} {other.dim}")
    check_basis(c, b, rb, "basis afterwards")
    # buffers that cannot be written to
    k = c.integer(0, 3)
    n = rb.dim
    bad = {0: np.zeros(n, dtype=int), 1: np.zeros(n, dtype=np.float32), 2: np.zeros(n), 3: np.zeros(max(n - c.integer(1, 3), 0))}[k]
    if k == 2:
        bad.flags.writeable = False
    raises(c, lambda: b.eval_on_window(0.2, 1.0, bad), f"evaluation into an unsuitable buffer ({k})")
    raises(c, lambda: b.eval_derivative_on_window(0.2, 1.0, 1, bad), f"derivative into an unsuitable buffer ({k})")
    raises(c, lambda: b.eval_derivative_wrt_tau_on_window(0.2, 1.0, 1, bad), f"derivative by length into an unsuitable buffer ({k})")
    c.require(not np.any(bad), "an unsuitable buffer was written to")
    if rb.dim > 1:
        c.mark()


def check_parts(c, sp, rs, what):
    c.require(sp.get_codom_dim() == rs.codom and sp.get_number_of_intervals() == len(rs.taus), f"{what}: sizes")
    c.require(np.array_equal(sp.get_coefficients(), rs.c.ravel()), f"{what}: coefficients")
    c.require(np.array_equal(sp.get_interval_lengths(), rs.taus), f"{what}: interval lengths")
    c.require(sp.get_domain() == (rs.t0, rs.bp[-1]), f"{what}: domain {sp.get_domain()}")
    close(c, sp.get_domain_breakpoints(), rs.bp, np.max(np.abs(rs.bp)) + 1, 1e-12, f"{what}: breakpoints")
    close(c, sp.get_domain_length(), rs.bp[-1] - rs.t0, 1.0, 1e-12, f"{what}: length")
    c.require(sp.get_basis_name() == rs.basis.kind, f"{what}: basis name")
    for a in (sp.get_coefficients(), sp.get_interval_lengths(), sp.get_domain_breakpoints()):
        if a.flags.writeable:
            a[...] = -77.0
    c.require(np.array_equal(sp.get_coefficients(), rs.c.ravel()) and np.array_equal(sp.get_interval_lengths(), rs.taus),
              f"{what}: writing to a returned array changed the spline")


@sub(4)
def splines(c):
    rs = gen_spline(c)
    c.note(f"spline {rs.basis.kind} {rs.basis.dim} codom {rs.codom} taus {rs.taus.tolist()} t0 {rs.t0}")
    b = make_basis(c, rs.basis)
    sp = make_spline(c, rs, b)
    check_parts(c, sp, rs, "spline")
    check_values(c, sp, rs, "spline")
    deg = c.integer(0, 4)
    d = sp.deriv(deg) if deg != 1 or c.coin() else sp.deriv()
    live = {"d": d, "b": sp.get_basis()}
    if rs.basis.kind != "legendre":
        c.label("derivative of another basis than Legendre")
    check_values(c, d, rs, f"derivative {deg}", deg)
    # waypoints: continuous representative is not implied, only the first and interval starts
    w = sp.get_waypoints()
    c.require(w.shape == (len(rs.taus) + 1, rs.codom), "shape of the waypoints")
    close(c, w[0], rs.in_interval(0, -1.0), rs.scale(), 1e-7, "first waypoint")
    close(c, w[-1], rs.in_interval(len(rs.taus) - 1, 1.0), rs.scale(), 1e-7, "last waypoint")
    T = c.logreal(0.2, 9)
    q = sp.linear_scaling_new_execution_time(T)
    live["q"] = q
    close(c, q.get_domain_length(), T, 1.0, 1e-9, "scaled length")
    close(c, q.get_interval_lengths(), rs.taus * T / rs.taus.sum(), T, 1e-9, "scaled intervals")
    close(c, q.get_domain()[0], rs.t0, 1.0, 1e-12, "scaled start")
    ts = points_of(c, rs, 2)
    tt = [rs.t0 + (t - rs.t0) * T / rs.taus.sum() for t in ts]
    ref = np.array([rs.value(t) for t in ts])
    slack = rs.scale(0) + rs.scale(1) * (abs(rs.t0) + abs(rs.bp[-1])) * 1e-6
    if rs.basis.kind != "basis0101":
        close(c, q(tt), ref, slack, 1e-7, "scaled path")
    raises(c, lambda: sp.linear_scaling_new_execution_time(-T), "negative execution time")
    c.require((sp == sp) is True and (sp != sp) is False, "a spline differs from itself")
    twin = make_spline(c, rs)
    c.require((sp == twin) is True and (sp != twin) is False, "equal splines differ")
    which = c.integer(0, 2)
    co, ta, t0 = rs.c.ravel().copy(), rs.taus.copy(), rs.t0
    j = c.integer(0, len(co) - 1)
    if which == 0:
        co[j] += c.pick([1e-3, 1.0, -2.0])
    elif which == 1:
        ta[c.integer(0, len(ta) - 1)] += 0.01
    else:
        t0 += 0.5
    diff = RefSpline(t0, rs.codom, rs.basis, co, ta)
    ds = make_spline(c, diff)
    c.require((sp == ds) is False and (sp != ds) is True, f"splines that differ in part {which} are equal")
    # objects survive those they were made from
    pts = points_of(c, rs, 2)
    del b, twin, ds
    sp = None
    gc.collect()
    check_values(c, live["d"], rs, "derivative after the spline was collected", deg, pts)
    check_basis(c, live["b"], rs.basis, "basis of a spline that was collected")
    if len(rs.taus) > 1:
        c.mark()


@sub(2)
def round_trip(c):
    rs = gen_spline(c)
    extreme = c.chance(3)
    if extreme:
        f = 10.0 ** c.integer(-12, 12)
        rs = RefSpline(rs.t0, rs.codom, rs.basis, rs.c.ravel() * f / 3.0, rs.taus)
        c.label("extreme coefficients")
    c.note(f"spline {rs.basis.kind} {rs.basis.dim} codom {rs.codom} taus {rs.taus.tolist()} t0 {rs.t0}")
    sp = make_spline(c, rs)
    d = S.gspline_to_dict(sp)
    c.require(set(d) == {"domain_left_boundary", "domain_right_boundary", "codom_dim", "number_of_intervals", "basis",
                         "coefficients", "interval_lengths"}, f"keys {sorted(d)}")
    text = json.dumps(d)
    pts = points_of(c, rs, 3)
    was = sp(pts).copy()
    for what, e in (("dictionary", d), ("JSON", json.loads(text)), ("copied dictionary", copy.deepcopy(d))):
        before = json.dumps(e)
        q = S.dict_to_gspline(e)
        c.require(json.dumps(e) == before, f"{what}: reading changed the dictionary")
        check_parts(c, q, rs, f"spline from {what}")
        c.require((q == sp) is True and (sp == q) is True, f"spline from {what} is not equal")
        c.require(np.array_equal(q(pts), was), f"spline from {what} has other values")
        c.require(q.get_basis() == sp.get_basis(), f"basis from {what}")
    c.require(json.dumps(S.gspline_to_dict(S.dict_to_gspline(d))) == text, "second dictionary differs")
    d["coefficients"][0] = 123.0
    d["interval_lengths"][0] = 55.0
    check_parts(c, sp, rs, "spline after its dictionary was changed")
    check_values(c, sp, rs, "spline after its dictionary was changed")
    g = sp.deriv(c.integer(0, 3))
    h = S.dict_to_gspline(json.loads(json.dumps(S.gspline_to_dict(g))))
    c.require(h == g and np.array_equal(h(pts), g(pts)), "derivative changed in the round trip")
    if len(rs.taus) > 1 or rs.codom > 1:
        c.mark()


WRONG = [None, "a", [], {}, [[1.0, 2.0], [3.0, 4.0]], ["a"], object(), -1, -3.5, 2.5]


@sub(2)
def malformed(c):
    rs = gen_spline(c, maxint=4)
    sp = make_spline(c, rs)
    d = S.gspline_to_dict(sp)
    kind = c.integer(0, 7)
    what = None
    bas = c.coin()
    target = d["basis"] if bas else d
    keys = sorted(target)
    if kind == 0:
        k = c.pick(keys)
        del target[k]
        what = f"without {k}"
    elif kind == 1:
        k = c.pick(keys)
        v = c.pick(WRONG)
        # skip values that are right
        if k in ("domain_left_boundary", "domain_right_boundary") and isinstance(v, float):
            v = "1.0"
        if k == "parameters" and rs.basis.kind == "legendre" and (v == [] or isinstance(v, list) and all(isinstance(x, float) for x in v)):
            c.discard()
        target[k] = v
        what = f"{k} = {v!r}"
    elif kind == 2:
        k = c.pick(["coefficients", "interval_lengths"])
        m = c.integer(1, 3)
        if c.coin():
            d[k] = d[k] + [1.0] * m
        else:
            d[k] = d[k][:-m]
        what = f"wrong number of {k}"
    elif kind == 3:
        k = c.pick(["codom_dim", "number_of_intervals"])
        d[k] += c.pick([1, 2, -d[k] - 1]) if c.coin() or d[k] > 1 else 1
        what = f"{k} = {d[k]}"
    elif kind == 4:
        d["basis"]["dim"] += c.pick([1, 2, 5, -1]) if d["basis"]["dim"] > 1 else 1
        what = f"basis dim {d['basis']['dim']} for {rs.basis.kind}"
    elif kind == 5:
        d["basis"]["name"] = c.pick(["", "Legendre", "lagrang", "basis0110", "gauss", "legendre "])
        what = f"basis name {d['basis']['name']!r}"
    elif kind == 6:
        if rs.basis.kind == "legendre":
            c.discard()
        p = d["basis"]["parameters"]
        d["basis"]["parameters"] = p + [0.123] if c.coin() else p[:-1]
        what = f"basis parameters {d['basis']['parameters']}"
    else:
        a, b = d["domain_left_boundary"], d["domain_right_boundary"]
        d["domain_left_boundary"], d["domain_right_boundary"] = b, a
        what = "reversed domain"
    c.note(what)
    c.label(f"malformed {kind}")
    raises(c, lambda: S.dict_to_gspline(d), f"dictionary with {what}")
    if bas and kind in (0, 1) or kind in (5, 6) or kind == 4 and rs.basis.kind != "legendre":
        raises(c, lambda: S.dict_to_basis(d["basis"]), f"basis dictionary with {what}")
    # the interpreter goes on as before
    check_values(c, sp, rs, "spline after a rejected dictionary")
    c.mark()


@sub(1)
def malformed_calls(c):
    rs = gen_spline(c, maxint=4)
    b = make_basis(c, rs.basis)
    sp = make_spline(c, rs, b)
    dom, n, co, ta = (rs.t0, rs.bp[-1]), len(rs.taus), rs.c.ravel(), rs.taus
    k = c.integer(0, 15)
    G = gsplines.GSpline
    what = f"call {k}"
    c.label(what)
    if k == 0:
        raises(c, lambda: G(dom, rs.codom, n, b, co[:-1], ta, "x"), what)
    elif k == 1:
        raises(c, lambda: G(dom, rs.codom, n, b, np.append(co, 1.0), ta, "x"), what)
    elif k == 2:
        raises(c, lambda: G(dom, rs.codom, n, b, co, np.append(ta, 1.0), "x"), what)
    elif k == 3:
        raises(c, lambda: G((dom[1], dom[0]), rs.codom, n, b, co, ta, "x"), what)
    elif k == 4:
        raises(c, lambda: G(dom, -1, n, b, co, ta, "x"), what)
    elif k == 5:
        raises(c, lambda: sp.deriv(-1), what)
    elif k == 6:
        raises(c, lambda: sp(np.zeros((2, 2))), what)
    elif k == 7:
        raises(c, lambda: sp("abc"), what)
    elif k == 8:
        raises(c, lambda: F.CanonicPolynomial((0.0, 1.0), []), what)
    elif k == 9:
        raises(c, lambda: CO.legendre_gauss_lobatto_points_weights(c.integer(0, 1)), what)
    elif k == 10:
        raises(c, lambda: FA.l2_norm(F.Sin((0.0, 1.0)), c.integer(0, 1), 1), what)
    elif k == 11:
        raises(c, lambda: gsplines.Interpolator(0, 2, b).interpolate([1.0, 1.0], np.zeros((3, 0))), what)
    elif k == 12:
        raises(c, lambda: c.pick([F.Sin, F.Cos, F.Exponential, F.Identity])((1.0, 0.0)), what)
    elif k == 13:
        a = B.Basis(4, "mine")
        raises(c, lambda: G(dom, 1, 1, a, [1.0] * 4, [rs.bp[-1] - rs.t0], "x"), what)
        raises(c, lambda: gsplines.Interpolator(1, 2, a), what)
    elif k == 14:
        raises(c, lambda: F.Function((0.0, 1.0), 1, "f")([0.5]), what)
        raises(c, lambda: F.Function((0.0, 1.0), 1, "f") + F.Sin((0.0, 1.0)), what)
    else:
        raises(c, lambda: G(dom, rs.codom, n, None, co, ta, "x"), what)
        raises(c, lambda: B.get_basis("nothing", 3, []), what)
    check_values(c, sp, rs, "spline after a rejected call")
    c.mark()


# ------------------------------------------------------------ expressions
class Obj:
    def __init__(self, py, node):
        self.py, self.node = py, node


def leaf(c, dom, codom):
    if codom > 1:
        k = c.integer(0, 2)
        if k == 0:
            v = round(c.real(-2, 2), 3)
            return Obj(F.ConstFunction(dom, codom, v), Node("const", dom, codom, v=v))
        if k == 1:
            return Obj(F.FunctionExpression(dom, codom), Node("zero", dom, codom))
        # a spline as an expression: composed with the identity
        return spline_leaf(c, dom, codom)
    k = c.integer(0, 8)
    if k == 0:
        return Obj(F.Sin(dom), Node("sin", dom, 1))
    if k == 1:
        return Obj(F.Cos(dom), Node("cos", dom, 1))
    if k == 2:
        return Obj(F.Exponential(dom), Node("exp", dom, 1))
    if k == 3:
        return Obj(F.Identity(dom), Node("id", dom, 1))
    if k == 4:
        a = round(c.real(-2, 2), 3)
        return Obj(F.DomainLinearDilation(dom, a), Node("dil", dom, 1, a=a))
    if k == 5:
        v = round(c.real(-2, 2), 3)
        return Obj(F.ConstFunction(dom, 1, v), Node("const", dom, 1, v=v))
    if k == 6:
        co = [round(c.real(-2, 2), 3) for _ in range(c.integer(1, 5))]
        return Obj(F.CanonicPolynomial(dom, as_input(c, co)[0]), Node("poly", dom, 1, c=co))
    if k == 7:
        return Obj(F.FunctionExpression(dom, 1), Node("zero", dom, 1))
    return spline_leaf(c, dom, 1)


def spline_leaf(c, dom, codom):
    rs = gen_spline(c, maxint=3, t0=dom[0], codom=codom, total=dom[1] - dom[0],
                    rb=RefBasis("legendre", dim=c.integer(1, 5)))
    rs.bp[-1] = dom[1]
    sp = make_spline(c, rs)
    c.label("spline in an expression")
    ident = F.Identity(dom)
    return Obj(sp.compose(ident), Node("comp", dom, codom, (Node("spline", dom, codom, sp=rs), Node("id", dom, 1))))


def gen_expr(c, dom, codom, depth, pool):
    if depth == 0 or c.chance(4):
        o = leaf(c, dom, codom)
        pool.append(o)
        return o
    k = c.integer(0, 7)
    if k <= 1:
        a, b = gen_expr(c, dom, codom, depth - 1, pool), gen_expr(c, dom, codom, depth - 1, pool)
        r = Obj(a.py + b.py, Node("add", dom, codom, (a.node, b.node))) if k == 0 else \
            Obj(a.py - b.py, Node("sub", dom, codom, (a.node, b.node)))
    elif k == 2:
        a = gen_expr(c, dom, codom, depth - 1, pool)
        r = Obj(-a.py, Node("neg", dom, codom, (a.node,)))
    elif k == 3:
        first = c.coin()
        a = gen_expr(c, dom, codom if first else 1, depth - 1, pool)
        b = gen_expr(c, dom, 1 if first else codom, depth - 1, pool)
        r = Obj(a.py * b.py, Node("mul", dom, codom, (a.node, b.node)))
    elif k == 4 and codom == 1:
        n = c.integer(1, 3)
        a, b = gen_expr(c, dom, n, depth - 1, pool), gen_expr(c, dom, n, depth - 1, pool)
        if c.coin() and isinstance(a.py, F.FunctionExpression) and isinstance(b.py, F.FunctionExpression):
            r = Obj(F.DotProduct(a.py, b.py), Node("dot", dom, 1, (a.node, b.node)))
        else:
            r = Obj(a.py.dot(b.py), Node("dot", dom, 1, (a.node, b.node)))
    elif k == 5:
        g = gen_expr(c, dom, 1, depth - 1, pool)
        f = gen_expr(c, (-3.0, 3.0), codom, depth - 1, pool)
        r = Obj(f.py.compose(g.py), Node("comp", dom, codom, (f.node, g.node)))
    elif k == 6 and dom[1] - dom[0] > 0.2:
        m = dom[0] + (dom[1] - dom[0]) * c.real(0.2, 0.8)
        a, b = gen_expr(c, (dom[0], m), codom, depth - 1, pool), gen_expr(c, (m, dom[1]), codom, depth - 1, pool)
        r = Obj(a.py.concat(b.py), Node("cat", dom, codom, (a.node, b.node)))
    else:
        deg = c.integer(0, 2)
        a = gen_expr(c, dom, codom, depth - 1, pool)
        r = Obj(a.py.deriv(deg) if deg != 1 or c.coin() else a.py.deriv(), Node("der", dom, codom, (a.node,), deg=deg))
    pool.append(r)
    return r


def check_expr(c, o, what, n=2):
    dom, codom = o.node.dom, o.node.codom
    c.require(o.py.get_codom_dim() == codom, f"{what} {o.node}: codomain {o.py.get_codom_dim()}")
    got = o.py.get_domain()
    c.require(abs(got[0] - dom[0]) < 1e-9 and abs(got[1] - dom[1]) < 1e-9, f"{what} {o.node}: domain {got}")
    done = 0
    ts, refs, mags = [], [], []
    for _ in range(n):
        t = dom[0] + (dom[1] - dom[0]) * c.real(0.01, 0.99)
        try:
            v, m = o.node.value(t)
        except (Undetermined, OverflowError):
            continue
        ts.append(t), refs.append(v), mags.append(m)
        done += 1
    if done:
        arg, lab = as_input(c, ts)
        close(c, o.py(arg), np.array(refs), np.array(mags), 1e-7, f"{what} {o.node} at {ts} as {lab}")
    return done


@sub(5)
def expressions(c):
    dom = c.pick([(0.0, 1.0), (-1.0, 1.0), (c.real(-2, 0), c.real(0.5, 2))])
    codom = c.pick([1, 1, 2, 3])
    pool = []
    top = gen_expr(c, dom, codom, c.integer(1, 4), pool)
    c.note(repr(top.node))
    done = check_expr(c, top, "expression", 3)
    deg = c.integer(0, 3)
    d = Obj(top.py.deriv(deg), Node("der", dom, codom, (top.node,), deg=deg))
    done += check_expr(c, d, f"derivative {deg} of")
    for o in pool[:6]:
        check_expr(c, o, "operand", 1)
    c.require(top.py.is_point_in_domain((dom[0] + dom[1]) / 2) and not top.py.is_point_in_domain(dom[1] + 0.5), "is_point_in_domain")
    del pool[:]
    gc.collect()
    done += check_expr(c, top, "after its operands were collected")
    top.py = None
    gc.collect()
    check_expr(c, d, f"derivative {deg} after its expression was collected")
    if done and top.node.count() > 2:
        c.mark()


@sub(1)
def expression_errors(c):
    dom = (0.0, 1.0)
    pool = []
    a = gen_expr(c, dom, c.integer(1, 3), c.integer(0, 2), pool)
    k = c.integer(0, 5)
    c.label(f"ill-formed {k}")
    if k <= 1:  # other domain
        b = gen_expr(c, (0.0, 1.5), a.node.codom, c.integer(0, 2), pool)
        op = c.integer(0, 3)
        raises(c, {0: lambda: a.py + b.py, 1: lambda: a.py - b.py, 2: lambda: a.py.dot(b.py), 3: lambda: b.py + a.py}[op], f"domains {op}")
    elif k == 2:  # other codomain
        b = gen_expr(c, dom, a.node.codom + c.integer(1, 2), c.integer(0, 2), pool)
        op = c.integer(0, 2)
        raises(c, {0: lambda: a.py + b.py, 1: lambda: a.py - b.py, 2: lambda: a.py.dot(b.py)}[op], f"codomains {op}")
    elif k == 3:  # vector times vector
        a = gen_expr(c, dom, 2, c.integer(0, 2), pool)
        b = gen_expr(c, dom, c.integer(2, 3), c.integer(0, 2), pool)
        raises(c, lambda: a.py * b.py, "product of vectors")
    elif k == 4:  # compose with a vector
        b = gen_expr(c, dom, 2, c.integer(0, 2), pool)
        raises(c, lambda: a.py.compose(b.py), "composition with a vector")
    else:
        b = gen_expr(c, (1.25, 2.0) if c.coin() else (0.5, 2.0), a.node.codom, c.integer(0, 2), pool)
        raises(c, lambda: a.py.concat(b.py), "concatenation of functions that do not meet")
    c.note(f"{k}: {a.node} {b.node}")
    check_expr(c, a, "operand after a rejection")
    check_expr(c, b, "operand after a rejection")
    c.mark()


@sub(1)
def spline_functions(c):
    """operations of FunctionBase on splines"""
    rs = gen_spline(c, maxint=3, rb=RefBasis("legendre", dim=c.integer(1, 6)))
    sp = make_spline(c, rs)
    dom = (rs.t0, float(rs.bp[-1]))
    k = c.integer(0, 2)
    ts = points_of(c, rs, 3)
    if k == 0:
        rt = gen_spline(c, maxint=3, rb=RefBasis("legendre", dim=c.integer(1, 6)), t0=rs.t0, codom=rs.codom, total=rs.taus.sum())
        rt.bp[-1] = rs.bp[-1]
        st = make_spline(c, rt)
        d = sp.dot(st)
        ts = [t for t in ts if np.min(np.abs(rt.bp - t)) > 1e-6]
        del sp, st
        gc.collect()
        if not ts:
            c.discard()
        close(c, d(ts), np.array([[float(rs.value(t) @ rt.value(t))] for t in ts]),
              rs.codom * rs.scale() * rt.scale() + 1e-30, 1e-7, "dot product of splines")
    elif k == 1:
        rt = gen_spline(c, maxint=3, t0=float(rs.bp[-1]), codom=rs.codom)
        st = make_spline(c, rt)
        d = sp.concat(st)
        c.require(d.get_codom_dim() == rs.codom, "codomain of the concatenation")
        close(c, d.get_domain(), (rs.t0, rt.bp[-1]), 1.0, 1e-9, "domain of the concatenation")
        t2 = [t for t in points_of(c, rt, 2) if t > rt.t0 + 1e-6]
        ts = [t for t in ts if t < rs.bp[-1] - 1e-6]
        if not ts or not t2:
            c.discard()
        deg = c.integer(0, 2)
        g = d.deriv(deg)
        del sp, st, d
        gc.collect()
        close(c, g(ts + t2), np.array([rs.value(t, deg) for t in ts] + [rt.value(t, deg) for t in t2]),
              max(rs.scale(deg), rt.scale(deg)) + 1e-30, 1e-7, f"derivative {deg} of a concatenation of splines")
    else:
        a = 1.0 / c.integer(1, 4)
        dil = F.DomainLinearDilation((dom[0] / a, dom[1] / a), a)
        d = sp.compose(dil)
        ts = [t for t in ts if np.min(np.abs(rs.bp - t)) > 1e-6]
        if not ts:
            c.discard()
        deg = c.integer(0, 2)
        g = d.deriv(deg)
        del sp, dil, d
        gc.collect()
        close(c, g([t / a for t in ts]), np.array([rs.value(t, deg) * a ** deg for t in ts]),
              rs.scale(deg) + rs.scale(deg + 1) * 1e-6 + 1e-30, 1e-7, f"derivative {deg} of a slowed spline")
    c.label(f"spline function {k}")
    c.note(f"{rs.basis.kind} {rs.basis.dim} codom {rs.codom} {rs.taus.tolist()}")
    if len(rs.taus) > 1:
        c.mark()


# ------------------------------------------------------------ interpolation
def gen_problem(c):
    rb = gen_basis(c, even=True, maxdim=8)
    if rb.kind == "lagrange" and rb.dim > 6:
        rb = RefBasis("lagrange", nodes=list(gll(6)[0]))
    codom, n = c.size(1, 4), c.size(1, 6)
    base = c.logreal(0.3, 3)
    taus = np.array([base * c.logreal(0.4, 2.5) for _ in range(n)])
    if rb.kind == "basis0101":
        k = math.sqrt(2) / 4 * (rb.alpha / (1 - rb.alpha)) ** 0.25
        taus = np.clip(taus, 0.5 / k, 6.0 / k)
    wp = np.array([[c.real(-2, 2) for _ in range(codom)] for _ in range(n + 1)])
    return rb, codom, n, taus, wp


def spline_conditions(c, co, rb, codom, taus, wp, what):
    rs = RefSpline(0.0, codom, rb, co, taus)
    n = len(taus)
    tol = 1e-6
    for i in range(n):
        close(c, rs.in_interval(i, -1.0), wp[i], rs.scale() + 1, tol, f"{what}: start of interval {i}")
        close(c, rs.in_interval(i, 1.0), wp[i + 1], rs.scale() + 1, tol, f"{what}: end of interval {i}")
    for d in range(1, rb.dim // 2):
        close(c, rs.in_interval(0, -1.0, d), np.zeros(codom), rs.scale(d) + 1, tol, f"{what}: derivative {d} at the start")
        close(c, rs.in_interval(n - 1, 1.0, d), np.zeros(codom), rs.scale(d) + 1, tol, f"{what}: derivative {d} at the end")
    for d in range(1, rb.dim - 1):
        for i in range(n - 1):
            close(c, rs.in_interval(i, 1.0, d), rs.in_interval(i + 1, -1.0, d), rs.scale(d) + 1, tol,
                  f"{what}: jump of derivative {d} after interval {i}")
    return rs


@sub(3)
def interpolation(c):
    rb, codom, n, taus, wp = gen_problem(c)
    c.note(f"{rb.kind} {rb.dim} codom {codom} taus {taus.tolist()} waypoints {wp.tolist()}")
    b = make_basis(c, rb)
    it = gsplines.Interpolator(codom, n, b)
    del b
    gc.collect()
    kept = []
    for step in range(c.integer(1, 3)):
        if step:
            f = np.array([c.real(0.7, 1.4) for _ in range(n)])
            taus = taus * f
            wp = wp + np.array([[c.real(-1, 1) for _ in range(codom)] for _ in range(n + 1)])
        t_in, _ = as_input(c, taus)
        w_in, lab = as_matrix(c, wp)
        w_was = np.array(w_in, dtype=float).copy()
        c.label("waypoints as " + lab)
        route = c.integer(0, 3)
        c.label(f"interpolation route {route}")
        if route == 0:
            s = it.interpolate(t_in, w_in)
        elif route == 1:
            s = gsplines.interpolate(t_in, w_in, make_basis(c, rb))
        elif route == 2:
            co = it.solve_interpolation(t_in, w_in)
            s = None
        elif rb.kind == "legendre":
            s = gsplines.pw_polynomial_interpolation(t_in, w_in, rb.dim)
        else:
            s = it.interpolate(t_in, w_in)
        c.require(np.array_equal(np.asarray(w_in), w_was), "interpolation changed the waypoints")
        if s is not None:
            co = s.get_coefficients()
            c.require(s.get_domain()[0] == 0.0, "domain start")
            close(c, s.get_domain()[1], taus.sum(), taus.sum(), 1e-12, "domain end")
            c.require(np.array_equal(s.get_interval_lengths(), taus) and s.get_basis_name() == rb.kind, "parts of the spline")
            close(c, s.get_waypoints(), wp, np.max(np.abs(wp)) + RefSpline(0.0, codom, rb, co, taus).scale(), 1e-6, "waypoints of the spline")
        c.require(co.shape == (rb.dim * codom * n,), f"{co.shape} coefficients")
        rs = spline_conditions(c, co, rb, codom, taus, wp, f"route {route}")
        kept.append((co, co.copy(), s, rs))
        # sensitivities
        i = c.integer(0, n - 1)
        der = it.get_coeff_derivative_wrt_tau(as_input(c, co)[0], as_input(c, taus)[0], i)
        h = 1e-4 * taus[i]
        e = np.zeros(n)
        e[i] = h

        def solve(t):
            return np.array(gsplines.Interpolator(codom, n, make_basis(c, rb)).solve_interpolation(t, wp))
        num = (8 * (solve(taus + e) - solve(taus - e)) - (solve(taus + 2 * e) - solve(taus - 2 * e))) / (12 * h)
        size = np.max(np.abs(co)) / h
        close(c, der, num, max(np.max(np.abs(num)), size * 1e-4), 1e-4, f"derivative of the coefficients by interval {i}")
        kept.append((der, der.copy(), None, None))
        if c.chance(3):
            bad = c.integer(0, 5)
            before = [x[0].copy() for x in kept]
            if bad == 0:
                raises(c, lambda: it.interpolate(taus[:-1] if n > 1 else [1.0, 1.0], wp), "wrong number of intervals")
            elif bad == 1:
                raises(c, lambda: it.interpolate(taus, wp[:-1]), "missing waypoint")
            elif bad == 2:
                raises(c, lambda: it.interpolate(-taus, wp), "negative interval")
            elif bad == 3:
                raises(c, lambda: it.get_coeff_derivative_wrt_tau(co[:-1], taus, 0), "missing coefficient")
            elif bad == 4:
                raises(c, lambda: it.get_coeff_derivative_wrt_tau(co, taus, n), "missing interval")
            else:
                raises(c, lambda: it.solve_interpolation(taus, np.hstack([wp, wp])), "components of the waypoints")
            for x, y in zip(kept, before):
                c.require(np.array_equal(x[0], y), "a rejected call changed an earlier result")
    del it
    gc.collect()
    junk = [np.full(rb.dim * codom * n, 3.3e33) for _ in range(4)]
    for co, was, s, rs in kept:
        c.require(np.array_equal(co, was), "an array returned by the interpolator changed afterwards")
        if s is not None:
            check_values(c, s, rs, "interpolating spline at the end")
    del junk
    if n > 1:
        c.mark()


# ------------------------------------------------------------ functional analysis
@sub(2)
def norms(c):
    dom = c.pick([(0.0, 1.0), (-1.0, 1.0), (c.real(-2, 0), c.real(0.5, 2))])
    codom = c.pick([1, 1, 2, 3])
    pool = []
    a, b = gen_expr(c, dom, codom, c.integer(0, 2), pool), gen_expr(c, dom, codom, c.integer(0, 2), pool)
    deflt = c.chance(3)
    ng, ni = (10, 1) if deflt else (c.integer(2, 14), c.integer(1, 4))
    args = () if deflt else (ng, ni)
    kw = {}
    if args and c.coin():
        args, kw = (), {"_n_glp": ng, "_n_int": ni}
    k = c.integer(0, 5)
    deg = c.integer(0, 2)
    if k in (0, 1):
        terms = [(c.integer(0, 2), round(c.real(0, 3), 2)) for _ in range(c.integer(1, 3))]
        if len({d for d, _ in terms}) < len(terms):
            terms = terms[:1]
    elif k in (2, 3):
        terms = [(d, 1.0) for d in range(deg + 1)]
    else:
        terms = [(0, 1.0)]
    x, y = (a, a) if k in (1, 3, 5) else (a, b)

    def f(t):
        n = max(d for d, _ in terms) + 1
        (u, mu), (v, mv) = x.node.series(t, n), y.node.series(t, n)
        if not np.all(np.isfinite(mu)) or np.max(mu) > 1e6 or not np.all(np.isfinite(mv)) or np.max(mv) > 1e6:
            raise Undetermined()
        mags.append(float(sum(w * math.factorial(d) ** 2 * (mu[:, d] @ mv[:, d]) for d, w in terms)))
        return float(sum(w * math.factorial(d) ** 2 * (u[:, d] @ v[:, d]) for d, w in terms))
    mags = []
    try:
        want, mag = composite(f, dom, ng, ni)
    except (Undetermined, OverflowError):
        c.discard()
    got = {0: lambda: FA.sobolev_semi_inner_product(a.py, b.py, terms, *args, **kw),
           1: lambda: FA.sobolev_semi_norm(a.py, terms, *args, **kw),
           2: lambda: FA.sobolev_inner_product(a.py, b.py, deg, *args, **kw),
           3: lambda: FA.sobolev_norm(a.py, deg, *args, **kw),
           4: lambda: FA.l2_inner_product(a.py, b.py, *args, **kw),
           5: lambda: FA.l2_norm(a.py, *args, **kw)}[k]()
    c.note(f"{k} {terms} {ng} {ni} {a.node} {b.node}")
    c.label(f"norm {k}")
    close(c, got, want, max(mags) * (dom[1] - dom[0]), 1e-7, f"norm {k} of {a.node} {b.node} with {ng} points, {ni} intervals")
    check_expr(c, a, "operand after the integral", 1)
    check_expr(c, b, "operand after the integral", 1)
    if a.node.count() > 1:
        c.mark()


@sub(2)
def cost(c):
    rb, codom, n, taus, wp = gen_problem(c)
    if rb.kind == "basis0101":
        degs = [1, 3]
    else:
        degs = list(range(0, rb.dim))
    terms = []
    for d in degs:
        if c.coin() or (not terms and d == degs[-1]):
            terms.append((d, round(c.real(0.1, 3), 2)))
    if rb.dim > 6:
        c.discard()
    c.note(f"{rb.kind} {rb.dim} {terms} taus {taus.tolist()} wp {wp.tolist()}")
    w_in, lab = as_matrix(c, wp)
    N = FA.SobolevNorm(w_in, make_basis(c, rb), terms)
    if isinstance(w_in, np.ndarray) and w_in.flags.writeable:
        w_in[...] = 8.0
    del w_in
    gc.collect()
    for step in range(c.integer(1, 2)):
        if step:
            taus = taus * np.array([c.real(0.7, 1.4) for _ in range(n)])

        def ref(t):
            co = np.array(gsplines.Interpolator(codom, n, make_basis(c, rb)).solve_interpolation(t, wp))
            rs = RefSpline(0.0, codom, rb, co, t)
            x, w = gll(40 if rb.kind == "basis0101" else rb.dim + 1)
            r = 0.0
            for i in range(n):
                for xx, ww in zip(x, w):
                    for d, wt in terms:
                        v = rs.in_interval(i, xx, d)
                        r += wt * ww * t[i] / 2 * float(v @ v)
            mag[0] = sum(wt * t.sum() * codom * rs.scale(d) ** 2 for d, wt in terms)
            return r
        mag = [0.0]
        want = ref(taus)
        size = abs(want) + 1e-5 * mag[0] + 1e-9
        close(c, N(as_input(c, taus)[0]), want, size, 1e-6, "cost")
        hold = np.full(2 * n, 4.4)
        g = hold[:n]
        N.deriv_wrt_interval_len(as_input(c, taus)[0], g)
        for i in range(n):
            e = np.zeros(n)
            h = 1e-3 * taus[i]
            e[i] = h
            num = (8 * (ref(taus + e) - ref(taus - e)) - (ref(taus + 2 * e) - ref(taus - 2 * e))) / (12 * h)
            close(c, g[i], num, size / taus[i], 1e-4, f"gradient of the cost by interval {i}")
        c.require(np.all(hold[n:] == 4.4), "wrote outside the buffer")
        raises(c, lambda: N.deriv_wrt_interval_len(taus, np.zeros(n - 1)), "gradient into a short buffer")
        raises(c, lambda: N(np.append(taus, 1.0)), "cost with one interval too many")
    if n > 1:
        c.mark()


@sub(1)
def quadrature(c):
    n = c.size(2, 40)
    p, w = CO.legendre_gauss_lobatto_points_weights(n)
    x, y = gll(n)
    close(c, p, x, 1.0, 1e-9, f"points {n}")
    close(c, w, y, 1.0, 1e-9, f"weights {n}")
    m, s = c.integer(1, 25), c.real(-1, 1)
    e = np.zeros(m + 3)
    q = e.copy()
    q[m + 1], q[m - 1] = 1, -1
    l = e.copy()
    l[m] = 1
    got = CO.q_and_evaluation(s, m)
    if m >= 2:
        close(c, got, (L.legval(s, q), L.legval(s, L.legder(q)), L.legval(s, l)), 2.0 * m + 1, 1e-9, f"q_and_evaluation({s}, {m})")
    c.note(f"points {n}, polynomial {m} at {s}")
    if n > 2:
        c.mark()


@sub(1)
def python_functions(c):
    """functions whose values are computed by Python code"""
    codom, base = c.size(1, 4), c.pick([F.Function, F.FunctionBase])
    dom = c.pick([(0.0, 1.0), (-1.5, 2.0)])
    co = np.array([[c.real(-2, 2) for _ in range(codom)] for _ in range(3)])
    c.note(f"{base.__name__} {dom} {co.tolist()}")

    class Poly(base):
        def __init__(self):
            base.__init__(self, dom, codom, "poly")
            self.broken = False

        def value_impl(self, t, out):
            if self.broken:
                raise KeyError("mine")
            out[:, :] = np.vander(np.asarray(t), 3, increasing=True) @ co

    f = Poly()
    c.require(f.get_codom_dim() == codom and tuple(f.get_domain()) == dom, "domain or components of a function defined in Python")
    for _ in range(c.integer(1, 4)):
        k = c.integer(0, 3)
        if k == 0:
            f.broken = True
            try:
                f(np.array([c.real(*dom)]))
                c.fail("an exception of the Python code was lost")
            except KeyError:
                pass
            f.broken = False
        elif k == 1:
            g = F.Sin(dom)
            raises(c, lambda: c.pick([lambda: f + f, lambda: -f, lambda: f * g, lambda: g * f, lambda: f.dot(f), lambda: f.concat(g)])(),
                   "expression of a function that cannot be copied")
        t = np.array([c.real(*dom) for _ in range(c.integer(1, 6))])
        got = f(t)
        want = np.vander(t, 3, increasing=True) @ co
        c.require(got.shape == want.shape, f"shape {got.shape} instead of {want.shape}")
        close(c, got, want, 10.0, 1e-12, "values of a function defined in Python")
    c.mark()


PATHS = [("broken_lines_path", 2), ("minimum_acceleration_path", 4), ("minimum_jerk_path", 6), ("minimum_snap_path", 8),
         ("minimum_crackle_path", 10)]


@sub(1)
def paths(c):
    n, codom = c.integer(1, 4), c.integer(1, 3)
    wp = np.array([[c.real(-2, 2) for _ in range(codom)] for _ in range(n + 1)])
    k = c.integer(0, 6)
    w_in, lab = as_matrix(c, wp)
    if k < 5:
        name, dim = PATHS[k]
        s = getattr(O, name)(w_in)
        total, kind = 1.0, "legendre"
    elif k == 5:
        name, dim, total, kind = "optimal_sobolev_norm", 6, c.real(1, 6), "legendre"
        s = O.optimal_sobolev_norm(w_in, B.BasisLegendre(6), [(1, 0.5), (3, 1.0)], total)
    else:
        name, dim, total, kind = "rojas_path", 6, None, "basis0101"
        s = O.rojas_path(w_in, c.real(0.5, 2.0))
    c.note(f"{name} {wp.tolist()}")
    c.label(name)
    c.require(isinstance(s, gsplines.GSpline), f"{name} gave {s!r}")
    c.require(s.get_basis_name() == kind and s.get_basis().get_dim() == dim and s.get_number_of_intervals() == n, f"{name}: basis or size")
    if total is not None:
        close(c, s.get_domain_length(), total, total, 1e-6, f"{name}: execution time")
    close(c, s.get_waypoints(), wp, 4.0, 1e-5, f"{name}: waypoints")
    if n > 1:
        c.mark()


# -------------------------------------------- anything goes, nothing breaks
def any_count(c):
    return c.pick([1, 2, 3, 4, 6, 0, 5, 8, 20])


def any_vector(c, n=None):
    if n is None:
        n = c.pick([1, 2, 3, 4, 6, 0, 8, 12])
    k = c.integer(0, 15)
    if k == 15:
        return np.full(n, np.nan)
    if k >= 13:
        return -np.ones(n)
    if k >= 10:
        return np.zeros(n)
    return np.array([c.real(0.1, 3.0) for _ in range(n)])


def any_matrix(c):
    r, k = c.pick([2, 3, 5, 1, 0]), c.pick([1, 2, 3, 0])
    return np.array([[c.real(-3, 3) for _ in range(k)] for _ in range(r)]).reshape(r, k)


def any_domain(c):
    return c.pick([(0.0, 1.0), (0.0, 1.0), (0.0, 2.0), (1.0, 2.0), (1.0, 0.0), (0.0, 0.0), (float("nan"), 1.0), (0.0, float("inf"))])


def any_basis(c):
    k = c.integer(0, 3)
    if k == 0:
        return B.BasisLegendre(any_count(c))
    if k == 1:
        return B.BasisLagrange(np.array(sorted(c.real(-1, 1) for _ in range(any_count(c)))))
    if k == 2:
        return B.Basis0101(c.pick([0.5, 0.1, 0.9, 0.0, 1.0, -1.0, 2.0, float("nan")]))
    return B.get_basis(c.pick(["legendre", "lagrange", "basis0101", "x"]), any_count(c), any_vector(c))


def some_basis(c):
    try:
        return any_basis(c)
    except Exception:
        return B.BasisLegendre(6)


def any_function(c, depth):
    for _ in range(4):
        try:
            k = c.integer(0, 8 if depth else 6)
            if k == 0:
                return F.Identity(any_domain(c))
            if k == 1:
                return F.ConstFunction(any_domain(c), any_count(c), c.real(-1, 1))
            if k == 2:
                return c.pick([F.Sin, F.Cos, F.Exponential])(any_domain(c))
            if k == 3:
                return F.CanonicPolynomial(any_domain(c), any_vector(c))
            if k == 4:
                return F.DomainLinearDilation(any_domain(c), c.real(-1, 2))
            if k == 5:
                b, n, d = some_basis(c), any_count(c), any_count(c)
                return gsplines.GSpline(any_domain(c), d, n, b, any_vector(c, d * n * b.get_dim()), any_vector(c, n), "g")
            if k == 6:
                return gsplines.interpolate(any_vector(c), any_matrix(c), some_basis(c))
            a, b = any_function(c, depth - 1), any_function(c, depth - 1)
            o = c.integer(0, 8)
            return [lambda: a + b, lambda: a - b, lambda: a * b, lambda: a.dot(b), lambda: a.compose(b), lambda: a.concat(b),
                    lambda: -a, lambda: a.deriv(c.integer(0, 4)), lambda: c.real(-1, 1) * a][o]()
        except Exception:
            pass
    return F.Identity((0.0, 1.0))


def any_weights(c):
    return [(c.integer(0, 5), c.real(0, 1)) for _ in range(c.integer(0, 3))]


@sub(2)
def anything(c):
    """whatever the arguments, a call answers or raises: the process goes on"""
    k = c.integer(0, 14)
    c.label(f"call {k}")
    try:
        if k == 0:
            f = any_function(c, 2)
            c.note(f"{type(f).__name__} {f.get_domain()} {f.get_codom_dim()}")
            v = any_vector(c)
            r = f(v)
            c.require(r.shape == (v.size, f.get_codom_dim()), f"shape {r.shape} of the values")
            f.get_domain_length(), f.is_point_in_domain(0.3)
        elif k == 1:
            FA.l2_norm(any_function(c, 2), any_count(c), any_count(c))
        elif k == 2:
            FA.l2_inner_product(any_function(c, 1), any_function(c, 1), any_count(c), any_count(c))
        elif k == 3:
            FA.sobolev_semi_norm(any_function(c, 1), any_weights(c), any_count(c), any_count(c))
        elif k == 4:
            s = FA.SobolevNorm(any_matrix(c), some_basis(c), any_weights(c))
            s(any_vector(c))
        elif k == 5:
            s = FA.SobolevNorm(any_matrix(c), some_basis(c), any_weights(c))
            s.deriv_wrt_interval_len(any_vector(c), any_vector(c))
        elif k == 6:
            i = gsplines.Interpolator(any_count(c), any_count(c), some_basis(c))
            if c.coin():
                i.solve_interpolation(any_vector(c), any_matrix(c))
            i.get_coeff_derivative_wrt_tau(any_vector(c, any_count(c) * any_count(c)), any_vector(c), any_count(c))
        elif k == 7:
            n = any_count(c)
            x, w = CO.legendre_gauss_lobatto_points_weights(n)
            c.require(n >= 2 and x.size == n and w.size == n, "size of a quadrature rule")
        elif k == 8:
            b = any_basis(c)
            c.require(b.get_dim() > 0, "a basis without functions")
            b.eval_on_window(0.2, 1.0, any_vector(c))
        elif k == 9:
            b = any_basis(c)
            m = c.pick([b.eval_derivative_on_window, b.eval_derivative_wrt_tau_on_window])
            m(0.2, c.pick([1.0, 0.0, -1.0]), any_count(c), any_vector(c, b.get_dim() + c.integer(-1, 1)))
        elif k == 10:
            s = gsplines.pw_polynomial_interpolation(any_vector(c), any_matrix(c), any_count(c))
            s.linear_scaling_new_execution_time(c.real(-1, 3))
            s.get_waypoints()
            s.deriv(any_count(c))(any_vector(c))
        elif k == 11:
            any_function(c, 1).deriv(c.integer(0, 5))(any_vector(c))
        elif k == 12:
            f = any_function(c, 0)
            f.get_waypoints(), f.get_domain_breakpoints(), f.get_basis()
        elif k == 13:
            getattr(O, c.pick(PATHS)[0])(any_matrix(c))
        else:
            O.optimal_sobolev_norm(any_matrix(c), some_basis(c), any_weights(c), c.pick([1.0, 5.0, 0.0, -1.0]))
    except Fail:
        raise
    except Exception as e:
        c.label("raised")
        c.note(type(e).__name__)
    c.mark()


if __name__ == "__main__":
    sys.exit(main(sys.argv))
