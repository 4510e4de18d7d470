"""C25: the plots show the curves they are given."""
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np

import c21
import pypbt

try:
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.colors import same_color
    import gsplines
    import gsplines.plot as P
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(2)

pypbt.SUBS.clear()
from pypbt import sub, main

warnings.simplefilter("ignore")
COLORS = ["red", "green", "black", "orange", "purple", "cyan", "magenta"]


def gen_curve(c, codom):
    if c.chance(4):
        dom = c.pick([(0.0, 1.0), (-1.0, 2.0), (c.real(-2, 0), c.real(0.5, 2))])
        o = c21.gen_expr(c, dom, codom, c.integer(0, 2), [])
        c.note(f"expression {o.node!r}")
        c.label("expression")
        return o.py
    rs = c21.gen_spline(c, maxint=5, codom=codom)
    c.note(f"spline {rs.basis.kind} {rs.basis.dim} t0={rs.t0} taus={rs.taus.tolist()} coefficients={rs.c.ravel().tolist()[:12]}")
    return c21.make_spline(c, rs)


def is_spline(q):
    return hasattr(q, "get_domain_breakpoints")


def split(ax):
    """lines of an axis -> curves, vertical marks, point marks"""
    cur, ver, pts = [], [], []
    for ln in ax.get_lines():
        x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if ln.get_linestyle() in ("None", "", " "):
            pts.append((ln, x, y))
        elif len(x) == 2 and x[0] == x[1]:
            ver.append((ln, x, y))
        else:
            cur.append((ln, x, y))
    return cur, ver, pts


def check_samples(c, q, x, dt, what):
    a, b = q.get_domain()
    c.require(len(x) > 0, f"{what}: nothing drawn")
    c.require(abs(x[0] - a) <= 1e-9 * (1 + abs(a)), f"{what}: starts at {x[0]} instead of {a}")
    c.require(x[-1] <= b + 1e-9 * (1 + abs(b)), f"{what}: ends at {x[-1]} outside the domain {a, b}")
    if dt is not None:
        lim = dt * (1 + 1e-6) + 1e-9
        c.require(b - x[-1] <= lim, f"{what}: the last {b - x[-1]} of the domain is missing (step {dt})")
        if len(x) > 1:
            d = np.diff(x)
            c.require(d.min() > 0 and d.max() <= lim, f"{what}: steps from {d.min()} to {d.max()} instead of {dt}")
            if b - a > 3 * dt:
                c.require(d.max() > 0.5 * dt, f"{what}: steps up to {d.max()} instead of {dt}")


def same(c, got, want, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    c.require(got.shape == want.shape, f"{what}: shape {got.shape} instead of {want.shape}")
    ok = np.isfinite(want)
    lim = 1e-9 * (1e-300 + np.max(np.abs(want[ok]), initial=0.0))
    bad = ok & ~(np.abs(got - want) <= lim)
    if np.any(bad):
        i = int(np.nonzero(bad.ravel())[0][0])
        c.fail(f"{what}: {got.ravel()[i]!r} instead of {want.ravel()[i]!r} (entry {i})")


def check_axes(c, axes, qs, colors, dt, degs, what):
    """axes: rows of derivatives, columns of components"""
    for i in range(degs + 1):
        for j in range(qs[0].get_codom_dim()):
            ax = axes[i][j]
            w = f"{what}, derivative {i}, component {j}"
            cur, ver, pts = split(ax)
            c.require(len(cur) == len(qs), f"{w}: {len(cur)} curves drawn instead of {len(qs)}")
            marks = []
            for k, q in enumerate(qs):
                ln, x, y = cur[k]
                check_samples(c, q, x, dt, f"{w}, curve {k}")
                same(c, y, q.deriv(i)(x)[:, j], f"{w}, curve {k}")
                if colors:
                    c.require(same_color(ln.get_color(), colors[k]), f"{w}: curve {k} is {ln.get_color()} instead of {colors[k]}")
                if is_spline(q):
                    marks += list(q.get_domain_breakpoints())
            same(c, sorted(v[1][0] for v in ver), sorted(marks), f"{w}: marks of the breakpoints")
            if colors:
                for k, q in enumerate(qs):
                    if is_spline(q):
                        own = [v[1][0] for v in ver if same_color(v[0].get_color(), colors[k])]
                        same(c, sorted(own), sorted(q.get_domain_breakpoints()), f"{w}: marks of the breakpoints of curve {k} in its colour")
            lo, hi = ax.get_xlim(), ax.get_ylim()
            for ln, x, y in cur + ver:
                if not np.all(np.isfinite(y)):
                    continue
                e = 1e-9 * (1 + np.max(np.abs(x)) + np.max(np.abs(y)))
                c.require(lo[0] <= x.min() + e and x.max() - e <= lo[1] and hi[0] <= y.min() + e and y.max() - e <= hi[1],
                          f"{w}: a line lies outside the visible part")
            if i == 0:
                sp = [q for q in qs if hasattr(q, "get_waypoints")]
                c.require(len(pts) == len(sp), f"{w}: {len(pts)} sets of waypoints instead of {len(sp)}")
                if colors:
                    want = [col for col, q in zip(colors, qs) if hasattr(q, "get_waypoints")]
                    for (ln, x, y), col in zip(pts, want):
                        c.require(same_color(ln.get_color(), col), f"{w}: waypoints in {ln.get_color()} instead of {col}")
                for (ln, x, y), q in zip(pts, sp):
                    same(c, x, q.get_domain_breakpoints(), f"{w}: instants of the waypoints")
                    same(c, y, q.get_waypoints()[:, j], f"{w}: waypoints")
                c.require(str(j) in ax.get_title(), f"{w}: title {ax.get_title()!r}")
            else:
                c.require(not pts, f"{w}: waypoints drawn in a derivative")
                if j == 0:
                    c.require(str(i) in ax.get_ylabel(), f"{w}: label {ax.get_ylabel()!r}")


def check_legend(c, ax, names, colors, what):
    lg = ax.get_legend()
    c.require(lg is not None, f"{what}: no legend")
    hs = getattr(lg, "legend_handles", None) or getattr(lg, "legendHandles")
    tx = [t.get_text() for t in lg.get_texts()]
    c.require(tx == names, f"{what}: legend {tx} instead of {names}")
    for h, col, n in zip(hs, colors, names):
        c.require(same_color(h.get_color(), col) and h.get_linestyle() == "-",
                  f"{what}: the legend shows {h.get_color()} {h.get_linestyle()!r} for {n}, whose curve is {col} '-'")


def check_path(c, ax, qs, colors, dt, what):
    cur = list(ax.get_lines())
    c.require(len(cur) == len(qs), f"{what}: {len(cur)} paths instead of {len(qs)}")
    for k, q in enumerate(qs):
        x, y = np.asarray(cur[k].get_xdata(), float), np.asarray(cur[k].get_ydata(), float)
        a, b = q.get_domain()
        n = len(x)
        c.require(n > 0, f"{what}: empty path")
        if dt is not None:  # which instants were drawn shows in their number only
            c.require((n + 1) * dt >= (b - a) * (1 - 1e-9) and (n - 2) * dt <= b - a, f"{what}: path {k} has {n} points with step {dt} on {a, b}")
            t = np.arange(a, b, dt)
            if len(t) == n:
                same(c, np.c_[x, y], q(t), f"{what}: path {k}")
                c.label("path compared")
        if colors:
            c.require(same_color(cur[k].get_color(), colors[k]), f"{what}: colour of path {k}")
    sets = [np.asarray(s.get_offsets(), float) for s in ax.collections]
    sp = [q for q in qs if hasattr(q, "get_waypoints")]
    c.require(len(sets) == len(sp), f"{what}: {len(sets)} sets of waypoints instead of {len(sp)}")
    for s, q in zip(sets, sp):
        same(c, s, q.get_waypoints(), f"{what}: waypoints of the path")


def gen_args(c, qs):
    degs = c.pick([3, 0, 1, 2, 4])
    span = max(q.get_domain()[1] - q.get_domain()[0] for q in qs)
    dt = span / c.real(2.5, 60)
    if c.chance(12):
        dt = span * c.real(1, 3)
    kw = {"_show": False}
    if degs != 3 or c.coin():
        kw["_up_to_deriv"] = degs
    if c.chance(6):
        dt = None
    else:
        kw["_dt"] = dt
    c.note(kw)
    c.label(f"derivatives up to {degs}")
    return degs, dt, kw


def grid(axes, rows, cols):
    return [[axes[r * cols + k] for k in range(cols)] for r in range(rows)]


@sub(3)
def single(c):
    """plot and plot_derivatives_in_axes"""
    codom = c.size(1, 3)
    q = gen_curve(c, codom)
    degs, dt, kw = gen_args(c, [q])
    c.label(f"components {codom}")
    try:
        if c.coin():
            P.plot(q, **kw)
            axes = grid(plt.gcf().axes, degs + 1, codom)
            colors = None
        else:
            fig, ax = plt.subplots(degs + 1, codom, squeeze=False)
            col = c.pick(COLORS)
            kw.pop("_show")
            P.plot_derivatives_in_axes(q, ax[0] if degs == 0 and c.coin() else ax, color=col, **kw)
            axes, colors = ax, [col]
        check_axes(c, axes, [q], colors, dt, degs, "plot")
    finally:
        plt.close("all")
    if degs > 0 or codom > 1:
        c.mark()


@sub(2)
def compare(c):
    codom = c.size(1, 3)
    qs = [gen_curve(c, codom) for _ in range(c.integer(1, 3))]
    degs, dt, kw = gen_args(c, qs)
    s = c.integer(0, 6)
    colors = [COLORS[(s + k) % 7] for k in range(len(qs))]
    names = [f"curve {chr(97 + k)}" for k in range(len(qs))]
    leg = c.coin()
    try:
        P.plot_compare(qs, colors if (leg or c.coin()) else [], names if leg else [], **kw)
        axes = grid(plt.gcf().axes, degs + 1, codom)
        check_axes(c, axes, qs, colors if leg else None, dt, degs, "plot_compare")
        if leg:
            for row in axes:
                for ax in row:
                    check_legend(c, ax, names, colors, "plot_compare")
    finally:
        plt.close("all")
    if len(qs) > 1:
        c.mark()


@sub(2)
def plane(c):
    """plot2d"""
    codom = 2 if not c.chance(10) else c.pick([1, 3])
    q = gen_curve(c, codom)
    degs, dt, kw = gen_args(c, [q])
    try:
        if codom != 2:
            P.plot2d(q, **kw)
            c.require(not plt.get_fignums(), "plot2d draws a curve that is not plane")
            return
        P.plot2d(q, **kw)
        ax = plt.gcf().axes
        check_path(c, ax[0], [q], None, dt, "plot2d")
        check_axes(c, grid(ax[1:], degs + 1, 2), [q], None, dt, degs, "plot2d")
    finally:
        plt.close("all")
    c.mark()


@sub(2)
def plane_compare(c):
    qs = [gen_curve(c, 2) for _ in range(c.integer(1, 3))]
    degs, dt, kw = gen_args(c, qs)
    s = c.integer(0, 6)
    colors = [COLORS[(s + k) % 7] for k in range(len(qs))]
    names = [f"curve {chr(97 + k)}" for k in range(len(qs))]
    leg = c.coin()
    try:
        P.plot2d_compare(qs, colors if leg else [], names if leg else [], **kw)
        ax = plt.gcf().axes
        check_path(c, ax[0], qs, colors if leg else None, dt, "plot2d_compare")
        axes = grid(ax[1:], degs + 1, 2)
        check_axes(c, axes, qs, colors if leg else None, dt, degs, "plot2d_compare")
        if leg:
            for a in [ax[0]] + [x for row in axes for x in row]:
                check_legend(c, a, names, colors, "plot2d_compare")
    finally:
        plt.close("all")
    if len(qs) > 1:
        c.mark()


@sub(1)
def containers(c):
    """histories of updates of the line containers"""
    codom = c.size(1, 3)
    fig, ax = plt.subplots(1, codom, squeeze=False)
    ax = ax[0]
    n = c.integer(1, 4)
    try:
        from gsplines.plot.LinesContainer import CurveVsTime, VerticalLines
        cvt = CurveVsTime(codom, color="red")
        marks = VerticalLines(n, codom, color="blue")
        if c.chance(5):
            fig2, other = plt.subplots(1, codom + 1, squeeze=False)
            for o in (cvt, marks):
                try:
                    o.associate_axis(other[0])
                except ValueError:
                    continue
                c.fail("axes that do not fit the lines are accepted")
        cvt.associate_axis(ax)
        marks.associate_axis(ax)
        bps = None
        for _ in range(c.integer(1, 4)):
            k = c.integer(0, 3)
            if k <= 1 or bps is None:
                q = gen_curve(c, codom)
                a, b = q.get_domain()
                dt = (b - a) / c.real(2.5, 40)
                cvt.update(q, dt)
                x = np.asarray(cvt.lines_[0].get_xdata(), float)
                check_samples(c, q, x, dt, "update")
                data = x, q(x)
                c.note(f"update dt={dt}")
                if bps is None:
                    bps = np.sort([c.real(a, b) for _ in range(n)])
                    marks.update(bps)
            elif k == 2:
                m = c.integer(1, 6)
                x = np.sort([c.real(-3, 3) for _ in range(m)])
                y = np.array([[c.real(-5, 5) for _ in range(codom)] for _ in range(m)])
                cvt.update_data(x, y)
                data = x, y
                c.note(f"update_data {x.tolist()} {y.tolist()}")
            else:
                bps = np.sort([c.real(-3, 3) for _ in range(n)])
                marks.update(bps)
                c.note(f"marks {bps.tolist()}")
                lo, hi = data[1].min(axis=0), data[1].max(axis=0)
                for j in range(codom):
                    for ln in marks.lines_[j]:
                        y = np.asarray(ln.get_ydata(), float)
                        if np.isfinite(lo[j]) and np.isfinite(hi[j]):
                            c.require(y.min() <= lo[j] and y.max() >= hi[j], "a mark does not span the curve")
            for j in range(codom):
                mine = [ln for ln in ax[j].get_lines() if same_color(ln.get_color(), "red")]
                c.require(len(mine) == 1, "number of curves")
                same(c, mine[0].get_xdata(), data[0], f"instants of component {j}")
                same(c, mine[0].get_ydata(), data[1][:, j], f"values of component {j}")
                xs = sorted(ln.get_xdata()[0] for ln in ax[j].get_lines() if same_color(ln.get_color(), "blue"))
                same(c, xs, bps, f"marks of component {j}")
    finally:
        plt.close("all")
    c.mark()


if __name__ == "__main__":
    sys.exit(main(sys.argv))
