"""Resampling and simplification of contours, wrapping of lines, grouping of sorted values."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ident
from ..core import Facet

RULE = (
    "Cases are closed contours, lines with undefined points, sorted tables of groups or sets of values, with one of the transformations; a case is non-trivial when the "
    "transformation removes, adds or moves at least one point (or when there are at least two groups or windows)."
)
ASSUMPTIONS = [
    "Contours are in general position (two triangles of the simplification never have the same area within rounding, no three aligned points for convexity).",
    "Consecutive points of a line to wrap are less than 180 degrees apart.",
]

CONT = dict(seed=gen.SEEDS, n=st.integers(4, 90), rough=st.sampled_from([0.0, 0.1, 0.5]), cw=st.booleans(), dtype=st.sampled_from(["f8", "f8", "f4"]), lon=st.sampled_from([0.0, 359.5, -180.0]), lat=st.sampled_from([-60.0, 0.0, 35.0]), size=st.sampled_from([0.3, 3.0]))


def contour(case):
    r = gen.rng(case["seed"])
    x, y = gen.star(r, case["lon"], case["lat"], case["size"], case["size"] * 0.8, case["n"], case["rough"], case["cw"])
    return r, x.astype(case["dtype"]), y.astype(case["dtype"])


def check_resample(case, ctx):
    from py_eddy_tracker.generic import uniform_resample

    r, x, y = contour(case)
    n = case["n"] + 1
    if case["extra"] == "repeat":
        k = int(r.integers(0, n))
        x, y = np.insert(x, k, x[k]), np.insert(y, k, y[k])
        n += 1
    if case["mode"] == "fixed":
        m = int(r.integers(3, 120))
        gx, gy = uniform_resample(x, y, fixed_size=m)
    elif case["mode"] == "factor":
        f = int(r.integers(1, 5))
        m = n * f
        gx, gy = uniform_resample(x, y, num_fac=f)
    else:
        m = n * 2
        gx, gy = uniform_resample(x, y)
    ctx.nontrivial(m != n)
    ctx.label(case["mode"], case["dtype"])
    assert gx.shape == gy.shape == (m,), (gx.shape, m)
    wx, wy = ident.resample(x.astype("f8"), y.astype("f8"), m)
    tol = 3e-4 if case["dtype"] == "f4" else 1e-6
    assert np.allclose(gx, wx, atol=tol) and np.allclose(gy, wy, atol=tol), (abs(gx - wx).max(), abs(gy - wy).max())
    assert abs(gx[0] - x[0]) <= 1e-6 * 360 and abs(gx[-1] - x[-1]) <= 1e-6 * 360 and abs(gy[0] - y[0]) < 1e-4 and abs(gy[-1] - y[-1]) < 1e-4


def _visvalingam(x, y, size):
    """Naive removal; None when two candidates are too close."""
    idx = list(range(len(x) - 1)) if (x[0] == x[-1] and y[0] == y[-1]) else list(range(len(x)))
    px, py = x.astype("f8"), y.astype("f8")
    ambiguous = False
    total = abs(gen.shoelace(px, py)) + 1e-30
    while len(idx) > size - 1:
        k = len(idx)
        areas = []
        for t in range(k):
            a, b, c = idx[t - 1], idx[t], idx[(t + 1) % k]
            areas.append(abs((px[b] - px[a]) * (py[c] - py[a]) - (px[c] - px[a]) * (py[b] - py[a])))
        o = np.argsort(areas, kind="stable")
        if k > 1 and areas[o[1]] - areas[o[0]] < (1e-9 if x.dtype == "f8" else 3e-5) * total:
            ambiguous = True
        idx.pop(o[0])
    return idx, ambiguous


def check_visvalingam(case, ctx):
    from py_eddy_tracker.poly import visvalingam

    r, x, y = contour(case)
    if case["rot"]:
        k = int(r.integers(1, case["n"]))
        x, y = np.r_[x[k:-1], x[: k + 1]], np.r_[y[k:-1], y[: k + 1]]
    if case["open"]:
        x, y = x[:-1], y[:-1]
    size = case["fixed"]
    nb = case["n"]
    x_, y_ = x.copy(), y.copy()
    gx, gy = visvalingam(x, y, fixed_size=size)
    assert np.array_equal(x, x_) and np.array_equal(y, y_), "contour was modified"
    assert gx.shape == gy.shape == (size,) and gx.dtype == x.dtype
    ctx.nontrivial(nb > size - 1)
    ctx.label("removed" if nb > size - 1 else "short", "open" if case["open"] else "closed", case["dtype"])
    # closed, and made of points of the contour in their order
    assert gx[0] == gx[-1] and gy[0] == gy[-1], "not closed"
    pts = {(a, b): k for k, (a, b) in reversed(list(enumerate(zip(x.tolist(), y.tolist()))))}
    ind = [pts.get((a, b)) for a, b in zip(gx.tolist(), gy.tolist())]
    assert None not in ind, "point which is not of the contour"
    m = min(nb, size - 1)
    body = ind[:m]
    turn = int(np.argmin(body))
    body = body[turn:] + body[:turn]
    assert all(a < b for a, b in zip(body, body[1:])), ind
    assert all(k == ind[0] for k in ind[m:]), ("end must repeat the first point", ind)
    want, ambiguous = _visvalingam(x, y, size)
    if ambiguous:
        ctx.label("ambiguous")
    else:
        assert body == want, (body, want)


def check_hull(case, ctx):
    from py_eddy_tracker.poly import convex, convexs, get_convex_hull, reduce_size

    r, x, y = contour(dict(case, dtype="f8"))
    if case["rough"] == 0:
        t = np.linspace(0, 2 * np.pi, case["n"] + 1) * (-1 if case["cw"] else 1) + r.uniform(0, 6)
        x, y = case["lon"] + 2 * np.cos(t), case["lat"] + np.sin(t)
        x[-1], y[-1] = x[0], y[0]
    # reference hull, monotone chain
    pts = sorted(zip(x[:-1].tolist(), y[:-1].tolist()))

    def half(p):
        out = []
        for q in p:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (q[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (q[0] - out[-2][0]) <= 1e-12:
                out.pop()
            out.append(q)
        return out[:-1]

    hull = half(pts) + half(pts[::-1])
    is_convex = len(hull) == len(pts)
    ctx.label("convex" if is_convex else "concave", "cw" if case["cw"] else "ccw")
    ctx.nontrivial(True)
    cr = np.array([(x[k + 1] - x[k]) * (y[(k + 2) if k + 2 < x.size else 1] - y[k]) - (y[k + 1] - y[k]) * (x[(k + 2) if k + 2 < x.size else 1] - x[k]) for k in range(x.size - 1)])
    if abs(cr).min() > 1e-9:
        assert bool(convex(x, y)) == is_convex, is_convex
        assert list(convexs(np.array([x, x[::-1]]), np.array([y, y[::-1]]))) == [is_convex] * 2
    if not case["cw"] and case["n"] > 4 and abs(cr).min() > 1e-9:
        hx, hy = get_convex_hull(x, y)
        assert hx[0] == hx[-1] and hy[0] == hy[-1]
        assert set(zip(hx.tolist(), hy.tolist())) == set(hull), (len(hx), len(hull))
        assert convex(hx, hy)
    # end filled with the first point
    k = int(r.integers(0, 6))
    xp, yp = np.r_[x[:-1], np.full(k, x[0])], np.r_[y[:-1], np.full(k, y[0])]
    rx, ry = reduce_size(xp, yp)
    assert np.array_equal(rx, x[:-1]) and np.array_equal(ry, y[:-1]), (rx.size, x.size)


LINE = dict(seed=gen.SEEDS, n=st.integers(1, 40), nan=st.sampled_from([0.0, 0.15, 0.5, 0.95]), step=st.sampled_from([0.05, 0.5, 8.0]), dtype=st.sampled_from(["f8", "f4"]))


def check_simplify(case, ctx):
    from py_eddy_tracker.generic import flatten_line_matrix, simplify, split_line

    r = gen.rng(case["seed"])
    n, dt = case["n"], case["dtype"]
    x, y = np.cumsum(r.normal(0, case["step"], (2, n)), axis=1).astype(dt)
    hole = r.uniform(0, 1, n) < case["nan"]
    x[hole] = np.nan
    if r.uniform() < 0.5:
        y[hole] = np.nan
    p = float(r.choice([0.1, 0.5, 1.0]))
    # documented: points closer than precision of the last kept point are removed
    keep, last, near = [], None, False
    prev_nan = False
    for k in range(n):
        if hole[k]:
            if last is not None and not prev_nan:
                keep.append(k)
            prev_nan = True
            continue
        prev_nan = False
        if last is None:
            keep.append(k)
            last = k
            continue
        d = float(x[k] - x[last]) ** 2 + float(y[k] - y[last]) ** 2
        near |= abs(d - p * p) < 1e-6
        if d > p * p:
            keep.append(k)
            last = k
    if last is None:
        keep = []
    if not near:
        gx, gy = simplify(x, y, precision=p)
        ctx.nontrivial(0 < len(keep) < n)
        ctx.label("nan" if hole.any() else "plain")
        assert np.array_equal(gx, x[keep], equal_nan=True) and np.array_equal(gy, y[keep], equal_nan=True), (gx, x[keep])
        assert gx.dtype == x.dtype
    # lines of a matrix
    rows, s = int(r.integers(0, 6)), int(r.integers(1, 8))
    m = r.uniform(0, 1, (rows, s)).astype(dt)
    # memory beside the result must stay as it was: many arrays to catch it
    g = [flatten_line_matrix(m) for _ in range(20)]
    want = np.concatenate([np.r_[row, np.nan] for row in m])[:-1] if rows else np.array([np.nan])
    for g_ in g:
        assert np.array_equal(g_, want.astype(dt), equal_nan=True), (g_, want)
    # one line for each group
    i = np.sort(r.integers(0, max(1, n // 4) + 1, n)) if r.uniform() < 0.7 else r.integers(0, 3, n)
    gx, gy = split_line(x, y, i)
    wx, wy = [], []
    for k in range(n):
        if k and i[k] != i[k - 1]:
            wx.append(np.nan)
            wy.append(np.nan)
        wx.append(x[k])
        wy.append(y[k])
    assert np.array_equal(gx, np.array(wx, dt), equal_nan=True) and np.array_equal(gy, np.array(wy, dt), equal_nan=True)


def check_wrap(case, ctx):
    from py_eddy_tracker.generic import wrap_longitude

    r = gen.rng(case["seed"])
    n, dt = case["n"], case["dtype"]
    x = case["start"] + np.cumsum(r.normal(0, case["step"] * 10, n))
    x[r.uniform(0, 1, n) < case["nan"] * 0.5] = np.nan
    if case["wrapped"] is not None:
        x = (x - case["wrapped"]) % 360 + case["wrapped"]
    x, y = x.astype(dt), np.arange(n).astype(dt)
    ref = case["ref"]
    w = (x.astype("f8") - ref) % 360 + ref
    if np.nanmin(np.r_[1e9, w - ref, ref + 360 - w]) < 1e-3:
        return
    gx, gy = wrap_longitude(x, y, ref)
    assert np.array_equal(gy, y, equal_nan=True) and np.allclose(gx, w, atol=1e-4, equal_nan=True)
    gx, gy = wrap_longitude(x, y, ref, cut=True)
    assert gx.size == gy.size
    d = np.diff(w)
    cross = np.flatnonzero(abs(d) > 180)
    ctx.nontrivial(cross.size > 0)
    ctx.label("cut" if cross.size else "uncut", "wrapped" if case["wrapped"] is not None else "continuous")
    want_x, want_y = [], []
    for k in range(n):
        if k and k - 1 in cross:
            s = 360 if w[k] < w[k - 1] else -360
            want_x += [w[k] + s, np.nan, w[k - 1] - s]
            want_y += [y[k], np.nan, y[k - 1]]
        want_x.append(w[k])
        want_y.append(y[k])
    assert gx.size == len(want_x), (gx.size, len(want_x), cross)
    assert np.allclose(gx, want_x, atol=1e-3, equal_nan=True) and np.allclose(gy, want_y, atol=1e-6, equal_nan=True), (gx, want_x)
    # what is drawn never jumps over the map
    step = np.diff(gx)
    assert not (abs(step[np.isfinite(step)]) > 180).any()


def check_groups(case, ctx):
    from py_eddy_tracker.generic import build_index, count_consecutive, cumsum_by_track, hist_numba, reverse_index, window_index

    r = gen.rng(case["seed"])
    n = case["n"]
    base = int(r.choice([0, -5, 1000]))
    g = np.sort(r.integers(0, case["span"], n)) + base
    first, last, ref = build_index(g)
    ctx.nontrivial(len(np.unique(g)) > 1)
    assert ref == g.min() and first.size == last.size == g.max() - g.min() + 1
    for k in range(first.size):
        want = np.flatnonzero(g == ref + k)
        assert np.array_equal(np.arange(first[k], last[k]), want), (k, first[k], last[k], want)
    # reverse and consecutive
    sel = r.integers(0, n, int(r.integers(0, n + 1)))
    assert reverse_index(sel, n).tolist() == [k for k in range(n) if k not in set(sel.tolist())]
    m = r.uniform(0, 1, n) < 0.6
    c, want = 0, []
    for v in m:
        c = c + 1 if v else 0
        want.append(c)
    assert count_consecutive(m).tolist() == want
    # cumulative sum of each track
    v = r.integers(-5, 50, n).astype(case["kind"])
    got = cumsum_by_track(v, g)
    acc, want = {}, []
    for t, q in zip(g.tolist(), v.tolist()):
        acc[t] = acc.get(t, 0) + q
        want.append(acc[t])
    assert np.allclose(got, want, atol=1e-4) and got.dtype == v.dtype
    # windows, values out of any order, centers sorted
    x = np.round(r.uniform(0, 20, n), 1 if case["ties"] else 12)
    x0 = np.sort(np.round(r.uniform(-3, 23, int(r.integers(1, 8))), 1 if case["ties"] else 12))
    h = float(r.choice([0.5, 2.0, 30.0]))
    order, i0, i1 = window_index(x, x0, h)
    assert sorted(order.tolist()) == list(range(n)) and (np.diff(x[order]) >= 0).all()
    for k, c in enumerate(x0):
        got = set(order[i0[k] : i1[k]].tolist())
        sure = {int(j) for j in np.flatnonzero(abs(x - c) < h - 1e-9)}
        maybe = {int(j) for j in np.flatnonzero(abs(x - c) <= h + 1e-9)}
        assert sure <= got <= maybe, (k, c, h, got, sure)
    b = np.linspace(-1, 21, 9)
    assert np.array_equal(hist_numba(x, b)[0], np.histogram(x, b)[0])


def check_merge(case, ctx):
    """Area covered by several contours."""
    from py_eddy_tracker.poly import merge

    r = gen.rng(case["seed"])
    k = case["k"]
    n = 12
    cs = [gen.star(r, r.uniform(0, case["spread"]), r.uniform(0, case["spread"]), r.uniform(0.3, 1.5), r.uniform(0.3, 1.5), n, 0.1) for _ in range(k)]
    x, y = np.array([c[0] for c in cs]), np.array([c[1] for c in cs])
    gx, gy = merge(x, y)
    assert gx.size == gy.size and np.isnan(gx[0])
    cut = np.flatnonzero(np.isnan(gx)).tolist() + [gx.size]
    rings = [(gx[a + 1 : b], gy[a + 1 : b]) for a, b in zip(cut, cut[1:])]
    ctx.nontrivial(k > 1)
    ctx.label(f"rings{min(len(rings), 4)}")
    px, py = r.uniform(-2, case["spread"] + 2, (2, 300))
    inside, odd, dist = np.zeros(300, bool), np.zeros(300, bool), np.full(300, 9.0)
    for c in cs:
        i, d = gen.point_in(*c, px, py)
        inside |= i
        dist = np.minimum(dist, d)
    for c in rings:
        i, _ = gen.point_in(*c, px, py)
        odd ^= i
    m = dist > 1e-6
    assert np.array_equal(odd[m], inside[m]), int((odd[m] != inside[m]).sum())


FACETS = [
    Facet("resample", lambda: st.fixed_dictionaries(dict(CONT, mode=st.sampled_from(["fixed", "factor", "default"]), extra=st.sampled_from(["none", "repeat"]))), check_resample, quick=300),
    Facet("visvalingam", lambda: st.fixed_dictionaries(dict(CONT, fixed=st.integers(4, 50), rot=st.booleans(), open=st.booleans())), check_visvalingam, quick=400),
    Facet("convexity", lambda: st.fixed_dictionaries(CONT), check_hull, quick=300),
    Facet("simplify", lambda: st.fixed_dictionaries(LINE), check_simplify, quick=400),
    Facet("wrap", lambda: st.fixed_dictionaries(dict(LINE, start=st.sampled_from([0.0, 355.0, -170.0]), ref=st.sampled_from([-180, 0, 20.5, -300, 355.2, -170.3, 0.4]), wrapped=st.sampled_from([None, 0, -180]))), check_wrap, quick=1000),
    Facet("groups", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, n=st.integers(1, 40), span=st.sampled_from([1, 3, 15, 60]), kind=st.sampled_from(["i8", "f4", "f8"]), ties=st.booleans())), check_groups, quick=300),
    Facet("union", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, k=st.integers(1, 7), spread=st.sampled_from([0.5, 3.0, 10.0]))), check_merge, quick=200),
]
