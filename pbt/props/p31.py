"""Level contours of a grid."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from .p30 import inside, near, new_ax

RULE = (
    "Cases are fields (sums of bumps and noise, with masked cells, on regional or global grids from any first meridian) with levels; contours are compared with those of an independent "
    "marching through the cells of the grid. A case is non-trivial when it has at least two closed contours (one for drawings)."
)
ASSUMPTIONS = [
    "Levels are never equal to a value of the grid; contours which go round the globe are not judged; open contours with ends closer than 0.02 degree may be closed or not.",
    "A position at the same distance of two contours is not judged, nor an eddy closer than 1e-3 degree of a contour.",
]

GRID = dict(
    seed=gen.SEEDS, nx=st.integers(4, 30).map(lambda v: 34 - v), ny=st.integers(4, 22).map(lambda v: 26 - v), circular=st.booleans(), step=st.sampled_from([0.25, 1.0, 2.0]), x0=st.sampled_from([0.0, -180.0, 350.125, 20.0]),
    noise=st.sampled_from([0.0, 0.05, 0.5]), mask=st.sampled_from([0, 0, 0.03, 0.15]), nb=st.integers(1, 9).map(lambda v: 10 - v), bumps=st.integers(0, 6).map(lambda v: 6 - v), fortran=st.booleans(),
)


def build(case):
    r = gen.rng(case["seed"])
    nx = case["nx"] if not case["circular"] else max(case["nx"], 8)
    sx = 360 / nx if case["circular"] else case["step"]
    sy = sx if not case["circular"] else min(sx, 150 / case["ny"])
    x, y = case["x0"] + np.arange(nx) * sx, -20 + np.arange(case["ny"]) * sy
    z = case["noise"] * r.normal(size=(nx, y.size))
    for _ in range(case["bumps"]):
        w = r.uniform(1, 4)
        i, j = r.uniform(0, nx), r.uniform(0, y.size)
        di = np.arange(nx) - i
        if case["circular"]:
            di = (di + nx / 2) % nx - nx / 2
        z = z + r.choice([-1, 1]) * r.uniform(0.3, 1) * np.exp(-(di[:, None] ** 2 + (np.arange(y.size) - j) ** 2) / (2 * w**2))
    m = r.uniform(0, 1, z.shape) < case["mask"]
    if case["fortran"]:
        z = np.asfortranarray(z)
    z = np.ma.array(z, mask=m)
    lo, hi = (float(z.min()), float(z.max())) if (~m).any() else (0.0, 1.0)
    if hi - lo < 1e-6:
        levels = np.linspace(lo - 0.5, hi + 0.5, case["nb"] + 1)[:-1] + 0.0123
    else:
        levels = np.linspace(lo - 0.05 * (hi - lo), hi + 0.05 * (hi - lo), case["nb"] + 2)[1:-1]
        v = np.sort(z.compressed())
        for k, l in enumerate(levels):
            # in the widest gap around
            i = np.searchsorted(v, l)
            c = [(v[a + 1] - v[a], a) for a in range(max(i - 3, 0), min(i + 3, v.size - 1))]
            if c:
                a = max(c)[1]
                levels[k] = (v[a] + v[a + 1]) / 2
        levels = np.unique(levels)
        levels = levels[[np.abs(v - l).min() > 1e-6 * (hi - lo) for l in levels]]
    return r, x, y, sx, sy, z, m, levels


def march(x, y, sx, sy, z, m, level, circular):
    """Closed contours as lists of nodes, open ones, and position of nodes"""
    nx, ny = z.shape
    d = z.data
    up = d > level
    pos, link = dict(), dict()

    def corner(k, i, j):
        a, b = [(0, 0), (1, 0), (1, 1), (0, 1)][k]
        return i + a, j + b

    def node(i, j, p, q):
        (a, b), (c, e) = sorted((corner(p, i, j), corner(q, i, j)))
        key = (a % nx, b, c % nx, e) if a % nx != c % nx or a == c else None
        ua, ub = d[a % nx, b], d[c % nx, e]
        t = (level - ua) / (ub - ua)
        pos[key] = (x[0] + (a + t * (c - a)) * sx, y[0] + (b + t * (e - b)) * sy)
        return key

    def join(a, b):
        link.setdefault(a, []).append(b)
        link.setdefault(b, []).append(a)

    for i in range(nx if circular else nx - 1):
        for j in range(ny - 1):
            ks = [k for k in range(4) if not m[corner(k, i, j)[0] % nx, corner(k, i, j)[1]]]
            if len(ks) < 3:
                continue
            s = [up[corner(k, i, j)[0] % nx, corner(k, i, j)[1]] for k in ks]
            n = len(ks)
            cuts = [node(i, j, ks[k], ks[(k + 1) % n]) for k in range(n) if s[k] != s[(k + 1) % n]]
            if len(cuts) == 2:
                join(*cuts)
            elif len(cuts) == 4:
                mid = np.mean([d[corner(k, i, j)[0] % nx, corner(k, i, j)[1]] for k in range(4)]) > level
                # corners of the same side than the middle are together
                if mid == s[0]:
                    join(cuts[0], cuts[1]), join(cuts[2], cuts[3])
                else:
                    join(cuts[3], cuts[0]), join(cuts[1], cuts[2])
    closed, opened, seen = [], [], set()
    for k in link:
        if k in seen:
            continue
        comp, todo = [], [k]
        seen.add(k)
        while todo:
            a = todo.pop()
            comp.append(a)
            for b in link[a]:
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        ends = [a for a in comp if len(link[a]) < 2]
        (opened if ends else closed).append((comp, ends))
    good, around = [], []
    for comp, _ in closed:
        # total turn in longitude
        a = b = comp[0]
        prev, turn, xs = None, 0.0, [0.0]
        while True:
            nxt = [c for c in link[b] if c != prev] or link[b]
            prev, b, c = b, nxt[0], b
            turn += gen.wrap180(pos[b][0] - pos[c][0])
            xs.append(turn)
            if b == a:
                break
        (around if abs(turn) > 180 or np.ptp(xs) >= 360 - 2 * sx else good).append(comp)
    return good, around, opened, pos


def assign(v, keys, p, tol):
    """Node of each vertex"""
    dx, dy = gen.wrap180(v[:, 0][:, None] - p[:, 0]), v[:, 1][:, None] - p[:, 1]
    d = np.hypot(dx, dy)
    k = d.argmin(axis=1)
    assert d[np.arange(len(v)), k].max() < tol, f"a vertex is at {d.min(axis=1).max()} of the level"
    return frozenset(keys[i] for i in k)


def check_lines(case, ctx):
    from py_eddy_tracker.eddy_feature import Contours

    r, x, y, sx, sy, z, m, levels = build(case)
    if not levels.size:
        return
    kept = z.copy()
    keep = case["keep"]
    c = Contours(x, y, z, levels, wrap_x=case["circular"], keep_unclose=keep)
    assert (z.data == kept.data).all() and (z.mask == kept.mask).all(), "field changed"
    assert near(c.levels, levels, 1e-12) and near(c.cvalues, levels, 1e-12), "levels"
    cols = c.iter()
    assert len(cols) == levels.size
    total = 0
    for level, col in zip(levels, cols):
        good, around, opened, pos = march(x, y, sx, sy, z, m, level, case["circular"])
        keys = list(pos)
        p = np.array([pos[k] for k in keys]).reshape(-1, 2)
        want = {frozenset(k) for k in good}
        unsure = {frozenset(k) for k in around}
        for comp, ends in opened:
            a, b = (np.array(pos[k]) for k in (ends * 2)[:2])
            if np.hypot(gen.wrap180(a[0] - b[0]), a[1] - b[1]) < 0.02:
                unsure.add(frozenset(comp))
        total += len(want)
        got = set()
        for path in col.get_paths():
            v = path.vertices
            assert len(v) >= 4
            nodes = assign(v, keys, p, 1e-6)
            assert np.abs(np.diff(v[:, 0])).max() <= sx * 1.001 and np.abs(np.diff(v[:, 1])).max() <= sy * 1.001, "a contour jumps"
            assert (path.xmin, path.ymin) == tuple(v.min(axis=0)) and (path.xmax, path.ymax) == tuple(v.max(axis=0)), "box of a contour"
            assert not path.used and path.reject == 0
            shut = (v[0] == v[-1]).all()
            if not keep:
                assert shut, "contour which is not closed"
            if nodes in want:
                assert shut, f"contour of {level} is not closed"
                assert nodes not in got, "contour found twice"
                got.add(nodes)
            elif not keep and not any(nodes <= u for u in unsure):
                raise AssertionError(f"contour of {level} which is not a closed contour of the field: {v}")
        lost = want - got
        assert not lost, f"{len(lost)} of {len(want)} closed contours of {level} not found: {[sorted(pos[k] for k in w) for w in list(lost)[:1]]}"
    sl = (case["a"], case["b"], case["c"])
    assert list(c.iter(*sl)) == list(c.contours.collections)[slice(*sl)]
    ctx.nontrivial(total > 1)
    ctx.label("global" if case["circular"] else "regional", "mask" if m.any() else "no mask", "unclosed kept" if keep else "closed only")


def check_nearest(case, ctx):
    from py_eddy_tracker.eddy_feature import Contours

    r, x, y, sx, sy, z, m, levels = build(case)
    if not levels.size:
        return
    c = Contours(x, y, z, levels, wrap_x=case["circular"])
    total = 0
    for _ in range(60):
        k = int(r.integers(0, levels.size))
        paths = c.contours.collections[k].get_paths()
        px, py = r.uniform(x[0], x[-1]), r.uniform(y[0], y[-1])
        if paths and r.integers(0, 2):
            v = paths[r.integers(0, len(paths))].vertices
            px, py = v.mean(axis=0) + r.normal(size=2) * 0.3 * sx
            if len(paths) > 1 and r.integers(0, 2):
                # near the first contour, maybe in the box of another one
                px, py = paths[0].vertices[0] + r.normal(size=2) * 1.5 * sx
        px += 360 * r.integers(-1, 2)
        best = []
        for i, q in enumerate(paths):
            v = q.vertices
            (x0, y0), (x1, y1) = v.min(axis=0), v.max(axis=0)
            if y0 <= py <= y1 and (px - x0) % 360 + x0 <= x1:
                best.append((np.hypot(gen.wrap180(v[:, 0] - px), v[:, 1] - py).min(), i))
        best.sort()
        got = c.contours.collections[k].get_nearest_path_bbox_contain_pt(px, py)
        if not best:
            assert got is None, "a contour is found whose box does not contain the position"
            continue
        total += 1
        if len(best) > 1:
            ctx.label("choice between several contours")
            if best[1][0] - best[0][0] < 1e-9:
                continue
        assert got is paths[best[0][1]], f"nearest contour of {px, py} at {levels[k]}: {None if got is None else paths.index(got)} instead of {best[0][1]} ({best})"
    ctx.nontrivial(total > 1)


def eddies_of(case, r, c, levels, x, y):
    from py_eddy_tracker.observations.observation import EddiesObservations

    n = case["n"]
    o = EddiesObservations(size=n, track_extra_variables=["height_max_speed_contour", "height_external_contour", "height_inner_contour", "lon_max", "lat_max"])
    for i in range(n):
        k = int(r.integers(0, levels.size))
        o.obs["height_external_contour"][i] = levels[k]
        px, py = r.uniform(x[0], x[-1]), r.uniform(y[0], y[-1])
        near_ = [q for j in (k - 1, k, k + 1) if 0 <= j < levels.size for q in c.contours.collections[j].get_paths()]
        if near_ and r.integers(0, 4):
            q = near_[r.integers(0, len(near_))]
            px, py = q.vertices.mean(axis=0) + r.normal(size=2) * 0.2 * (x[1] - x[0])
        o.obs["lon_max"][i], o.obs["lat_max"][i] = px % 360, py
    return o


def labels(case, r, c, levels, x, y, ctx):
    """Label contours of both polarities, return those which contain several eddies and those which are not sure"""
    want, unsure = set(), set()
    for sign in r.permutation([-1, 1]):
        o = eddies_of(case, r, c, levels, x, y)
        o.sign_type = int(sign)
        before = o.obs.copy()
        c.label_contour_unused_which_contain_eddies(o)
        assert before.tobytes() == o.obs.tobytes()
        for k, col in enumerate(c.contours.collections):
            k_eddy = k + int(sign)
            if not 0 <= k_eddy < levels.size:
                continue
            here = np.abs(o.obs["height_external_contour"] - levels[k_eddy]) < 1e-6 * max(1e-2, abs(levels[k_eddy]))
            for q in col.get_paths():
                if q.used:
                    continue
                lx, ly = o.obs["lon_max"][here].astype("f8"), o.obs["lat_max"][here].astype("f8")
                w, close = inside((lx - q.xmin) % 360 + q.xmin, ly, q.vertices[:, 0], q.vertices[:, 1])
                if (w & ~close).sum() > 1:
                    want.add(id(q))
                elif (w | close).sum() > 1:
                    unsure.add(id(q))
    return want, unsure - want


def check_labels(case, ctx):
    from py_eddy_tracker.eddy_feature import Contours

    r, x, y, sx, sy, z, m, levels = build(case)
    levels = levels * 0.8
    z = z * 0.8
    if levels.size < 2 or np.diff(levels).min() < 1e-4:
        return
    c = Contours(x, y, z, levels, wrap_x=case["circular"])
    paths = [q for col in c.contours.collections for q in col.get_paths()]
    for q in paths:
        q.used = bool(r.integers(0, 4) == 0)
    want, unsure = labels(case, r, c, levels, x, y, ctx)
    ctx.nontrivial(len(paths) > 1 and bool(want))
    for q in paths:
        if id(q) not in unsure:
            assert bool(q.contain_eddies) == (id(q) in want), f"contour of {len(q.vertices)} vertices labelled {q.contain_eddies}"


def check_display(case, ctx):
    from matplotlib import colormaps
    from matplotlib.colors import to_rgba
    import py_eddy_tracker.dataset.grid  # noqa: F401 methods of contours
    from py_eddy_tracker.eddy_feature import Contours

    r, x, y, sx, sy, z, m, levels = build(case)
    if levels.size < 2 or np.diff(levels).min() < 1e-4:
        return
    c = Contours(x, y, z, levels, wrap_x=case["circular"])
    cols = list(c.contours.collections)
    for col in cols:
        for q in col.get_paths():
            q.used = bool(r.integers(0, 2))
            q.reject = 0 if q.used else int(r.integers(0, 5))
    labels(case, r, c, levels, x, y, ctx)
    only = case["only"]
    kw = dict() if only is None else {only: True}
    if case["color"]:
        kw["color"] = "b"
        kw["label"] = "contours"
    how, step = case["how"], case["step_"]
    ax = new_ax()

    def selected(q):
        return only is None or dict(only_used=q.used, only_unused=not q.used, only_contain_eddies=q.contain_eddies)[only]

    want = dict()
    drawn = [(k, q) for k, col in list(enumerate(cols))[::step] for q in col.get_paths() if selected(q)]
    colors = dict(zip(range(5), ("limegreen", "red", "mediumblue", "black", "gold")))
    if how in ("shape_error", "x", "y", "radius"):
        kw.pop("color", None), kw.pop("label", None)
        i = ("x", "y", "radius", "shape_error").index(how)
        v = np.array([q.fit_circle()[i] for _, q in drawn])
        bins = np.linspace(np.percentile(v, 20), np.percentile(v, 80), 5) if v.size and np.ptp(v) > 1e-9 else np.linspace(0, 1, 5)
        kw.update(field=how, bins=bins, cmap="jet")
    elif how == "criterion":
        kw.pop("color", None), kw.pop("label", None)
        kw["display_criterion"] = True
    c.display(ax, step=step, **kw)
    for k, q in drawn:
        if how == "criterion":
            col = to_rgba(colors[q.reject])
        elif how == "simple":
            col = to_rgba("b") if case["color"] else tuple(np.asarray(cols[k].get_edgecolor())[0])
        else:
            b = int((bins <= q.fit_circle()[i]).sum())
            col = colormaps["jet"].resampled(4)(min(max(b - 1, 0), 3))
        want.setdefault(tuple(round(float(a), 5) for a in col), []).append(q.vertices)
    got = dict()
    for a in ax.collections:
        for s in a.get_segments():
            got.setdefault(tuple(round(float(b), 5) for b in np.asarray(a.get_edgecolor())[0]), []).append(s)
    assert set(got) == set(want), f"colours {set(got)} instead of {set(want)}"
    for k in want:
        assert sorted(v.tobytes() for v in want[k]) == sorted(np.asarray(v).tobytes() for v in got[k]), f"contours drawn in {k}"
    if "label" in kw:
        assert [a.get_label() for a in ax.collections].count("contours") == 1, "label of the contours"
    ctx.nontrivial(bool(drawn))
    ctx.label(how, str(only))


SLICE = dict(a=st.sampled_from([None, 0, 1, 3]), b=st.sampled_from([None, 2, -1]), c=st.sampled_from([None, 1, -1, 2]))
FACETS = [
    Facet("lines", lambda: st.fixed_dictionaries(dict(GRID, keep=st.sampled_from([False, False, False, True]), **SLICE)), check_lines, 350, 4000),
    Facet("nearest", lambda: st.fixed_dictionaries(GRID), check_nearest, 200, 2000),
    Facet("labels", lambda: st.fixed_dictionaries(dict(GRID, n=st.integers(2, 30))), check_labels, 200, 2000),
    Facet(
        "display",
        lambda: st.fixed_dictionaries(dict(
            GRID, n=st.integers(2, 20), only=st.sampled_from([None, "only_used", "only_unused", "only_contain_eddies"]), how=st.sampled_from(["simple", "simple", "criterion", "shape_error", "x", "y", "radius"]),
            step_=st.sampled_from([1, 1, 2, 3]), color=st.booleans(),
        )),
        check_display, 150, 1500,
    ),
]
