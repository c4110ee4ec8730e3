"""Points and grid pixels inside contours."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet

RULE = (
    "Cases are a set of simple closed contours (optionally padded with their first point, clockwise or not, on any 360-degree branch), together with points, "
    "grids (global starting at any meridian, or regional with contours crossing every border) or meshes; a case is non-trivial when at least one point or pixel "
    "is inside a contour."
)
ASSUMPTIONS = [
    "Contours are simple, narrower than 180 degrees and continuous in longitude; points closer than 2e-4 degree to a contour line are not judged."
]
EPS = 2e-4


def contours(case, r, n):
    out = []
    for k in range(n):
        x, y = gen.star(
            r, case["ref"] + r.uniform(-case["spread"], case["spread"]), case["lat"] + r.uniform(-case["spread"], case["spread"]),
            r.uniform(0.3, 3), r.uniform(0.3, 3), int(r.integers(3, case["nv"] + 1)), rough=r.choice([0, 0.2, 0.45]), cw=bool(r.integers(2)))
        x = x + 360 * int(r.choice(case["branches"]))
        pad = case["nv"] + 1 - x.size
        x, y = np.r_[x, np.full(pad, x[0])], np.r_[y, np.full(pad, y[0])]
        out.append((x, y))
    return out


def as_obs(conts, nv, intern):
    o = gen.make_obs(len(conts), nv + 1)
    s, d = ("s", "e") if intern else ("e", "s")
    for k, (x, y) in enumerate(conts):
        o.obs["contour_lon_" + s][k], o.obs["contour_lat_" + s][k] = x, y
        o.obs["contour_lon_" + d][k], o.obs["contour_lat_" + d][k] = x + 20, y
        o.obs["lon"][k], o.obs["lat"][k] = x.mean(), y.mean()
    return o


def locate(cx, cy, px, py):
    """inside flag and distance, whatever the 360 branch."""
    c0 = (cx.astype("f8").min() + cx.astype("f8").max()) / 2
    px = gen.wrap180(np.asarray(px, "f8") - c0) + c0
    return gen.point_in(cx.astype("f8"), cy.astype("f8"), px, py)


BASE = dict(
    seed=gen.SEEDS,
    ref=st.sampled_from([0.0, 0.0, 359.7, 180.0, -180.0, 100.0, 12.3]),
    lat=st.sampled_from([0.0, 42.5, -77.0, 86.0]),
    spread=st.sampled_from([0.5, 3.0]),
    nv=st.integers(4, 18),
    branches=st.sampled_from([[0], [0], [0, 1, -1], [1], [-1]]),
)


def points(case, r, n):
    px = case["ref"] + r.uniform(-7, 7, n)
    py = np.clip(case["lat"] + r.uniform(-6, 6, n), -89.9, 89.9)
    # some on integer degrees or just around the branch cut
    k = r.integers(0, 6, n)
    px = np.where(k == 0, np.round(px), px)
    px = np.where(px == 0, -2.2e-16, px)  # what numpy.arange gives in place of 0
    px = np.where(k == 1, np.round(px) - r.choice([3e-6, 1e-6, 1e-7]), px)
    py = np.where(k == 2, np.round(py), py)
    if case["pbranch"] == "0-360":
        px = px % 360
    elif case["pbranch"] == "180":
        px = gen.wrap180(px)
    return px.astype(case["ptype"]), py.astype(case["ptype"])


def strat_contains():
    return st.fixed_dictionaries(
        dict(
            BASE,
            n=st.integers(1, 6),
            npt=st.sampled_from([1, 4, 40, 40]),
            pbranch=st.sampled_from(["raw", "0-360", "180"]),
            ptype=st.sampled_from(["f4", "f8"]),
            intern=st.booleans(),
            nan=st.sampled_from([False, False, True]),
        )
    )


def check_contains(case, ctx):
    r = gen.rng(case["seed"])
    o = as_obs(contours(case, r, case["n"]), case["nv"], case["intern"])
    px, py = points(case, r, case["npt"])
    ok = np.ones(px.size, bool)
    if case["nan"]:
        ok = r.integers(0, 3, px.size) > 0
        px[~ok] = np.nan
    got = o.contains(px, py, intern=case["intern"])
    assert got.shape == px.shape
    assert (got[~ok] == -1).all(), "a point without position is attributed to a contour"
    ins = o.inside(px[ok], py[ok], intern=case["intern"]) if ok.any() else np.zeros(0, bool)
    assert ((got[ok] != -1) == ins).all(), "inside() and contains() disagree"
    s = "s" if case["intern"] else "e"
    flags, near = [], []
    for k in range(len(o)):
        f, d = locate(o["contour_lon_" + s][k], o["contour_lat_" + s][k], px, py)
        flags.append(f), near.append(d < EPS)
    flags, near = np.array(flags), np.array(near)
    for p in np.where(ok)[0]:
        g = got[p]
        sure = flags[:, p] & ~near[:, p]
        ctx.nontrivial(bool(sure.any()))
        if sure.any():
            k = int(np.where(sure)[0][0])
            if abs(float(o["contour_lon_" + s][k].mean()) - float(px[p])) > 180:
                ctx.label("point and contour on different branches")
            assert g != -1, f"point {px[p]!r},{py[p]!r} is inside contour {k} but not attributed"
        if g != -1:
            assert 0 <= g < len(o)
            assert flags[g, p] or near[g, p], f"point {px[p]!r},{py[p]!r} attributed to contour {g}, which does not hold it"


def strat_polygons():
    return st.fixed_dictionaries(
        dict(
            BASE,
            n=st.integers(1, 4),
            npt=st.sampled_from([1, 3, 30, 60]),
            pbranch=st.sampled_from(["raw", "0-360", "180"]),
            ptype=st.just("f4"),
            cover=st.booleans(),
        )
    )


def check_polygons(case, ctx):
    r = gen.rng(case["seed"])
    px, py = points(case, r, case["npt"])
    o = gen.make_obs(px.size)
    o.obs["lon"], o.obs["lat"] = px, py
    polys = contours(case, r, case["n"])
    if case["cover"]:
        c, l = case["ref"], case["lat"]
        polys.insert(int(r.integers(0, len(polys))), (np.array([c - 9, c + 9, c + 9, c - 9, c - 9]), np.array([-90.0, -90, 90, 90, -90])))
    got = o.mask_from_polygons(polys)
    exp, near = np.zeros(px.size, bool), np.zeros(px.size, bool)
    for x, y in polys:
        f, d = locate(x, y, px, py)
        exp |= f & (d > EPS)
        near |= d <= EPS
    judged = exp | ~near
    ctx.nontrivial(bool(exp.any()))
    ctx.label("all in first" if case["cover"] else "partial")
    bad = np.where(judged & (got != exp))[0]
    assert bad.size == 0, f"observations at {px[bad]},{py[bad]}: got {got[bad]} expected {exp[bad]}"


def make_grid(case, r):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    step = case["step"]
    if case["grid"] == "global":
        x = case["x0"] + np.arange(int(round(360 / step))) * step
    else:
        x = case["ref"] + case["gshift"] + (np.arange(case["gnx"]) - case["gnx"] // 2) * step
    y = case["lat"] + case["gshift_y"] + (np.arange(case["gny"]) - case["gny"] // 2) * step
    y = np.arange(86, 90, step) if (y < 90).sum() < 4 else y[(y > -90) & (y < 90)]
    x, y = x + case["off"], y + case["off"]
    z = np.ma.zeros((x.size, y.size))
    return RegularGridDataset.with_array(("lon", "lat"), dict(z=z, lon=x, lat=y), centered=True), x, y


GRID = dict(
    grid=st.sampled_from(["global", "regional", "regional", "regional"]),
    step=st.sampled_from([0.25, 0.5, 1.0]),
    x0=st.sampled_from([0.0, -180.0, 20.0]),
    gshift=st.sampled_from([0.0, 2.0, -2.0, 4.0]),
    gshift_y=st.sampled_from([0.0, 2.0, -2.0, 5.0]),
    gnx=st.integers(4, 22),
    gny=st.integers(4, 22),
    off=st.sampled_from([0.0, 0.125, 0.03]),
)


def strat_pixels():
    return st.fixed_dictionaries(dict(BASE, **GRID, path=st.booleans()))


def brute_pixels(cx, cy, x, y):
    xx, yy = np.meshgrid(x, y, indexing="ij")
    f, d = locate(cx, cy, xx.ravel(), yy.ravel())
    return f.reshape(xx.shape), (d < EPS).reshape(xx.shape)


def check_pixels(case, ctx):
    r = gen.rng(case["seed"])
    g, x, y = make_grid(case, r)
    (cx, cy), = contours(case, r, 1)
    v = np.array([cx, cy]).T
    if case["path"]:
        from matplotlib.path import Path

        p = Path(v)
        i, j = p.pixels_in(g)
        assert p.nb_pixel == len(i)
    else:
        i, j = g.get_pixels_in(v)
    got = list(zip(np.asarray(i).tolist(), np.asarray(j).tolist()))
    assert len(set(got)) == len(got), "a pixel is listed twice"
    m = np.zeros((x.size, y.size), bool)
    for a, b in got:
        assert 0 <= a < x.size and 0 <= b < y.size, f"pixel {(a, b)} is out of the grid"
        m[a, b] = True
    f, near = brute_pixels(cx, cy, x, y)
    ctx.nontrivial(bool(f.any()))
    ctx.label(case["grid"])
    if case["grid"] == "regional" and f.any():
        if f[0].any():
            ctx.label("on west border")
        if f[:, 0].any():
            ctx.label("on south border")
    elif f.any() and f[0].any() and f[-1].any():
        ctx.label("across the seam")
    bad = np.argwhere((m != f) & ~near)
    assert bad.size == 0, f"pixels {[(int(a), int(b), bool(m[a, b])) for a, b in bad[:6]]} are wrong (grid {x.size}x{y.size})"


def strat_count():
    return st.fixed_dictionaries(dict(BASE, **GRID, n=st.integers(1, 6), intern=st.booleans(), sub=st.booleans(), center=st.sampled_from([False, False, True])))


def check_count(case, ctx):
    r = gen.rng(case["seed"])
    if case["grid"] == "global":
        x0, x1 = case["x0"], case["x0"] + 360
    else:
        x0 = case["ref"] + case["gshift"] - case["gnx"] // 2
        x1 = x0 + case["gnx"]
    y0 = min(85, max(-89, case["lat"] + case["gshift_y"] - case["gny"] // 2))
    y1 = min(89, y0 + case["gny"])
    step = case["step"]
    bins = (x0, x1 + step / 2, step), (y0, y1 + step / 2, step)
    o = as_obs(contours(case, r, case["n"]), case["nv"], case["intern"])
    idx = np.arange(len(o))
    flt = slice(None)
    if case["sub"]:
        idx = np.unique(r.integers(0, len(o), 3))
        flt = idx
    g = o.grid_count(bins, intern=case["intern"], center=case["center"], filter=flt)
    c = g.grid("count")
    x, y = g.x_c, g.y_c
    xb, yb = np.arange(*bins[0]), np.arange(*bins[1])
    assert np.allclose(x, (xb[1:] + xb[:-1]) / 2) and np.allclose(y, (yb[1:] + yb[:-1]) / 2)
    lo, hi = np.zeros(c.shape, int), np.zeros(c.shape, int)
    s = "s" if case["intern"] else "e"
    for k in idx:
        if case["center"]:
            px = (float(o.lon[k]) - x0) % 360 + x0
            i, j = (px - x0) / step, (float(o.lat[k]) - y0) / step
            amb = abs(i - round(i)) < 1e-3 or abs(j - round(j)) < 1e-3
            for a in {int(np.floor(i - 1e-3)), int(np.floor(i + 1e-3))}:
                for b in {int(np.floor(j - 1e-3)), int(np.floor(j + 1e-3))}:
                    if 0 <= a < x.size and 0 <= b < y.size:
                        hi[a, b] += 1
                        lo[a, b] += not amb
        else:
            f, near = brute_pixels(o["contour_lon_" + s][k], o["contour_lat_" + s][k], x, y)
            lo += f & ~near
            hi += f | near
    ctx.nontrivial(bool(lo.any()))
    ctx.label(case["grid"], "center" if case["center"] else "contour")
    if (lo > 1).any():
        ctx.label("overlapping")
    d = np.ma.filled(c, 0)
    bad = np.argwhere((d < lo) | (d > hi))
    assert bad.size == 0, f"count wrong at {[(int(a), int(b), int(d[a, b]), int(lo[a, b])) for a, b in bad[:5]]} (i, j, got, expected)"
    assert (np.ma.getmaskarray(c) == (d == 0)).all(), "pixels without eddy must be masked, and only those"


def strat_particles():
    return st.fixed_dictionaries(dict(BASE, n=st.integers(1, 4), intern=st.booleans(), step=st.sampled_from([0.1, 0.25, 0.3, 1.0])))


def check_particles(case, ctx):
    r = gen.rng(case["seed"])
    o = as_obs(contours(case, r, case["n"]), case["nv"], case["intern"])
    s, step = ("s" if case["intern"] else "e"), case["step"]
    # keeps the compiled lists non empty: a contour much larger than the mesh
    o.obs["contour_lon_" + s][0] = np.resize([10, 13, 13, 10, 10], case["nv"] + 1)
    o.obs["contour_lat_" + s][0] = np.resize([10, 10, 13, 13, 10], case["nv"] + 1)
    o.obs["contour_lon_" + s][0][5:], o.obs["contour_lat_" + s][0][5:] = 10, 10
    x, y, i = o.create_particles(step, intern=case["intern"])
    assert x.shape == y.shape == i.shape
    for k in range(len(o)):
        cx, cy = o["contour_lon_" + s][k].astype("f8"), o["contour_lat_" + s][k].astype("f8")
        kx, ky = np.arange(np.floor(cx.min() / step) - 1, cx.max() / step + 2), np.arange(np.floor(cy.min() / step) - 1, cy.max() / step + 2)
        gx, gy = (v.ravel() for v in np.meshgrid(kx, ky))
        f, d = gen.point_in(cx, cy, gx * step, gy * step)
        exp = set(zip(gx[f & (d > EPS)].tolist(), gy[f & (d > EPS)].tolist()))
        may = set(zip(gx[f | (d <= EPS)].tolist(), gy[f | (d <= EPS)].tolist()))
        m = i == k
        assert np.allclose(x[m] / step, np.round(x[m] / step), atol=1e-6) and np.allclose(y[m] / step, np.round(y[m] / step), atol=1e-6), "a particle is not on the mesh"
        got = list(zip(np.round(x[m] / step).tolist(), np.round(y[m] / step).tolist()))
        ctx.nontrivial(k > 0 and len(exp) > 0)
        assert len(set(got)) == len(got), "a particle is duplicated"
        assert exp <= set(got), f"mesh points {sorted(exp - set(got))[:4]} of contour {k} got no particle"
        assert set(got) <= may, f"particles {sorted(set(got) - may)[:4]} are out of contour {k}"


def strat_nest():
    return st.fixed_dictionaries(dict(BASE, factor=st.sampled_from([0.3, 0.6, 0.9, 1.1, 1.5]), shift=st.sampled_from([0.0, 0.2, 1.0]), branch=st.sampled_from([0, 0, 1, -1])))


def check_nest(case, ctx):
    from py_eddy_tracker.poly import poly_contain_poly

    r = gen.rng(case["seed"])
    (x, y), = contours(case, r, 1)
    cx, cy = (x.min() + x.max()) / 2, (y.min() + y.max()) / 2
    a = r.uniform(0, 2 * np.pi)
    if r.integers(2):
        xi, yi = cx + (x - cx) * case["factor"], cy + (y - cy) * case["factor"]
    else:
        xi, yi = gen.star(r, cx, cy, case["factor"] * (x.max() - cx), case["factor"] * (y.max() - cy), 8, rough=0.2)
    xi, yi = xi + case["shift"] * np.cos(a), yi + case["shift"] * np.sin(a)
    f, d = gen.point_in(x, y, xi, yi)
    xi = xi + 360 * case["branch"]
    got = bool(poly_contain_poly(np.array([x, y]).T.copy(), np.array([xi, yi]).T.copy()))
    if (d < 1e-6).any() and not (~f & (d > 1e-6)).any():
        return
    exp = bool(f[d > 1e-6].all())
    ctx.nontrivial()
    ctx.label("contained" if exp else "not contained", "branch %d" % case["branch"])
    assert got == exp, f"containment {got}, expected {exp}"


def strat_unregular():
    return st.fixed_dictionaries(dict(BASE, shear=st.sampled_from([0.0, 0.1, -0.2]), bend=st.sampled_from([0.0, 0.02]), nx=st.integers(15, 30), ny=st.integers(15, 30)))


def check_unregular(case, ctx):
    from matplotlib.path import Path
    from py_eddy_tracker.dataset.grid import UnRegularGridDataset

    r = gen.rng(case["seed"])
    i, j = np.meshgrid(np.arange(case["nx"]) - case["nx"] / 2, np.arange(case["ny"]) - case["ny"] / 2, indexing="ij")
    x = case["ref"] + 0.5 * i + case["shear"] * 0.5 * j
    y = case["lat"] + 0.5 * j + case["bend"] * 0.5 * i * i / 10
    g = UnRegularGridDataset("array", "x", "y", unset=True, centered=True)
    g.x_c, g.y_c = x, y
    g.init_pos_interpolator()
    t = np.linspace(0, 2 * np.pi, 400)
    w = 1 + 0.2 * np.sin(int(r.integers(2, 5)) * t + r.uniform(0, 6))
    cx = case["ref"] + r.uniform(-1, 1) * case["spread"] + r.uniform(0.4, 2.5) * w * np.cos(t)
    cy = case["lat"] + r.uniform(-1, 1) * case["spread"] + r.uniform(0.4, 2.5) * w * np.sin(t)
    p = Path(np.array([cx, cy]).T)
    a, b = p.pixels_in(g)
    m = np.zeros(x.shape, bool)
    m[a, b] = True
    assert m.sum() == len(a) == p.nb_pixel
    f, d = gen.point_in(cx, cy, x.ravel(), y.ravel())
    f, near = f.reshape(x.shape), (d < 1e-6).reshape(x.shape)
    ctx.nontrivial(bool(f.any()))
    bad = np.argwhere((m != f) & ~near)
    assert bad.size == 0, f"pixels {[(int(p), int(q), bool(m[p, q])) for p, q in bad[:6]]} are wrong"


FACETS = [
    Facet("contains", strat_contains, check_contains, quick=600, budget=60),
    Facet("polygon_mask", strat_polygons, check_polygons, quick=500, budget=60),
    Facet("grid_pixels", strat_pixels, check_pixels, quick=600, budget=60),
    Facet("eddy_count", strat_count, check_count, quick=300, budget=60),
    Facet("mesh_particles", strat_particles, check_particles, quick=300, budget=60),
    Facet("nested_contours", strat_nest, check_nest, quick=800, budget=40),
    Facet("curvilinear_pixels", strat_unregular, check_unregular, quick=200, budget=40),
]
