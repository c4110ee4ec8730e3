"""Circle and ellipse fits, shape error, areas, local coordinates and distances."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, ident
from ..core import Facet

RULE = (
    "Cases are closed contours (stars or ellipses, 4 to 80 vertices, both directions, any place and size), exact circles and ellipses, sets of positions, or tables of eddies; "
    "a case is non-trivial when the contour is not an exact circle, or when positions are pairwise distinct."
)
ASSUMPTIONS = [
    "Contours are simple, star shaped around their mean, with at least 4 distinct vertices which are not aligned; positions are at more than 2 degrees from poles.",
    "The exact reference of the shape error (area of the symmetrical difference with the circle) is compared on densely sampled contours, where the two definitions meet.",
]

LINE = dict(
    seed=gen.SEEDS,
    n=st.integers(5, 80),
    rough=st.sampled_from([0.0, 0.05, 0.2, 0.45]),
    aspect=st.sampled_from([1.0, 0.9, 0.5, 0.25]),
    size=st.sampled_from([1e-3, 1.0, 5e4]),
    cx=st.sampled_from([0.0, 3.0, -1e3]),
    cw=st.booleans(),
)


def line(case):
    r = gen.rng(case["seed"])
    s = case["size"]
    x, y = gen.star(r, 0, 0, 1, case["aspect"], case["n"], case["rough"], case["cw"])
    a = r.uniform(0, 2 * np.pi)
    x, y = x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)
    off = case["cx"] * s
    x, y = x * s + off, y * s + off * 0.7
    x[-1], y[-1] = x[0], y[0]
    return r, x, y


def check_circle(case, ctx):
    from py_eddy_tracker.poly import fit_circle, fit_circle_, shape_error

    r, x, y = line(case)
    s = case["size"]
    tol = 1e-6 * s * (1 + abs(case["cx"]))
    ctx.label("rough" if case["rough"] else "exact" if case["aspect"] == 1 else "ellipse", f"size{s:g}")
    ctx.nontrivial(case["rough"] > 0 or case["aspect"] < 1)
    ref = ident.circle(x, y)
    x_, y_ = x.copy(), y.copy()
    got = fit_circle(x, y)
    assert np.array_equal(x, x_) and np.array_equal(y, y_), "contour modified by fit"
    assert all(abs(g - w) <= tol for g, w in zip(got[:3], ref[:3])), (got, ref)
    assert abs(got[3] - ref[3]) <= 1e-3, (got[3], ref[3])
    if case["rough"] == 0 and case["aspect"] == 1:
        off = case["cx"] * s
        assert abs(got[0] - off) <= tol and abs(got[1] - 0.7 * off) <= tol and abs(got[2] - s) <= tol, got
        # shape error is the area which is missing beside the polygon
    # direct evaluation
    err = shape_error(x, y, got[0], got[1], got[2])
    assert np.array_equal(x, x_) and np.array_equal(y, y_), "contour modified by shape_error"
    assert abs(err - got[3]) <= 1e-9 * max(1, abs(err))
    # any start, any direction, any similarity
    k = int(r.integers(1, case["n"]))
    xr, yr = np.r_[x[k:-1], x[: k + 1]], np.r_[y[k:-1], y[: k + 1]]
    for xx, yy, name in ((xr, yr, "start"), (x[::-1].copy(), y[::-1].copy(), "direction")):
        g = fit_circle(xx, yy)
        assert all(abs(a - b) <= tol for a, b in zip(g[:3], got[:3])) and abs(g[3] - got[3]) < 1e-3, (name, g, got)
    ang, q = r.uniform(0, 6.28), float(r.choice([0.01, 3.0, 100.0]))
    c_, s_ = math.cos(ang) * q, math.sin(ang) * q
    g = fit_circle(c_ * x - s_ * y, s_ * x + c_ * y)
    want = (c_ * got[0] - s_ * got[1], s_ * got[0] + c_ * got[1], q * got[2])
    assert all(abs(a - b) <= 10 * tol * q for a, b in zip(g[:3], want)) and abs(g[3] - got[3]) < 1e-3, ("similarity", g, want)
    # the function which keeps units (only conditioned when units are near 1)
    if s == 1.0 and abs(case["cx"]) < 10:
        g = fit_circle_(x, y)
        assert all(abs(a - b) <= 1e-6 for a, b in zip(g[:3], got[:3])) and abs(g[3] - got[3]) < 1e-3, ("fit_circle_", g, got)


def check_shape(case, ctx):
    """Shape error is the symmetrical difference with the circle, in percent of the circle."""
    from py_eddy_tracker.poly import poly_area, poly_area_vertice, shape_error
    from py_eddy_tracker.poly import create_vertice

    r, x, y = line(case)
    area = abs(gen.shoelace(x, y))
    s = case["size"]
    tol = 1e-9 * s**2 * (1 + case["cx"] ** 2)
    for xx, yy in ((x, y), (x[::-1].copy(), y[::-1].copy())):
        assert abs(poly_area(xx, yy) - area) <= tol, (poly_area(xx, yy), area)
        assert abs(poly_area_vertice(create_vertice(xx, yy)) - area) <= tol
    ctx.nontrivial(True)
    # densified contour around its center, any circle around it
    x, y = x - case["cx"] * s, y - case["cx"] * 0.7 * s
    m = 40
    t = np.arange(m) / m
    xd = np.r_[(x[:-1, None] + (x[1:] - x[:-1])[:, None] * t).ravel(), x[0]]
    yd = np.r_[(y[:-1, None] + (y[1:] - y[:-1])[:, None] * t).ravel(), y[0]]
    rad = s * r.uniform(0.3, 1.5)
    got = shape_error(xd, yd, 0.0, 0.0, rad)
    # area of the intersection : integral over edges of the part in the disc
    inter = abs(_disc_area(x, y, rad))
    want = 100 * (area + math.pi * rad**2 - 2 * inter) / (math.pi * rad**2)
    ctx.label("crossing" if inter < 0.999 * min(area, math.pi * rad**2) else "nested")
    assert abs(got - want) <= 0.02 * (100 + want) * (20 / case["n"] if case["n"] < 20 else 1) + 0.3, (got, want)


def _disc_area(x, y, rad):
    """Signed area of the polygon in the disc centred on the origin."""
    tot = 0.0
    for k in range(len(x) - 1):
        ax, ay, bx, by = x[k], y[k], x[k + 1], y[k + 1]
        dx, dy = bx - ax, by - ay
        a, b, c = dx * dx + dy * dy, ax * dx + ay * dy, ax * ax + ay * ay - rad * rad
        cuts = [0.0, 1.0]
        if a > 0:
            disc = b * b - a * c
            if disc > 0:
                q = math.sqrt(disc)
                cuts += [t for t in ((-b - q) / a, (-b + q) / a) if 0 < t < 1]
        cuts.sort()
        for t0, t1 in zip(cuts, cuts[1:]):
            px, py, qx, qy = ax + dx * t0, ay + dy * t0, ax + dx * t1, ay + dy * t1
            mx, my = (px + qx) / 2, (py + qy) / 2
            cross = px * qy - py * qx
            if mx * mx + my * my <= rad * rad:
                tot += cross / 2
            else:
                tot += rad * rad / 2 * math.atan2(cross, px * qx + py * qy)
    return tot


def check_ellipse(case, ctx):
    from py_eddy_tracker.poly import fit_ellipse

    r = gen.rng(case["seed"])
    a, b = 1.0, case["aspect"]
    x0, y0 = case["x0"], case["y0"]
    rot = r.uniform(-1.5, 1.5)
    if min(abs(rot), abs(abs(rot) - np.pi / 2)) < 0.02 or case["aspect"] == 1:
        return
    x, y = gen.ellipse(x0, y0, a, b, case["n"], rot)
    # the conic is normalised by its value at the origin, which must not be on it
    c, s = math.cos(rot), math.sin(rot)
    u, v = (-x0 * c - y0 * s) / a, (x0 * s - y0 * c) / b
    if abs(u * u + v * v - 1) < 0.2:
        return
    ctx.nontrivial(True)
    ctx.label("origin_inside" if u * u + v * v < 1 else "origin_outside")
    gx, gy, A, B, theta = fit_ellipse(x, y)
    tol = 1e-5
    assert abs(gx - x0) < tol and abs(gy - y0) < tol, (gx, gy)
    A, B = abs(A), abs(B)
    assert abs(max(A, B) - a) < tol and abs(min(A, B) - b) < tol, (A, B, a, b)
    # every point of the contour is on the ellipse which is described
    ct, s_t = math.cos(theta), math.sin(theta)
    dx, dy = x - gx, y - gy
    p, q = (dx * ct + dy * s_t) / A, (-dx * s_t + dy * ct) / B
    assert np.allclose(p * p + q * q, 1, atol=1e-3), (theta, rot, A, B)


def _sphere(lon, lat):
    l, p = np.radians(lon), np.radians(lat)
    return np.array([np.cos(p) * np.cos(l), np.cos(p) * np.sin(l), np.sin(p)])


def _great_circle(lon0, lat0, lon1, lat1):
    lon0, lat0, lon1, lat1 = np.broadcast_arrays(*(np.asarray(v, "f8") for v in (lon0, lat0, lon1, lat1)))
    a, b = _sphere(lon0, lat0), _sphere(lon1, lat1)
    n = np.linalg.norm(np.cross(a, b, axis=0), axis=0)
    return np.arctan2(n, (a * b).sum(axis=0)) * 6370997.0


POS = dict(seed=gen.SEEDS, n=st.integers(1, 12), lat=st.sampled_from([-75.0, -30.0, 0.0, 45.0, 82.0]), lon=st.sampled_from([0.0, 180.0, -180.0, 359.9, 55.0]), spread=st.sampled_from([0.01, 1.0, 6.0]), branch=st.sampled_from([0, 0, 360, -360]))


def positions(case):
    r = gen.rng(case["seed"])
    n = case["n"]
    lon = case["lon"] + r.uniform(-1, 1, n) * case["spread"] / math.cos(math.radians(case["lat"]))
    lat = np.clip(case["lat"] + r.uniform(-1, 1, n) * case["spread"], -88, 88)
    return r, lon, lat


def check_local(case, ctx):
    from py_eddy_tracker.generic import coordinates_to_local, local_to_coordinates

    r, lon, lat = positions(case)
    lon0, lat0 = case["lon"] + r.uniform(-1, 1), case["lat"]
    ctx.nontrivial(case["n"] > 1)
    x, y = coordinates_to_local(lon + case["branch"], lat, lon0, lat0)
    wx, wy = ident.to_local(lon, lat, lon0, lat0)
    assert np.allclose(x, wx, atol=1) and np.allclose(y, wy, atol=1), (x - wx, y - wy)
    d = _great_circle(lon0, lat0, lon, lat)
    assert np.allclose(np.hypot(x, y), d, rtol=1e-6, atol=1)
    lon_, lat_ = local_to_coordinates(x, y, lon0, lat0)
    assert np.allclose(lat_, lat, atol=1e-5), (lat_, lat)
    assert np.allclose((lon_ - lon) * np.cos(np.radians(lat)), 0, atol=1e-5), (lon_, lon)
    # metres to degrees and back
    px, py = r.uniform(-5e5, 5e5, (2, case["n"]))
    glon, glat = local_to_coordinates(px, py, lon0, lat0)
    want = [ident.from_local(a, b, lon0, lat0) for a, b in zip(px, py)]
    assert np.allclose(glat, [w[1] for w in want], atol=1e-6)
    assert np.allclose(gen.wrap180(glon - np.array([w[0] for w in want])), 0, atol=1e-5)


def check_distance(case, ctx):
    from py_eddy_tracker.generic import distance, distance_grid

    r, lon, lat = positions(case)
    _, lon1, lat1 = positions(dict(case, seed=case["seed"] + 1, n=int(r.integers(1, 12)), spread=case["spread"] * 4))
    lon1 = lon1 + case["branch"]
    ctx.nontrivial(case["n"] > 1)
    g = distance_grid(lon, lat, lon1, lat1)
    assert g.shape == (lon.size, lon1.size)
    for i in range(lon.size):
        d = distance(lon[i], lat[i], lon1, lat1)
        w = _great_circle(lon[i], lat[i], lon1, lat1)
        assert np.allclose(d, w, rtol=1e-6, atol=0.5), (d, w)
        back = distance(lon1, lat1, lon[i], lat[i])
        assert np.allclose(d, back, rtol=1e-9, atol=1e-3)
        for j in range(lon1.size):
            dlat, dlon = abs(lat1[j] - lat[i]), abs(gen.wrap180(lon1[j] - lon[i]))
            if min(abs(dlat - 15), abs(dlon - 20)) < 1e-6:
                continue
            if dlat > 15 or dlon > 20:
                ctx.label("far")
                assert np.isnan(g[i, j]), (i, j, g[i, j])
            else:
                assert abs(g[i, j] * 1000 - w[j]) <= 1 + 1e-6 * w[j], (g[i, j], w[j])
    # between eddies
    a, b = gen.make_obs(case["n"]), gen.make_obs(lon1.size)
    a.obs["lon"], a.obs["lat"], b.obs["lon"], b.obs["lat"] = lon, lat, lon1, lat1
    assert np.array_equal(a.distance(b), g, equal_nan=True)


def check_contour(case, ctx):
    """Circle rebuilt from centre and radius; fit of a contour in degrees."""
    from py_eddy_tracker.dataset.grid import _fit_circle_path
    from py_eddy_tracker.poly import create_vertice

    r, lon, lat = positions(dict(case, spread=min(case["spread"], 3)))
    n = case["n"]
    o = gen.make_obs(n, sampling=20, extra=["virtual"], only=None if case["branch"] == 0 else ["lon", "lat", "radius_s", "radius_e", "virtual"] + (gen.CONTOURS[:2] if case["branch"] > 0 else gen.CONTOURS[2:4]))
    o.obs["lon"], o.obs["lat"] = lon, lat
    o.obs["radius_s"], o.obs["radius_e"] = r.uniform(5e3, 9e4, (2, n))
    o.obs["virtual"] = r.integers(0, 2, n)
    before = o.obs.copy()
    only, factor = bool(r.integers(0, 2)), float(r.choice([1.0, 0.5, 2.0]))
    o.circle_contour(only_virtual=only, factor=factor)
    ctx.nontrivial(True)
    for f in o.fields:
        if not f.startswith("contour"):
            assert np.array_equal(before[f], o.obs[f]), f
    for s in "es":
        if f"contour_lon_{s}" not in o.fields:
            continue
        cx, cy = o.obs[f"contour_lon_{s}"], o.obs[f"contour_lat_{s}"]
        for k in range(n):
            if only and not o.obs["virtual"][k]:
                assert not cx[k].any() and not cy[k].any(), "a real contour was replaced"
                continue
            rad = float(o.obs[f"radius_{s}"][k]) * factor
            x, y = ident.to_local(cx[k].astype("f8"), cy[k].astype("f8"), lon[k], lat[k])
            d = np.hypot(x, y)
            assert np.allclose(d, rad, rtol=1e-5, atol=6), (d, rad)
            ang = np.unwrap(np.arctan2(y, x))
            step = np.diff(ang)
            assert np.allclose(np.abs(step), 2 * np.pi / 19, atol=10 / rad) and abs(abs(ang[-1] - ang[0]) - 2 * np.pi) < 10 / rad
    # fit in degrees
    x, y = gen.star(r, 0, 0, r.uniform(2e4, 2e5), r.uniform(2e4, 2e5), int(r.integers(8, 60)), 0.2)
    pts = np.array([ident.from_local(a, b, lon[0], lat[0]) for a, b in zip(x, y)])
    if np.abs(pts[:, 1]).max() > 88:
        return
    pts[-1] = pts[0]
    got, want = _fit_circle_path(create_vertice(pts[:, 0].copy(), pts[:, 1].copy())), ident.circle_geo(pts[:, 0], pts[:, 1])
    assert abs(gen.wrap180(got[0] - want[0])) < 1e-5 / math.cos(math.radians(want[1])) and abs(got[1] - want[1]) < 1e-5, (got, want)
    assert abs(got[2] - want[2]) < 1e-5 * want[2] + 1e-2 and abs(got[3] - want[3]) < 0.01, (got, want)


FACETS = [
    Facet("circle_fit", lambda: st.fixed_dictionaries(LINE), check_circle, quick=400),
    Facet("shape_error", lambda: st.fixed_dictionaries(LINE), check_shape, quick=300),
    Facet("ellipse_fit", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, n=st.integers(9, 60), aspect=st.sampled_from([0.8, 0.5, 0.3]), x0=st.sampled_from([0.0, 0.3, 3.0, -2.0]), y0=st.sampled_from([0.1, -0.2, 2.0]))), check_ellipse, quick=200),
    Facet("local_coordinates", lambda: st.fixed_dictionaries(POS), check_local, quick=300),
    Facet("distances", lambda: st.fixed_dictionaries(POS), check_distance, quick=200),
    Facet("circle_contour", lambda: st.fixed_dictionaries(POS), check_contour, quick=150),
]
