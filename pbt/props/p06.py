"""Interpolation of grids."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from .p05 import brute_pixels, contours

RULE = (
    "Cases are regular grids (global from any first meridian or regional, float32/float64, in memory or read back from a NetCDF file stored lat-lon or lon-lat, "
    "with random masked cells) and query points or contours; a case is non-trivial when at least one query falls on valid cells."
)
ASSUMPTIONS = [
    "Grids are regular and increasing; on a regional grid the queried points are on the grid's own 360-degree branch (contours may be on any branch). "
    "Points within 1e-6 cell of a cell border are not judged when the two sides differ in validity."
]

GRID = dict(
    seed=gen.SEEDS,
    kind=st.sampled_from(["global", "regional"]),
    step=st.sampled_from([0.25, 1.0, 2.0]),
    x0=st.sampled_from([0.0, -180.0, 20.125, 0.25]),
    y0=st.sampled_from([-20.0, 35.125, -89.75]),
    nx=st.integers(3, 30),
    ny=st.integers(3, 16),
    dtype=st.sampled_from(["f4", "f8"]),
    mask=st.sampled_from(["none", "none_scalar", "some", "block"]),
    source=st.sampled_from(["array", "array", "array", "file", "file_t"]),
)


def build(case, names=("z",), field=None):
    """Grid with the case's geometry; returns grid, x, y, {name: masked array}."""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    r = gen.rng(case["seed"])
    step = case["step"] if case["kind"] == "regional" else max(case["step"], 1.0)
    nx = case["nx"] if case["kind"] == "regional" else int(360 / step)
    x = case["x0"] + np.arange(nx) * step
    y = case["y0"] + np.arange(case["ny"]) * step
    y = y[y < 90]
    data = dict()
    for name in names:
        z = r.uniform(-1, 1, (x.size, y.size)) if field is None else field(name, x, y, r)
        z = z.astype(case["dtype"])
        m = np.zeros(z.shape, bool)
        if case["mask"] == "some":
            m = r.uniform(0, 1, z.shape) < 0.15
        elif case["mask"] == "block":
            i, j = r.integers(0, x.size), r.integers(0, y.size)
            m[i:i + 3, j:j + 3] = True
        z[m] = 1e6
        data[name] = np.ma.array(z, mask=m)
    if case["source"] == "array":
        d = {k: v.copy() for k, v in data.items()}
        g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, **d), centered=True)
    else:
        from netCDF4 import Dataset

        fd, fn = tempfile.mkstemp(suffix=".nc")
        os.close(fd)
        t = case["source"] == "file_t"
        with Dataset(fn, "w") as h:
            h.createDimension("lon", x.size), h.createDimension("lat", y.size)
            h.createVariable("lon", "f8", ("lon",))[:] = x
            h.createVariable("lat", "f8", ("lat",))[:] = y
            for k, v in data.items():
                kw = dict(fill_value=-9999.0) if case["mask"] != "none_scalar" else dict()
                h.createVariable(k, case["dtype"], ("lat", "lon") if t else ("lon", "lat"), **kw)[:] = v.T if t else v
        g = RegularGridDataset(fn, "lon", "lat", centered=True)
        for k in names:
            g.grid(k)
        os.unlink(fn)
    return g, x, y, data, r


def ref_bilinear(x, y, z, m, px, py, circular):
    """value (nan where undefined) and a flag for points too close to a cell border."""
    step_x, step_y = x[1] - x[0], y[1] - y[0]
    u, v = (px - x[0]) / step_x, (py - y[0]) / step_y
    i, j = np.floor(u).astype(int), np.floor(v).astype(int)
    xd, yd = u - i, v - j
    edge = (xd < 1e-6) | (xd > 1 - 1e-6) | (yd < 1e-6) | (yd > 1 - 1e-6)
    i1, j1 = i + 1, j + 1
    if circular:
        i, i1 = i % x.size, i1 % x.size
    out = (i < 0) | (i1 >= x.size) | (j < 0) | (j1 >= y.size)
    i, i1, j, j1 = (np.where(out, 0, k) for k in (i, i1, j, j1))
    bad = out | m[i, j] | m[i1, j] | m[i, j1] | m[i1, j1]
    z = z.astype("f8")
    val = (z[i, j] * (1 - xd) + z[i1, j] * xd) * (1 - yd) + (z[i, j1] * (1 - xd) + z[i1, j1] * xd) * yd
    return np.where(bad, np.nan, val), edge


def query(case, r, x, y, n):
    circular = case["kind"] == "global"
    sx, sy = x[1] - x[0], y[1] - y[0]
    px = r.uniform(x[0] - 1.5 * sx, x[-1] + 1.5 * sx, n)
    py = r.uniform(y[0] - 1.5 * sy, y[-1] + 1.5 * sy, n)
    k = r.integers(0, 8, n)
    # exact nodes, and runs of points in the same cell
    px = np.where(k == 0, x[r.integers(0, x.size, n)], px)
    py = np.where(k == 0, y[r.integers(0, y.size, n)], py)
    px[1:] = np.where(k[1:] == 1, px[:-1], px[1:])
    py[1:] = np.where(k[1:] == 1, py[:-1] + 1e-3 * sy, py[1:])
    px = np.where((k == 2) & circular, x[0] - r.uniform(0, sx, n), px)
    if circular:
        px = px + 360 * r.integers(-1, 2, n)
    return px, py


def strat_points():
    return st.fixed_dictionaries(dict(GRID, npt=st.sampled_from([1, 10, 60]), api=st.sampled_from(["grid", "grid", "obs"]), sub=st.booleans()))


def check_points(case, ctx):
    g, x, y, data, r = build(case)
    circular = case["kind"] == "global"
    assert g.is_circular() == circular
    px, py = query(case, r, x, y, case["npt"])
    z = data["z"]
    m = np.ma.getmaskarray(z)
    if case["api"] == "obs":
        o = gen.make_obs(px.size)
        o.obs["lon"], o.obs["lat"] = px, py
        px, py = o.longitude.astype("f8"), o.latitude.astype("f8")
        i = None
        if case["sub"]:
            i = r.integers(0, 2, px.size) == 0
            px, py = px[i], py[i]
        got = o.interp_grid(g, "z", i=i)
        near = o.interp_grid(g, "z", i=i, method="nearest")
        eps = 1e-3
    else:
        got = g.interp("z", px, py)
        near = g.interp("z", px, py, method="nearest")
        eps = 1e-6
    assert got.shape == px.shape and near.shape == px.shape
    exp, edge = ref_bilinear(x, y, z.data, m, px, py, circular)
    if eps > 1e-5:
        u, v = (px - x[0]) / (x[1] - x[0]), (py - y[0]) / (y[1] - y[0])
        edge = (np.abs(u - np.round(u)) < eps) | (np.abs(v - np.round(v)) < eps)
    tol = 1e-4 if case["dtype"] == "f4" or eps > 1e-5 else 1e-8
    valid = ~np.isnan(exp)
    ctx.nontrivial(bool(valid.any()))
    ctx.label(case["kind"], case["source"], "mask " + case["mask"])
    if circular and (valid & ((px % 360 < x[0] % 360) | (px < x[0]) | (px > x[-1]))).any():
        ctx.label("wrapped longitudes")
    sure = ~edge
    assert (np.isnan(got[sure]) == ~valid[sure]).all(), f"validity differs at {px[sure][np.isnan(got[sure]) == valid[sure]][:3]},{py[sure][np.isnan(got[sure]) == valid[sure]][:3]}"
    both = valid & ~np.isnan(got)
    ok = np.abs(got[both] - exp[both]) <= tol
    assert ok.all(), f"bilinear values {got[both][~ok][:4]} expected {exp[both][~ok][:4]}"
    # nodes exactly: when valid they give back the stored value
    u, v = (px - x[0]) / (x[1] - x[0]), (py - y[0]) / (y[1] - y[0])
    # nearest
    ok = (np.abs(u - np.floor(u) - 0.5) > eps) & (np.abs(v - np.floor(v) - 0.5) > eps)
    i, j = np.round(u).astype(int), np.round(v).astype(int)
    if circular:
        i %= x.size
    out = (i < 0) | (i >= x.size) | (j < 0) | (j >= y.size)
    assert np.isnan(near[ok & out]).all(), "nearest value found out of the grid"
    s = ok & ~out
    s[s] = ~m[i[s], j[s]]
    assert (near[s] == z.data[i[s], j[s]]).all(), "nearest is not the value of the closest node"


def strat_contours():
    return st.fixed_dictionaries(
        dict(
            GRID, n=st.integers(1, 4), method=st.sampled_from(["mean", "max", "min", "count"]), intern=st.booleans(), nv=st.integers(4, 14),
            branches=st.sampled_from([[0], [0, 1, -1], [1]]), sub=st.booleans(), where=st.sampled_from(["in", "west", "east", "south"]), spread=st.just(2.0),
        )
    )


def check_contours(case, ctx):
    g, x, y, data, r = build(case)
    c = dict(case)
    c["ref"] = dict(west=x[0], east=x[-1]).get(case["where"], (x[0] + x[-1]) / 2)
    c["lat"] = y[0] if case["where"] == "south" else y.mean()
    polys = contours(c, r, case["n"])
    o = gen.make_obs(len(polys), case["nv"] + 1)
    s, d = ("s", "e") if case["intern"] else ("e", "s")
    for k, (a, b) in enumerate(polys):
        o.obs["contour_lon_" + s][k], o.obs["contour_lat_" + s][k] = a, b
        o.obs["contour_lon_" + d][k], o.obs["contour_lat_" + d][k] = a + 4, b
        o.obs["lon"][k], o.obs["lat"][k] = (a.min() + a.max()) / 2, (b.min() + b.max()) / 2
    i = np.arange(len(o))
    if case["sub"]:
        i = np.unique(r.integers(0, len(o), 2))
    got = o.interp_grid(g, "z", method=case["method"], intern=case["intern"], i=i if case["sub"] else None)
    assert got.shape == i.shape
    z, m = data["z"].data, np.ma.getmaskarray(data["z"])
    ctx.label(case["kind"], case["method"], case["where"], case["source"])
    for v, k in zip(got, i):
        f, near = brute_pixels(o["contour_lon_" + s][k], o["contour_lat_" + s][k], x, y)
        if near.any():
            ctx.label("skipped, pixel on the line")
            continue
        if case["method"] == "count":
            exp = f.sum()
        else:
            val = z[f & ~m].astype("f8")
            exp = getattr(np, case["method"])(val) if val.size else np.nan
            if val.size:
                ctx.nontrivial()
        assert (np.isnan(v) and np.isnan(exp)) or abs(v - exp) < 1e-4, f"{case['method']} of contour {k}: {v}, expected {exp}"


def strat_regrid():
    return st.fixed_dictionaries(dict(GRID, step2=st.sampled_from([0.5, 1.0, 3.0]), shift=st.sampled_from([0.0, 0.3, -2.0]), nx2=st.integers(3, 12), ny2=st.integers(3, 12), new=st.booleans()))


def check_regrid(case, ctx):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    g, x, y, data, r = build(case)
    x2 = x[0] + case["shift"] + np.arange(case["nx2"]) * case["step2"]
    y2 = y[0] + case["shift"] + 0.1 + np.arange(case["ny2"]) * case["step2"]
    h = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x2, lat=y2, w=np.ma.zeros((x2.size, y2.size))), centered=True)
    name = "other" if case["new"] else "z"
    h.regrid(g, "z", new_name=name if case["new"] else None)
    got = h.grid(name)
    assert got.shape == (x2.size, y2.size)
    xx, yy = np.meshgrid(x2, y2, indexing="ij")
    exp, edge = ref_bilinear(x, y, data["z"].data, np.ma.getmaskarray(data["z"]), xx.ravel(), yy.ravel(), case["kind"] == "global")
    exp, edge = exp.reshape(xx.shape), edge.reshape(xx.shape)
    ctx.nontrivial(bool((~np.isnan(exp)).any()))
    gm = np.ma.getmaskarray(got)
    assert (gm == np.isnan(exp))[~edge].all(), "mask of the regridded field"
    both = ~gm & ~np.isnan(exp)
    assert np.allclose(got.data[both], exp[both], atol=1e-4), "regridded values"
    assert np.array_equal(np.ma.getmaskarray(g.grid("z")), np.ma.getmaskarray(data["z"])), "source grid modified"


def strat_time():
    return st.fixed_dictionaries(dict(GRID, nt=st.integers(2, 4), t0=st.integers(0, 20000), w=st.sampled_from([0.0, 0.25, 0.5, 0.9]), k=st.integers(0, 2), npt=st.integers(1, 20), method=st.sampled_from(["bilinear", "nearest"])))


def check_time(case, ctx):
    from py_eddy_tracker.dataset.grid import GridCollection

    c = GridCollection()
    fields = []
    for k in range(case["nt"]):
        g, x, y, data, r = build(dict(case, seed=(case["seed"] + k) % 2**32))
        fields.append(data["z"])
        c.datasets.append((case["t0"] + k, g))
    k = min(case["k"], case["nt"] - 2)
    t = case["t0"] + k + case["w"]
    px, py = query(case, r, x, y, case["npt"])
    got = c.interp("z", t, px, py, method=case["method"])
    circ = case["kind"] == "global"
    w = case["w"]
    if case["method"] == "bilinear":
        a, edge = ref_bilinear(x, y, fields[k].data, np.ma.getmaskarray(fields[k]), px, py, circ)
        b, _ = ref_bilinear(x, y, fields[k + 1].data, np.ma.getmaskarray(fields[k + 1]), px, py, circ)
        exp = a * (1 - w) + b * w
        ok = ~edge
    else:
        a, b = (c[case["t0"] + q].interp("z", px, py, "nearest") for q in (k, k + 1))
        exp, ok = a * (1 - w) + b * w, np.ones(px.size, bool)
    ctx.nontrivial(bool((~np.isnan(exp)).any()) and w > 0)
    ctx.label("w %s" % w)
    assert (np.isnan(got) == np.isnan(exp))[ok].all(), "validity of the time interpolation"
    both = ~np.isnan(got) & ~np.isnan(exp)
    assert np.allclose(got[both], exp[both], atol=2e-4), f"time interpolation {got[both][:4]} expected {exp[both][:4]}"
    assert c.period == (case["t0"], case["t0"] + case["nt"] - 1)


def strat_meridian():
    return st.fixed_dictionaries(dict(
        seed=gen.SEEDS, n=st.one_of(st.sampled_from([36, 60, 72, 90, 100, 120, 180, 240, 300, 360, 450, 720, 900, 1080, 1440, 1800, 2160, 3600, 4320]), st.integers(20, 1000)),
        first=st.sampled_from([0.5, 0.5, 0.0, 1.0]), shift=st.sampled_from([0, 0, 0, -180, 20, -10, 180, 0.1]), coord=st.sampled_from(["f4", "f8"]), cut=st.sampled_from([0, 0, 0, 1, 3]),
    ))


def check_meridian(case, ctx):
    """Global grids of any step are continuous, one column less and they are not"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    r = gen.rng(case["seed"])
    n, step = case["n"], 360 / case["n"]
    x = (case["shift"] + (np.arange(n - case["cut"]) + case["first"]) * step).astype(case["coord"])
    y = (np.arange(5) * step).astype(case["coord"])
    z = r.uniform(-1, 1, (x.size, y.size))
    g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, z=np.ma.array(z)), centered=True)
    ctx.nontrivial()
    ctx.label("global" if not case["cut"] else "regional", case["coord"])
    assert g.is_circular() == (not case["cut"]), f"circular {g.is_circular()} with {x.size} columns of {step} from {x[0]}"
    f = r.uniform(0.1, 0.9, 6)
    got = g.interp("z", x[-1].astype("f8") + f * step, np.full(6, float(y[2])) + 1e-9 * step)
    if case["cut"]:
        assert np.isnan(got).all(), "value out of a regional grid"
    else:
        want = z[-1, 2] * (1 - f) + z[0, 2] * f
        assert np.abs(got - want).max() < (0.01 if case["coord"] == "f4" else 1e-6), f"{got} instead of {want} across the first meridian"


FACETS = [
    Facet("points", strat_points, check_points, quick=800, budget=60),
    Facet("on_contours", strat_contours, check_contours, quick=500, budget=60),
    Facet("regrid", strat_regrid, check_regrid, quick=300, budget=40),
    Facet("meridian", strat_meridian, check_meridian, quick=250, budget=30),
    Facet("time", strat_time, check_time, quick=300, budget=40),
]
