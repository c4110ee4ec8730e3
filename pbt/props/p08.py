"""Currents derived from a height field."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet

RULE = (
    "Cases are height fields on regular grids (global or regional, either hemisphere, random masked pixels, float32/float64) and a stencil half width; "
    "a case is non-trivial when at least one pixel gets a velocity from valid neighbours."
)
ASSUMPTIONS = ["At least 2 rows and columns; rows closer than 0.01 degree to the equator, where the Coriolis parameter vanishes, are not judged."]
OMEGA4 = 4 * np.pi / (23 * 3600 + 56 * 60 + 4.1)
COEF = {1: [1 / 2], 2: [8 / 12, -1 / 12], 3: [45 / 60, -9 / 60, 1 / 60], 4: [672 / 840, -168 / 840, 32 / 840, -3 / 840]}

GEO = dict(
    seed=gen.SEEDS,
    kind=st.sampled_from(["global", "regional"]),
    step=st.sampled_from([0.25, 1.0, 2.0]),
    x0=st.sampled_from([0.0, -180.0, 20.125, 359.0]),
    y0=st.sampled_from([-20.125, 35.125, -70.0, -2.0]),
    nx=st.integers(2, 25),
    ny=st.integers(2, 16),
    dtype=st.sampled_from(["f4", "f8", "f8"]),
    mask=st.sampled_from(["none", "none_scalar", "some", "many", "block"]),
    width=st.sampled_from([1, 2, 3, 4, 4]),
)


def build(case, field=None):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    r = gen.rng(case["seed"])
    if case["kind"] == "global":
        x = case["x0"] + np.arange(72) * 5.0
    else:
        x = case["x0"] + np.arange(case["nx"]) * case["step"]
    y = case["y0"] + np.arange(case["ny"]) * case["step"]
    X, Y = np.meshgrid(x, y, indexing="ij")
    z = (r.uniform(-1, 1, X.shape) if field is None else field(X, Y, r)).astype(case["dtype"])
    m = np.zeros(z.shape, bool)
    if case["mask"] in ("some", "many"):
        m = r.uniform(0, 1, z.shape) < (0.1 if case["mask"] == "some" else 0.5)
    elif case["mask"] == "block":
        m[r.integers(0, x.size):, r.integers(0, y.size):] = True

    def grid(v, xs=x, mask=m):
        d = np.ma.array(v.copy()) if case["mask"] == "none_scalar" else np.ma.array(v.copy(), mask=mask.copy())
        return RegularGridDataset.with_array(("lon", "lat"), dict(lon=xs, lat=y, h=d), variables_description=dict(h=dict(units="m")), centered=True)

    return r, x, y, z, m, grid


def derivative(z, m, width, axis, wrap):
    """Per cell step derivative, with the widest valid centred stencil; nan if undefined."""
    z, m = np.moveaxis(z.astype("f8"), axis, 0), np.moveaxis(m, axis, 0)
    n = z.shape[0]

    def at(k):
        i = np.arange(n) + k
        if wrap:
            return z[i % n], m[i % n]
        out = (i < 0) | (i >= n)
        i = np.clip(i, 0, n - 1)
        return z[i], m[i] | out[:, None]

    zp, zm, bad = {}, {}, {}
    for k in range(1, 5):
        (zp[k], a), (zm[k], b) = at(k), at(-k)
        bad[k] = a | b
        if k == 1:
            ap, am = a, b
    d = np.full(z.shape, np.nan)
    one = ap ^ am
    d = np.where(one & ap, z - zm[1], d)
    d = np.where(one & am, zp[1] - z, d)
    reach = np.zeros(z.shape, int)
    ok = np.ones(z.shape, bool)
    for k in range(1, width + 1):
        ok = ok & ~bad[k]
        reach = np.where(ok, k, reach)
    for k in range(1, width + 1):
        v = sum(c * (zp[i + 1] - zm[i + 1]) for i, c in enumerate(COEF[k]))
        d = np.where(reach == k, v, d)
    d = np.where(m, np.nan, d)
    return np.moveaxis(d, 0, axis), np.moveaxis(reach, 0, axis)


def currents(x, y, z, m, width, circular, g):
    deg = np.pi / 180 * g.EARTH_RADIUS
    with np.errstate(divide="ignore", invalid="ignore"):
        f = OMEGA4 * np.sin(np.deg2rad(y))
        dx, rx = derivative(z, m, width, 0, circular)
        dy, ry = derivative(z, m, width, 1, False)
        v = dx / (deg * (x[1] - x[0]) * np.cos(np.deg2rad(y))) * g.GRAVITY / f
        u = -dy / (deg * (y[1] - y[0])) * g.GRAVITY / f
    return u, v, np.minimum(rx, ry)


def strat():
    return st.fixed_dictionaries(dict(GEO, names=st.sampled_from([None, ["ugos", "vgos"]])))


def check_uv(case, ctx):
    r, x, y, z, m, grid = build(case)
    zz = z.copy()
    if case["mask"] != "none_scalar":
        zz[m] = 1e4
    g = grid(zz)
    circ = case["kind"] == "global"
    names = case["names"] or ["u", "v"]
    kw = {} if case["width"] == 4 and r.integers(2) else dict(stencil_halfwidth=case["width"])
    if case["names"]:
        g.add_uv("h", *names, **kw)
    else:
        g.add_uv("h", **kw)
    u, v, reach = currents(x, y, z, m, case["width"], circ, g)
    rows = np.abs(y) > 0.01
    ctx.label(case["kind"], "mask " + case["mask"], "width %d" % case["width"])
    ctx.nontrivial(bool((~np.isnan(u[:, rows])).any()))
    if circ and (~np.isnan(v[0])).any():
        ctx.label("across the seam")
    for name, exp in zip(names, (u, v)):
        got = g.grid(name)
        gm = np.ma.getmaskarray(got)
        # undefined where the pixel is masked or has no usable neighbour
        bad = np.argwhere((gm != np.isnan(exp))[:, rows])
        assert bad.size == 0, f"{name}: validity differs at {bad[:4].tolist()} (masked {gm[:, rows][tuple(bad[0])]})"
        a, b = got.data[:, rows], exp[:, rows]
        ok = ~np.isnan(b)
        tol = 1e-9 if case["dtype"] == "f8" else 2e-5
        s = np.abs(b[ok]).max() if ok.any() else 1
        bad = np.argwhere(ok & ~(np.abs(a - b) <= tol * s + tol * np.abs(b)))
        assert bad.size == 0, f"{name}: {[(int(i), int(j), float(a[i, j]), float(b[i, j])) for i, j in bad[:4]]} (i, j, got, expected)"
    assert np.array_equal(g.grid("h").data, zz), "height field modified"


def strat_exact():
    return st.fixed_dictionaries(dict(GEO, rel=st.sampled_from(["linear", "wave", "constant", "sign", "roll", "mirror", "rotation", "shift360", "scale"])))


def check_exact(case, ctx):
    rel = case["rel"]
    ctx.label(rel)

    def field(X, Y, r):
        if rel == "linear":
            return 0.3 * X - 0.2 * Y + 5
        if rel == "wave":
            return np.sin(np.deg2rad(X)) * np.cos(np.deg2rad(2 * Y))
        if rel == "rotation":
            return np.exp(-(((X - X.mean()) / np.ptp(X)) ** 2 + ((Y - Y.mean()) / np.ptp(Y)) ** 2) * 8)
        return r.uniform(-1, 1, X.shape)

    if rel == "linear":
        case = dict(case, kind="regional")
    r, x, y, z, m, grid = build(dict(case, dtype="f8"), field)
    circ = case["kind"] == "global"
    w = case["width"]
    rows = np.abs(y) > 0.01

    def uv(v, **kw):
        g = grid(v, **kw)
        g.add_uv("h", stencil_halfwidth=w)
        a, b = g.grid("u"), g.grid("v")
        return [np.where(np.ma.getmaskarray(q), np.nan, q.data)[:, rows] for q in (a, b)], g

    (u, v), g = uv(z)
    f = (OMEGA4 * np.sin(np.deg2rad(y)))[rows]
    deg = np.pi / 180 * g.EARTH_RADIUS
    cos = np.cos(np.deg2rad(y))[rows]
    ctx.nontrivial(bool((~np.isnan(u)).any()))

    def same(a, b, what, tol=1e-8):
        ok = np.isnan(a) == np.isnan(b)
        assert ok.all(), what + ": validity"
        s = ~np.isnan(a)
        scale = np.abs(b[s]).max() if s.any() else 0
        assert (np.abs(a[s] - b[s]) <= tol * scale + 1e-12).all(), what

    k = ~np.isnan(u), ~np.isnan(v)
    if rel == "linear":
        eu, ev = np.broadcast_to(0.2 / deg * g.GRAVITY / f, u.shape), np.broadcast_to(0.3 / deg / cos * g.GRAVITY / f, u.shape)
        assert np.allclose(u[k[0]], eu[k[0]], rtol=1e-6) and np.allclose(v[k[1]], ev[k[1]], rtol=1e-6), "a constant slope does not give its exact geostrophic velocity"
    elif rel == "wave" and case["mask"] in ("none", "none_scalar") and w == 4 and circ:
        X, Y = np.meshgrid(x, y, indexing="ij")
        ev = (np.cos(np.deg2rad(X)) * np.cos(np.deg2rad(2 * Y)) * np.pi / 180)[:, rows] / deg / cos * g.GRAVITY / f
        assert np.allclose(v, ev, atol=1e-6 * np.abs(ev).max()), "derivative of a long wave on a global grid"
    elif rel == "constant":
        (u2, v2), _ = uv(z + 3)
        same(u2, u, "adding a constant to the height changes u"), same(v2, v, "adding a constant to the height changes v")
        (u2, v2), _ = uv(np.full(z.shape, 2.0))
        assert np.nanmax(np.abs(np.r_[u2.ravel(), v2.ravel(), 0])) == 0, "a flat sea has currents"
    elif rel in ("sign", "scale"):
        a = -1 if rel == "sign" else 2.5
        (u2, v2), _ = uv(a * z)
        same(u2, a * u, "u does not scale with the height"), same(v2, a * v, "v does not scale with the height")
    elif rel == "roll" and circ:
        n = int(r.integers(1, x.size))
        (u2, v2), _ = uv(np.roll(z, n, axis=0), mask=np.roll(m, n, axis=0))
        same(np.roll(u2, -n, axis=0), u, "rolling the globe changes u"), same(np.roll(v2, -n, axis=0), v, "rolling the globe changes v")
    elif rel == "mirror":
        (u2, v2), _ = uv(z[::-1], mask=m[::-1])
        same(u2[::-1], u, "east-west mirror changes u"), same(-v2[::-1], v, "east-west mirror: v")
    elif rel == "shift360":
        (u2, v2), _ = uv(z, xs=x + 360)
        same(u2, u, "longitudes + 360 change u"), same(v2, v, "longitudes + 360 change v")
    elif rel == "rotation" and not circ and case["mask"] in ("none", "none_scalar") and min(x.size, y.size) >= 9 and abs(y).min() > 1 and x.size % 2:
        # high pressure: clockwise in the north
        i, j = x.size // 2, rows.sum() // 2
        s = np.sign(y[0])
        assert s * v[i + 3, j] < 0 < s * v[i - 3, j], "wrong sense of rotation around a high"
        ctx.label("rotation judged")


def strat_lagerloef():
    return st.fixed_dictionaries(dict(seed=gen.SEEDS, y0=st.sampled_from([-30.25, -12.25, 8.25, 20.25]), circ=st.booleans()))


def check_lagerloef(case, ctx):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    r = gen.rng(case["seed"])
    x = np.arange(0, 360, 2.0) if case["circ"] else np.arange(100, 190, 2.0)
    y = case["y0"] + np.arange(50) * 0.5
    X, Y = np.meshgrid(x, y, indexing="ij")
    z = np.sin(np.deg2rad(X * 3 + r.uniform(0, 9))) * np.cos(np.deg2rad(Y * 5 + r.uniform(0, 9)))

    def g():
        return RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, h=np.ma.array(z, mask=np.zeros(z.shape, bool))), centered=True)

    a, b = g(), g()
    a.add_uv("h")
    b.add_uv_lagerloef("h", schema=2)
    far = np.abs(y) > 5.6
    ctx.nontrivial()
    for k in "uv":
        p, q = a.grid(k)[:, far], b.grid(k)[:, far]
        assert np.array_equal(np.ma.getmaskarray(p), np.ma.getmaskarray(q)) and np.array_equal(p.filled(0), q.filled(0)), "velocities out of the equatorial band differ from the geostrophic ones"
        if (np.abs(y) < 4).any():
            ctx.label("equatorial")
            assert not np.array_equal(a.grid(k)[:, np.abs(y) < 4].filled(0), b.grid(k)[:, np.abs(y) < 4].filled(0)), "equatorial band not modified"


def check_beta(case, ctx):
    """At the equator the current is the one of the second derivatives of a field larger than the filter."""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    r = gen.rng(case["seed"])
    step, k, size = case["step"], case["k"], case["size"]
    x = np.arange(0, 360, step) if case["circ"] else 100 + np.arange(0, 60, step)
    y = -20 + step * 0.5 + np.arange(0, 40, step)
    X, Y = np.meshgrid(x, y, indexing="ij")
    phase, amp = np.deg2rad(X * k) + r.uniform(0, 6), r.choice([-1.0, 0.3])
    z = amp * np.exp(-((Y / size) ** 2)) * np.cos(phase)

    def g():
        return RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, h=np.ma.array(z, mask=np.zeros(z.shape, bool))), centered=True)

    a, b = g(), g()
    a.add_uv("h")
    b.add_uv_lagerloef("h", schema=case["schema"])
    radius, gravity = a.EARTH_RADIUS, a.GRAVITY
    beta = np.cos(np.deg2rad(y)) * 4 * np.pi / 86164.1 / radius
    meter = np.deg2rad(1) * radius
    ub = -gravity / beta * z * (4 * Y**2 / size**4 - 2 / size**2) / meter**2
    # derivative along x then along y
    vb = gravity / beta * -z * (k / (radius * np.cos(np.deg2rad(Y)))) ** 2
    w = 1 - np.exp(-((y / 2.2) ** 2))
    j = abs(y) < 2.6
    i = slice(None) if case["circ"] else slice(14, -14)
    ctx.nontrivial()
    for name, ref in (("u", ub), ("v", vb)):
        want = (a.grid(name).data * w + ref * (1 - w))[i][:, j]
        got = b.grid(name)[i][:, j]
        assert not np.ma.getmaskarray(got).any(), (name, "no current in the equatorial band")
        lim = 0.2 * abs(ref[i][:, j]).max()
        assert abs(got.data - want).max() < lim, (name, "current of the equatorial band", float(abs(got.data - want).max()), float(lim))


FACETS = [
    Facet("beta_plane", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, step=st.sampled_from([0.5, 1.0]), k=st.sampled_from([4, 6, 8]), size=st.sampled_from([12.0, 16.0, 20.0]), circ=st.booleans(), schema=st.sampled_from([1, 2]))), check_beta, quick=25, budget=60),
    Facet("currents_vs_reference", strat, check_uv, quick=800, budget=60),
    Facet("currents_relations", strat_exact, check_exact, quick=1000, budget=60),
    Facet("equatorial_band", strat_lagerloef, check_lagerloef, quick=25, budget=60),
]
