"""Spatial filters of regular grids."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet

RULE = (
    "Cases are regular grids (global or regional, random values, random masked pixels, steps of 1 to 3 degrees), a filter and its wavelength/order; "
    "a case is non-trivial when the kernel has more than one weight and at least one output pixel is valid."
)
ASSUMPTIONS = ["The kernel neither reaches a pole nor wraps more than once around the globe, and is as wide as its central latitude requires. Wavelength is at least twice the grid step everywhere it is applied (the library refuses shorter ones)."]

GEO = dict(
    seed=gen.SEEDS,
    kind=st.sampled_from(["global", "regional", "regional"]),
    step=st.sampled_from([1.0, 2.0, 3.0]),
    x0=st.sampled_from([0.5, -179.5, 20.0]),
    y0=st.sampled_from([-12.0, 30.0, -60.0, 68.0]),
    nx=st.integers(6, 24),
    ny=st.integers(4, 14),
    dtype=st.sampled_from(["f4", "f8", "f8"]),
    mask=st.sampled_from(["none", "some", "block", "line"]),
    factor=st.sampled_from([2.05, 2.6, 4.0]),
    order=st.sampled_from([1, 1, 2]),
    lat_max=st.sampled_from([85, 85, 32, 75]),
)


def build(case):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    r = gen.rng(case["seed"])
    step = case["step"]
    nx = int(360 / max(step, 3.0)) if case["kind"] == "global" else case["nx"]
    sx = max(step, 3.0) if case["kind"] == "global" else step
    x = case["x0"] + np.arange(nx) * sx
    y = case["y0"] + np.arange(case["ny"]) * step
    y = y[np.abs(y) < 89]
    z = r.uniform(-1, 1, (x.size, y.size)).astype(case["dtype"])
    m = np.zeros(z.shape, bool)
    if case["mask"] == "some":
        m = r.uniform(0, 1, z.shape) < 0.2
    elif case["mask"] == "block":
        m[: x.size // 3, : y.size // 2 + 1] = True
    elif case["mask"] == "line":
        m[:, r.integers(0, y.size)] = True
    # wavelength in km, long enough for the largest step; pole-ward steps are shorter in km
    wl = case["factor"] * max(step, sx * np.cos(np.deg2rad(np.abs(y).min()))) * 111.2

    # the kernel must not reach the pole
    case["lat_max"] = float(min(case["lat_max"], 89 - step - 1.5 * case["order"] * wl / 111.1))

    def grid(values, mask=None):
        d = np.ma.array(values.copy(), mask=(m if mask is None else mask).copy())
        return RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, z=d), centered=True)

    return r, x, y, z, m, wl, grid


def dist(lon0, lat0, lon1, lat1):
    a = np.deg2rad(lon1 - lon0) / 2
    la0, la1 = np.deg2rad(lat0), np.deg2rad(lat1)
    h = np.sin((la1 - la0) / 2) ** 2 + np.cos(la0) * np.cos(la1) * np.sin(a) ** 2
    return 2 * 6370997.0 * np.arcsin(np.sqrt(h))


def weights(kind, lat, dx, dy, sx, sy, wl, order):
    """Weight of the cell at (dx, dy) cells of the filtered one."""
    from scipy.special import j1

    d = dist(0.0, lat, dx * sx, lat + dy * sy) / 1000 / wl
    with np.errstate(invalid="ignore", divide="ignore"):
        if kind == "bessel":
            w = np.sinc(d / order) * j1(2 * np.pi * d) / d
            w = np.where((dx == 0) & (dy == 0), np.pi, w)
        else:
            w = np.sinc(d / order) * np.sinc(d)
    near = np.abs(d - order) < 1e-9
    return np.where(d > order, 0.0, w), near


def reference(kind, x, y, z, m, wl, order, lat_max, circular, extend=0):
    """(weighted sum, sum of weights on valid cells, total weight, mask)."""
    sx, sy = x[1] - x[0], y[1] - y[0]
    z = np.where(m, 0, z.astype("f8"))
    v = (~m).astype("f8")
    S, W, T = np.zeros(z.shape), np.zeros(z.shape), np.zeros(y.size)
    A = np.zeros(z.shape)
    amb = 0.0
    for j, lat in enumerate(y):
        # width set at the central latitude (poleward rows are truncated there)
        hx = int(np.ceil(wl * 1000 / (sx * dist(0, lat, 1, lat)))) * order
        hy = int(np.ceil(wl * 1000 / (sy * dist(0, 0, 0, 1)))) * order
        dx, dy = np.meshgrid(np.arange(-hx, hx + 1), np.arange(-hy, hy + 1), indexing="ij")
        w, near = weights(kind, lat, dx, dy, sx, sy, wl, order)
        if near.any():
            amb = max(amb, np.abs(w[near]).max())
        T[j] = w.sum()
        for a in range(dx.shape[0]):
            for b in range(dx.shape[1]):
                ww = w[a, b]
                jj = j + dy[a, b]
                if ww == 0 or not 0 <= jj < y.size:
                    continue
                k = np.arange(x.size) + dx[a, b]
                if circular:
                    k %= x.size
                    ok = slice(None)
                else:
                    ok = (k >= 0) & (k < x.size)
                    k = k[ok]
                S[ok, j] += ww * z[k, jj]
                W[ok, j] += ww * v[k, jj]
                A[ok, j] += abs(ww) * v[k, jj]
    return S, W, A, T


def wide_kernel(x, y, wl, order, lat_max, circular):
    """True when the kernel would wrap more than once around the globe."""
    sx = x[1] - x[0]
    lat = np.abs(y)[np.abs(y) <= lat_max]
    if not lat.size:
        return False
    return circular and wl * order / (sx * 111.19 * np.cos(np.deg2rad(lat.max()))) + 1 >= x.size


def strat_low():
    return st.fixed_dictionaries(dict(GEO, kernel=st.sampled_from(["bessel", "bessel", "lanczos"]), api=st.sampled_from(["low", "high", "low_filter", "high_filter"])))


def check_low(case, ctx):
    r, x, y, z, m, wl, grid = build(case)
    circ = case["kind"] == "global"
    order, lat_max = case["order"], case["lat_max"]
    if lat_max < 0 or wide_kernel(x, y, wl, order, lat_max, circ):
        ctx.label("kernel wider than the globe: skipped")
        return
    junk = z.copy()
    junk[m] = 1e5
    g = grid(junk)
    api, kern = case["api"], case["kernel"]
    if api.endswith("_filter"):
        kern = "bessel"
        getattr(g, api)("z", wl, order=order, lat_max=lat_max)
    else:
        getattr(g, f"{kern}_{api}_filter")("z", wl, order=order, lat_max=lat_max)
    got = g.grid("z")
    S, W, A, T = reference(kern, x, y, z, m, wl, order, lat_max, circ)
    exp_mask = m | (np.abs(y) > lat_max)[None]
    gm = np.ma.getmaskarray(got)
    # weights that cancel out give no usable value
    weak = np.abs(W) < 0.02 * A
    assert (gm == exp_mask)[~weak].all(), "mask of the filtered grid"
    ok = ~exp_mask & ~weak
    ctx.nontrivial(bool(ok.any()))
    ctx.label(case["kind"], kern, api, "mask " + case["mask"])
    with np.errstate(invalid="ignore", divide="ignore"):
        exp = S / W
        tol = (2e-5 if case["dtype"] == "f4" else 1e-6) * (1 + A / np.abs(W))
        if api.startswith("high"):
            exp = np.where(exp_mask, z, z - exp)
        bad = np.argwhere(ok & ~(np.abs(got.data - exp) <= tol))
    assert bad.size == 0, f"{kern} {api}: {[(int(i), int(j), float(got.data[i, j]), float(exp[i, j])) for i, j in bad[:4]]} (i, j, got, expected)"


def strat_rel():
    return st.fixed_dictionaries(dict(GEO, rel=st.sampled_from(["constant", "linear", "sum", "roll", "band", "extend", "pure", "shift360"])))


def check_rel(case, ctx):
    r, x, y, z, m, wl, grid = build(case)
    circ = case["kind"] == "global"
    order, lat_max, rel = case["order"], case["lat_max"], case["rel"]
    if lat_max < 0 or wide_kernel(x, y, wl * 1.5, order, lat_max, circ):
        ctx.label("kernel wider than the globe: skipped")
        return
    z = z.astype("f8")
    kw = dict(order=order, lat_max=lat_max)

    def low(v, mask=None, w=wl, **more):
        g = grid(v, mask)
        g.bessel_low_filter("z", w, **kw, **more)
        return g.grid("z")

    ctx.label(rel)
    base = low(z)
    gm = np.ma.getmaskarray(base)
    _, W, A, T = reference("bessel", x, y, z, m, wl, order, lat_max, circ)
    ok = ~gm & (np.abs(W) > 0.05 * A)
    ctx.nontrivial(bool(ok.any()))

    def same(a, b, what, where=ok, tol=1e-6):
        assert np.allclose(np.ma.getdata(a)[where], np.ma.getdata(b)[where], atol=tol, rtol=tol), what

    if rel == "constant":
        same(low(np.full(z.shape, 3.7)), np.full(z.shape, 3.7), "a constant field is changed by the low pass filter")
        g = grid(np.full(z.shape, 3.7))
        g.bessel_high_filter("z", wl, **kw)
        same(g.grid("z"), np.zeros(z.shape), "the high pass of a constant field is not zero")
    elif rel == "linear":
        z2 = r.uniform(-1, 1, z.shape)
        same(low(2 * z + 0.5 * z2 + 1), 2 * base + 0.5 * low(z2) + 1, "the filter is not linear", tol=1e-5)
    elif rel == "sum":
        g = grid(z)
        g.copy("z", "h")
        g.bessel_high_filter("h", wl, **kw)
        same(g.grid("h") + base, z, "low + high differs from the original")
        assert np.array_equal(np.ma.getdata(g.grid("z"))[~m], z[~m]), "filtering a copy changed the original grid"
        g.copy("z", "w")
        g.high_filter("w", wl, **kw)
        same(g.grid("w"), g.grid("h"), "high_filter differs from bessel_high_filter")
        g.copy("z", "l")
        g.low_filter("l", wl, **kw)
        same(g.grid("l"), base, "low_filter differs from bessel_low_filter")
    elif rel == "roll" and circ:
        k = int(r.integers(1, x.size))
        z2 = low(np.roll(z, k, axis=0), np.roll(m, k, axis=0))
        assert np.array_equal(np.roll(np.ma.getmaskarray(z2), -k, axis=0), gm)
        same(np.roll(z2.data, -k, axis=0), base, "rolling a global grid in longitude changes the filtered field")
    elif rel == "band":
        w2 = wl * 1.5
        g = grid(z)
        g.bessel_band_filter("z", wl, w2, **kw)
        l1 = low(z)
        l2 = low(l1.data, np.ma.getmaskarray(l1), w=w2)
        _, W2, A2, _ = reference("bessel", x, y, z, np.ma.getmaskarray(l1), w2, order, lat_max, circ)
        same(g.grid("z"), l1 - l2, "band filter is not the difference of two low pass filters", where=ok & (np.abs(W2) > 0.05 * A2))
    elif rel == "extend":
        g = grid(z)
        e = g.convolve_filter_with_dynamic_kernel("z", g.kernel_bessel, wave_length=wl, extend=0.3, **kw)
        same(e, base, "extension changes the values of valid pixels", where=ok & ~np.ma.getmaskarray(e))
        em = np.ma.getmaskarray(e)
        lim = 0.3 * T[None]
        lines = (np.abs(y) <= lat_max) & ~m.all(axis=0)
        sure = lines[None] & (np.abs(W - lim) > 1e-6 * np.abs(A) + 1e-9)
        assert (em == (W < lim))[sure].all(), "pixels kept by the extension"
        if (~em & m).any():
            ctx.label("filled land")
    elif rel == "pure":
        z2 = z.copy()
        z2[m] = -55.0
        same(low(z2), base, "masked values leak in the filtered field")
        g = grid(z)
        g.convolve_filter_with_dynamic_kernel("z", g.kernel_bessel, wave_length=wl, **kw)
        assert np.array_equal(g.grid("z").data[~m], z[~m]) and np.array_equal(np.ma.getmaskarray(g.grid("z")), m), "convolution changed its input"
    elif rel == "shift360":
        from py_eddy_tracker.dataset.grid import RegularGridDataset

        g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x + 360, lat=y, z=np.ma.array(z, mask=m)), centered=True)
        g.bessel_low_filter("z", wl, **kw)
        same(g.grid("z"), base, "longitudes + 360 change the filtered field")


FACETS = [
    Facet("filter_vs_reference", strat_low, check_low, quick=300, budget=60),
    Facet("filter_relations", strat_rel, check_rel, quick=450, budget=80),
]
