"""Statistics of observations by bins or by boxes."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet

RULE = (
    "Cases are observations (none to hundreds) with variables of each type of the atlas, bins regular or not, boxes on the whole globe or a region, crossing or not a branch of longitude, with and without filter or masked values; "
    "a case is non-trivial when at least two observations share a bin (box) and at least two bins (boxes) are used."
)
ASSUMPTIONS = [
    "Positions, bounds and steps are multiples of 1/8 degree; at least two boxes in each direction; no observation exactly on the last (north or east) bound of the boxes.",
    "Values are finite; percentiles are asked on floating variables.",
    "Percentiles refuse (exception) observations out of the boxes: this is accepted, only if there is one.",
]
FIELDS = ["amplitude", "speed_average", "radius_s", "lon", "shape_error_s", "num_point_s", "nb_contour_selected", "lon_max", "time"]


def table(r, nb, lat=(-60, 60), lon=(0, 360)):
    o = gen.make_obs(nb, 0, extra=["lon_max"])
    o.obs["lon"] = lon[0] + r.integers(0, (lon[1] - lon[0]) * 8, nb) / 8
    o.obs["lat"] = lat[0] + r.integers(0, (lat[1] - lat[0]) * 8, nb) / 8
    o.obs["amplitude"], o.obs["speed_average"] = r.integers(1, 400, nb) / 64, r.normal(size=nb)
    o.obs["radius_s"] = r.integers(20, 200, nb) * 1000.0
    o.obs["shape_error_s"] = r.integers(0, 2000, nb) / 4
    o.obs["num_point_s"], o.obs["nb_contour_selected"] = r.integers(0, 60000, nb), r.integers(0, 40, nb)
    o.obs["lon_max"] = r.normal(size=nb) * 100
    o.obs["time"] = r.integers(20000, 20100, nb)
    return o


def choose(r, kind, o):
    """A filter and the indexes it selects"""
    nb = len(o)
    if kind == "mask":
        m = r.uniform(size=nb) < 0.6
        return m, np.where(m)[0]
    if kind == "index":
        i = np.unique(r.integers(0, nb, nb // 2 + 1)) if nb else np.zeros(0, int)
        return i, i
    if kind == "slice":
        a, b = sorted(r.integers(0, nb + 1, 2).tolist())
        return slice(a, b), np.arange(a, b)
    if kind == "callable":
        return lambda s: s.amplitude > 3, np.where(o.obs["amplitude"] > 3)[0]
    return slice(None), np.arange(nb)


def bins_of(r, x, kind):
    lo, hi = (float(x.min()), float(x.max())) if x.size else (0.0, 1.0)
    span = max(hi - lo, 1.0)
    if kind == "regular":
        return np.linspace(lo - span / 8, hi + span / 8, 8)
    if kind == "exact":
        # bounds are values
        v = np.unique(x.astype("f8"))
        return v[:: max(1, v.size // 6)] if v[:: max(1, v.size // 6)].size > 1 else np.array([lo, lo + 1])
    if kind == "inside":
        return np.linspace(lo + span / 4, hi - span / 4, 5) if hi - lo >= 1 else np.array([lo - 2, lo - 1.0])
    if kind == "out":
        return np.array([hi + 1, hi + 2, hi + 5])
    return np.sort(np.unique(r.uniform(lo - 1, hi + 1, 6)))


def place(x, bins):
    """Bin of each value (last one is closed), -1 out of the bins"""
    x = np.asarray(x).astype("f8")
    k = np.searchsorted(bins, x, side="right") - 1
    k[x == bins[-1]] = len(bins) - 2
    k[(x < bins[0]) | (x > bins[-1])] = -1
    return k


def by_bin(k, nb, v, f):
    return np.array([f(v[k == i]) if (k == i).any() else np.nan for i in range(nb)])


def same(got, ref, rtol=1e-4):
    got, ref = np.ma.filled(np.ma.asarray(got, dtype="f8"), np.nan), np.asarray(ref, "f8")
    return got.shape == ref.shape and np.allclose(got, ref, rtol=rtol, atol=1e-6 * (1 + np.nanmax(np.abs(ref), initial=0)), equal_nan=True)


def check_hist(case, ctx):
    r = gen.rng(case["seed"])
    o = table(r, case["nb"])
    x, v = o.obs[case["x"]], np.asarray(o.obs[case["v"]], "f8")
    bins = bins_of(r, x, case["bins"])
    if bins.size < 2:
        return
    k = place(x, bins)
    nb = bins.size - 1
    count = np.array([(k == i).sum() for i in range(nb)])
    total = np.array([v[k == i].sum() for i in range(nb)])
    xa, va = (o.obs[case["x"]], o.obs[case["v"]]) if case["array"] else (case["x"], case["v"])
    assert np.array_equal(o.hist(va, xa, bins, nb=True), count), "count"
    assert same(o.hist(va, xa, bins), total), ("sum", o.hist(va, xa, bins), total)
    if count.sum():
        assert same(o.hist(va, xa, bins, nb=True, percent=True), 100 * count / count.sum()), "percent of count"
    if case["v"] in ("amplitude", "radius_s", "num_point_s") and total.sum():
        assert same(o.hist(va, xa, bins, percent=True), 100 * total / total.sum()), "percent of sum"
    with np.errstate(all="ignore"):
        mean = o.hist(va, xa, bins, mean=True)
        assert same(mean, by_bin(k, nb, v, np.mean)), ("mean", mean, by_bin(k, nb, v, np.mean))
    ctx.nontrivial((count > 1).any() and (count > 0).sum() > 1)
    ctx.label(str(o.obs.dtype[case["v"]]))


def check_bins(case, ctx):
    r = gen.rng(case["seed"])
    o = table(r, case["nb"])
    flt, idx = choose(r, case["filter"], o)
    x, v = o.obs[case["x"]][idx], np.asarray(o.obs[case["v"]][idx], "f8")
    if case["bins"] == "none":
        if not idx.size or x.dtype == "f2":
            return
        bins, given = np.arange(float(x.min()), float(x.max()) + 2), None
    else:
        bins = given = bins_of(r, x, case["bins"])
    if bins.size < 2 or bins.size > 5000:
        return
    k = place(x, bins)
    nb = bins.size - 1
    count = np.array([(k == i).sum() for i in range(nb)])
    name = o.obs[case["x"]] if case["array"] else case["x"]
    xc, y = o.bins_stat(name, bins=given, mask=flt)
    assert same(xc, (bins[1:] + bins[:-1]) / 2, 1e-5), "centres"
    assert np.array_equal(y, count), ("count", y, count)
    for method, f in (("mean", np.mean), ("std", np.std)):
        xc, y = o.bins_stat(name, bins=given, yname=o.obs[case["v"]] if case["array"] else case["v"], method=method, mask=flt)
        ref = by_bin(k, nb, v, f)
        assert same(xc, (bins[1:] + bins[:-1]) / 2, 1e-5) and y.shape == ref.shape, "centres"
        scale = 1e-5 * (1 + np.ptp(v) if v.size else 1)
        assert np.allclose(y, ref, rtol=1e-4, atol=scale, equal_nan=True), (method, y, ref)
    ctx.nontrivial((count > 1).any() and (count > 0).sum() > 1)


def boxes(case):
    step = case["step"]
    if case["grid"] == "global":
        x0, x1 = case["x0"], case["x0"] + 360 + step / 2
    else:
        x0, x1 = case["x0"], case["x0"] + case["nx"] * step + step / 2
    y0 = case["y0"]
    y1 = y0 + case["ny"] * step + step / 2
    return (x0, x1, step), (y0, y1, step)


def check_box(case, ctx):
    r = gen.rng(case["seed"])
    bx, by = boxes(case)
    xb, yb = np.arange(*bx), np.arange(*by)
    step, x0 = case["step"], bx[0]
    nx, ny = xb.size - 1, yb.size - 1
    nb = case["nb"]
    o = table(r, nb)
    # most of observations in few boxes
    inside = r.uniform(size=nb) < case["inside"]
    px = x0 + r.integers(0, int(min(xb[-1] - x0, 6 * step) * 8), nb) / 8
    py = yb[0] + r.integers(0, int((yb[-1] - yb[0]) * 8), nb) / 8
    if case["edge"]:
        px = np.where(r.uniform(size=nb) < 0.4, xb[-1] - 1 / 8, px)
    o.obs["lon"] = np.where(inside, px, o.obs["lon"]) + 360 * r.integers(-1, 2, nb)
    o.obs["lat"] = np.where(inside, py, o.obs["lat"])
    fx = (o.obs["lon"].astype("f8") - x0) % 360 + x0
    fy = o.obs["lat"].astype("f8")
    if (fx == xb[-1]).any() or (fy == yb[-1]).any():
        return
    i, j = np.floor((fx - x0) / step).astype(int), np.floor((fy - yb[0]) / step).astype(int)
    ok = (i >= 0) & (i < nx) & (j >= 0) & (j < ny)
    name = case["v"]
    v = o.obs[name]
    mask = np.zeros(nb, bool)
    data = None
    if case["data"] == "masked":
        mask = r.uniform(size=nb) < 0.3
        data = np.ma.array(v, mask=mask)
    elif case["data"] == "nomask":
        data = np.ma.array(v)
    elif case["data"] == "array":
        data = v * 2
    values = np.asarray(v if data is None else np.ma.getdata(data), "f8")

    def reference(sel, f):
        ref = np.full((nx, ny), np.nan)
        group = dict()
        for k in np.where(sel)[0]:
            group.setdefault((i[k], j[k]), []).append(values[k])
        for key, g in group.items():
            ref[key] = f(np.array(g))
        return ref, group

    # mean
    ref, group = reference(ok & ~mask, np.mean)
    g = o.grid_stat((bx, by), name, **({} if data is None else dict(data=data)))
    assert np.allclose(g.x_c, (xb[1:] + xb[:-1]) / 2) and np.allclose(g.y_c, (yb[1:] + yb[:-1]) / 2), "boxes of the mean"
    got = g.grid(name)
    assert np.array_equal(np.ma.getmaskarray(got), np.isnan(ref)), "boxes without observation must be masked, and only those"
    assert same(got, ref), "mean by box"
    ctx.nontrivial(len(group) > 1 and any(len(u) > 1 for u in group.values()))
    # count
    ref_n = np.zeros((nx, ny), int)
    flt, idx = choose(r, case["filter"], o)
    sel = np.zeros(nb, bool)
    sel[idx] = True
    np.add.at(ref_n, (i[ok & sel], j[ok & sel]), 1)
    got = o.grid_count((bx, by), center=True, filter=flt).grid("count")
    assert np.array_equal(np.ma.filled(got, 0), ref_n) and np.array_equal(np.ma.getmaskarray(got), ref_n == 0), "count of centres"
    # percentile
    if o.obs.dtype[name].kind != "f":
        return
    keep = v.copy()
    q = case["q"]
    use = sel & ~mask
    ref, group = reference(ok & use, lambda u: np.percentile(u, q))
    try:
        g = o.grid_box_stat((bx, by), name, method=q, filter=flt, **({} if data is None else dict(data=data)))
    except Exception as e:
        if "indices" in str(e) and (use & ~ok).any():
            ctx.label("refused")
            return
        raise
    assert not (use & ~ok).any(), "observations out of the boxes"
    assert np.allclose(g.x_c, (xb[1:] + xb[:-1]) / 2) and np.allclose(g.y_c, (yb[1:] + yb[:-1]) / 2), "boxes of the percentile"
    got = g.grid(name)
    assert np.array_equal(np.ma.getmaskarray(got), np.isnan(ref)), ("percentile: boxes without observation must be masked, and only those", np.argwhere(np.ma.getmaskarray(got) != np.isnan(ref)).tolist())
    assert same(got, ref), ("percentile by box", [(int(a), int(b), float(got[a, b]), float(ref[a, b])) for a, b in np.argwhere(~np.isnan(ref))])
    assert np.array_equal(keep, v), "values changed"
    ctx.label("percentile")
    if len(group) > 1:
        ctx.label("percentile, several boxes")


NB = st.sampled_from([0, 1, 2, 5, 20, 100, 400])
BINS = st.sampled_from(["regular", "exact", "exact", "inside", "out", "irregular"])
FIELD = st.sampled_from(FIELDS)
FILTER = st.sampled_from(["none", "none", "mask", "index", "slice", "callable"])
FACETS = [
    Facet("hist", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, nb=NB, x=FIELD, v=FIELD, bins=BINS, array=st.booleans())), check_hist, quick=400, budget=60),
    Facet("bins_stat", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, nb=NB, x=FIELD, v=FIELD, bins=st.one_of(BINS, st.just("none")), array=st.booleans(), filter=FILTER)), check_bins, quick=400, budget=60),
    Facet(
        "boxes",
        lambda: st.fixed_dictionaries(
            dict(
                seed=gen.SEEDS, nb=st.sampled_from([0, 1, 2, 5, 20, 100]), v=st.sampled_from(FIELDS), grid=st.sampled_from(["global", "region"]), step=st.sampled_from([0.5, 1.0, 2.5, 10.0]), x0=st.sampled_from([0, -180, 20, 350, -7, 175]),
                y0=st.sampled_from([-10, 30, -80, 0]), nx=st.integers(2, 9), ny=st.integers(2, 9), inside=st.sampled_from([1.0, 1.0, 1.0, 0.95, 0.3]), edge=st.booleans(), data=st.sampled_from(["none", "none", "masked", "nomask", "array"]), q=st.sampled_from([0, 10, 50, 75.5, 100]), filter=FILTER,
            )
        ),
        check_box, quick=500, budget=90,
    ),
]
