"""Memory safety of compiled kernels: everything runs with the bounds of arrays checked."""
import os

os.environ["NUMBA_BOUNDSCHECK"] = "1"

import importlib  # noqa: E402

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from .. import gen  # noqa: E402
from ..core import Facet, HarnessError  # noqa: E402

RULE = (
    "Cases are those of the other properties (tracking, contours, grids, networks, tracks, groups), run with kernels compiled to check every index, and series, lines, contours and grids of any small size "
    "given directly to kernels; a case is non-trivial when it is for the property it comes from, or when the kernel which is called ran to its end."
)
ASSUMPTIONS = [
    "Empty series, lines of less than two points, contours of less than three vertices and grids of less than two rows or columns are not generated for kernels called directly. "
    "A negative index which stays in the array is not seen as an error."
]
MESSAGE = "index is out of bounds"
STATE = dict()


def sanitizer():
    """The tool must see a wrong access, or nothing would be said by a pass"""
    if STATE:
        return
    from numba import config, njit

    if not config.BOUNDSCHECK:
        raise HarnessError("numba was loaded without check of bounds")

    @njit
    def after_end(x):
        return x[x.size]

    try:
        after_end(np.zeros(3))
    except IndexError as e:
        if MESSAGE not in str(e):
            raise HarnessError("message of numba changed: " + str(e))
    else:
        raise HarnessError("bounds are not checked by numba")
    STATE["ok"] = True


def guarded(what, call, ctx):
    """Only an access out of an array is an error here; everything else is judged by other properties"""
    try:
        call()
    except IndexError as e:
        assert MESSAGE not in str(e), f"{what}: compiled code read or wrote out of an array"
        ctx.label("other error")
        return False
    except HarnessError:
        raise
    except Exception:
        ctx.label("other error")
        return False
    return True


def group(prop, names, quick, thorough=None):
    m = importlib.import_module(__package__ + "." + prop)
    facets = {f.name: f for f in m.FACETS}

    def strategy():
        return st.one_of(*(facets[n].strategy().map(lambda c, n=n: dict(facet=n, case=c)) for n in names))

    def check(case, ctx):
        sanitizer()
        n = case["facet"]
        ctx.label(n)
        guarded(f"{prop} {n}", lambda: facets[n].check(case["case"], ctx), ctx)

    return Facet(prop, strategy, check, quick=quick, thorough=thorough or quick * 12, budget=150)


def run(calls, ctx):
    sanitizer()
    for name, f, *args in calls:
        if guarded(name, lambda: f(*args), ctx):
            ctx.label(name)
            ctx.nontrivial()


class Lazy:
    """Functions are looked for when they are called: one which is not there any more is not an error here"""

    def __init__(self, name):
        self._name = "py_eddy_tracker." + name

    def __getattr__(self, attr):
        def call(*args, **kwargs):
            return getattr(importlib.import_module(self._name), attr)(*args, **kwargs)

        return call


generic, poly, eddy_feature, grid, network, observation, tracking = (
    Lazy(k) for k in ("generic", "poly", "eddy_feature", "dataset.grid", "observations.network", "observations.observation", "observations.tracking")
)
KIND = st.sampled_from(["random", "same", "nan", "holes", "integers"])


def series(r, n, kind):
    x = r.uniform(-3, 3, n)
    if kind == "same":
        x[:] = x[0]
    elif kind == "nan":
        x[:] = np.nan
    elif kind == "holes":
        x[r.uniform(size=n) < 0.4] = np.nan
    elif kind == "integers":
        x = np.round(x)
    return x


def check_series(case, ctx):
    r = gen.rng(case["seed"])
    n, m = case["n"], case["m"]
    x, y, w = series(r, n, case["kind"]), series(r, n, "random"), series(r, m, case["kind1"])
    track = np.sort(r.integers(0, case["nb"], n))
    seg = track.copy()
    bins = np.sort(np.unique(np.round(r.uniform(-3, 3, case["nb"] + 2), 1)))
    if case["regular"] or bins.size < 2:
        bins = np.arange(-2.0, case["nb"])
    h = case["h"]
    first, last, i0 = generic.build_index(track)
    number = last - first
    centers = np.sort(w) if case["sorted"] else w
    run([
        ("count_consecutive", generic.count_consecutive, x > 0), ("build_index", generic.build_index, track), ("cumsum_by_track", generic.cumsum_by_track, x, track),
        ("reverse_index", generic.reverse_index, r.integers(0, n, m), n), ("hist_numba", generic.hist_numba, x, bins), ("window_index", generic.window_index, x[~np.isnan(x)], centers[~np.isnan(centers)], h),
        ("distance_grid", generic.distance_grid, x, y, w, w), ("median", tracking.track_median_filter, h, y, x, track), ("loess", tracking.track_loess_filter, h, y, x, track),
        ("compute_index", tracking.compute_index, track, np.zeros(case["nb"], "u4"), np.zeros(case["nb"], "u4")), ("count_by_track", tracking.count_by_track, track, x > 0, np.zeros(case["nb"], "u4")),
        ("digitize", observation.numba_digitize, x, bins), ("iter_mode_reduce", observation.iter_mode_reduce, x, bins), ("build_unique_array", network.build_unique_array, track, seg),
        ("new_numbering", network.new_numbering, seg), ("get_next_index", network.get_next_index, track), ("mask_from_ids", network.generate_mask_from_ids, r.integers(-3, case["nb"] + 3, m), n, first, last, i0),
        ("mask_from_id", tracking.compute_mask_from_id, np.unique(track), first, number, np.zeros(n, bool)),
    ], ctx)


def check_lines(case, ctx):
    r = gen.rng(case["seed"])
    n, k, p = case["n"], case["nb"], case["m"]
    X, Y = np.empty((k, n)), np.empty((k, n))
    for i in range(k):
        if case["kind"] == "random":
            X[i], Y[i] = gen.star(r, *r.uniform(-3, 3, 2), *r.uniform(0.2, 3, 2), n - 1)
        else:
            X[i], Y[i] = series(r, n, case["kind"]), series(r, n, case["kind"])
    if case["virtual"]:
        # virtual observations have no contour
        q = r.uniform(size=k) < 0.4
        X[q], Y[q] = 0, 0
    X += case["x0"]
    Y = np.clip(Y + case["y0"], -89, 89)
    px, py = case["x0"] + r.uniform(-4, 4, p), np.clip(case["y0"] + r.uniform(-4, 4, p), -89, 89)
    x, y = X[0], Y[0]
    v = poly.create_vertice(x, y)
    calls = [
        ("uniform_resample", generic.uniform_resample, x, y), ("uniform_resample fixed", lambda: generic.uniform_resample(x, y, fixed_size=case["size"])), ("simplify", generic.simplify, x, y, 0.3),
        ("wrap_longitude", lambda: generic.wrap_longitude(X.ravel(), Y.ravel(), case["x0"], cut=True)), ("split_line", generic.split_line, x, y, r.integers(0, 2, n)), ("flatten", generic.flatten_line_matrix, X),
        ("visvalingam", poly.visvalingam, x, y, case["size"]), ("convexs", poly.convexs, X, Y), ("hull", poly.get_convex_hull, x, y), ("fit_circle", poly.fit_circle, x, y), ("area", poly.poly_area, x, y),
        ("contain", poly.poly_contain_poly, v, poly.create_vertice(X[-1], Y[-1])), ("bbox_intersection", poly.bbox_intersection, X, Y, X[::-1].copy(), Y[::-1].copy()),
        ("close_center", poly.close_center, px, py, x, y), ("winding", poly.winding_number_poly, px[0], py[0], v), ("reduce_size", poly.reduce_size, x, y), ("shape_error", poly.shape_error, x, y, px[0], py[0], 1.0),
    ]
    if not np.isnan(X).any():
        calls += [("poly_indexs", poly.poly_indexs, px, py, X, Y), ("insidepoly", poly.insidepoly, px, py, X, Y), ("particles", poly.create_meshed_particles, X, Y, case["step"])]
    run(calls, ctx)


def check_grids(case, ctx):
    r = gen.rng(case["seed"])
    nx, ny = case["nx"], case["ny"]
    step = 360.0 / nx if case["circular"] else case["step"]
    x, y = case["x0"] + np.arange(nx) * step, -5 + np.arange(ny) * case["step"]
    z, w = r.uniform(-1, 1, (2, nx, ny))
    z = np.round(z * 3) if case["flat"] else z
    m = r.uniform(size=z.shape) < case["mask"]
    n = case["n"]
    px, py = x[0] + r.uniform(-2, nx + 2, n) * step, y[0] + r.uniform(-2, ny + 2, n) * case["step"]
    if case["on"]:
        px, py = r.choice(x, n), r.choice(y, n)
    if case["hole"]:
        px[r.integers(n)] = np.nan
    cx, cy = gen.star(r, px[0] if px[0] == px[0] else x[0], py[-1] if py[-1] == py[-1] else y[0], *r.uniform(0.2, 3, 2), 12)
    v = poly.create_vertice(cx, cy)
    xb, yb = x - step / 2, y - case["step"] / 2

    def pixels():
        (i0, i1), (j0, j1) = generic.bbox_indice_regular(v, xb, yb, step, case["step"], 1, case["circular"], nx)
        i, j = poly.get_pixel_in_regular(v, x, y, i0, i1, j0, j1)
        grid.has_masked_value(m, i, j)
        grid.has_value(z, i, j, 0.5)

    # Around each side of the boxes, or exactly on it
    side = r.choice([-0.5, -0.4, 0.4, 0.5], (2, n))
    bx, by = x[r.integers(0, nx, n)] + side[0] * step, y[r.integers(0, ny, n)] + side[1] * case["step"]
    if case["inside"]:
        bx = np.where(side[0] == 0.5, bx - 0.1 * step, bx)
        by = np.where(side[1] == 0.5, by - 0.1 * case["step"], by)
    lost = np.isnan(px)
    value = np.zeros(1)
    count = np.zeros((nx, ny))
    calls = [
        ("bilinear", generic.interp2d_geo, x, y, z, m, px, py), ("nearest", lambda: generic.interp2d_geo(x, y, z, m, px, py, nearest=True)),
        ("advect", grid.advect, x, y, z, w, m, px.copy(), py.copy(), lost.copy(), 3), ("advect_rk4", grid.advect_rk4, x, y, z, w, m, px.copy(), py.copy(), lost.copy(), 3),
        ("advect_t", grid.advect_t, x, y, z, w, m, w, z, m, px.copy(), py.copy(), lost.copy(), np.linspace(1, 0, 3), 0.5), ("advect_t_rk4", grid.advect_t_rk4, x, y, z, w, m, w, z, m, px.copy(), py.copy(), lost.copy(), np.linspace(1, 0, 3), 0.5),
        ("minima", eddy_feature.detect_local_minima_, z, m, r.uniform(size=z.shape) < 0.8, 1, 1), ("pixels", pixels),
        ("stencil", grid.compute_stencil, x, y, z, m, 6371e3, False, case["width"]), ("vertical stencil", grid.compute_stencil, x, y, z, m, 6371e3, True, case["width"]),
        ("value_on_contour", grid.value_on_regular_contour, x, y, z, m, v), ("grid_stat", observation.grid_stat, x, y, z, m, cx.reshape(1, -1), cy.reshape(1, -1), value, case["circular"], case["stat"]),
        ("grid_box_stat", observation.grid_box_stat, x, y, count, np.ones((nx, ny), bool), bx, by, np.arange(n) * 1.0, case["circular"], 50.0),
    ]
    half = [c for c in calls if c[0].startswith(("advect", "bilinear", "nearest"))]
    run(half if case["part"] == "positions" else [c for c in calls if c not in half], ctx)


N = st.sampled_from([1, 2, 3, 5, 12, 40])
FACETS = [
    Facet("series", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, n=N, m=N, nb=st.integers(1, 9), kind=KIND, kind1=KIND, h=st.sampled_from([0, 0.5, 1.0, 10.0]), regular=st.booleans(), sorted=st.booleans())), check_series, quick=500, budget=150),
    Facet("lines", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, n=st.sampled_from([4, 5, 9, 20, 50]), nb=st.integers(1, 6), m=N, kind=KIND, virtual=st.booleans(), x0=st.sampled_from([0, 180.0, -180.0, 359.5]), y0=st.sampled_from([0, 40.5, 87.0, -88.5]), size=st.sampled_from([4, 5, 18, 60]), step=st.sampled_from([0.1, 0.5]))), check_lines, quick=400, budget=150),
    *(Facet(part, lambda part=part: st.fixed_dictionaries(dict(part=st.just(part), seed=gen.SEEDS, nx=st.sampled_from([2, 3, 4, 5, 9, 20]), ny=st.sampled_from([2, 3, 4, 5, 9]), step=st.sampled_from([0.25, 1.0]), circular=st.booleans(), x0=st.sampled_from([0, -180.0, 355.5]), flat=st.booleans(), mask=st.sampled_from([0, 0.1, 0.6, 1]), n=st.sampled_from([1, 2, 9, 30]), on=st.booleans(), hole=st.booleans(), inside=st.booleans(), width=st.integers(1, 4), stat=st.sampled_from(["mean", "max"]))), check_grids, quick=400, budget=150) for part in ("positions", "cells")),
    group("p01", ["scores_vs_exact_clip", "close_centers"], 150),
    group("p02", ["history_vs_reference"], 100),
    group("p03", ["ellipse_and_ground", "common_area_cost"], 150),
    group("p05", ["contains", "polygon_mask", "grid_pixels", "eddy_count", "mesh_particles", "nested_contours", "curvilinear_pixels"], 500),
    group("p06", ["points", "on_contours", "regrid"], 250),
    group("p08", ["currents_vs_reference"], 150),
    group("p09", ["advect_vs_reference", "time_series"], 150),
    group("p10", ["regional_noisy", "flat_tops", "global"], 30),
    group("p13", ["resample", "visvalingam", "convexity", "simplify", "wrap", "groups"], 300),
    group("p15", ["labels", "geometry"], 200),
    group("p16", ["links0"], 100),
    group("p17", ["history0", "close", "swap"], 200),
    group("p18", ["relatives", "link", "events", "identify"], 200),
    group("p19", ["history0", "filters", "long_tracks"], 150),
    group("p20", ["structure", "normalize", "smooth", "position"], 250),
    group("p21", ["tracks", "networks", "missing", "fill"], 250),
    group("p22", ["iter", "window", "align", "close_tracks"], 300),
    group("p23", ["hist", "bins_stat", "boxes"], 250),
    group("p24", ["candidate", "segments"], 100),
    group("p28", ["pixel_path", "land"], 120),
    group("p29", ["percent", "masks"], 150),
]
