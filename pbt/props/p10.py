"""Eddy identification against an independent one."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ident
from ..core import Facet

RULE = (
    "Cases are height fields (regional grids or a global belt across its seam; sums of random bumps, noise, land) with currents and the options of the identification; "
    "a case is non-trivial when at least one eddy with two nested contours is expected."
)
ASSUMPTIONS = [
    "No pixel lies on a level, and two pixels have the same height in the facet of plateaus only; cases where a criterion of the reference is within rounding of its limit are not judged. "
    "Contours crossing the seam of a global grid start at another vertex than in the reference: values computed on them are compared within 2 percent."
]


def options():
    return dict(
        shape_error=st.sampled_from([55, 70, 30]), pixel_limit=st.sampled_from([None, [5, 60], [8, 2000], [1, 500]]), nb_step_min=st.sampled_from([None, 1, 3]),
        mle=st.sampled_from([None, None, 2]), nb_step_to_be_mle=st.sampled_from([None, 0, 4]), sampling=st.sampled_from([50, 20]), method=st.sampled_from(["visvalingam", "uniform"]),
        presampling=st.sampled_from([10, 10, 4]),
    )


def strat():
    return st.fixed_dictionaries(dict(ident.FIELD, kind=st.just("regional"), **dict(options(), noise=st.just(0.0))))


def strat_noise():
    return st.fixed_dictionaries(dict(ident.FIELD, kind=st.just("regional"), **dict(options(), noise=st.sampled_from([0.002, 0.006, 0.015]))))


def strat_plateau():
    return st.fixed_dictionaries(dict(ident.FIELD, kind=st.sampled_from(["regional", "regional", "regional", "global"]), **dict(options(), noise=st.sampled_from([0.002, 0.0, 0.005]), plateau=st.sampled_from([1.37, 0.87, 0.37, 2.37]))))


def strat_flat():
    return st.fixed_dictionaries(dict(ident.FIELD, kind=st.sampled_from(["regional", "regional", "global"]), **dict(options(), pixel_limit=st.sampled_from([None, [8, 2000]]), shape_error=st.sampled_from([70, 90]), noise=st.sampled_from([0.0, 0.0, 0.004]), flat=st.integers(3, 10))))


def strat_global():
    return st.fixed_dictionaries(dict(ident.FIELD, kind=st.just("global"), **options()))


def kwargs(case):
    kw = {k: case[k] for k in ("nb_step_min", "mle", "nb_step_to_be_mle") if case[k] is not None}
    if case["pixel_limit"] is not None:
        kw["pixel_limit"] = tuple(case["pixel_limit"])
    return dict(kw, shape_error=case["shape_error"])


def check(case, ctx):
    x, y, h, m, u, v = ident.field(case)
    wrap = case["kind"] == "global"
    g = ident.make_grid(case, x, y, h, m, u, v)
    kw = kwargs(case)
    try:
        ref = ident.identify(x, y, h, m, u, v, case["step"], wrap, **kw)
    except ident.Ambiguous:
        ctx.label("ambiguous")
        ref = None
    out = g.eddy_identification(
        "h", "u", "v", ident.DATE, step=case["step"], sampling=case["sampling"], sampling_method=case["method"], presampling_multiplier=case["presampling"], **kw
    )
    assert len(out) == 2
    for o, sign in zip(out, (1, -1)):
        assert o.sign_type == sign
        assert (np.asarray(o.time) == 19494.0).all(), "date"
        assert (np.asarray(o.lon) >= 0).all() and (np.asarray(o.lon) < 360).all()
        for k in "es":
            a, b = np.asarray(o.obs["contour_lon_" + k], "f8"), np.asarray(o.obs["contour_lat_" + k], "f8")
            assert (np.abs(a - np.asarray(o.lon, "f8")[:, None]) <= 180.001).all(), "contour is not on the same branch as the centre"
            assert np.allclose(a[:, 0], a[:, -1]) and np.allclose(b[:, 0], b[:, -1]), "contour is not closed"
    if ref is None:
        return
    big = False
    for o, exp, what in zip(out, ref, ("anticyclones", "cyclones")):
        desc = [ident.describe(e, case["presampling"]) for e in exp]
        got = sorted((round(float(e["height_external_contour"]), 6), round(float(e["lat"]), 3)) for e in o.obs)
        want = sorted((round(d["height_external_contour"], 6), round(d["lat"], 3)) for d in desc)
        assert len(o) == len(exp), (what, "found", got, "expected", want)
        free = list(range(len(o)))
        for d, e in zip(desc, exp):
            big |= d["nb_contour_selected"] > 1
            if e["plateau"]:
                ctx.label("eddy with a plateau")
            best = min(free, key=lambda k: abs(float(o.obs["lat"][k]) - d["lat"]) + abs(gen.wrap180(float(o.obs["lon"][k]) - d["lon"])) + 10 * abs(float(o.obs["height_external_contour"][k]) - d["height_external_contour"]))
            free.remove(best)
            compare(case, o, best, d, e["seam"], what)
            if not e["loose_any"]:
                n, sp = case["sampling"], e["speeds"]
                prof = np.interp(np.linspace(0, sp.size - 1, n), np.arange(sp.size), sp) if sp.size > 1 else np.full(n, sp[0])
                assert np.allclose(o.obs["uavg_profile"][best], prof, rtol=1e-4, atol=1e-6, equal_nan=True), (what, "profile of speed", o.obs["uavg_profile"][best], prof)
            ctx.label("joined many times at the seam" if e["seam"] else "eddy across the seam" if e["cross"] else "eddy")
    ctx.nontrivial(big)
    ctx.label("land " + case["land"])


TOL = dict(height_external_contour=2e-7, height_max_speed_contour=2e-7, height_inner_contour=2e-7, amplitude=2e-6, nb_contour_selected=0)
REL = dict(speed_average=1e-5, radius_s=1e-4, radius_e=1e-4, speed_area=2e-4, effective_area=2e-4)
ABS = dict(lat=1e-4, lat_max=1e-4, shape_error_s=0.07, shape_error_e=0.07)


def compare(case, o, k, d, seam, what):
    row = o.obs[k]
    for f, tol in TOL.items():
        assert abs(float(row[f]) - d[f]) <= tol, (what, f, float(row[f]), d[f])
    if not seam:
        for f in ("num_point_e", "num_point_s"):
            assert int(row[f]) == d[f] % 65536, (what, f, int(row[f]), d[f])
    for f, tol in REL.items():
        t = 0.03 if seam or (d["loose"] and f == "speed_average") else tol
        assert abs(float(row[f]) - d[f]) <= t * abs(d[f]), (what, f, float(row[f]), d[f])
    size = d["radius_e"] / 111e3
    for f, tol in ABS.items():
        t = (max(tol, 0.05 * size) if f.startswith("lat") else 4.0) if seam else tol
        assert abs(float(row[f]) - d[f]) <= t, (what, f, float(row[f]), d[f])
    for f in ("lon", "lon_max"):
        assert abs(gen.wrap180(float(row[f]) - d[f])) <= (max(1e-4, 0.1 * size) if seam else 1e-4), (what, f, float(row[f]), d[f])
    for s in "es":
        lon, lat = np.asarray(row["contour_lon_" + s], "f8"), np.asarray(row["contour_lat_" + s], "f8")
        dist = ident.line_distance(lon, lat, d["line_" + s])
        tol = 6e-5
        if case["method"] == "uniform":
            # resampled twice: corners are cut
            p, q = d["line_" + s]
            tol += 0.5 * np.hypot(np.diff(p), np.diff(q)).sum() / (case["presampling"] * p.size)
        assert dist < tol, (what, "stored contour is away from the iso line", s, dist)
        # and covers it
        a0, a1 = abs(gen.shoelace(lon, lat)), abs(gen.shoelace(*d["line_" + s]))
        lim = (0.07 if case["sampling"] == 50 else 0.2) * a1
        if case["method"] == "uniform":
            lim = max(lim, np.hypot(np.diff(p), np.diff(q)).sum() * tol)
        assert d["line_" + s][0].size > 2.5 * lon.size or abs(a0 - a1) <= lim, (what, "area of the stored contour", a0, a1)


FACETS = [
    Facet("regional", strat, check, quick=170, budget=100),
    Facet("regional_noisy", strat_noise, check, quick=170, budget=100),
    Facet("plateaus", strat_plateau, check, quick=140, budget=100),
    Facet("flat_tops", strat_flat, check, quick=140, budget=100),
    Facet("global", strat_global, check, quick=90, budget=100),
]
