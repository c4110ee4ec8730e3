"""Identification does not depend on the representation of the fields."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, ident
from ..core import Facet

RULE = (
    "Cases are the fields of P10 identified twice: as they are, and after a change of representation (units, offset by whole levels, longitudes + 360, first meridian, file, dimension order, "
    "dtype, curvilinear coordinates, repeated call); a case is non-trivial when at least one eddy is found."
)
ASSUMPTIONS = [
    "Cases where the reference identification of P10 meets a criterion within rounding of its limit are not judged. Contours joined across the seam of a global grid are compared within 3 percent."
]

RELS = ["units", "units_forced", "offset", "shift360", "memory_order", "file", "repeat", "speed_units", "precision", "sampling", "hidden", "curvilinear", "float32_file"]


def strat():
    return st.fixed_dictionaries(dict(ident.FIELD, kind=st.just("regional"), rel=st.sampled_from(RELS), noise=st.sampled_from([0, 0, 0.003])))


def strat_global():
    return st.fixed_dictionaries(dict(ident.FIELD, kind=st.just("global"), rel=st.sampled_from(["first_meridian", "shift360", "file", "first_meridian"])))


def run(g, case, step=None, **kw):
    return g.eddy_identification("h", "u", "v", ident.DATE, step=case["step"] if step is None else step, **kw)


def check(case, ctx):
    x, y, h, m, u, v = ident.field(case)
    if case["rel"] == "float32_file":
        h = h.astype("f4").astype("f8")
        u, v = u.astype("f4").astype("f8"), v.astype("f4").astype("f8")
    wrap = case["kind"] == "global"
    rel = case["rel"]
    try:
        ref = ident.identify(x, y, h, m, u, v, case["step"], wrap)
    except ident.Ambiguous:
        ctx.label("ambiguous")
        return
    if any(e["seam"] or e["loose_any"] for r in ref for e in r):
        ctx.label("rounding on the limit of cells")
        return
    mk = lambda case=case, x=x, h=h, m=m, u=u, v=v, **kw: ident.make_grid(case, x, y, h, m, u, v, **kw)  # noqa: E731
    g = mk()
    before = [g.grid(k).copy() for k in "huv"]
    base = run(g, case)
    for k, b in zip("huv", before):
        a = g.grid(k)
        assert np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and np.array_equal(np.ma.getdata(a), np.ma.getdata(b)), ("identification changed its input", k)
    ctx.nontrivial(len(base[0]) + len(base[1]) > 0)
    ctx.label(rel)
    same = dict()
    ignore = ()
    if rel == "repeat":
        out = run(g, case)
    elif rel in ("units", "units_forced"):
        g2 = mk(h=h * 100, units="cm" if rel == "units" else "m")
        out = run(g2, case, force_height_unit=None if rel == "units" else "cm")
    elif rel == "speed_units":
        g2 = mk(u=u * 100, v=v * 100, speed_units="cm/s")
        out = run(g2, case)
    elif rel == "offset":
        k = 40 if case["seed"] % 2 else -37
        out = run(mk(h=h + k * case["step"]), case)
        same = dict(height_max_speed_contour=k * case["step"], height_external_contour=k * case["step"], height_inner_contour=k * case["step"])
    elif rel == "shift360":
        out = run(mk(x=x + (360 if case["seed"] % 2 else -360)), case)
    elif rel == "memory_order":
        g2 = mk()
        for k in "huv":
            g2.vars[k] = np.ma.array(np.asfortranarray(np.ma.getdata(g2.vars[k])), mask=np.asfortranarray(np.ma.getmaskarray(g2.vars[k])))
        out = run(g2, case)
    elif rel == "hidden":
        # what lies under the mask does not matter
        if case["land"] in ("block", "islands"):
            h2, u2, v2 = h.copy(), u.copy(), v.copy()
            h2[m], u2[m], v2[m] = 1e4, -1e3, 7.0
            out = run(mk(h=h2, u=u2, v=v2), case)
        else:
            return
    elif rel == "precision":
        p = case["step"] / 7.3
        out = run(mk(h=np.round(h / p) * p), case)
        if case["seed"] % 2:
            base = run(g, case, precision=p)
        else:
            # the precision is in metres, whatever the unit of the grid
            base = run(mk(h=h * 100, units="cm"), case, precision=p)
    elif rel == "sampling":
        out = run(g, case, sampling=30, sampling_method="uniform")
        ignore = ("contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile")
    elif rel in ("file", "float32_file"):
        from py_eddy_tracker.dataset.grid import RegularGridDataset

        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "grid.nc")
            write_file(fn, x, y, dict(h=h, u=u, v=v), m, case, "f4" if rel == "float32_file" else "f8")
            g2 = RegularGridDataset(fn, "lon", "lat")
            out = run(g2, case)
    elif rel == "first_meridian":
        n = 1 + case["seed"] % (x.size - 1)
        x2 = np.r_[x[n:], x[:n] + 360]
        out = run(mk(x=x2, **{k: np.roll(q, -n, axis=0) for k, q in dict(h=h, u=u, v=v, m=m).items()}), case)
        ctx.label("eddy over a seam" if any(e["cross"] for r in ref for e in r) else "no eddy over a seam")
    elif rel == "curvilinear":
        out = run(curvilinear(x, y, h, m, u, v), case)
        # the speed on contours is interpolated in another way
        keep = ("height_external_contour", "amplitude", "radius_e", "shape_error_e", "height_inner_contour", "nb_contour_selected", "num_point_e", "lon_max", "lat_max", "time")
        for a, b, what in zip(base, out, ("anticyclones", "cyclones")):
            compare(a, b, what + " (curvilinear)", same, [f for f in a.obs.dtype.names if f not in keep and not f.endswith("_e") or f == "effective_area"], True, ctx, center=("lon_max", "lat_max"))
            # mean speed of the contour, with the nearest pixels
            for k in range(len(a)):
                d = [abs(float(a.lat_max[k]) - float(b.lat_max[q])) + 20 * abs(float(a.height_external_contour[k]) - float(b.height_external_contour[q])) for q in range(len(b))]
                q = int(np.argmin(d))
                assert abs(float(a.speed_average[k]) - float(b.speed_average[q])) <= 0.2 * float(a.speed_average[k]) + 0.01, (what, "mean speed on a curvilinear grid", a.speed_average[k], b.speed_average[q])
                assert abs(float(b.uavg_profile[q][0]) - float(a.uavg_profile[k][0])) <= 0.25 * float(a.uavg_profile[k][0]) + 0.01, (what, "profile on a curvilinear grid", b.uavg_profile[q], a.uavg_profile[k])
        return
    loose = rel == "first_meridian"
    for a, b, what in zip(base, out, ("anticyclones", "cyclones")):
        compare(a, b, what + " (" + rel + ")", same, ignore, loose, ctx)


def compare(a, b, what, shift, ignore, loose, ctx, center=("lon", "lat")):
    assert len(a) == len(b), (what, "number of eddies", len(a), len(b))
    assert a.sign_type == b.sign_type
    free = list(range(len(b)))
    A, B = a.obs, b.obs
    lx, ly, hx = np.asarray(B[center[0]], "f8"), np.asarray(B[center[1]], "f8"), np.asarray(B["height_external_contour"], "f8")
    for k in range(len(a)):
        h = float(A["height_external_contour"][k]) + shift.get("height_external_contour", 0)
        q = min(free, key=lambda i: abs(gen.wrap180(float(A[center[0]][k]) - lx[i])) + abs(float(A[center[1]][k]) - ly[i]) + 20 * abs(h - hx[i]))
        free.remove(q)
        size = float(A["radius_e"][k]) / 1.1e5
        for f in A.dtype.names:
            if f in ignore:
                continue
            p, r = np.asarray(A[f][k], "f8") + shift.get(f, 0), np.asarray(B[f][q], "f8")
            if f.startswith("contour"):
                continue
            if f in ("lon", "lon_max"):
                p, r = np.zeros(1), gen.wrap180(r - p)
            tol = 1e-4 * np.abs(p) + 2e-4
            if f.startswith("shape"):
                tol = 0.3
            if loose:
                tol = tol + (0.03 * np.abs(p) if not f.startswith(("lon", "lat")) else 0.1 * size)
                if f.startswith("shape"):
                    tol = 4
                if f.startswith("num_point"):
                    tol = 4
            assert (np.abs(p - r) <= tol).all() or (np.isnan(p) == np.isnan(r)).all() and np.nanmax(np.abs(p - r)) <= np.max(tol), (what, f, p, r)
        for s in "es":
            if "contour_lon_" + s in ignore:
                continue
            p = np.asarray(A["contour_lon_" + s][k], "f8"), np.asarray(A["contour_lat_" + s][k], "f8")
            r = np.asarray(B["contour_lon_" + s][q], "f8"), np.asarray(B["contour_lat_" + s][q], "f8")
            for o, w in ((A[k], p[0]), (B[q], r[0])):
                assert np.abs(w - float(o["lon"])).max() <= 180.001, (what, "contour on another turn than the centre", s, w, o["lon"])
            # which collinear points are kept is a matter of rounding
            dist = ident.line_distance(r[0], r[1], p)
            assert dist < (0.06 if loose else 0.03) * size + 1e-4, (what, "contour", s, dist)
            a0, a1 = abs(gen.shoelace(*p)), abs(gen.shoelace(*r))
            assert abs(a0 - a1) < 0.05 * a0, (what, "area of contour", s, a0, a1)
    ctx.label("compared") if len(a) else None


def strat_spike():
    return st.fixed_dictionaries(dict(seed=gen.SEEDS, sign=st.sampled_from([1, -1]), spike=st.sampled_from([50.0, 1000.0, 3e4]), step=st.sampled_from([0.02, 0.05]), land=st.sampled_from(["none", "block"]), nb=st.integers(6, 20)))


def check_spike(case, ctx):
    """One or two wrong values in a large grid only change the eddies which hold them"""
    r = gen.rng(case["seed"])
    x, y = 5 + np.arange(440) * 0.1, 30 + np.arange(290) * 0.1
    h = np.zeros((x.size, y.size))
    for _ in range(case["nb"]):
        a, cx, cy, s = r.choice([-1, 1]) * r.uniform(3, 8) * case["step"], r.uniform(x[0], x[-1]), r.uniform(y[0], y[-1]), r.uniform(0.4, 1.5)
        i, j = np.abs(x - cx) < 5 * s, np.abs(y - cy) < 5 * s
        h[np.ix_(i, j)] += a * np.exp(-((x[i, None] - cx) ** 2 + (y[None, j] - cy) ** 2) / s**2)
    h += 0.31 * case["step"]
    m = np.zeros(h.shape, bool)
    if case["land"] == "block":
        m[:20, :30] = True
    v = np.sort(h[~m])
    lv = lambda z: np.floor(z / case["step"])  # noqa: E731
    if lv(v[0]) != lv(v[4]) or lv(v[-1]) != lv(v[-5]):
        ctx.label("few pixels at the extreme level")
        return
    i, j = int(r.integers(25, x.size)), int(r.integers(35, y.size))
    h2 = h.copy()
    h2[i, j] = case["sign"] * case["spike"]
    u, w = np.gradient(h, axis=1), np.gradient(h, axis=0)
    base = run(ident.make_grid(case, x, y, h, m, u, w), case)
    out = run(ident.make_grid(case, x, y, h2, m, u, w), case)
    for a, b, what in zip(base, out, ("anticyclones", "cyclones")):
        # an eddy holding the spike, or its neighbours, is not judged
        keep = [[k for k in range(len(o)) if np.hypot(np.asarray(o.contour_lon_e[k], "f8") - x[i], np.asarray(o.contour_lat_e[k], "f8") - y[j]).min() > 0.2
                 and not gen.point_in(np.asarray(o.contour_lon_e[k], "f8"), np.asarray(o.contour_lat_e[k], "f8"), np.array([x[i]]), np.array([y[j]]))[0].any()] for o in (a, b)]
        # an eddy may appear inside of the one which is destroyed by the spike
        got = {(round(float(e["lon"]), 3), round(float(e["lat"]), 3), round(float(e["height_external_contour"]), 4)) for e in b.obs}
        for k in keep[0]:
            e = a.obs[k]
            w = (round(float(e["lon"]), 3), round(float(e["lat"]), 3), round(float(e["height_external_contour"]), 4))
            assert any(max(abs(p - q) for p, q in zip(w, z)) < 2e-3 for z in got), (what, "lost because of a spike elsewhere", w, sorted(got), (x[i], y[j]))
        ctx.label("eddies far from the spike") if keep[0] else None
        ctx.nontrivial(len(keep[0]) > 1)


def write_file(fn, x, y, data, m, case, dtype):
    from netCDF4 import Dataset

    order = ("lat", "lon") if case["seed"] % 3 else ("lon", "lat")
    fill = None if case["land"] == "scalar" else 1e20
    with Dataset(fn, "w") as d:
        d.createDimension("lon", x.size)
        d.createDimension("lat", y.size)
        d.createVariable("lon", "f8", ("lon",))[:] = x
        d.createVariable("lat", "f8", ("lat",))[:] = y
        for k, z in data.items():
            q = d.createVariable(k, dtype, order, fill_value=fill)
            q.units = "m" if k == "h" else "m/s"
            z = np.ma.array(z, mask=m)
            q[:] = z.T if order[0] == "lat" else z


def curvilinear(x, y, h, m, u, v):
    from netCDF4 import Dataset
    from py_eddy_tracker.dataset.grid import UnRegularGridDataset

    X, Y = np.meshgrid(x, y, indexing="ij")
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "grid.nc")
        with Dataset(fn, "w") as f:
            f.createDimension("i", x.size)
            f.createDimension("j", y.size)
            f.createVariable("lon", "f8", ("i", "j"))[:] = X
            f.createVariable("lat", "f8", ("i", "j"))[:] = Y
            for k, z in dict(h=h, u=u, v=v).items():
                q = f.createVariable(k, "f8", ("i", "j"), fill_value=1e20)
                q.units = "m" if k == "h" else "m/s"
                q[:] = np.ma.array(z, mask=m)
        g = UnRegularGridDataset(fn, "lon", "lat")
        for k in "huv":
            g.grid(k)
    return g


FACETS = [
    Facet("regional", strat, check, quick=170, budget=100),
    Facet("global", strat_global, check, quick=70, budget=100),
    Facet("spike", strat_spike, check_spike, quick=6, thorough=60, budget=100),
]
