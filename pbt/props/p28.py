"""Grids: reading, writing, copies, collections of grids, spectrum, curvilinear filters, paths of pixels, land."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet

RULE = (
    "Cases are NetCDF files of grids (order of dimensions, time and depth axes, packing, centred or not, masked or NaN cells), grids from arrays, series of grids, fields with known waves, "
    "curvilinear grids and couples of positions; a case is non-trivial when the grid has a valid cell and at least one comparison was made."
)
ASSUMPTIONS = [
    "A grid read with a time axis of several steps is not written again (the file would need the other dates). Only variables which were read or copied are written, which is the documented behaviour.",
    "Paths of pixels are judged with a tolerance of one pixel (the rounding of positions is not specified).",
    "Columns and lines with missing values are left out of a spectrum.",
]


def read(fn, case, **kw):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    return RegularGridDataset(
        fn, case["xname"], case["yname"], centered=case["centered"], nan_masking=case["nan"] == "masking", **kw
    )


LAYOUT = dict(
    seed=gen.SEEDS,
    xname=st.sampled_from(["lon", "longitude"]), yname=st.sampled_from(["lat", "y"]),
    dims=st.permutations(["x", "y", "t", "d"]), with_t=st.booleans(), with_d=st.booleans(), nt=st.sampled_from([1, 1, 2, 3]), it=st.integers(0, 2),
    x0=st.sampled_from([0.0, -180.0, 20.125, 350.0]), step=st.sampled_from([0.25, 1.0]), circular=st.booleans(),
    nx=st.integers(3, 9), ny=st.integers(3, 8), dtype=st.sampled_from(["f4", "f8", "i2", "i4", "u1"]), cdtype=st.sampled_from(["f4", "f8"]),
    fill=st.booleans(), nan=st.sampled_from(["no", "no", "masking"]), mask=st.sampled_from([0, 0.2]), centered=st.sampled_from([True, True, False, None]),
    copy=st.sampled_from(["no", "before", "after"]), units=st.booleans(), extra=st.booleans(), edit=st.booleans(),
)


def build_file(case, fn):
    """Write the file with netCDF4 only; returns coordinates, values (x, y) of the date which will be asked, mask."""
    from netCDF4 import Dataset

    r = gen.rng(case["seed"])
    step, nx = (45.0, 8) if case["circular"] else (case["step"], case["nx"])
    x = (case["x0"] + np.arange(nx) * step).astype(case["cdtype"])
    y = (-20.5 + np.arange(case["ny"]) * case["step"]).astype(case["cdtype"])
    size = dict(x=x.size, y=y.size, t=case["nt"], d=2)
    name = dict(x=case["xname"], y=case["yname"], t="time", d="depth")
    dims = [d for d in case["dims"] if d in "xy" or (d == "t" and case["with_t"]) or (d == "d" and case["with_d"])]
    shape = [size[d] for d in dims]
    packed = case["dtype"] in ("i2", "i4", "u1")
    scale, offset = (0.01, 1.0) if packed else (1.0, 0.0)
    z = r.integers(5, 250, shape) * scale + offset if packed else r.uniform(-2, 2, shape)
    m = r.uniform(0, 1, shape) < case["mask"] if case["fill"] else np.zeros(shape, bool)
    n = np.zeros(shape, bool)
    if case["nan"] == "masking" and not packed:
        n = r.uniform(0, 1, shape) < 0.2
    it = min(case["it"], case["nt"] - 1)
    with Dataset(fn, "w") as h:
        for d in (r.permutation(["x", "y", "t", "d"])):
            if d in dims:
                h.createDimension(name[d], size[d])
        v = h.createVariable(name["x"], case["cdtype"], (name["x"],))
        v[:], v.units = x, "degrees_east"
        v = h.createVariable(name["y"], case["cdtype"], (name["y"],))
        v[:], v.units = y, "degrees_north"
        for k in ("h", "other") if case["extra"] else ("h",):
            kw = dict(fill_value=dict(i2=-32000, i4=-32000, u1=255, f4=-9999.0, f8=-9999.0)[case["dtype"]]) if case["fill"] else dict()
            v = h.createVariable(k, case["dtype"], [name[d] for d in dims], **kw)
            if packed:
                v.scale_factor, v.add_offset = scale, offset
            zz = np.where(n, np.nan, z)
            v[:] = np.ma.array(zz, mask=m) if case["fill"] else zz
            if case["units"]:
                v.units = "m"
        h.title = "title"
    sl = tuple({"x": slice(None), "y": slice(None), "t": it, "d": 0}[d] for d in dims)
    z, m = z[sl], (m | n)[sl]
    if dims.index("x") > dims.index("y"):
        z, m = z.T, m.T
    return x, y, z, m, it, dims, scale


def tol(case, z):
    return {"f4": 2e-6, "f8": 1e-9}.get(case["dtype"], 1e-6) * max(1.0, float(np.abs(z).max(initial=0)))


def same_field(g, name, z, m, t, what):
    a = g.grid(name)
    assert a.shape == z.shape, f"{what}: shape {a.shape} instead of {z.shape} (x, y)"
    ma = np.ma.getmaskarray(a)
    assert (ma == m).all(), f"{what}: {int((ma != m).sum())} masks differ of {m.size}"
    assert hasattr(a, "mask"), f"{what}: not a masked array"
    d = np.abs(np.asarray(a.data, "f8") - z)[~m]
    assert not d.size or d.max() <= t, f"{what}: values differ by {d.max()}"


def coords(g, case, x, y, what):
    x, y = x.astype("f8"), y.astype("f8")
    dx, dy = float(x[1] - x[0]), float(y[1] - y[0])
    cx, cy = (x, y) if case["centered"] in (True, None) else (x + dx / 2, y + dy / 2)
    eps = 1e-4 if case["cdtype"] == "f4" else 1e-9
    for a, b, k in ((g.x_c, cx, "x_c"), (g.y_c, cy, "y_c")):
        assert a.shape == b.shape and np.abs(a - b).max() < eps, f"{what}: {k} {a} instead of {b}"
    if case["centered"] in (True, None):
        bx, by = np.r_[x - dx / 2, x[-1] + dx / 2], np.r_[y - dy / 2, y[-1] + dy / 2]
        for a, b, k in ((g.x_bounds, bx, "x_bounds"), (g.y_bounds, by, "y_bounds")):
            assert a.shape == b.shape and np.abs(a - b).max() < eps, f"{what}: {k} {a} instead of {b}"
        assert bool(g.is_circular()) == case["circular"], f"{what}: is_circular {g.is_circular()} for {x}"
        ref = (bx[0], bx[-1], by[0], by[-1])
        assert np.abs(np.array(g.bounds) - ref).max() < eps, f"{what}: bounds {g.bounds} instead of {ref}"
    assert abs(g.xstep - dx) < eps and abs(g.ystep - dy) < eps, f"{what}: steps {g.xstep} {g.ystep}"


def check_layout(case, ctx):
    with tempfile.TemporaryDirectory() as d:
        fn, out = os.path.join(d, "a.nc"), os.path.join(d, "b.nc")
        x, y, z, m, it, dims, scale = build_file(case, fn)
        t = tol(case, z)
        kw = dict(indexs=dict(time=it)) if "t" in dims else dict()
        g = read(fn, case, **kw)
        ctx.label(*dims, case["dtype"], "first:" + dims[0])
        ctx.nontrivial(not m.all())
        coords(g, case, x, y, "read")
        if case["units"]:
            assert g.units("h") == "m", f"units {g.units('h')}"
        # Tiles do not need the whole grid
        r = gen.rng(case["seed"] + 1)
        i, j = r.integers(0, x.size - 1), r.integers(0, y.size - 1)
        sx, sy = slice(int(i), int(r.integers(i + 1, x.size)) + 1), slice(int(j), int(r.integers(j + 1, y.size)) + 1)
        tile = g.grid_tiles("h", sx, sy)
        assert tile.shape == z[sx, sy].shape, f"tile {tile.shape} instead of {z[sx, sy].shape}"
        if case["nan"] == "no":
            mt = np.ma.getmaskarray(tile)
            assert (mt == m[sx, sy]).all(), "mask of a tile"
            dd = np.abs(np.asarray(tile.data, "f8") - z[sx, sy])[~mt]
            assert not dd.size or dd.max() <= t, f"tile of values differs by {dd.max()} (indexs {kw})"
        if case["copy"] == "before":
            g.copy("h", "h2")
        same_field(g, "h", z, m, t, "read")
        if case["copy"] == "after":
            g.copy("h", "h2")
        zz = z
        if case["copy"] != "no":
            same_field(g, "h2", z, m, t, "copy")
            assert "h2" in g.variables
            if case["edit"]:
                if case["dtype"] not in ("f4", "f8"):
                    g.vars["h2"] = g.vars["h2"] + 0.02
                    zz = z + 0.02
                else:
                    g.grid("h2")[:] = g.grid("h2") * 0.5
                    zz = z * 0.5
                same_field(g, "h", z, m, t, "original of an edited copy")
        # Same object from the same file once cleaned
        if "d" in dims or ("t" in dims and (case["nt"] > 1 or dims[0] != "t")):
            return  # the file would need the other dates
        if not case["fill"] and m.any():
            return  # no value to write a mask
        g.write(out)
        case2 = dict(case)
        w = read(out, case2, **(dict(indexs=dict(time=0)) if "t" in dims else dict()))
        coords(w, case, x, y, "written")
        same_field(w, "h", z, m, t, "written then read")
        if case["copy"] != "no":
            same_field(w, "h2", zz, m, t, "copy written then read")
        from netCDF4 import Dataset

        with Dataset(out) as h, Dataset(fn) as h0:
            want = {case["xname"], case["yname"], "h"} | ({"h2"} if case["copy"] != "no" else set())
            assert set(h.variables) == want, f"variables written {set(h.variables)} instead of {want}"
            assert h.variables["h"].dimensions == h0.variables["h"].dimensions, "dimensions of the variable"
            assert h.variables["h"].dtype == h0.variables["h"].dtype, "type of the variable"
            assert {k: h0.variables["h"].getncattr(k) for k in h0.variables["h"].ncattrs()} == {
                k: h.variables["h"].getncattr(k) for k in h.variables["h"].ncattrs()
            }, "attributes of the variable"
            assert h.title == "title"
        # A cleaned grid reads the file again
        g.clean()
        g.populate()
        coords(g, case, x, y, "populated again")
        same_field(g, "h", z, m, t, "populated again")


ARRAY = dict(
    seed=gen.SEEDS, nx=st.integers(4, 12), ny=st.integers(4, 10), x0=st.sampled_from([0.0, -180.0, 350.0]), dtype=st.sampled_from(["f4", "f8"]),
    mask=st.sampled_from([0, 0.15]), other=st.sampled_from(["array", "xy", "yx"]), new=st.sampled_from([None, "new", "h"]), load=st.booleans(),
    target=st.sampled_from(["array", "xy", "yx"]), coord2=st.sampled_from(["lon", "longitude"]),
)


def check_arrays(case, ctx):
    from netCDF4 import Dataset
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    from .p06 import ref_bilinear

    r = gen.rng(case["seed"])

    def make(kind, xn, nx, ny, x0, step, d, tag):
        x, y = x0 + np.arange(nx) * step, 30 + np.arange(ny) * step
        z = r.uniform(-1, 1, (nx, ny)).astype(case["dtype"])
        m = r.uniform(0, 1, z.shape) < case["mask"]
        if kind == "array":
            g = RegularGridDataset.with_array((xn, "lat"), {xn: x, "lat": y, "h": np.ma.array(z.copy(), mask=m.copy())}, centered=True)
        else:
            fn = os.path.join(d, f"{tag}.nc")
            with Dataset(fn, "w") as h:
                h.createDimension(xn, nx), h.createDimension("lat", ny)
                h.createVariable(xn, "f8", (xn,))[:], h.createVariable("lat", "f8", ("lat",))[:] = x, y
                dims = (xn, "lat") if kind == "xy" else ("lat", xn)
                a = np.ma.array(z, mask=m)
                h.createVariable("h", case["dtype"], dims, fill_value=-999.0)[:] = a if kind == "xy" else a.T
            g = RegularGridDataset(fn, xn, "lat", centered=True)
        return g, x, y, z, m

    with tempfile.TemporaryDirectory() as d:
        g, x, y, z, m = make(case["target"], "lon", case["nx"], case["ny"], case["x0"], 1.0, d, "a")
        o, ox, oy, oz, om = make(case["other"], case["coord2"], case["nx"] * 2 + 3, case["ny"] * 2 + 1, case["x0"] - 1.25, 0.5, d, "b")
        ctx.label(case["target"], case["other"], str(case["new"]))
        ctx.nontrivial(not m.all())
        if case["load"]:
            same_field(g, "h", z, m, 1e-6, "target")
        g.regrid(o, "h", new_name=case["new"])
        name = case["new"] or "h"
        px, py = np.meshgrid(x, y, indexing="ij")
        from py_eddy_tracker.dataset.grid import RegularGridDataset as R

        ref = R.with_array(("lon", "lat"), dict(lon=ox, lat=oy, h=np.ma.array(oz.copy(), mask=om.copy())), centered=True).interp("h", px.reshape(-1), py.reshape(-1)).reshape(px.shape)
        rm = np.isnan(ref)
        same_field(g, name, np.where(rm, 0, ref), rm, 1e-6, "regrid")
        same_field(o, "h", oz, om, 1e-6, "other after regrid")
        if name != "h":
            same_field(g, "h", z, m, 1e-6, "variable of the target after regrid")
        # both write what they have
        out = os.path.join(d, "c.nc")
        g.write(out)
        w = RegularGridDataset(out, "lon", "lat", centered=True)
        same_field(w, name, np.where(rm, 0, ref), rm, 1e-6, "regrid written then read")
        if name != "h":
            same_field(w, "h", z, m, 1e-6, "variable of the target written then read")
        out = os.path.join(d, "d.nc")
        o.write(out)
        w = RegularGridDataset(out, case["coord2"], "lat", centered=True)
        same_field(w, "h", oz, om, 1e-6, "other written after regrid")
        extra = np.ma.array(r.uniform(0, 1, z.shape), mask=m)
        g.add_grid("extra", extra)
        same_field(g, "extra", np.asarray(extra.data), m, 0, "added grid")


COLL = dict(
    seed=gen.SEEDS, kind=st.sampled_from(["list", "list_unset", "cube", "cube_unset"]), n=st.integers(2, 5), t0=st.integers(0, 20000), step=st.sampled_from([1, 1, 2, 5]),
    keep=st.sampled_from([None, 0, 1, 3]), shift=st.booleans(), transpose=st.booleans(),
)


def check_collection(case, ctx):
    from netCDF4 import Dataset
    from py_eddy_tracker.dataset.grid import GridCollection

    r = gen.rng(case["seed"])
    n = case["n"] + 1
    nx, ny = 7, 6
    x, y = 10 + np.arange(nx) * 1.0, 30 + np.arange(ny) * 1.0
    z = r.uniform(-1, 1, (n, nx, ny))
    t = case["t0"] + np.arange(n) * case["step"]
    unset = case["kind"].endswith("unset")
    cube = case["kind"].startswith("cube")
    tr = case["transpose"]
    with tempfile.TemporaryDirectory() as d:
        def write(fn, k):
            with Dataset(fn, "w") as h:
                h.createDimension("lon", nx), h.createDimension("lat", ny), h.createDimension("time", len(k))
                h.createVariable("lon", "f8", ("lon",))[:], h.createVariable("lat", "f8", ("lat",))[:] = x, y
                h.createVariable("time", "f8", ("time",))[:] = t[k]
                zz = z[k]
                h.createVariable("h", "f8", ("time", "lat", "lon") if tr else ("time", "lon", "lat"))[:] = zz.transpose(0, 2, 1) if tr else zz

        fns = [os.path.join(d, f"{k}.nc") for k in range(n)]
        for k, fn in enumerate(fns):
            write(fn, [k])
        kw = dict(unset=unset, centered=True)
        if cube:
            fn = os.path.join(d, "cube.nc")
            write(fn, list(range(n - 1)))
            c = GridCollection.from_netcdf_cube(fn, "lon", "lat", "time", **kw)
        else:
            c = GridCollection.from_netcdf_list(fns[:-1], t[:-1], "lon", "lat", **kw)
        now = list(range(n - 1))
        if case["shift"]:
            c.shift_files(float(t[-1]), fns[-1], x_name="lon", y_name="lat", **kw)
            now = now[1:] + [n - 1]
        ctx.label(case["kind"], "shift" if case["shift"] else "no shift", f"step {case['step']}")
        ctx.nontrivial()

        def good(what):
            assert len(c.time) == len(now) and (np.asarray(c.time, "f8") == t[now]).all(), f"{what}: time {c.time} instead of {t[now]}"
            assert tuple(float(a) for a in c.period) == (t[now[0]], t[now[-1]]), f"{what}: period {c.period}"

        def loaded():
            return np.array([bool(b) for b in c.are_loaded])

        def value(g, k, what):
            same_field(g, "h", z[k], np.zeros((nx, ny), bool), 1e-12, what)

        good("new")
        assert loaded().tolist() == [not unset] * len(now), f"loaded {c.are_loaded} unset={unset}"
        state = loaded()
        for k in r.permutation(len(now)):
            g = c[t[now[k]]]
            value(g, now[k], f"date {t[now[k]]}")
            state[k] = True
            assert (loaded() == state).all(), f"loaded {c.are_loaded} instead of {state}"
            if r.uniform() < 0.4:
                before = state.sum()
                c.reset_grids(case["keep"])
                if case["keep"] is not None and before > case["keep"]:
                    state[:] = False
                assert (loaded() == state).all(), f"after reset_grids({case['keep']}) with {before} loaded: {c.are_loaded}"
        for bad in (t[now[0]] - 1, t[now[-1]] + 1):
            try:
                c[bad]
            except KeyError:
                pass
            else:
                raise AssertionError(f"date {bad} given by a collection of {t[now]}")
        for k, g in enumerate(c):
            g.populate()
            value(g, now[k], "iteration")
        # time steps from any date of the period
        ti = float(r.choice(t[now])) if r.uniform() < 0.5 else float(r.uniform(t[now[0]], t[now[-1]]))
        nxt = [(float(a), g) for a, g in c.get_next_time_step(ti)]
        first = max(k for k in now if t[k] <= ti)
        want = [float(t[k]) for k in now if k >= first]
        assert [a for a, _ in nxt] == want, f"next steps of {ti}: {[a for a, _ in nxt]} instead of {want}"
        prv = [(float(a), g) for a, g in c.get_previous_time_step(ti)]
        first = min(k for k in now if t[k] >= ti)
        want = [float(t[k]) for k in now[::-1] if k <= first]
        assert [a for a, _ in prv] == want, f"previous steps of {ti}: {[a for a, _ in prv]} instead of {want}"
        for a, g in nxt + prv:
            value(g, int(np.where(t == a)[0][0]), f"time step {a}")
        if case["step"] == 1:
            ti = float(r.uniform(t[now[0]], t[now[-1]] - 1e-3))
            px, py = r.uniform(10.1, 15.9, 5), r.uniform(30.1, 34.9, 5)
            k0 = int(np.floor(ti) - t[0])
            w = ti - np.floor(ti)
            mix = z[k0] * (1 - w) + z[k0 + 1] * w
            from scipy.interpolate import RegularGridInterpolator

            ref = RegularGridInterpolator((x, y), mix)(np.column_stack((px, py)))
            v = c.interp("h", ti, px, py)
            assert np.abs(v - ref).max() < 1e-9, f"interp at {ti}: {v} instead of {ref}"


SPEC = dict(
    seed=gen.SEEDS, nx=st.integers(20, 60), ny=st.integers(20, 50), step=st.sampled_from([0.25, 0.5]), lat0=st.sampled_from([-40.0, -6.0, 20.0]), x0=st.sampled_from([0.0, 190.0]),
    scaling=st.sampled_from([None, "density", "spectrum"]), nperseg=st.sampled_from([None, 8, 16]), ref=st.sampled_from(["none", "self", "scaled", "named"]),
    missing=st.sampled_from(["none", "nan", "mask"]), k=st.sampled_from([2.0, 10.0]), area=st.booleans(),
)


def check_spectrum(case, ctx):
    from scipy.signal import welch
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    r = gen.rng(case["seed"])
    s = case["step"]
    x, y = case["x0"] + np.arange(case["nx"]) * s, case["lat0"] + np.arange(case["ny"]) * s
    z = r.normal(0, 1, (x.size, y.size)).cumsum(axis=0).cumsum(axis=1)
    bad = np.zeros(z.shape, bool)
    if case["missing"] != "none":
        for _ in range(int(r.integers(1, 3))):
            bad[r.integers(0, x.size), r.integers(0, y.size)] = True
    zz = z.copy()
    zz[bad] = np.nan if case["missing"] == "nan" else 1e6
    f = np.ma.array(zz, mask=bad if case["missing"] == "mask" else np.zeros(z.shape, bool))

    def grid(a, name="h"):
        return RegularGridDataset.with_array(("lon", "lat"), {"lon": x, "lat": y, name: a}, centered=True)

    g = grid(f)
    # area with sides clearly nearest to a border of pixel
    if case["area"]:
        i0, i1, j0, j1 = 1, x.size - 3, 2, y.size - 4
    else:
        i0, i1, j0, j1 = 0, x.size - 1, 0, y.size - 1
    xb, yb = x - s / 2, y - s / 2
    area = dict(llcrnrlon=xb[i0] + 0.2 * s, urcrnrlon=xb[i1] + 0.2 * s, llcrnrlat=yb[j0] + 0.2 * s, urcrnrlat=yb[j1] + 0.2 * s)
    kw = dict()
    if case["scaling"]:
        kw["scaling"] = case["scaling"]
    if case["nperseg"]:
        kw["nperseg"] = case["nperseg"]
    sub = np.where(bad, np.nan, z)[i0:i1, j0:j1]
    ok_x, ok_y = ~np.isnan(sub).any(axis=1), ~np.isnan(sub).any(axis=0)
    if not ok_x.any() or not ok_y.any():
        return
    ctx.nontrivial()
    ctx.label(case["missing"], case["ref"], str(case["scaling"]))
    wkw = dict(scaling=case["scaling"] or "density", nperseg=case["nperseg"] or 256)
    R = 6370.997
    import warnings

    def spec(a):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ky = s * np.radians(1) * R
            fy, py = welch(a, 1 / ky, axis=1, **wkw)
            lat = fy, py[~np.isnan(py).any(axis=1)].mean(axis=0)
            fs, ps = [], []
            for j in range(a.shape[1]):
                la = np.radians(y[j0 + j])
                dist = 2 * np.arcsin(np.cos(la) * np.sin(np.radians(1) / 2)) * R * s
                fx, px = welch(a[:, j], 1 / dist, **wkw)
                if not np.isnan(px).any():
                    fs.append(fx), ps.append(px)
            fi = np.linspace(0, min(fx[-1] for fx in fs), fs[0].size)
            lon = fi, np.mean([np.interp(fi, fx, px, right=0.0) for fx, px in zip(fs, ps)], axis=0)
        return lon, lat

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = g.spectrum_lonlat("h", area=area, **kw)
        want = spec(sub)
        for (gw, gp), (f_, p_), what in ((got[0], want[0], "longitude"), (got[1], want[1], "latitude")):
            assert gw.shape == f_.shape and np.abs(1 / gw[1:] - f_[1:]).max() <= 2e-3 * f_[-1], f"wavelengths in {what}"
            d = np.abs(np.asarray(gp) - p_)
            # the last frequency is at the limit of some lines
            assert (d[:-1] <= 2e-2 * np.abs(p_[:-1]) + 2e-3 * np.abs(p_).max()).all(), f"spectrum in {what}: {d.max()} of {p_.max()}"
        if case["ref"] == "none":
            return
        ratio = 1.0
        if case["ref"] == "self":
            ref = g
        else:
            ratio = case["k"] ** -2
            ref = grid(f * case["k"], "h" if case["ref"] == "scaled" else "href")
            if case["ref"] == "named":
                kw["ref_grid_name"] = "href"
        got = g.spectrum_lonlat("h", area=area, ref=ref, **kw)
    for (gw, gp), what in ((got[0], "longitude"), (got[1], "latitude")):
        v = np.asarray(gp)[1:-1]
        v = v[np.isfinite(v)]
        assert np.abs(v / ratio - 1).max(initial=0) < 1e-6, f"ratio of spectrum in {what} with the same field times {ratio ** -.5}: {v}"


CURV = dict(
    seed=gen.SEEDS, nx=st.integers(18, 30), ny=st.integers(16, 26), rot=st.sampled_from([0.0, 0.2, -0.5]), step=st.sampled_from([0.2, 0.3]), lat=st.sampled_from([-40.0, 10.0, 35.0]),
    w=st.sampled_from([100, 160, 250]), mask=st.sampled_from([0, 0.05]), field=st.sampled_from(["constant", "noise", "noise", "smooth"]), which=st.sampled_from(["low", "high"]),
    factor=st.sampled_from([None, 6.0]), a=st.sampled_from([0.5, -3.0]), c=st.sampled_from([10.0, -2.0]),
)


def check_curvilinear(case, ctx):
    from netCDF4 import Dataset
    from py_eddy_tracker.dataset.grid import RegularGridDataset, UnRegularGridDataset

    r = gen.rng(case["seed"])
    i, j = np.meshgrid(np.arange(case["nx"]) * case["step"], np.arange(case["ny"]) * case["step"], indexing="ij")
    c, s = np.cos(case["rot"]), np.sin(case["rot"])
    x, y = 15 + c * i - s * j, case["lat"] + s * i + c * j
    z = dict(constant=np.full(x.shape, 2.5), noise=r.normal(0, 1, x.shape), smooth=np.cos(x * 3) + np.sin(y * 2))[case["field"]]
    m = r.uniform(0, 1, z.shape) < case["mask"]
    kw = dict(factor=case["factor"]) if case["factor"] else dict()

    with tempfile.TemporaryDirectory() as d:
        def grid(a):
            fn = os.path.join(d, "c.nc")
            with Dataset(fn, "w") as h:
                h.createDimension("i", x.shape[0]), h.createDimension("j", x.shape[1])
                h.createVariable("lon", "f8", ("i", "j"))[:], h.createVariable("lat", "f8", ("i", "j"))[:] = x, y
                h.createVariable("h", "f8", ("i", "j"), fill_value=-9999.0)[:] = np.ma.array(a, mask=m)
            g = UnRegularGridDataset(fn, "lon", "lat", centered=True)
            g.grid("h")
            os.unlink(fn)
            return g

        def low(a):
            g = grid(a)
            g.low_filter("h", case["w"], **kw)
            return g.grid("h")

        g = grid(z)
        g.low_filter("h", case["w"], **kw)
        lo = g.grid("h")
        g = grid(z)
        g.high_filter("h", case["w"], **kw)
        hi = g.grid("h")
        lo_s, hi_s = low(case["a"] * z + case["c"]), None
    ml, mh = np.ma.getmaskarray(lo), np.ma.getmaskarray(hi)
    ctx.label(case["field"], "masked" if m.any() else "full")
    ctx.nontrivial(not ml.all())
    assert (ml == mh).all(), "masks of low and high pass differ"
    assert ml[m].all(), "a masked value has a filtered value"
    ok = ~ml
    tz = 1e-4 * (np.abs(z[~m]).max() + abs(case["c"]))  # a share of 1e-5 of undefined neighbours is accepted
    assert np.abs(lo.data[ok] + hi.data[ok] - z[ok]).max(initial=0) < 1e-9, "low + high is not the field"
    if case["field"] == "constant":
        assert np.abs(lo.data[ok] - 2.5).max(initial=0) < tz, "low pass of a constant"
    assert (np.ma.getmaskarray(lo_s) == ml).all(), "mask depends on the values"
    d = np.abs(lo_s.data[ok] - (case["a"] * lo.data[ok] + case["c"]))
    assert d.max(initial=0) < tz * 4, f"filter is not affine: {d.max()}"
    if ok.any():
        assert lo.data[ok].max() <= z[~m].max() + tz and lo.data[ok].min() >= z[~m].min() - tz, "low pass out of the range of the field"
    # Reference: average by boxes, filter of the regular grid (P07), bilinear interpolation
    rs = case["w"] / 111.0 / (case["factor"] or 8.0)
    xe = np.arange(x.min(), x.max() + rs, rs)
    ye = np.arange(y.min(), min(y.max() + rs, 89), rs)
    sums, nb = np.zeros((xe.size - 1, ye.size - 1)), np.zeros((xe.size - 1, ye.size - 1))
    a, b = np.searchsorted(xe, x[~m], "right") - 1, np.searchsorted(ye, y[~m], "right") - 1
    if (a >= nb.shape[0]).any() or (b >= nb.shape[1]).any():
        return
    np.add.at(nb, (a, b), 1), np.add.at(sums, (a, b), z[~m])
    with np.errstate(invalid="ignore", divide="ignore"):
        zg = np.ma.array(np.where(nb > 0, sums / nb, 0), mask=nb == 0)
    reg = RegularGridDataset.with_array(("lon", "lat"), dict(lon=xe[:-1], lat=ye[:-1], h=zg), centered=False)
    reg.bessel_low_filter("h", case["w"], order=1)
    v = reg.grid("h")
    vm = np.ma.getmaskarray(v)
    # spline of degree 1 is the bilinear interpolation, constant out of the centres
    xc, yc = (xe[:-1] + xe[1:]) / 2, (ye[:-1] + ye[1:]) / 2
    from scipy.interpolate import RegularGridInterpolator

    q = np.column_stack((np.clip(x.ravel(), xc[0], xc[-1]), np.clip(y.ravel(), yc[0], yc[-1])))
    ref = RegularGridInterpolator((xc, yc), np.where(vm, 0, v.data))(q).reshape(x.shape)
    rm = RegularGridInterpolator((xc, yc), vm.astype("f8"))(q).reshape(x.shape)
    sure = (rm < 1e-6) | (rm > 1e-4)
    want = (rm > 1e-5) | m
    assert (ml == want)[sure].all(), f"{int((ml != want)[sure].sum())} masks differ from the reference"
    w = sure & ok
    d = np.abs(lo.data - ref)[w]
    assert d.max(initial=0) < tz, f"filter on a curvilinear grid differs by {d.max()}"
    ctx.label("reference")


PATH = dict(
    seed=gen.SEEDS, kind=st.sampled_from(["global", "regional"]), step=st.sampled_from([0.25, 0.5, 1.0]), x0=st.sampled_from([0.0, -180.0, 0.125]), n=st.integers(1, 12),
    reach=st.sampled_from([0.0, 0.3, 3.0, 15.0]), branch=st.sampled_from([-360, 0, 360]), axis=st.sampled_from(["any", "any", "x", "y"]),
)


def check_path(case, ctx):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    r = gen.rng(case["seed"])
    s = case["step"]
    nx = int(360 / s) if case["kind"] == "global" else int(60 / s)
    x, y = case["x0"] + np.arange(nx) * s, -20 + np.arange(int(40 / s)) * s
    g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, h=np.ma.zeros((x.size, y.size))), centered=True)
    n = case["n"]
    lo, hi = (x[0], x[0] + 360) if case["kind"] == "global" else (x[0] + 16, x[-1] - 16)
    xa, ya = r.uniform(lo, hi, n), r.uniform(-4, 4, n)
    dx, dy = r.uniform(-1, 1, n) * case["reach"], r.uniform(-1, 1, n) * case["reach"]
    if case["axis"] == "x":
        dy = dy * 0
    if case["axis"] == "y":
        dx = dx * 0
    xb, yb = xa + dx, ya + dy
    i, j, nb = g.compute_pixel_path(xa, ya, xb + case["branch"], yb)
    ctx.nontrivial(case["reach"] > 0)
    ctx.label(case["kind"], f"reach {case['reach']}")
    assert i.size == j.size == (nb + 1).sum(), f"sizes {i.size} {j.size} {nb}"
    assert (i >= 0).all() and (i < nx).all(), "index out of the grid"
    k = 0
    for p in range(n):
        ii, jj = i[k:k + nb[p] + 1], j[k:k + nb[p] + 1]
        k += nb[p] + 1
        xc, yc = x[0] + ii * s, y[0] + jj * s
        for px, py, e in ((xa[p], ya[p], 0), (xb[p], yb[p], -1)):
            ex, ey = abs(gen.wrap180(xc[e] - px)) / s, abs(yc[e] - py) / s
            assert ex < 1.01 and ey < 1.01, f"end {e} of the path {xa[p], ya[p]} -> {xb[p], yb[p]}: pixel {xc[e], yc[e]}"
        di = (np.diff(ii.astype(int)) + nx // 2) % nx - nx // 2
        dj = np.diff(jj.astype(int))
        assert (np.abs(di) <= 1).all() and (np.abs(dj) <= 1).all(), f"hole in the path {ii} {jj}"
        assert ((np.abs(di) + np.abs(dj)) > 0).all(), f"pixel repeated in the path {ii} {jj}"
        # distance to the segment
        ux, uy = dx[p] / s, dy[p] / s
        qx, qy = gen.wrap180(xc - xa[p]) / s, (yc - ya[p]) / s
        q2 = ux * ux + uy * uy
        tt = np.clip((qx * ux + qy * uy) / q2, 0, 1) if q2 > 0 else np.zeros(qx.size)
        dist = np.maximum(np.abs(qx - tt * ux), np.abs(qy - tt * uy))
        assert dist.max() < 2.01, f"pixel at {dist.max()} pixels of the path {xa[p], ya[p]} -> {xb[p], yb[p]}: {ii} {jj}"
        assert np.unique(np.column_stack((ii, jj)), axis=0).shape[0] == ii.size, "pixel visited twice"


LAND = dict(seed=gen.SEEDS, x0=st.sampled_from([-20.0, 340.0, 100.05, -180.0]), y0=st.sampled_from([-35.0, 30.0, 50.03]), step=st.sampled_from([0.25, 1.0]), mask=st.booleans())


def check_land(case, ctx):
    from netCDF4 import Dataset
    from py_eddy_tracker.data import get_demo_path
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    r = gen.rng(case["seed"])
    x, y = case["x0"] + 0.011 + np.arange(60) * case["step"], case["y0"] + 0.017 + np.arange(20) * case["step"]
    z = r.uniform(0, 1, (x.size, y.size))
    m = r.uniform(0, 1, z.shape) < (0.1 if case["mask"] else 0)
    g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, h=np.ma.array(z.copy(), mask=m.copy())), centered=True)
    g.clean_land("h")
    with Dataset(get_demo_path("mask_1_60.nc")) as h:
        lon, lat = np.asarray(h.variables["lon"][:], "f8"), np.asarray(h.variables["lat"][:], "f8")
        st_ = lon[1] - lon[0]
        a, b = ((x - lon[0]) % 360) / st_, (y - lat[0]) / (lat[1] - lat[0])
        i, j = np.round(a).astype(int) % lon.size, np.round(b).astype(int)
        v = h.variables["mask"]
        land = v[:][j][:, i].T if v.dimensions[0] == "lat" or v.dimensions == h.variables["lat"].dimensions + h.variables["lon"].dimensions else v[:][i][:, j]
    land = np.asarray(land) == 1
    sure = (np.abs(a - np.round(a)) < 0.49)[:, None] & (np.abs(b - np.round(b)) < 0.49)[None]
    got = np.ma.getmaskarray(g.grid("h"))
    ctx.nontrivial(land.any() and not land.all())
    ctx.label("masked before" if m.any() else "full")
    want = land | m
    assert (got == want)[sure].all(), f"{int((got != want)[sure].sum())} masks differ from the land"
    assert (g.grid("h").data[~got] == z[~got]).all(), "values changed"


FACETS = [
    Facet("layout", lambda: st.fixed_dictionaries(LAYOUT), check_layout, 300, 4000),
    Facet("arrays", lambda: st.fixed_dictionaries(ARRAY), check_arrays, 120, 1500),
    Facet("collection", lambda: st.fixed_dictionaries(COLL), check_collection, 120, 1500),
    Facet("spectrum", lambda: st.fixed_dictionaries(SPEC), check_spectrum, 120, 1500),
    Facet("curvilinear", lambda: st.fixed_dictionaries(CURV), check_curvilinear, 40, 500),
    Facet("pixel_path", lambda: st.fixed_dictionaries(PATH), check_path, 300, 5000),
    Facet("land", lambda: st.fixed_dictionaries(LAND), check_land, 3, 20),
]
