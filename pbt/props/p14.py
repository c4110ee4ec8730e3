"""Storage of observations in NetCDF and Zarr."""
from io import BytesIO
import os
import shutil
import tarfile
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from .. import ident  # noqa: F401 (units registry built once)

RULE = (
    "Cases are tables of observations (0 to 60 rows, any subset of extra fields, contours of 4 to 20 points on any longitude branch, one of the three classes), written with one container and read through "
    "one way with one selection; a case is non-trivial when at least one observation is read back."
)
ASSUMPTIONS = [
    "Values are in the range of the documented packing (time 1950-2080, radius under 3000 km, amplitude and speeds under 6 m and m/s, shape errors under 127 %, scores in 0-100 %, segments under 65000, contour narrower than 100 degrees).",
    "Integers may not take the fill value of their type (the largest unsigned integer).",
    "When base fields are excluded with remove_vars their content is not specified.",
]

NC = None  # names in files


def descr():
    global NC
    from py_eddy_tracker import VAR_DESCR

    NC = {k: v["nc_name"] for k, v in VAR_DESCR.items()}
    return VAR_DESCR


EXTRA = ["track", "n", "virtual", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost", "score", "index_other", "distance_next", "lon_max", "lat_max", "type_cyc", "chl", "segment_size", "cost_association", "dlon", "year"]
SCALE = dict(time=1 / 86400, amplitude=1e-4, speed_average=1e-4, uavg_profile=1e-4, radius_e=50.0, radius_s=50.0, shape_error_e=0.5, shape_error_s=0.5, score=0.4, distance_next=50.0)
RANGES = dict(
    lon=(-180, 540), lon_max=(-180, 540), lat=(-80, 80), lat_max=(-80, 80), time=(0, 47000), radius_s=(0, 3e6), radius_e=(0, 3e6), amplitude=(0, 6), speed_average=(0, 6), shape_error_e=(0, 127), shape_error_s=(0, 127),
    speed_area=(0, 1e11), effective_area=(0, 1e11), score=(0, 100), distance_next=(0, 3e6), segment_size=(0, 100), next_obs=(-1, 1e9), previous_obs=(-1, 1e9), track=(0, 4e9), index_other=(0, 4e9), n=(0, 65000), segment=(0, 65000), virtual=(0, 2), year=(1950, 2080),
    nb_contour_selected=(0, 2000), num_point_e=(0, 65000), num_point_s=(0, 65000),
)


def table(case, r=None, n=None):
    import py_eddy_tracker.observations.network as net
    import py_eddy_tracker.observations.observation as obs
    import py_eddy_tracker.observations.tracking as trk

    descr()
    r = gen.rng(case["seed"]) if r is None else r
    cls = dict(eddies=obs.EddiesObservations, tracks=trk.TrackEddiesObservations, network=net.NetworkObservations)[case["cls"]]
    n = case["n"] if n is None else n
    extra = [e for k, e in enumerate(EXTRA) if case["extra"] >> k & 1 and e not in cls.ELEMENTS]
    if case["cls"] != "eddies" and "track" not in extra:
        extra.append("track")
    order = list(r.permutation(len(extra)))
    o = gen.make_obs(n, sampling=case["sampling"], extra=[extra[k] for k in order], cls=cls, arrays=gen.CONTOURS if case["profile"] else gen.CONTOURS[:4], sign=case["sign"])
    for f in o.fields:
        v = o.obs[f]
        if f.startswith("contour_lon"):
            c = r.uniform(-180, 540, n)
            c = np.where(r.uniform(0, 1, n) < 0.2, r.choice([-147.67, -147.7, 507.67, -180.0, 359.995]), c)
            v[:] = c[:, None] + np.round(r.uniform(-3, 3, v.shape), 2) * (r.uniform(0, 1, (n, 1)) < 0.8)
        elif f.startswith("contour_lat"):
            v[:] = r.uniform(-80, 80, (n, 1)) + r.uniform(-3, 3, v.shape)
        elif f == "uavg_profile":
            v[:] = r.uniform(0, 6, v.shape)
        elif f == "type_cyc":
            v[:] = case["sign"]
        else:
            a, b = RANGES.get(f, (-1e3, 1e3))
            v[:] = r.uniform(a, b, v.shape)
    if "track" in o.fields:
        o.obs["track"] = np.sort(r.integers(0, max(1, n // 3) + 1, n))
    return o


def stored(o, f):
    """Values a file can give back, as (expected, tolerance)."""
    v = o.obs[f].astype("f8")
    if f.startswith("contour"):
        return v, 0.0051
    if f in SCALE:
        t = SCALE[f] * 0.5001
        return v, t + (abs(v) * 1e-3 if f in ("score", "shape_error_e", "shape_error_s") else abs(v) * 2e-7)
    if f in ("lon", "lat", "lon_max", "lat_max"):
        return v, 2e-7 * 540
    return v, 0.0


def compare(o, p, fields=None, sl=slice(None), wrap=True):
    fields = o.fields if fields is None else fields
    assert set(p.fields) >= set(fields), (sorted(set(fields) - set(p.fields)))
    for f in fields:
        want, tol = stored(o, f)
        want = want[sl]
        tol = tol[sl] if isinstance(tol, np.ndarray) else tol
        got = p.obs[f].astype("f8")
        assert got.shape == want.shape, (f, got.shape, want.shape)
        d = got - want
        if f.startswith("contour_lon"):
            k = np.round(d / 360)
            d = d - 360 * k
            assert (k == k[:, :1]).all(), (f, "broken contour")
        assert (abs(d) <= tol).all(), (f, float(abs(d).max()), want.ravel()[int(np.argmax(abs(d)))], got.ravel()[int(np.argmax(abs(d)))])


CASE = dict(
    seed=gen.SEEDS,
    cls=st.sampled_from(["eddies", "tracks", "network"]),
    n=st.sampled_from([0, 1, 2, 7, 23, 60]),
    sampling=st.sampled_from([0, 4, 20]),
    profile=st.booleans(),
    extra=st.integers(0, 2 ** len(EXTRA) - 1),
    sign=st.sampled_from([-1, 1]),
    zarr=st.booleans(),
)


class Folder:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def write(o, path, case):
    o.write_file(filename=path, **(dict(chunck_size=case.get("chunk", 1000)) if path.endswith("zarr") else {}))


def check_roundtrip(case, ctx):
    o = table(case)
    before = o.obs.copy()
    cls = o.__class__
    ext = "zarr" if case["zarr"] else "nc"
    with Folder() as d:
        path = os.path.join(d, "data." + ext)
        if case["by"] == "template":
            o.write_file(path=d, filename="%(path)s/%(sign_type)s.nc", zarr_flag=case["zarr"], **(dict(chunck_size=1000) if case["zarr"] else {}))
            path = os.path.join(d, ("Cyclonic" if case["sign"] == -1 else "Anticyclonic") + "." + ext)
            assert os.path.exists(path), os.listdir(d)
        else:
            write(o, path, case)
        assert o.obs.tobytes() == before.tobytes(), "observations modified by write"
        how = case["how"]
        if how == "bytes":
            p = cls.load_file(path.encode())
        elif how == "memory" and not case["zarr"]:
            with open(path, "rb") as h:
                p = cls.load_file(BytesIO(h.read()))
        elif how == "handle" and not case["zarr"]:
            with open(path, "rb") as h:
                p = cls.load_file(h)
                q = cls.load_file(h)
                assert gen.obs_equal(p, q), "second read of a handle"
        elif how == "tar" and not case["zarr"]:
            with tarfile.open(os.path.join(d, "a.tar"), "w") as t:
                t.add(path, arcname="data.nc")
            with tarfile.open(os.path.join(d, "a.tar")) as t:
                p = cls.load_file(t.extractfile("data.nc"))
        elif how == "group" and case["zarr"]:
            import zarr

            p = cls.load_file(zarr.open(path, "r"))
        elif how == "other_class":
            from py_eddy_tracker.observations.observation import EddiesObservations

            p = EddiesObservations.load_file(path)
        else:
            p = cls.load_file(path)
        ctx.nontrivial(case["n"] > 0)
        ctx.label(ext, case["cls"], how)
        assert p.sign_type == case["sign"], (p.sign_type, case["sign"])
        assert len(p) == case["n"]
        if how != "other_class":
            assert set(p.fields) == set(o.fields), set(p.fields) ^ set(o.fields)
            for f in o.fields:
                assert p.obs.dtype[f] == o.obs.dtype[f], (f, p.obs.dtype[f], o.obs.dtype[f])
        compare(o, p)
        if case["sampling"]:
            assert p.track_array_variables == case["sampling"]
        # what was read is what will be read again, in both containers
        for e in ("nc", "zarr"):
            other = os.path.join(d, "again." + e)
            write(p, other, case)
            q = p.__class__.load_file(other)
            assert q.sign_type == p.sign_type
            for f in p.fields:
                a, b = p.obs[f], q.obs[f]
                if f.startswith("contour_lon"):
                    assert np.allclose(gen.wrap180(a.astype("f8") - b), 0, atol=1e-3), f
                elif f == "time":
                    assert np.allclose(a, b, atol=1e-9, rtol=0), f
                elif f.startswith("contour") or f in SCALE:
                    assert np.allclose(a.astype("f8"), b, rtol=1e-6, atol=1e-6), (f, abs(a.astype("f8") - b).max())
                else:
                    assert np.array_equal(a, b), f
        # overwriting leaves nothing of the previous content
        if case["n"] > 2:
            short = o.index(slice(0, 2))
            write(short, path, case)
            compare(short, cls.load_file(path))


def check_select(case, ctx):
    """Loading a part is taking this part of the whole."""
    o = table(case)
    cls = o.__class__
    r = gen.rng(case["seed"] + 1)
    with Folder() as d:
        path = os.path.join(d, "data." + ("zarr" if case["zarr"] else "nc"))
        write(o, path, dict(case, chunk=int(r.choice([25, 1000]))))
        full = cls.load_file(path)
        n = len(full)
        a, b = sorted(int(v) for v in r.integers(0, n + 1, 2))
        sl = [slice(a, b), slice(a, None), slice(None, b), slice(a, n + 9), slice(-3, None), slice(None)][case["slice"]]
        kw = dict()
        names = None
        if case["slice"]:
            kw["indexs"] = dict(obs=sl)
        else:
            sl = slice(None)
        fields = list(full.fields)
        if case["vars"] == "include":
            names = [f for f in fields if r.uniform() < 0.5] or [fields[0]]
            kw["include_vars"] = [NC[f] for f in names]
        elif case["vars"] == "remove":
            gone = [f for f in fields if r.uniform() < 0.3]
            if len(gone) == len(fields):
                gone = gone[1:]
            kw["remove_vars"] = [NC[f] for f in gone]
            names = [f for f in fields if f not in gone]
        else:
            names = fields
        if case["zarr"]:
            kw["buffer_size"] = int(r.choice([1, 7, 5000000]))
        p = cls.load_file(path, **kw)
        want = full.obs[sl]
        ctx.nontrivial(len(want) > 0 and (case["vars"] != "all" or len(want) < n))
        ctx.label("zarr" if case["zarr"] else "nc", case["vars"], f"slice{case['slice']}")
        assert len(p) == len(want), (len(p), len(want), sl)
        forced = {"track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost"} if case["cls"] == "network" else {"track", "n", "virtual"} if case["cls"] == "tracks" else set()
        if case["vars"] == "include":
            assert set(names) <= set(p.fields) <= set(names) | forced, set(p.fields) ^ set(names)
        elif case["vars"] == "remove":
            assert not (set(p.fields) - set(names) - set(cls.ELEMENTS) - forced), sorted(p.fields)
        for f in names:
            assert np.array_equal(p.obs[f], want[f], equal_nan=p.obs[f].dtype.kind == "f"), f
        if case["vars"] != "include":
            assert p.sign_type == full.sign_type or (case["vars"] == "remove" and "type_cyc" not in names)


def check_raw(case, ctx):
    """Packed values are the ones of the file, and writing them again gives the same file content."""
    o = table(case)
    descr_ = descr()
    cls = o.__class__
    with Folder() as d:
        path = os.path.join(d, "data." + ("zarr" if case["zarr"] else "nc"))
        write(o, path, case)
        full = cls.load_file(path)
        raw = cls.load_file(path, raw_data=True)
        ctx.nontrivial(case["n"] > 0)
        ctx.label("zarr" if case["zarr"] else "nc")
        assert set(raw.fields) == set(full.fields) and len(raw) == len(full)
        for f in raw.fields:
            assert raw.obs.dtype[f].base == np.dtype(descr_[f]["output_type"]), (f, raw.obs.dtype[f])
            s, off = descr_[f].get("scale_factor", 1), descr_[f].get("add_offset", 0)
            got = raw.obs[f].astype("f8") * s + off
            tol = 1e-9 if f == "time" else 0.2 if f in ("score", "shape_error_e", "shape_error_s") else 1e-6 * np.maximum(1, abs(got)) if f in SCALE or f.startswith("contour") else 0
            assert (abs(got - full.obs[f]) <= tol).all(), (f, abs(got - full.obs[f]).max())
        for e in ("nc", "zarr"):
            other = os.path.join(d, "raw." + e)
            write(raw, other, case)
            again = cls.load_file(other)
            for f in full.fields:
                a, b = full.obs[f].astype("f8"), again.obs[f].astype("f8")
                assert np.allclose(a, b, rtol=1e-6, atol=1e-6), (e, f, abs(a - b).max())
            back = cls.load_file(other, raw_data=True)
            for f in full.fields:
                assert np.array_equal(back.obs[f], raw.obs[f]), (e, f)


def check_foreign(case, ctx):
    """Files of other producers: names, units, dimension names and title."""
    from netCDF4 import Dataset
    from py_eddy_tracker.observations.observation import EddiesObservations

    r = gen.rng(case["seed"])
    n = max(1, case["n"])
    dim = case["dim"]
    v = dict(lon=r.uniform(0, 360, n), lat=r.uniform(-60, 60, n), amplitude=r.uniform(0, 1, n), radius_s=r.uniform(1e4, 2e5, n), radius_e=r.uniform(1e4, 2e5, n), speed_average=r.uniform(0, 1, n), time=np.sort(r.uniform(1e4, 2e4, n)))
    names = dict(lon=r.choice(["lon", "longitude", "Lon"]), lat=r.choice(["lat", "latitude", "Lat"]), amplitude=r.choice(["A", "amplitude"]), radius_s=r.choice(["L", "radius_s", "speed_radius"]), radius_e=r.choice(["radius_e", "Dia", "effective_radius"]), speed_average=r.choice(["U", "speed_average"]), time=r.choice(["j1", "time"]))
    unit = dict(amplitude=[("m", 1), ("cm", 100), ("mm", 1000), (None, 1)], radius_s=[("m", 1), ("km", 1e-3), ("kilometers", 1e-3)], radius_e=[("m", 1), ("km", 1e-3)], speed_average=[("m/s", 1), ("cm/s", 100), ("km/day", 86.4), ("unknown thing", 1)])
    with Folder() as d:
        path = os.path.join(d, "f.nc")
        done = {}
        with Dataset(path, "w") as h:
            h.createDimension(dim, n)
            for k, a in v.items():
                q = h.createVariable(str(names[k]), case["kind"], (dim,))
                u, f = unit.get(k, [(None, 1)])[int(r.integers(0, len(unit.get(k, [0]))))]
                if u is not None:
                    setattr(q, case["attr"], u)
                q[:] = a * f
                done[k] = (a, u)
            if case["title"]:
                h.title = case["title"]
        o = EddiesObservations.load_file(path)
        ctx.nontrivial()
        ctx.label(dim, case["kind"])
        assert len(o) == n
        for k, (a, u) in done.items():
            assert np.allclose(o.obs[k], a, rtol=1e-5, atol=1e-3 if k == "time" else 1e-9), (k, u)
            assert np.array_equal(o[str(names[k])], o.obs[k]) and np.array_equal(o[k], o.obs[k])
        assert o.sign_type == (1 if case["title"] == "Anticyclonic" else -1)


UNITS = dict(
    time="days since 1950-01-01 00:00:00", lon="degrees_east", lat="degrees_north", lon_max="degrees_east", lat_max="degrees_north", amplitude="m", speed_area="m^2", effective_area="m^2", speed_average="m/s", radius_e="m", radius_s="m", distance_next="m",
    contour_lon_e="degrees_east", contour_lat_e="degrees_north", contour_lon_s="degrees_east", contour_lat_s="degrees_north", uavg_profile="m/s", shape_error_e="%", shape_error_s="%", score="%", height_max_speed_contour="m", height_external_contour="m", height_inner_contour="m",
)


def check_described(case, ctx):
    """What any other reader finds in a file: values with their scale, units, names, dimensions, and the kind of eddies."""
    from netCDF4 import Dataset
    import zarr

    o = table(case)
    names = {f: descr()[f]["nc_name"] for f in o.fields}
    shapes = {f: ("obs", "NbSample") if o.obs[f].ndim == 2 else ("obs",) for f in o.fields}
    with Folder() as d:
        path = os.path.join(d, "data." + ("zarr" if case["zarr"] else "nc"))
        write(o, path, case)
        ctx.nontrivial(case["n"] > 0)
        ctx.label("zarr" if case["zarr"] else "nc", case["cls"])
        if case["zarr"]:
            h = zarr.open(path, "r")
            assert sorted(h.keys()) == sorted(names.values())
            attrs = {f: dict(h[names[f]].attrs) for f in o.fields}
            values = {f: h[names[f]][:] for f in o.fields}
            info = dict(h.attrs)
        else:
            with Dataset(path) as h:
                assert sorted(h.variables) == sorted(names.values())
                assert len(h.dimensions["obs"]) == case["n"]
                for f in o.fields:
                    assert h.variables[names[f]].dimensions == shapes[f], f
                    assert h.variables[names[f]].dtype.itemsize <= o.obs.dtype[f].base.itemsize or f == "segment_size", f
                attrs = {f: {k: h.variables[names[f]].getncattr(k) for k in h.variables[names[f]].ncattrs()} for f in o.fields}
                values = {f: np.ma.getdata(h.variables[names[f]][:]) for f in o.fields}
                info = {k: h.getncattr(k) for k in h.ncattrs()}
        if "title" in info:
            assert info["title"] == ("Cyclonic" if case["sign"] == -1 else "Anticyclonic"), info
        else:
            assert int(info["rotation_type"]) == case["sign"], info
        if "time_coverage_start" in info:
            t = o.time
            day = [str(np.datetime64("1950-01-01") + int(v)) for v in (t.min(), t.max())]
            # dates are rounded to the second in files
            if abs(t.min() % 1 - 0.5) < 0.4999 and abs(t.max() % 1 - 0.5) < 0.4999:
                assert info["time_coverage_start"][:10] == day[0] and info["time_coverage_end"][:10] == day[1], (info, day)
                assert info["time_coverage_duration"] == f"P{int(t.max() - t.min() + 1)}D" or abs((t.max() - t.min()) % 1 - 0.5) > 0.499, info
        assert info["framework_version"] and "py-eddy-tracker" in info["framework_used"]
        for f in o.fields:
            assert attrs[f].get("units") == UNITS.get(f, attrs[f].get("units")), (f, attrs[f].get("units"))
            if f not in ("segment_size", "dlon", "dlat"):
                assert attrs[f].get("long_name"), f
            want, tol = stored(o, f)
            got = values[f].astype("f8")
            dist = abs(gen.wrap180(got - want)) if f.startswith("contour_lon") else abs(got - want)
            assert (dist <= tol).all(), (f, dist.max())
            if case["n"]:
                for k, v in (("min", got.min()), ("max", got.max())):
                    assert abs(float(attrs[f][k]) - v) <= (1e-3 if f in ("score", "shape_error_e", "shape_error_s") else 1e-6) * max(1, abs(v)), (f, k, attrs[f][k], v)


FACETS = [
    Facet("described", lambda: st.fixed_dictionaries(CASE), check_described, quick=80, budget=60),
    Facet("roundtrip", lambda: st.fixed_dictionaries(dict(CASE, by=st.sampled_from(["name", "name", "template"]), how=st.sampled_from(["path", "path", "bytes", "memory", "handle", "tar", "group", "other_class"]))), check_roundtrip, quick=90, budget=60),
    Facet("selection", lambda: st.fixed_dictionaries(dict(CASE, slice=st.integers(0, 5), vars=st.sampled_from(["all", "include", "remove"]))), check_select, quick=200, budget=60),
    Facet("raw", lambda: st.fixed_dictionaries(CASE), check_raw, quick=100, budget=60),
    Facet("foreign", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, n=st.integers(1, 20), dim=st.sampled_from(["obs", "Nobs", "observation", "i"]), kind=st.sampled_from(["f4", "f8"]), attr=st.sampled_from(["unit", "units"]), title=st.sampled_from([None, "Cyclonic", "Anticyclonic"]))), check_foreign, quick=150, budget=60),
]
