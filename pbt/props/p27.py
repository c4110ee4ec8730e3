"""Commands on grids and networks: filtering, identification, building, division, selection and comparison of networks."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from .. import gen, ident, netgen
from ..core import Facet
from .p15 import check_partition, expected_edges, make_days, geo_fields
from .p26 import Scratch, raw, run

RULE = (
    "Cases are files (grids, identifications or networks) written in a scratch folder and given to a command with generated options; outputs are compared with a model (groups of overlapping contours, rows which have to be selected, identical sets of observations) or with the documented chain of library calls on unpacked data; "
    "a case is non-trivial when the output holds several observations, or for grids when some pixels are changed."
)
ASSUMPTIONS = [
    "Selections which give an empty network are not judged.",
    "Days of identification files are consecutive; networks are made of netCDF files.",
]


# --- networks

def build_check(case, ctx):
    """EddyNetworkGroup then EddyNetworkBuildPath"""
    from py_eddy_tracker.appli.network import build_network, divide_network
    from py_eddy_tracker.observations.network import Network, NetworkObservations
    from py_eddy_tracker.observations.observation import EddiesObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    days = make_days(case)
    if sum(map(len, days)) == 0:
        return
    with Scratch() as d:
        names = [os.path.join(d, "Anticyclonic_%d.nc" % (20200101 + i)) for i in range(len(days))]
        for o, f in zip(days, names):
            o.write_file(filename=f)
        stored = [EddiesObservations.load_file(f) for f in names]
        opt = ["--window", case["window"], "--min-overlap", case["overlap"]] + (["--intern"] if case["intern"] else [])
        opt += dict(minimal=["--minimal-area"], hybrid=["--hybrid-area"]).get(case["mode"], [])
        group, path = os.path.join(d, "group.nc"), os.path.join(d, "path.nc")
        with np.errstate(all="ignore"):
            run(build_network, os.path.join(d, "Anticyclonic_*"), group, *opt, *(["--memory"] if case["seed"] % 3 == 0 else []))
        g = TrackEddiesObservations.load_file(group)
        nb = sum(map(len, days))
        assert len(g) == nb and g.sign_type == case["sign"], ("observations", len(g), nb, g.sign_type)
        tags = g.obs["lon_max"].round().astype(int).tolist()
        assert sorted(tags) == list(range(1, nb + 1)), ("each observation once", tags)
        track = dict(zip(tags, g.obs["track"].tolist()))
        assert g.obs["track"].tolist() == sorted(g.obs["track"].tolist()), "sorted by group"
        edges = expected_edges(stored, case)
        if edges is None:
            ctx.label("undecided")
        else:
            check_partition([track[k + 1] for k in range(nb)], nb, edges)
        for o in stored:
            for k in range(len(o)):
                i = tags.index(int(round(float(o.obs["lon_max"][k]))))
                for f in o.fields:
                    if f != "track":
                        assert np.array_equal(o.obs[f][k], g.obs[f][i]), ("value", f, o.obs[f][k], g.obs[f][i])
        times = np.unique(g.obs["time"])
        if len(times) < 2 or not any(track.values()) or any(np.diff(times) != 1):
            return
        with np.errstate(all="ignore"):
            run(divide_network, group, path, *opt)
            kw = dict(min_overlap=case["overlap"], window=case["window"], intern=case["intern"], minimal_area=case["mode"] == "minimal", hybrid_area=case["mode"] == "hybrid")
            want = NetworkObservations.from_split_network(g, g.split_network(**kw))
        got = NetworkObservations.load_file(path)
        assert got.sign_type == case["sign"], "type of eddies"
        ra, ta = netgen.state(got)
        rb, tb = netgen.state(want)
        assert ta == tb, ("order of the observations", ta, tb)
        for k in ra:
            a, b = ra[k].key(), rb[k].key()
            assert a[:5] == b[:5] and np.allclose(a[5:], b[5:], atol=1e-6), ("path", k, a, b)
        for f in want.fields:
            if f not in ("segment", "next_obs", "previous_obs", "next_cost", "previous_cost"):
                assert np.array_equal(got.obs[f], want.obs[f]), ("value of", f, got.obs[f], want.obs[f])
        ctx.nontrivial(max(list(track.values()).count(k) for k in track.values() if k) > 2)
        ctx.label(case["mode"])


def subset_check(case, ctx):
    """EddyNetworkSubSetter"""
    from py_eddy_tracker.appli.network import subset_network
    from py_eddy_tracker.observations.network import NetworkObservations

    n = netgen.network(case)
    if not len(n):
        return
    n.sign_type = case["sign"]
    r = gen.rng(case["seed"] + 5)
    with Scratch() as d:
        fn, out = os.path.join(d, "net.nc"), os.path.join(d, "out.nc")
        n.write_file(filename=fn)
        e = NetworkObservations.load_file(fn)
        argv = []
        ops = case["ops"]
        if "ids" in ops:
            all_ids = np.unique(e.obs["track"]).tolist()
            ids = [k for k in all_ids if r.uniform() < 0.7] or all_ids[:1]
            argv += ["--ids"] + ids
            e = e.extract_with_mask(np.isin(e.obs["track"], ids))
        if "trash" in ops:
            argv.append("--remove_trash")
            e = e.extract_with_mask(e.obs["track"] != 0)
        if "length" in ops and len(e):
            lim = int(r.integers(-1, 8)), int(r.integers(-1, 12))
            argv += ["--length"] + list(lim)
            m = np.zeros(len(e), bool)
            for k in np.unique(e.obs["track"]):
                i = e.obs["track"] == k
                t = e.obs["time"][i]
                m[i] = lim[0] <= t.max() - t.min() + 1 and (lim[1] < 0 or t.max() - t.min() + 1 <= lim[1])
            e = e.extract_with_mask(m)
        if "dead" in ops and len(e):
            lim = int(r.integers(1, 5)), int(r.integers(0, 4))
            argv += ["--remove_dead_end"] + list(lim)
            e.remove_dead_end(*lim)
        if "period" in ops and len(e):
            t = e.obs["time"]
            p = [int(r.choice([0, -2, -1, int(t.min()) + int(r.integers(0, 5))])), int(r.choice([0, -2, -1, int(t.max()) - int(r.integers(0, 5))]))]
            argv += ["--period"] + p
            lo = -1e9 if p[0] == 0 else p[0] if p[0] > 0 else t.min() - p[0]
            hi = 1e9 if p[1] == 0 else p[1] if p[1] > 0 else t.max() + p[1]
            e = e.extract_with_mask((t >= lo) & (t <= hi))
        if not len(e):
            ctx.label("nothing left")
            return
        # argparse would take negative numbers for options without this order
        run(subset_network, fn, out, *argv)
        got = NetworkObservations.load_file(out)
        assert got.sign_type == case["sign"], "type of eddies"
        assert set(got.obs["lon_max"].astype(int).tolist()) == set(e.obs["lon_max"].astype(int).tolist()), ("selected observations", argv, sorted(got.obs["lon_max"].tolist()), sorted(e.obs["lon_max"].tolist()))
        ra, ta = netgen.state(got)
        rb, tb = netgen.state(e)
        assert ta == tb, ("order", ta, tb)
        for k in ra:
            a, b = ra[k].key(), rb[k].key()
            assert a[:5] == b[:5] and np.allclose(a[5:], b[5:], atol=1e-6), ("row", argv, k, a, b)
        for f in e.fields:
            if f not in ("segment", "next_obs", "previous_obs", "next_cost", "previous_cost"):
                assert np.array_equal(got.obs[f], e.obs[f]), ("value of", f)
        ctx.nontrivial(1 < len(e))
        if len(e) < len(n):
            ctx.label("selection", *ops)


def compare_check(case, ctx):
    """EddyNetworkQuickCompare"""
    from py_eddy_tracker.appli.network import quick_compare
    from py_eddy_tracker.observations.network import NetworkObservations

    n = netgen.network(case)
    if not len(n):
        return
    r = gen.rng(case["seed"] + 3)
    o = n.copy()
    for _ in range(case["changes"]):
        o.obs["lon" if r.integers(0, 2) else "lat"][int(r.integers(0, len(o)))] += 0.25
    if case["drop"] and len(o) > 3:
        keep = np.unique(o.obs["track"])
        keep = keep[r.uniform(size=keep.size) < 0.7]
        if keep.size:
            o = o.extract_with_mask(np.isin(o.obs["track"], keep))
    with Scratch() as d:
        fa, fb = os.path.join(d, "a.nc"), os.path.join(d, "b.nc")
        n.write_file(filename=fa)
        o.write_file(filename=fb)
        a, b = NetworkObservations.load_file(fa), NetworkObservations.load_file(fb)

        def content(x, segment):
            out = dict()
            for k in range(len(x)):
                key = int(x.obs["track"][k]), int(x.obs["segment"][k]) if segment else 0
                out.setdefault(key, []).append((float(x.obs["time"][k]), float(x.obs["lon"][k]), float(x.obs["lat"][k])))
            return dict((k, tuple(sorted(v))) for k, v in out.items())

        na, nb_, sa, sb = content(a, False), content(b, False), content(a, True), content(b, True)
        if any(len(set(v.values())) != len(v) for v in (na, nb_, sa, sb)):
            return
        same_n = [k for k, v in na.items() if len(v) > 1 and v in nb_.values()]
        if not same_n:
            ctx.label("nothing in common")
            return
        other = dict((v, k) for k, v in nb_.items())
        same_ns = [k for k in same_n if {v for q, v in sa.items() if q[0] == k[0]} == {v for q, v in sb.items() if q[0] == other[na[k]][0]}]
        same_s = [k for k, v in sa.items() if v in sb.values()]
        txt = run(quick_compare, fa, fb)
        rows = [v for v in txt.splitlines() if re.match(r"\[ *0\]", v) and "->" not in v]
        assert len(rows) == 1, txt
        shown = [(float(p), int(v)) for p, v in re.findall(r"([0-9.]+)% \(([0-9]+)\)", rows[0])]
        want = [len(same_n), sum(len(na[k]) for k in same_n), len(same_ns), sum(len(na[k]) for k in same_ns), len(same_s), sum(len(sa[k]) for k in same_s)]
        assert [v for _, v in shown] == want, ("counts", shown, want)
        m = re.search(r"-> (\d+) network / (\d+) segment / (\d+) obs -> (\d+) trash obs", txt)
        head = [int(v) for v in m.groups()]
        trash = int((a.obs["track"] == 0).sum())
        assert head[2:] == [len(a), trash], ("sizes", head, len(a), trash)
        tot = [head[0], len(a)] * 2 + [head[1], len(a)]
        assert all(abs(p - v / t * 100) < 0.06 for (p, v), t in zip(shown, tot)), ("percentages", shown, tot)
        ctx.nontrivial(len(same_n) > 0)
        if len(same_ns) < len(same_n):
            ctx.label("same network with other segments")


# --- grids

def grid_file(case, fn):
    x, y, h, m, u, v = ident.field(case)
    g = ident.make_grid(case, x, y, h, m, u, v)
    g.write(fn)
    return list(g.coordinates)


def filter_check(case, ctx):
    """GridFiltering"""
    from py_eddy_tracker.appli.grid import grid_filtering
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    with Scratch() as d:
        fn, out = os.path.join(d, "in.nc"), os.path.join(d, "out.nc")
        xn, yn = grid_file(dict(case, kind="regional"), fn)
        argv = [fn, case["grid"], xn, yn, out]
        kw = dict(order=3, extend=0)
        wl = 500
        if case["wl"]:
            wl = case["wl"]
            argv += ["--cut_wavelength", wl]
        if case["order"]:
            kw["order"] = case["order"]
            argv += ["--filter_order", case["order"]]
        if case["extend"]:
            kw["extend"] = case["extend"]
            argv += ["--extend", case["extend"]]
        with np.errstate(all="ignore"):
            run(grid_filtering, *argv, *(["--low"] if case["low"] else []))
            g = RegularGridDataset(fn, xn, yn)
            (g.bessel_low_filter if case["low"] else g.bessel_high_filter)(case["grid"], wl, **kw)
        got = RegularGridDataset(out, xn, yn)
        src = RegularGridDataset(fn, xn, yn)
        a, b = got.grid(case["grid"]), g.grid(case["grid"])
        assert np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)), "mask"
        assert np.allclose(np.ma.filled(a, 0), np.ma.filled(b, 0), atol=1e-6), ("filtered grid", np.abs(np.ma.filled(a - b, 0)).max())
        assert np.allclose(got.x_c, src.x_c) and np.allclose(got.y_c, src.y_c), "coordinates"
        ctx.nontrivial(bool((np.abs(np.ma.filled(a - src.grid(case["grid"]), 0)) > 1e-6).any()))


def ident_check(case, ctx):
    """EddyId"""
    from py_eddy_tracker.appli.grid import eddy_id
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    with Scratch() as d:
        fn, out = os.path.join(d, "in.nc"), os.path.join(d, "out")
        os.mkdir(out)
        xn, yn = grid_file(dict(case, kind="regional"), fn)
        own = case["uv"] == "file"
        stamp = ["20200305", "20200305123015", "20200305T123015"][case["stamp"]]
        when = ident.DATE.replace(year=2020, month=3, day=5) if case["stamp"] == 0 else ident.DATE.replace(year=2020, month=3, day=5, hour=12, minute=30, second=15)
        argv = [fn, stamp, "h", "u" if own else "None", "v" if own else "None", xn, yn, out, "--cut_wavelength"] + list(case["wl"]) + ["--isoline_step", case["step"]]
        kw = dict(step=case["step"], shape_error=55, pixel_limit=(5, 2000), nb_step_to_be_mle=0, nb_step_min=2, sampling=50, sampling_method="visvalingam")
        order, lat_max = 3, 85
        opt = case["opt"]
        if "order" in opt:
            order = 1
            argv += ["--filter_order", 1]
        if "errmax" in opt:
            kw["shape_error"] = 70
            argv += ["--fit_errmax", 70]
        if "pixel" in opt:
            kw["pixel_limit"] = (20, 300)
            argv += ["--pixel_limit", 20, 300]
        if "nb_step" in opt:
            kw["nb_step_min"] = 1
            argv += ["--nb_step_min", 1]
        if "sampling" in opt:
            kw["sampling"] = 20
            argv += ["--sampling", 20]
        if "uniform" in opt:
            kw["sampling_method"] = "uniform"
            argv += ["--sampling_method", "uniform"]
        if "lat" in opt:
            lat_max = 60
            argv += ["--lat_max", 60]
        if "unit" in opt:
            kw["force_height_unit"] = "dm"
            argv += ["--height_unit", "dm"]
        zarr = "zarr" in opt
        with np.errstate(all="ignore"):
            run(lambda: eddy_id([str(a) for a in argv] + (["--zarr"] if zarr else [])))
            g = RegularGridDataset(fn, xn, yn)
            u, v = "u", "v"
            if not own:
                g.vars.pop("u", None), g.vars.pop("v", None)
                g.add_uv("h")
            low, high = ([0] + list(case["wl"]))[-2:]
            if low:
                g.bessel_low_filter("h", low, order=order, lat_max=lat_max)
            if high:
                g.bessel_high_filter("h", high, order=order, lat_max=lat_max)
            pair = g.eddy_identification("h", u, v, when, **kw)
        ext = "zarr" if zarr else "nc"
        names = ["%s_%s.%s" % (s, when.strftime("%Y%m%dT%H%M%S"), ext) for s in ("Anticyclonic", "Cyclonic")]
        assert sorted(os.listdir(out)) == names, ("files", os.listdir(out), names)
        total = 0
        for name, want in zip(names, pair):
            path = os.path.join(d, name)
            want.write_file(path=d, filename="%(path)s/" + name, zarr_flag=zarr)
            a, b = (type(want).load_file(p) for p in (os.path.join(out, name), path))
            assert a.sign_type == b.sign_type == want.sign_type, "type of eddies"
            assert len(a) == len(b) == len(want), ("number of eddies", len(a), len(b))
            assert gen.obs_equal(a, b), ("eddies", name, [f for f in a.fields if not np.array_equal(a.obs[f], b.obs[f], equal_nan=True)])
            t = (when - ident.DATE.replace(year=1950, month=1, day=1, hour=0, minute=0, second=0)).total_seconds() / 86400
            assert np.all(np.abs(a.obs["time"] - t) < 1e-5), ("time", a.obs["time"], t)
            total += len(a)
        ctx.nontrivial(total > 1)
        ctx.label("%d wavelengths" % len(case["wl"]))


S = st.sampled_from
FIELD = dict(ident.FIELD)
FACETS = [
    Facet("build", lambda: st.fixed_dictionaries(dict(geo_fields(), days=st.integers(2, 5), n=S([3, 6, 1]), mode=S(["union", "minimal", "hybrid"]), before=st.just(None), window=st.integers(1, 3))), build_check, quick=60, budget=80),
    Facet("subset", lambda: st.fixed_dictionaries(dict(netgen.NETWORK, sign=S([-1, 1]), ops=st.lists(S(["ids", "trash", "length", "dead", "period"]), max_size=3, unique=True))), subset_check, quick=150, budget=80),
    Facet("compare", lambda: st.fixed_dictionaries(dict(netgen.NETWORK, changes=S([0, 1, 2]), drop=st.booleans())), compare_check, quick=120, budget=80),
    Facet("filter", lambda: st.fixed_dictionaries(dict(FIELD, grid=S(["h", "u"]), wl=S([0, 200, 300]), order=S([0, 1, 2]), extend=S([0, 0, 0.5]), low=st.booleans())), filter_check, quick=20, budget=80),
    Facet("identification", lambda: st.fixed_dictionaries(dict(FIELD, uv=S(["file", "none"]), stamp=S([0, 1, 2]), wl=S([[0], [250], [80, 250], [100, 0]]), opt=st.lists(S(["order", "errmax", "pixel", "nb_step", "sampling", "uniform", "lat", "unit", "zarr"]), max_size=3, unique=True))), ident_check, quick=16, budget=120),
]
