"""Commands on detections and tracks: list of files, tracking, merge, circles, frequency, comparison."""
from contextlib import redirect_stdout
from datetime import datetime, timedelta
import io
import os
import re
import shutil
import sys
import tempfile
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from .. import gen, trk
from ..core import Facet

RULE = (
    "Cases are small sets of files written in a scratch folder, given to a command with generated options (read back with netCDF4 and compared with a model of what the help of the command announces), or links between two datasets for the comparison; "
    "a case is non-trivial when the files hold at least two observations (two files for the lists of files, two links for the comparison)."
)
ASSUMPTIONS = [
    "All files of a pattern have a date which could be read; steps of time are regular (otherwise the command has to refuse).",
    "Histories of the tracking have at least one track, with less detections required than files.",
]


def run(function, *argv):
    """Standard output of a command"""
    out = io.StringIO()
    with mock.patch.object(sys, "argv", ["command"] + [str(a) for a in argv]), redirect_stdout(out):
        function()
    return out.getvalue()


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp()
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


def raw(filename):
    """{variable: packed values}, {attribute: value}"""
    from netCDF4 import Dataset

    with Dataset(filename) as h:
        h.set_auto_maskandscale(False)
        return dict((k, np.array(v[:])) for k, v in h.variables.items()), dict((k, getattr(h, k)) for k in h.ncattrs())


def distance(x0, y0, x1, y1):
    a, b, c = (np.radians(v) for v in (y0, y1, x1 - x0))
    return 2 * 6370997.0 * np.arcsin(np.sqrt(np.sin((b - a) / 2) ** 2 + np.cos(a) * np.cos(b) * np.sin(c / 2) ** 2))


def sign_of(attrs):
    if "rotation_type" in attrs:
        return attrs["rotation_type"]
    return dict(Cyclonic=-1, Anticyclonic=1)[attrs["title"]]


# --- list of files

FORMATS = ["%Y%m%d", "%Y%m%d%H%M%S", "%Y%m%dT%H%M%S"]


def files_check(case, ctx):
    from netCDF4 import Dataset
    from py_eddy_tracker.appli.eddies import browse_dataset_in

    r = gen.rng(case["seed"])
    nb = case["nb"]
    fmt = FORMATS[case["fmt"]]
    step = timedelta(days=case["step"]) if fmt == FORMATS[0] else timedelta(hours=case["step"] * 6)
    dates = [datetime(2000 + int(r.integers(0, 20)), int(r.integers(1, 13)), int(r.integers(1, 28)), 0 if fmt == FORMATS[0] else 13) + k * step for k in [0]]
    dates = [dates[0] + k * step for k in range(nb)]
    if case["hole"] and nb > 3:
        del dates[1 + case["seed"] % (nb - 2)]
    regular = len({b - a for a, b in zip(dates[:-1], dates[1:])}) <= 1
    with Scratch() as d:
        names = []
        order = r.permutation(len(dates))
        labels = r.permutation(len(dates))
        for k in range(len(dates)):
            # names do not have to be sorted as dates
            txt = dates[k].strftime(fmt)
            if case["mode"] == "name":
                fn = os.path.join(d, "%s_%s.nc" % ("abc"[labels[k] % 3], txt))
                open(fn, "w").close()
            else:
                fn = os.path.join(d, "z%03d.nc" % labels[k])
                with Dataset(fn, "w") as h:
                    if case["mode"] == "attribute":
                        h.date_of_grid = txt
                    else:
                        h.createDimension("x", 1)
                        h.createVariable("v", "f4", ("x",)).when = txt
            names.append(fn)
        open(os.path.join(d, "note.txt"), "w").close()
        regexp = dict(name=".*_([0-9T]*?).[nz].*", attribute="date_of_grid", variable="v:when")[case["mode"]]
        kw = dict(date_regexp=regexp, sub_sampling_step=case["sub"])
        if case["as_list"]:
            kw.update(data_dir=None, files_model=None, files=[names[k] for k in order])
        else:
            kw.update(data_dir=d, files_model="*.nc")
        if case["model"]:
            kw["date_model"] = fmt
        bounds = (dates[0] - step, dates[-1] + step)
        if case["bounds"]:
            k0 = case["seed"] % len(dates)
            k1 = max(k0, len(dates) - 1 - case["seed"] // 7 % len(dates))
            e = timedelta(seconds=int(r.integers(0, 2)))
            bounds = (dates[k0] - e, dates[k1] + e)
            kw.update(start_date=np.datetime64(bounds[0]), end_date=np.datetime64(bounds[1]))
        ctx.nontrivial(nb > 1)
        try:
            got = browse_dataset_in(**kw)
        except Exception:
            assert not regular, "list of files refused"
            ctx.label("several steps")
            return
        assert regular, "files with several steps accepted"
        want = [(fn, t) for fn, t in zip(names, dates)][:: case["sub"]]
        want = [(fn, t) for fn, t in want if bounds[0] <= t <= bounds[1]]
        assert [v["filename"].decode() for v in got] == [fn for fn, _ in want], ("files", got["filename"], want)
        assert [v["date"].astype("O") for v in got] == [t for _, t in want], ("dates", got["date"], want)


# --- tracking

def tracking_check(case, ctx):
    import yaml
    from py_eddy_tracker.appli.eddies import eddies_tracking
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    days = trk.days_of(case)
    for o in days:
        # longitudes may be normalized
        o.obs["lat_max"] = o.obs["lon_max"]
    with trk.Store(case, days) as store:
        blank = case["blank"] if len(days) - case["blank"] >= max(2, case["limit"]) else 0
        names = store.names[: len(days) - blank]
        c = trk.run_tracker(store, case, names=names)
        c.prepare_merging()
        if c.nb_obs_by_tracks.size == 0 or case["limit"] > len(names):
            ctx.label("no track")
            return
        if case["resume"] and trk.reference_tracks(store.load(False)[: len(names)], case["virtual"], case["algo"], case["cmin"])[0] is None:
            # packed virtual observations could exchange two links of (almost) the same cost
            ctx.label("undecided history")
            return
        want = trk.sequences(c.merge(raw_data=False), "lat_max")
        out = os.path.join(store.dir, "out")
        config = dict(
            PATHS=dict(FILES_PATTERN=os.path.join(store.dir, "Det_*"), SAVE_DIR=out), VIRTUAL_LENGTH_MAX=case["virtual"], TRACK_DURATION_MIN=case["limit"],
        )
        if case["algo"] == "area":
            config["CLASS"] = dict(MODULE="py_eddy_tracker.featured_tracking.area_tracker", CLASS="AreaTracker", OPTIONS=dict(cmin=case["cmin"]))
        elif case["limit"] % 2:
            config["CLASS"] = dict(MODULE="py_eddy_tracker.observations.observation", CLASS="EddiesObservations")
        yml = os.path.join(store.dir, "conf.yaml")
        argv = [yml]
        if blank:
            argv += ["--blank_period", blank]
        if case["unraw"]:
            argv.append("--unraw")
        if case["resume"]:
            # first files only, in another folder
            first = os.path.join(store.dir, "first")
            os.mkdir(first)
            k = 2 + case["seed"] % max(len(names) - 1, 1)
            for fn in names[:k]:
                os.symlink(fn, os.path.join(first, os.path.basename(fn)))
            conf0 = dict(config, PATHS=dict(FILES_PATTERN=os.path.join(first, "Det_*"), SAVE_DIR=os.path.join(store.dir, "out0")), TRACK_DURATION_MIN=1)
            yml0 = os.path.join(store.dir, "conf0.yaml")
            with open(yml0, "w") as h:
                yaml.safe_dump(conf0, h)
            saved = os.path.join(store.dir, "saved.nc")
            run(eddies_tracking, yml0, "--correspondance_out", saved, "--save_correspondance_and_stop")
            assert sorted(os.listdir(os.path.join(store.dir, "out0"))) == [], "files written when the tracking is stopped"
            # tracking has to go on with the same files
            config["PATHS"]["FILES_PATTERN"] = os.path.join(store.dir, "Det_*")
            if case["seed"] % 2:
                # by the configuration
                config["PATHS"]["CORRESPONDANCES_IN"] = saved
            else:
                argv += ["--correspondance_in", saved]
            # correspondences of another duration of virtual observations are refused
            bad = dict(config, PATHS=dict(config["PATHS"], SAVE_DIR=os.path.join(store.dir, "bad")), VIRTUAL_LENGTH_MAX=case["virtual"] + 1)
            yml_bad = os.path.join(store.dir, "bad.yaml")
            with open(yml_bad, "w") as h:
                yaml.safe_dump(bad, h)
            try:
                run(eddies_tracking, yml_bad, *argv[1:])
                raise AssertionError("correspondences given in input are not used")
            except AssertionError:
                raise
            except Exception:
                pass
        elif case["seed"] % 2:
            config["PATHS"]["CORRESPONDANCES_OUT"] = os.path.join(out, "{sign_type}_elsewhere.nc")
        with open(yml, "w") as h:
            yaml.safe_dump(config, h)
        run(eddies_tracking, *argv)
        sign = "Cyclonic" if case["sign"] == -1 else "Anticyclonic"
        found = sorted(os.listdir(out))
        assert found == sorted("%s%s.nc" % (sign, s) for s in ("", "_elsewhere" if "CORRESPONDANCES_OUT" in config["PATHS"] else "_correspondances", "_track_too_short", "_untracked")), ("files", found)
        got_l = TrackEddiesObservations.load_file(os.path.join(out, sign + ".nc"))
        got_s = TrackEddiesObservations.load_file(os.path.join(out, sign + "_track_too_short.nc"))
        alone = store.cls.load_file(os.path.join(out, sign + "_untracked.nc"))
        source = dict()
        for o in store.load(False)[: len(names)]:
            for k in range(len(o)):
                source[int(o.lat_max[k])] = o.obs[k]
        used = []
        for what, table, keep in (("long", got_l, lambda s: len(s) >= case["limit"]), ("short", got_s, lambda s: len(s) < case["limit"])):
            assert table.sign_type == case["sign"], (what, "sign")
            flag = table.obs["virtual"].astype(bool)
            tag = np.where(flag, 0, np.round(table.obs["lat_max"])).astype(int)
            seq = sorted(tuple(float(v) for v in tag[table.obs["track"] == k]) for k in np.unique(table.obs["track"]))
            assert seq == [s for s in want if keep(s)], (what, "tracks", seq, want)
            used += tag[~flag].tolist()
            for k in range(len(table)):
                t = table.obs[k]
                if flag[k]:
                    assert table.obs["track"][k - 1] == table.obs["track"][k] == table.obs["track"][k + 1], "virtual observation at the end of a track"
                    a, b = k, k
                    while flag[a]:
                        a -= 1
                    while flag[b]:
                        b += 1
                    w = (k - a) / (b - a)
                    for f, tol in (("time", 2e-5), ("lat", 1e-4), ("lon", 1e-4), ("radius_e", 60), ("amplitude", 2e-4)):
                        v = table.obs[f].astype("f8")
                        assert abs(v[k] - (v[a] * (1 - w) + v[b] * w)) < tol, (what, "virtual observation", f, v[a : b + 1])
                    ctx.label("virtual")
                else:
                    s = source[tag[k]]
                    for f in s.dtype.names:
                        if f in ("cost_association", "track", "n", "virtual"):
                            continue
                        if f in ("lon", "contour_lon_e", "contour_lon_s") or "lon" in f:
                            assert np.all(np.abs(gen.wrap180(t[f].astype("f8") - s[f])) < 1e-3), (what, f, t[f], s[f])
                        else:
                            assert np.array_equal(t[f], s[f]), (what, f, t[f], s[f])
                    if case["virtual"] == 0:
                        assert t["lon"] == s["lon"], (what, "longitude", t["lon"], s["lon"])
        used += np.round(alone.obs["lat_max"]).astype(int).tolist()
        assert sorted(used) == sorted(source), ("each observation once", sorted(used), sorted(source))
        for k, t in zip(np.round(alone.obs["lat_max"]).astype(int), alone.obs):
            assert all(np.array_equal(t[f], source[k][f]) for f in ("lon", "lat", "time", "radius_e", "amplitude")), "untracked observation"
        ctx.nontrivial(len(got_l) > 1 and len(source) > 3)
        ctx.label(case["algo"], "resume" if case["resume"] else "one run", "blank %d" % blank, "long" if len(got_l) else "no long track", "short" if len(got_s) else "no short track")


# --- merge

def track_file(fn, r, nb, sampling, extra, sign):
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    o = gen.make_obs(nb, sampling, extra=extra, cls=TrackEddiesObservations, arrays=gen.CONTOURS[:4], sign=sign)
    for f in o.fields:
        v = o.obs[f]
        if v.dtype.kind == "f":
            v[:] = r.uniform(10, 60, v.shape)
    for f in ("amplitude", "speed_average"):
        o.obs[f] = r.uniform(0, 1, nb)
    for f in ("radius_e", "radius_s"):
        o.obs[f] = r.uniform(2e4, 2e5, nb)
    o.obs["time"] = 20000 + r.integers(0, 90, nb)
    o.obs["track"] = np.cumsum(r.integers(0, 2, nb)) + int(r.integers(0, 3))
    o.obs["n"] = r.integers(0, 60, nb)
    o.obs["virtual"] = r.integers(0, 2, nb)
    for k in range(nb):
        if sampling:
            for c in "es":
                o.obs["contour_lon_" + c][k] = o.obs["lon"][k] + r.uniform(-2, 2, sampling)
                o.obs["contour_lat_" + c][k] = o.obs["lat"][k] + r.uniform(-2, 2, sampling)
    o.write_file(filename=fn)
    return o


def merge_check(case, ctx):
    from py_eddy_tracker.appli.eddies import merge_eddies
    from .p25 import partition

    r = gen.rng(case["seed"])
    extra = [e for k, e in enumerate(("lon_max", "lat_max", "cost_association")) if case["extra"] >> k & 1]
    with Scratch() as d:
        names, signs = [], []
        for k, nb in enumerate(case["sizes"]):
            names.append(os.path.join(d, "f%d.nc" % k))
            signs.append(case["sign"] * (-1) ** (k * case["both"]))
            track_file(names[-1], r, nb, case["sampling"], extra, signs[-1])
        out = os.path.join(d, "out.nc")
        argv = names + [out]
        src = [raw(fn)[0] for fn in names]
        want = sorted(src[0])
        if case["only"]:
            want = sorted(v for v in want if v in ("time", "track", "observation_number", "observation_flag", "longitude") or r.uniform() < 0.5)
            argv += ["--include_var"] + want
        if case["rotation"]:
            argv.append("--add_rotation_variable")
            want = sorted(want + ["cyclonic_type"])
        run(merge_eddies, *argv)
        got, attrs = raw(out)
        assert sorted(got) == want, ("variables", sorted(set(got) ^ set(want)))
        for k in want:
            if k == "cyclonic_type":
                v = np.concatenate([np.full(len(s["time"]), sg) for s, sg in zip(src, signs)])
            else:
                v = np.concatenate([s[k] for s in src])
            if k == "track":
                pairs = [(n, t) for n, s in enumerate(src) for t in s["track"].tolist()]
                assert partition(got[k].tolist()) == partition(pairs), ("tracks", got[k].tolist(), pairs)
            else:
                assert got[k].shape == v.shape and np.array_equal(got[k], v), ("merged values", k, got[k], v)
        assert sign_of(attrs) == signs[0], "type of the merge"
        ctx.nontrivial(sum(case["sizes"]) > 1 and len(names) > 1)


# --- circles

def circle_check(case, ctx):
    from py_eddy_tracker.appli.eddies import eddies_add_circle

    r = gen.rng(case["seed"])
    with Scratch() as d:
        fn, out = os.path.join(d, "in.nc"), os.path.join(d, "out.nc")
        track_file(fn, r, case["nb"], case["sampling"], [], case["sign"])
        run(eddies_add_circle, fn, out)
        a, attrs = raw(fn)
        b, attrs_b = raw(out)
        assert sign_of(attrs) == sign_of(attrs_b), "type of eddies"
        for k in a:
            if "contour_lon" in k or "contour_lat" in k or k == "uavg_profile":
                continue
            assert np.array_equal(a[k], b[k]), ("other variables have to be kept", k, a[k], b[k])
        n = case["sampling"] or 50
        from netCDF4 import Dataset

        with Dataset(out) as h:
            for c, radius in (("effective", "effective_radius"), ("speed", "speed_radius")):
                x, y = h.variables[c + "_contour_longitude"][:], h.variables[c + "_contour_latitude"][:]
                assert x.shape == (case["nb"], n), ("shape of contours", x.shape)
                x0, y0 = h.variables["longitude"][:].astype("f8").reshape(-1, 1), h.variables["latitude"][:].astype("f8").reshape(-1, 1)
                rad = h.variables[radius][:].astype("f8").reshape(-1, 1)
                if not case["nb"]:
                    continue
                dist = distance(x0, y0, x.astype("f8"), y.astype("f8"))
                # 0.01 degree of packing, in both directions, and the local projection
                assert np.all(np.abs(dist - rad) < 1.7e3 + rad * 0.02), (c, "radius of the circle", dist, rad)
                assert np.allclose(x[:, 0], x[:, -1], atol=0.011) and np.allclose(y[:, 0], y[:, -1], atol=0.011), "circle not closed"
                # all around the centre
                ang = np.degrees(np.unwrap(np.arctan2(y - y0, gen.wrap180(x - x0) * np.cos(np.radians(y0))), axis=1))
                assert np.all(np.abs(np.abs(ang[:, -1] - ang[:, 0]) - 360) < 10), "turn around the centre"
        ctx.nontrivial(case["nb"] > 1)


# --- frequency

def frequency_check(case, ctx):
    from netCDF4 import Dataset
    from py_eddy_tracker.appli.eddies import get_frequency_grid
    from py_eddy_tracker.observations.observation import EddiesObservations

    r = gen.rng(case["seed"])
    nb = case["nb"]
    o = gen.make_obs(nb, 12, arrays=gen.CONTOURS[:4], sign=case["sign"])
    o.obs["lon"], o.obs["lat"] = r.uniform(-180, 360, nb), r.uniform(-50, 50, nb)
    for k in range(nb):
        for c, size in (("e", 2.5), ("s", 1.4)):
            s = size * r.uniform(0.4, 1)
            x, y = gen.ellipse(o.obs["lon"][k], o.obs["lat"][k], s, s * r.uniform(0.5, 1), 12)
            o.obs["contour_lon_" + c][k], o.obs["contour_lat_" + c][k] = x, y
    with Scratch() as d:
        fn, out = os.path.join(d, "in.nc"), os.path.join(d, "out.nc")
        o.write_file(filename=fn)
        x0 = case["x0"]
        xr, yr = (x0, x0 + case["width"] + 0.01, case["step"]), (-40, 40.01, case["step"])
        run(get_frequency_grid, fn, out, *(["--intern"] if case["intern"] else []), "--xrange", *xr, "--yrange", *yr)
        with Dataset(out) as h:
            lon, lat = np.array(h.variables["lon"][:], "f8"), np.array(h.variables["lat"][:], "f8")
            count = h.variables["count"]
            count = np.ma.filled(count[:] if count.dimensions == ("lon", "lat") else count[:].T, 0)
        xe, ye = np.arange(*xr), np.arange(*yr)
        assert np.allclose(lon, (xe[1:] + xe[:-1]) / 2, atol=1e-4) and np.allclose(lat, (ye[1:] + ye[:-1]) / 2, atol=1e-4), "cells"
        e = EddiesObservations.load_file(fn)
        c = "s" if case["intern"] else "e"
        low, high = np.zeros(count.shape, int), np.zeros(count.shape, int)
        X, Y = np.meshgrid(lon, lat, indexing="ij")
        for k in range(nb):
            px, py = e.obs["contour_lon_" + c][k].astype("f8"), e.obs["contour_lat_" + c][k].astype("f8")
            dx = gen.wrap180(X - e.obs["lon"][k]) + e.obs["lon"][k]
            px = gen.wrap180(px - e.obs["lon"][k]) + e.obs["lon"][k]
            near = (np.abs(dx - e.obs["lon"][k]) < 4) & (np.abs(Y - e.obs["lat"][k]) < 4)
            if not near.any():
                continue
            inside, dist = gen.point_in(px, py, dx[near], Y[near])
            low[near] += inside & (dist > 1e-3)
            high[near] += inside | (dist <= 1e-3)
        bad = (count < low) | (count > high)
        assert not bad.any(), ("count of eddies", [(lon[i], lat[j], int(count[i, j]), int(low[i, j]), int(high[i, j])) for i, j in np.argwhere(bad)[:4]])
        ctx.nontrivial(nb > 1 and low.sum() > 2)


# --- comparison

def group_check(case, ctx):
    from py_eddy_tracker.appli.eddies import get_group

    r = gen.rng(case["seed"])
    n1, n2 = case["n"], case["m"]
    pairs = sorted({(i, j) for i in range(n1) for j in range(n2) if r.uniform() < case["p"] / max(n1, n2)})
    if case["shuffle"]:
        pairs = [pairs[k] for k in r.permutation(len(pairs))]
    i1, i2 = np.array([p[0] for p in pairs], "i8"), np.array([p[1] for p in pairs], "i8")
    # scores exact in percent
    score = r.integers(0, 101, len(pairs)) / 100.0
    invalid, low, high = case["invalid"], case["low"], case["high"]
    if any(abs(s * 100 - lim) < 1e-6 for s in score for lim in (invalid, low, high)):
        score += 0.001
    g1, g2 = get_group(range(n1), range(n2), i1.copy(), i2.copy(), score.copy(), invalid=invalid, low=low, high=high)
    links = [(i, j, s * 100) for (i, j), s in zip(pairs, score.tolist()) if s * 100 >= invalid]
    deg1, deg2 = [0] * n1, [0] * n2
    for i, j, _ in links:
        deg1[i] += 1
        deg2[j] += 1
    single = [v for v in links if deg1[v[0]] == 1 and deg2[v[1]] == 1]
    multi = [v for v in links if not (deg1[v[0]] == 1 and deg2[v[1]] == 1)]
    split = [v for v in multi if deg1[v[0]] == 2 and all(deg2[w[1]] == 1 for w in links if w[0] == v[0])]
    merge = [v for v in multi if deg2[v[1]] == 2 and all(deg1[w[0]] == 1 for w in links if w[1] == v[1])]
    other = [v for v in multi if v not in split and v not in merge]
    for k, (g, n, deg) in enumerate(((g1, n1, deg1), (g2, n2, deg2))):
        def who(lst):
            return sorted({v[k] for v in lst})

        want = dict(
            nomatch=[q for q in range(n) if not deg[q]], low=who(v for v in single if v[2] < low), intermediate=who(v for v in single if low <= v[2] < high), high=who(v for v in single if v[2] >= high), multi_match=who(multi),
            parent=who(merge if k else split), twin=who(split if k else merge), complex=who(other),
        )
        assert set(g) == set(want), ("groups", set(g) ^ set(want))
        for name, w in want.items():
            v = np.asarray(g[name])
            got = sorted(np.where(v)[0].tolist() if v.dtype == bool else v.tolist())
            assert got == w, (name, "dataset %d" % (k + 1), got, w, links)
        if split and merge:
            ctx.label("parents and twins")
    ctx.nontrivial(len(links) > 1)


def compare_check(case, ctx):
    from py_eddy_tracker.appli.eddies import get_group, quick_compare
    from py_eddy_tracker.observations.observation import EddiesObservations

    r = gen.rng(case["seed"])

    def dataset(nb, base=None):
        o = gen.make_obs(nb, 12, extra=["lon_max"], arrays=gen.CONTOURS[:4], sign=case["sign"])
        o.obs["lon"], o.obs["lat"] = 30 + r.uniform(-4, 4, nb), r.uniform(-4, 4, nb)
        if base is not None:
            k = min(nb, len(base))
            o.obs["lon"][:k], o.obs["lat"][:k] = base.obs["lon"][:k] + r.normal(0, 0.2, k), base.obs["lat"][:k] + r.normal(0, 0.2, k)
        o.obs["lon_max"] = 1 + np.arange(nb)
        for k in range(nb):
            for c in "es":
                x, y = gen.ellipse(o.obs["lon"][k], o.obs["lat"][k], *(r.uniform(0.4, 1.6, 2) * (1 if c == "e" else 0.6)), 12)
                o.obs["contour_lon_" + c][k], o.obs["contour_lat_" + c][k] = x, y
        for f in ("effective_area", "speed_area"):
            o.obs[f] = r.uniform(1e9, 1e10, nb)
        return o

    ref = dataset(case["n"])
    with Scratch() as d:
        fr = os.path.join(d, "ref.nc")
        ref.write_file(filename=fr)
        others = []
        for k, nb in enumerate(case["sizes"]):
            others.append(os.path.join(d, "o%d.nc" % k))
            dataset(nb, ref if case["near"] else None).write_file(filename=others[-1])
        opt = (["--intern"] if case["intern"] else []) + (["--minimal_area"] if case["minimal"] else []) + ["--high", case["high"], "--low", case["low"], "--invalid", case["invalid"]]
        txt = run(quick_compare, fr, *others, *opt, *(["--area"] if case["area"] else []))
        out = os.path.join(d, "groups")
        run(quick_compare, fr, *others, *opt, "--path_out", out)
        a = EddiesObservations.load_file(fr)
        assert sorted(os.listdir(out)) == sorted(o.replace("/", "_") for o in others), "a folder by file"
        rows = [v for v in txt.splitlines() if v.startswith("[") and "->" not in v]
        assert len(rows) == 2 * len(others), ("a line by file and by point of view", txt)
        area = "speed_area" if case["intern"] else "effective_area"
        for q, o in enumerate(others):
            b = EddiesObservations.load_file(o)
            i1, i2, s = a.match(b, intern=case["intern"], minimal_area=case["minimal"])
            g1, g2 = get_group(a, b, i1, i2, s, invalid=case["invalid"], low=case["low"], high=case["high"])
            folder = os.path.join(out, o.replace("/", "_"))
            assert sorted(os.listdir(folder)) == sorted(["ref_%s.nc" % k for k in g1] + ["other_%s.nc" % k for k in g2]), ("files", os.listdir(folder))
            for name, src, g, row in (("ref", a, g1, rows[q]), ("other", b, g2, rows[q + len(others)])):
                values = []
                for k, v in g.items():
                    got = EddiesObservations.load_file(os.path.join(folder, "%s_%s.nc" % (name, k)))
                    v = np.where(v)[0] if v.dtype == bool else v
                    want = src.index(v)
                    assert gen.obs_equal(got, want), ("group in file", name, k, got.obs["lon_max"], want.obs["lon_max"])
                    values.append(src.obs[area][v].astype("f8").sum() / 1e12 if case["area"] else len(v))
                total = src.obs[area].astype("f8").sum() / 1e12 if case["area"] else len(src)
                shown = [float(v) for v in re.findall(r"([0-9.]+)%", row)]
                assert len(shown) == len(values) and all(abs(u - v / total * 100) < 0.06 for u, v in zip(shown, values)), ("percentages", name, row, values, total)
        ctx.nontrivial(case["n"] > 1)


S = st.sampled_from
FACETS = [
    Facet(
        "files", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, nb=S([1, 2, 3, 5, 9]), fmt=S([0, 1, 2]), step=S([1, 1, 7]), hole=S([False, False, False, True]), mode=S(["name", "name", "name", "attribute", "variable"]), sub=S([1, 1, 2, 3]), as_list=st.booleans(), model=st.booleans(), bounds=st.booleans())),
        files_check, quick=300, budget=60,
    ),
    Facet(
        "tracking", lambda: st.fixed_dictionaries(dict(trk.HISTORY, store=st.just("netcdf"), days=S([3, 5, 7]), limit=S([1, 2, 3, 4]), blank=S([0, 0, 1, 2]), unraw=st.booleans(), resume=S([False, False, True]))),
        tracking_check, quick=60, budget=100,
    ),
    Facet("merge", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, sizes=st.lists(S([3, 1, 6, 0]), min_size=1, max_size=3), sampling=S([0, 6]), extra=st.integers(0, 7), sign=S([-1, 1]), both=S([0, 1]), only=st.booleans(), rotation=st.booleans())), merge_check, quick=120, budget=60),
    Facet("circle", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, nb=S([4, 1, 0, 9]), sampling=S([0, 20, 35]), sign=S([-1, 1]))), circle_check, quick=100, budget=60),
    Facet("frequency", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, nb=S([5, 20, 1]), sign=S([-1, 1]), intern=st.booleans(), x0=S([0, -180, 20]), width=S([360, 360, 90]), step=S([1, 0.5]))), frequency_check, quick=60, budget=60),
    Facet("groups", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, n=S([4, 8, 1, 12]), m=S([4, 8, 1, 12]), p=S([0.7, 1.2, 2.5, 0]), shuffle=st.booleans(), invalid=S([2, 0, 30]), low=S([10, 40]), high=S([60, 40.0, 90]))), group_check, quick=800, budget=60),
    Facet("compare", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, n=S([4, 8, 1]), sizes=st.lists(S([4, 8, 1]), min_size=1, max_size=2), near=st.booleans(), intern=st.booleans(), minimal=st.booleans(), area=st.booleans(), sign=S([-1, 1]), high=S([40.0, 70.0]), low=S([20.0, 10.0]), invalid=S([5.0, 1.0]))), compare_check, quick=40, budget=80),
]
