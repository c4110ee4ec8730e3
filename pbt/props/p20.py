"""Quantities along tracks: index, durations, distances, bearings, branches, smoothing."""
import re

import numpy as np
from hypothesis import strategies as st

from .. import gen, netgen, trackgen
from ..core import Facet

RULE = (
    "Cases are tables of tracks (sparse numbers, first number not 0, tracks of one observation, holes) with random positions and fields, windows for smoothing; "
    "a case is non-trivial when the table has at least two tracks, one of them of at least three observations."
)
ASSUMPTIONS = [
    "Tables of tracks are sorted by track then date.",
    "Half windows of the smoothing are multiples of 1/4 of the sampling or far from any difference of dates.",
    "Azimuths are not asked for tracks which do not move (or reach the opposite point of the Earth).",
]
R = 6370997.0


def haversine(lon0, lat0, lon1, lat1):
    lon0, lat0, lon1, lat1 = (np.radians(v) for v in (lon0, lat0, lon1, lat1))
    h = np.sin((lat1 - lat0) / 2) ** 2 + np.cos(lat0) * np.cos(lat1) * np.sin((lon1 - lon0) / 2) ** 2
    return 2 * R * np.arcsin(np.sqrt(h))


def bearing(lon, lat):
    """Initial bearing of the great circle from the first to the last position, clockwise from north"""
    f = np.radians
    a0, a1, dl = f(lat[0]), f(lat[-1]), f(lon[-1] - lon[0])
    q = np.array([np.cos(a1) * np.cos(dl), np.cos(a1) * np.sin(dl), np.sin(a1)])
    north, east = np.array([-np.sin(a0), 0, np.cos(a0)]), np.array([0.0, 1.0, 0.0])
    return np.degrees(np.arctan2(q @ east, q @ north)), float(np.hypot(q @ east, q @ north))


def nontrivial(n, ctx):
    s = [len(i) for i in trackgen.groups(n).values()]
    ctx.nontrivial(len(s) > 1 and max(s) >= 3)


# ---------------------------------------------------------------- structure
def structure_check(case, ctx):
    n = trackgen.tracks(case["tracks"])
    r = gen.rng(case["a"])
    gr = trackgen.groups(n)
    before = n.obs.copy()
    top = max(gr) + 1
    assert n.nb_tracks == len(gr)
    assert n.nb_obs_by_track.tolist() == [len(gr.get(k, ())) for k in range(top)], "nb_obs_by_track"
    assert n.lifetime.tolist() == [len(gr[k]) for k in n.obs["track"].tolist()], "lifetime"
    assert np.array_equal(n["lifetime"], n.lifetime)
    with np.errstate(all="ignore"):
        age = n.age
    for i in gr.values():
        if len(i) > 1:
            ref = 100.0 * np.arange(len(i)) / (len(i) - 1)
            assert np.allclose(age[i], ref, rtol=1e-5), ("age", age[i], ref)
    parts = [trackgen.names(t) for t in n.iter_track()]
    tags = trackgen.names(n)
    assert parts == [[tags[j] for j in i] for i in gr.values()], "iter_track"
    for t, (k, i) in zip(n.iter_track(), gr.items()):
        assert set(t.obs["track"].tolist()) == {k} and np.array_equal(t.obs, n.obs[i]), "content of iter_track"
    m = r.uniform(0, 1, len(n)) < 0.5
    assert n.count_by_track(m).tolist() == [int(m[gr[k]].sum()) if k in gr else 0 for k in range(top)], "count_by_track"
    t = n.obs["time"]
    assert n.period == (t.min(), t.max()) and n.nb_days == t.max() - t.min() + 1
    if (t % 1 == 0).all():
        d0 = np.datetime64("1950-01-01")
        assert np.array_equal(n.time_datetime64, [d0 + np.timedelta64(int(v), "D") for v in t]), "time_datetime64"
    # bearings
    for flag in (False, True):
        az = n.get_azimuth(equatorward=flag)
        assert len(az) == len(gr), "one azimuth by track"
        for (k, i), a in zip(gr.items(), az):
            b, w = bearing(n.obs["lon"][i], n.obs["lat"][i])
            if w < 1e-7:
                continue
            ref = b + 90
            if flag and n.obs["lat"][i[0]] < 0:
                ref = -ref
            assert abs(gen.wrap180(a - ref)) < 1e-6 / w + 1e-9, ("azimuth", k, flag, a, ref)
    assert np.array_equal(n.obs, before), "table changed"
    nontrivial(n, ctx)


# ---------------------------------------------------------------- distances
def distance_check(case, ctx):
    n = trackgen.tracks(case["tracks"])
    gr = trackgen.groups(n)
    before = n.obs.copy()
    lon, lat = n.obs["lon"], n.obs["lat"]
    ref = np.zeros(len(n))
    for i in gr.values():
        for a, b in zip(i[:-1], i[1:]):
            ref[a] = haversine(lon[a], lat[a], lon[b], lat[b])
    d = n.distance_to_next()
    assert d.shape == ref.shape and np.allclose(d, ref, rtol=1e-6, atol=1e-2), ("distance_to_next", np.where(~np.isclose(d, ref, rtol=1e-6, atol=1e-2))[0].tolist(), d.tolist(), ref.tolist())
    new = n.add_distance()
    assert "distance_next" in new.fields and np.allclose(new.obs["distance_next"], ref, rtol=1e-6, atol=1e-2), "add_distance"
    for f in n.fields:
        assert np.array_equal(new.obs[f], before[f]), ("add_distance", f)
    assert new.sign_type == n.sign_type
    again = new.add_distance()
    assert np.array_equal(again.obs["distance_next"], new.obs["distance_next"])
    assert np.array_equal(n.obs, before), "table changed"
    if case["text"] and ref.max() > 0:
        # what is displayed
        text = repr(n)
        last = np.zeros(len(n), bool)
        total = []
        for i in gr.values():
            last[i[-1]] = True
            total.append(ref[i].sum() / 1000)
        day = ref[~last] / 1000
        for label, v in (("Distance by day", day), ("Distance by track", np.array(total))):
            m = re.search(label + r"\s*: Mean (\S+) , Median (\S+) km", text)
            assert m, "no distance in the text"
            assert abs(float(m[1]) - v.mean()) < 0.011 + 1e-6 * v.max() and abs(float(m[2]) - np.median(v)) < 0.011 + 1e-6 * v.max(), (label, m[0], v.mean(), np.median(v))
        s = [len(i) for i in gr.values()]
        m = re.search(r"\| (\d+) tracks \((\S+) obs/tracks, shorter (\d+) obs, longer (\d+) obs\)", text)
        assert (int(m[1]), int(m[3]), int(m[4])) == (len(s), min(s), max(s)) and abs(float(m[2]) - np.mean(s)) < 0.006, ("tracks in the text", m[0])
        v = n.obs["virtual"].astype(bool).sum()
        m = re.search(r"\|\s+(\d+) filled observations \((\S+) obs/tracks, (\S+) % of total\)", text)
        assert int(m[1]) == v and abs(float(m[3]) - 100 * v / len(n)) < 0.006, ("filled observations in the text", m[0])
        ctx.label("text")
    nontrivial(n, ctx)


# ---------------------------------------------------------------- branch of longitude
def normalize_check(case, ctx):
    arrays = [[], ["contour_lon_e"], ["contour_lon_e", "contour_lon_s"]][case["arrays"]]
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    extra = ["lon_max"]
    n0 = trackgen.tracks(case["tracks"])
    cls = TrackEddiesObservations
    if case["network"]:
        from py_eddy_tracker.observations.network import NetworkObservations as cls
    n = gen.make_obs(len(n0), 7 if arrays else 0, extra=extra, cls=cls, arrays=arrays)
    for f in n.fields:
        if f in n0.fields:
            n.obs[f] = n0.obs[f]
    r = gen.rng(case["a"])
    nb = len(n)
    if case["drift"]:
        # a track which goes around the world
        n.obs["lon"] += r.uniform(-175, 175, nb)
    true = n.obs["lon"].copy()
    n.obs["lon_max"] = true + r.uniform(-2, 2, nb) + 360 * r.integers(-1, 2, nb)
    for f in arrays:
        n.obs[f] = (true[:, None] + r.uniform(-3, 3, (nb, 7))) + 360 * r.integers(-1, 2, (nb, 1))
    n.obs["lon"] += 360 * r.integers(-1, 2, nb)
    before = n.obs.copy()
    n.normalize_longitude()
    for f in ("lon", "lon_max", *arrays):
        d = n.obs[f].astype("f8") - before[f]
        assert np.abs(gen.wrap180(d)).max() < 1e-3, (f, "moved", np.abs(gen.wrap180(d)).max())
    gr = trackgen.groups(n)
    for i in gr.values():
        d = n.obs["lon"][i] - before["lon"][i[0]]
        assert d.min() >= -180 - 1e-6 and d.max() <= 180 + 1e-6, ("more than half a turn from the first observation", d)
        near = np.abs(true[i] - true[i[0]]) < 179.9
        assert np.abs(d - (true[i] - true[i[0]]))[near].max() < 1e-3, "not continuous"
    assert np.abs(n.obs["lon_max"] - n.obs["lon"]).max() < 2.01, "lon_max on another branch"
    for f in arrays:
        assert np.abs(n.obs[f] - n.obs["lon"][:, None]).max() < 3.01, (f, "on another branch")
    for f in n.fields:
        if f not in ("lon", "lon_max", *arrays):
            assert np.array_equal(n.obs[f], before[f]), (f, "changed")
    nontrivial(n, ctx)


# ---------------------------------------------------------------- smoothing
def median_ref(x, y, h):
    return np.array([np.median(y[np.abs(x - v) <= h]) for v in x])


def loess_ref(x, y, h):
    out = []
    for v in x:
        dx = np.abs(x - v)
        w = np.where(dx < h, (1 - (dx / h) ** 3) ** 3, 0.0)
        out.append((w * y).sum() / w.sum())
    return np.array(out)


def by_track(n, f, x, y, h):
    out = np.empty(len(n))
    for i in trackgen.groups(n).values():
        out[i] = f(n.obs[x][i].astype("f8"), np.asarray(y)[i].astype("f8"), h)
    return out


def smooth_check(case, ctx):
    n = trackgen.tracks(case["tracks"])
    field = case["field"]
    if case["relative"]:
        n.obs["lon"] = n.obs["lon"] - n.obs["lon"].mean()
    before = n.obs.copy()
    h = case["h"] * case["tracks"]["step"]
    eps = {"f": 2e-6, "d": 1e-9}[n.obs.dtype[field].char]
    tol = lambda v: eps * (1 + np.abs(v).max())  # noqa: E731
    med = by_track(n, median_ref, "time", before[field], h)
    got = n.median_filter(h, "time", field, inplace=False)
    assert np.abs(got - med).max() <= tol(med), ("median", got.tolist(), med.tolist())
    loess = by_track(n, loess_ref, "time", before[field], h)
    got = n.loess_filter(h, "time", field, inplace=False)
    assert np.abs(got - loess).max() <= tol(loess), ("loess", np.where(np.abs(got - loess) > tol(loess))[0].tolist(), got.tolist(), loess.tolist())
    assert np.array_equal(n.obs, before), "table changed by a filter which is not in place"
    # a track does not depend on the other ones
    k = sorted(trackgen.groups(n))[case["a"] % n.nb_tracks]
    one = n.extract_ids([k])
    i = trackgen.groups(n)[k]
    a = one.loess_filter(h, "time", field, inplace=False)
    assert np.abs(a - got[i]).max() <= tol(got), "depends on other tracks"
    # in place, and chained
    assert n.median_filter(h, "time", field) is n and np.abs(n.obs[field] - med).max() <= tol(med), "median in place"
    assert n.loess_filter(h, "time", field) is n
    chained = by_track(n, loess_ref, "time", med, h)
    assert np.abs(n.obs[field] - chained).max() <= 2 * tol(chained), "loess in place"
    for f in n.fields:
        assert f == field or np.array_equal(n.obs[f], before[f]), (f, "changed")
    nontrivial(n, ctx)


def position_check(case, ctx):
    n = trackgen.tracks(case["tracks"])
    before = n.obs.copy()
    h0, h1 = case["h0"] * case["tracks"]["step"], case["h1"] * case["tracks"]["step"]
    n.position_filter(h0, h1)
    for f in ("lon", "lat"):
        ref = by_track(n, loess_ref, "time", by_track(n, median_ref, "time", before[f], h0), h1)
        tol = {"f": 5e-4, "d": 1e-7}[n.obs.dtype[f].char]
        assert np.abs(n.obs[f] - ref).max() < tol, ("position_filter", f)
    for f in n.fields:
        assert f in ("lon", "lat") or np.array_equal(n.obs[f], before[f]), (f, "changed")
    nontrivial(n, ctx)


def network_check(case, ctx):
    """In a network, each segment is filtered on its own"""
    n = netgen.network(case["net"], extra=("lon_max", "amplitude", "speed_average"))
    before = n.obs.copy()
    if not len(n):
        return
    gr = dict()
    for k in range(len(n)):
        gr.setdefault((int(before["track"][k]), int(before["segment"][k])), []).append(k)

    def ref(f, y, h):
        out = np.empty(len(n))
        for i in gr.values():
            out[i] = f(before["time"][i].astype("f8"), np.asarray(y)[i].astype("f8"), h)
        return out

    field = case["field"]
    h0, h1 = case["h0"] * case["net"]["step"], case["h1"] * case["net"]["step"]
    if case["read"]:
        # whatever was asked before
        n.segment_track_array, n.index_segment_track
    if case["position"]:
        n.position_filter(h0, h1)
        changed = ("lon", "lat")
        for f in changed:
            want = ref(loess_ref, ref(median_ref, before[f], h0), h1)
            assert np.abs(n.obs[f] - want).max() < {"f": 1e-3, "d": 1e-7}[n.obs.dtype[f].char], ("position of a network", f)
    else:
        eps = {"f": 4e-6, "d": 1e-9}[n.obs.dtype[field].char] * (1 + np.abs(before[field]).max())
        med, loess = ref(median_ref, before[field], h0), ref(loess_ref, before[field], h1)
        assert np.abs(n.median_filter(h0, "time", field, inplace=False) - med).max() <= eps, ("median of segments", field)
        assert np.abs(n.loess_filter(h1, "time", field, inplace=False) - loess).max() <= eps, ("loess of segments", field)
        assert np.array_equal(n.obs, before), "table changed by a filter which is not in place"
        assert n.median_filter(h0, "time", field) is n and np.abs(n.obs[field] - med).max() <= eps, "median in place"
        assert n.loess_filter(h1, "time", field) is n and np.abs(n.obs[field] - ref(loess_ref, med, h1)).max() <= 2 * eps, "loess in place"
        changed = (field,)
    for f in n.fields:
        assert f in changed or np.array_equal(n.obs[f], before[f]), (f, "changed")
    ctx.nontrivial(len(gr) > 1 and max(len(i) for i in gr.values()) > 2)


T = st.fixed_dictionaries(trackgen.TRACKS)
H = st.sampled_from([0.75, 1.0, 1.5, 2.0, 3.25, 7.0, 40.0])
FACETS = [
    Facet("structure", lambda: st.fixed_dictionaries(dict(tracks=T, a=gen.SEEDS)), structure_check, quick=500, budget=60),
    Facet("distance", lambda: st.fixed_dictionaries(dict(tracks=T, text=st.booleans())), distance_check, quick=400, budget=60),
    Facet("normalize", lambda: st.fixed_dictionaries(dict(tracks=T, network=st.booleans(), drift=st.booleans(), a=gen.SEEDS, arrays=st.integers(0, 2))), normalize_check, quick=400, budget=60),
    Facet("smooth", lambda: st.fixed_dictionaries(dict(tracks=T, a=gen.SEEDS, h=H, field=st.sampled_from(["lon", "lat", "amplitude", "speed_average", "radius_e"]), relative=st.booleans())), smooth_check, quick=500, budget=60),
    Facet("position", lambda: st.fixed_dictionaries(dict(tracks=T, h0=H, h1=H)), position_check, quick=300, budget=60),
    Facet("networks", lambda: st.fixed_dictionaries(dict(net=st.fixed_dictionaries(netgen.NETWORK), h0=H, h1=H, read=st.booleans(), position=st.booleans(), field=st.sampled_from(["lon", "lat", "amplitude", "speed_average", "radius_e"]))), network_check, quick=250, budget=60),
]
