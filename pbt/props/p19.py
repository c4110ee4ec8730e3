"""Selections of observations and tracks."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, trackgen
from ..core import Facet

RULE = (
    "Cases are tables of tracks (sparse numbers, tracks of one observation, holes, several branches of longitude) and histories of 1 to 6 selections with random criteria, tracks of 100 to 65000 observations, or compositions of filters; "
    "a case is non-trivial when a selection keeps some observations and removes others."
)
ASSUMPTIONS = [
    "Tables of tracks are sorted by track then date, longitudes are continuous along each track.",
    "Limits of areas and polygons do not touch an observation (less than 1e-9 degree).",
    "Longitude displacements of a track are smaller than 180 degrees.",
    "first_obs and last_obs are asked on whole tracks (observation number starts at 0).",
]

OPS = ["mask", "mask", "full_path", "incomplete", "both", "compress", "period", "area", "area_full", "polygons", "length", "ids", "longer", "toward", "toward", "direction", "first_box", "sub_sample", "first", "last", "by_date", "index", "reverse", "callable", "copy"]
OP = st.fixed_dictionaries(dict(name=st.sampled_from(OPS), a=gen.SEEDS, p=st.sampled_from([0.1, 0.4, 0.7, 0.95]), n=st.integers(0, 5), d=st.integers(0, 5), flag=st.booleans()))


def wrapped_delta(lon):
    d = lon[-1] - lon[0]
    return (d + 180) % 360 - 180


def check_state(n, what):
    """What the object says about its tracks agrees with its table"""
    gr = trackgen.groups(n)
    assert n.nb_tracks == len(gr), (what, "nb_tracks", n.nb_tracks, len(gr))
    if not len(n):
        return
    top = max(gr) + 1
    first, size = n.index_from_track, n.nb_obs_by_track
    for m in (np.ones(len(n), bool), n.obs["virtual"].astype(bool)):
        assert n.count_by_track(m).tolist() == np.bincount(n.obs["track"][m], minlength=top).tolist(), (what, "count_by_track")
    assert size.tolist() == [len(gr.get(k, ())) for k in range(top)], (what, "nb_obs_by_track")
    for k, i in gr.items():
        assert first[k] == i[0] and n.track_slice(k) == slice(i[0], i[-1] + 1), (what, "index of track", k)
    assert np.array_equal(n.tracks, n.obs["track"]) and np.array_equal(n.track, n.obs["track"]) and np.array_equal(n["track"], n.obs["track"]), (what, "numbers of tracks", n.track, n.obs["track"])
    assert n.period == (n.obs["time"].min(), n.obs["time"].max()), (what, "period")


def select(n, op, r, ctx):
    """Run one selection. Returns (new object, mask expected, compressed)"""
    nb, name = len(n), op["name"]
    o = n.obs
    gr = trackgen.groups(n)
    time, lon, lat = o["time"].copy(), o["lon"].copy(), o["lat"].copy()
    mask = r.uniform(0, 1, nb) < op["p"]

    def whole(ok):
        m = np.zeros(nb, bool)
        for k, i in gr.items():
            m[i] = ok(k, i)
        return m

    if name == "mask":
        return n.extract_with_mask(mask), mask, False
    if name == "compress":
        keep = mask.copy()
        return n.extract_with_mask(mask, full_path=op["flag"], compress_id=True), whole(lambda k, i: keep[i].any()) if op["flag"] else keep, True
    if name in ("full_path", "both"):
        real = mask & ~(o["virtual"].astype(bool)) if op["flag"] else mask
        given = mask.copy()
        new = n.extract_with_mask(given, full_path=True, reject_virtual=op["flag"], remove_incomplete=name == "both")
        assert np.array_equal(given, mask), "mask of the caller is changed"
        return new, whole(lambda k, i: real[i].any()), False
    if name == "incomplete":
        return n.extract_with_mask(mask, remove_incomplete=True), whole(lambda k, i: mask[i].all()), False
    if name == "period":
        t0, t1 = time.min(), time.max()
        a, b = [(t0 + op["n"], t1 - op["d"]), (-op["n"], -op["d"]), (0, t1 - op["d"]), (t0 + op["n"], 0), (0, 0)][op["a"] % 5]
        lo = a if a > 0 else t0 - a if a < 0 else t0
        hi = b if b > 0 else t1 + b if b < 0 else t1
        m = (time >= lo) & (time <= hi)
        if op["flag"]:
            return n.extract_with_period((a, b), full_path=True), whole(lambda k, i: m[i].any()), False
        return n.extract_with_period((a, b)), m, False
    if name in ("area", "area_full"):
        x0 = float(lon[r.integers(0, nb)] + r.uniform(-30, 2) + 360 * r.integers(-2, 3))
        dx = float(r.uniform(1, 60 if op["flag"] else 359))
        y0, y1 = sorted(r.uniform(-70, 70, 2).tolist())
        area = dict(llcrnrlon=x0, urcrnrlon=x0 + dx)
        m = ((lon - x0) % 360 < dx) & ((lon - x0) % 360 > 0)
        if op["n"] % 3:
            area.update(llcrnrlat=y0, urcrnrlat=y1)
            m &= (lat > y0) & (lat < y1)
        near = np.abs(np.r_[(lon - x0) % 360, (lon - x0) % 360 - 360, (lon - x0) % 360 - dx, lat - y0, lat - y1]).min() < 1e-9
        if near:
            return None
        if name == "area_full":
            return n.extract_with_area(area, full_path=True), whole(lambda k, i: m[i].any()), False
        return n.extract_with_area(area), m, False
    if name == "polygons":
        polys, m = [], np.zeros(nb, bool)
        for _ in range(1 + op["n"] % 3):
            k = r.integers(0, nb)
            px, py = gen.star(r, lon[k] + r.uniform(-3, 3), lat[k] + r.uniform(-3, 3), r.uniform(1, 15), r.uniform(1, 15), int(r.integers(4, 12)))
            inside, dist = gen.point_in(px, py, lon, lat)
            if np.min(dist) < 1e-6:
                return None
            polys.append((px, py))
            m |= inside
        got = n.mask_from_polygons(polys)
        assert np.array_equal(got, m), ("mask_from_polygons", got, m)
        return n.extract_with_mask(got), m, False
    if name == "length":
        b = [(op["n"], op["n"] + op["d"]), (op["n"] + 1, -1), (-1, op["d"]), (op["n"], op["d"])][op["a"] % 4]
        lo, hi = b[0], b[1] if b[1] != -1 else np.inf
        return n.extract_with_length(b), whole(lambda k, i: lo <= len(i) <= hi), False
    if name == "ids":
        ids = [int(k) for k in gr if r.uniform() < op["p"]]
        ids += [k for k in (max(gr) + 1 + op["d"], max(gr) + 100000, min(gr) - 1) if op["flag"] and k >= 0]
        ids = r.permutation(ids).astype(int) if ids else np.empty(0, int)
        wanted = set(ids.tolist())
        if op["n"] % 2:
            ids = ids.tolist()
        m = whole(lambda k, i: k in wanted)
        if len(ids):
            assert np.array_equal(n.get_mask_from_id(np.array(ids)), m), "get_mask_from_id"
        return n.extract_ids(np.array(ids, int) if not len(ids) else ids), m, False
    if name == "longer":
        v = r.integers(0, 8, nb)
        return n.extract_longer_eddies(op["n"], v, compress_id=op["flag"]), v >= op["n"], op["flag"]
    if name == "toward":
        delta = [None, None, 0.5, 3.0, 8.0][op["a"] % 5]
        d = dict((k, lon[i[-1]] - lon[i[0]]) for k, i in gr.items())
        west = op["flag"]
        if delta is not None and any(abs(abs(v) - delta) < 1e-9 for v in d.values()):
            return None
        if delta is not None and west:
            ctx.label("westward span")
        return n.extract_toward_direction(west=west, delta_lon=delta), whole(lambda k, i: (d[k] < 0 if west else d[k] > 0) and (delta is None or abs(d[k]) > delta)), False
    if name == "direction":
        way = "NSEW"[op["a"] % 4]
        v = [0, 0.5, 3.0][op["n"] % 3]
        shift = 360 * r.integers(-1, 2, nb) if way in "EW" and op["flag"] else np.zeros(nb)
        n.obs["lon"] += shift  # whatever the branch of each observation
        d = dict((k, (lat[i[-1]] - lat[i[0]]) if way in "NS" else wrapped_delta(lon[i])) for k, i in gr.items())
        if any(len(i) > 1 and min(abs(abs(d[k]) - v), abs(abs(d[k]) - 180)) < 1e-9 for k, i in gr.items()):
            n.obs["lon"] = lon
            return None
        s = 1 if way in "NE" else -1
        single = dict((k, len(i) == 1) for k, i in gr.items())
        new = n.extract_in_direction(way, v)
        n.obs["lon"] = lon
        m = whole(lambda k, i: not single[k] and s * d[k] > v)
        if len(new):
            new.obs["lon"] -= shift[m] if m.sum() == len(new) else 0
            if m.sum() == len(new) and np.abs(new.obs["lon"] - lon[m]).max() < 1e-9:
                new.obs["lon"] = lon[m]
        return new, m, False
    if name == "first_box":
        res = float([0.5, 1, 4, 10][op["n"] % 4])
        seen, m = set(), np.zeros(nb, bool)
        for i in range(nb):
            k = int(o["track"][i]), np.floor(lon[i] / res), np.floor(lat[i] / res)
            m[i] = k not in seen
            seen.add(k)
        return n.extract_first_obs_in_box(res), m, False
    if name == "sub_sample":
        t0, dt = time[r.integers(0, nb)] + float(r.integers(-40, 40)) * 0.5, [0.5, 1, 2, 3, 7][op["n"] % 5]
        return n.time_sub_sample(t0, dt), np.array([((t - t0) * 2) % int(dt * 2) == 0 for t in time]), False
    if name in ("first", "last"):
        if any(o["n"][i].tolist() != list(range(len(i))) for i in gr.values()):
            return None
        k = 0 if name == "first" else -1
        ends = set(i[k] for i in gr.values())
        return getattr(n, name + "_obs")(), np.array([j in ends for j in range(nb)]), False
    if name == "by_date":
        d, k = time[r.integers(0, nb)], float(r.integers(-6, 7))
        dates = dict((q, set(time[i].tolist())) for q, i in gr.items())
        return n.keep_tracks_by_date(d, k), whole(lambda q, i: d in dates[q] and d + k in dates[q]), False
    if name in ("index", "reverse"):
        i = np.where(mask)[0]
        if i.size == 0:
            return None
        if name == "reverse":
            return n.index(r.permutation(i), reverse=True), ~mask, False
        if op["flag"]:
            a, b = i[0], i[-1] + 1
            m = np.zeros(nb, bool)
            m[a:b] = True
            return n.index(slice(a, b)), m, False
        return n.index(i if op["n"] % 2 else i.tolist()), mask, False
    if name == "callable":
        # composition by merge_filters
        f = n.merge_filters(lambda q: q.obs["time"] >= np.median(time), None, mask)
        m = (time >= np.median(time)) & mask
        x = np.arange(nb)[f]
        assert x.tolist() == np.where(m)[0].tolist(), ("merge_filters", x, m)
        return n.extract_with_mask(m), m, False
    return n.copy(), np.ones(nb, bool), False


def history_check(case, ctx):
    n = trackgen.tracks(case["tracks"])
    for op in case["ops"]:
        if op["flag"] or op["a"] % 2:
            check_state(n, "before")
        if not len(n):
            empty_check(n, op)
            return
        r = gen.rng(op["a"])
        before, tab = n.obs.copy(), trackgen.content(n)
        res = select(n, op, r, ctx)
        assert n.obs.dtype == before.dtype and np.array_equal(n.obs, before), (op["name"], "the table was changed by a selection")
        if res is None:
            continue
        new, m, compressed = res
        tags = np.array(trackgen.names(n))
        assert trackgen.names(new) == tags[m].tolist(), (op["name"], trackgen.names(new), tags[m].tolist())
        got = trackgen.content(new)
        assert all(got[k] == tab[k] for k in got), (op["name"], "field changed")
        assert type(new) is type(n) and new.sign_type == n.sign_type and new.obs.dtype == n.obs.dtype, (op["name"], "type")
        old = n.obs["track"][m]
        if compressed:
            rank = dict((k, i + 1) for i, k in enumerate(np.unique(old).tolist()))
            assert new.obs["track"].tolist() == [rank[k] for k in old.tolist()], (op["name"], "compressed numbers", new.obs["track"].tolist())
            ctx.label("compressed")
        else:
            assert np.array_equal(new.obs["track"], old), (op["name"], "numbers")
        assert not np.shares_memory(new.obs, n.obs) or not len(new), (op["name"], "shares memory")
        check_state(new, op["name"])
        ctx.nontrivial(0 < m.sum() < len(m))
        ctx.label(op["name"])
        n = new


def empty_check(n, op):
    """A selection of nothing is nothing"""
    for f in (
        lambda: n.extract_with_mask(np.zeros(0, bool)),
        lambda: n.extract_with_area(dict(llcrnrlon=0, urcrnrlon=10)),
        lambda: n.extract_with_period((20000, 20010)),
        lambda: n.extract_with_period((-1, -1)),
        lambda: n.extract_with_length((2, -1)),
        lambda: n.extract_ids([1, 2]),
        lambda: n.time_sub_sample(0, 2),
        lambda: n.extract_in_direction("W"),
        lambda: n.extract_toward_direction(),
        lambda: n.extract_first_obs_in_box(1.0),
        lambda: n.first_obs(),
        lambda: n.last_obs(),
        lambda: n.keep_tracks_by_date(20000, 3),
        lambda: n.extract_with_mask(np.zeros(0, bool), full_path=True),
        lambda: n.extract_with_mask(np.zeros(0, bool), remove_incomplete=True),
        lambda: n.copy(),
        lambda: n.empty_dataset(),
    ):
        new = f()
        assert len(new) == 0 and new.obs.dtype == n.obs.dtype
    assert n.nb_tracks == 0 and list(n.iter_track()) == []


# ---------------------------------------------------------------- composition of filters
def filters_check(case, ctx):
    n = trackgen.tracks(case["tracks"])
    nb, r = len(n), gen.rng(case["a"])
    fs, sets, order = [], [], None
    for kind in case["kinds"]:
        if kind == "none":
            f, s = None, set(range(nb))
        elif kind == "all":
            f, s = slice(None), set(range(nb))
        elif kind == "slice":
            a, b = sorted(r.integers(-nb, nb + 2, 2).tolist())
            f = slice(a, b, int(r.choice([1, 1, 2])))
            s = set(range(nb)[f])
        elif kind == "mask":
            f = r.uniform(0, 1, nb) < r.choice([0.0, 0.5, 0.9, 1.0], p=[0.05, 0.4, 0.4, 0.15])
            s = set(np.where(f)[0].tolist())
        else:
            f = r.permutation(nb)[: int(r.integers(0, nb + 1))]
            s = set(f.tolist())
            order = f if order is None else order
        if case["call"] and r.uniform() < 0.4:
            g = f
            f = lambda o, g=g: g  # noqa: E731
        fs.append(f)
        sets.append(s)
    got = n.merge_filters(fs) if case["as_list"] else n.merge_filters(*fs)
    x = np.arange(nb)[got]
    expected = set.intersection(*sets)
    assert len(x) == len(expected) and set(x.tolist()) == expected, ("merge_filters", case["kinds"], x.tolist(), sorted(expected))
    ctx.nontrivial(0 < len(expected) < nb and len(fs) > 1)


# ---------------------------------------------------------------- other classes
def plain_check(case, ctx):
    from py_eddy_tracker.observations.observation import EddiesObservations

    t = trackgen.tracks(case["tracks"])
    r = gen.rng(case["a"])
    o = gen.make_obs(len(t), 0, extra=["lon_max"], cls=EddiesObservations, sign=t.sign_type)
    for f in o.fields:
        o.obs[f] = t.obs[f]
    if case["unordered"]:
        o.obs[:] = o.obs[r.permutation(len(o))]
    for op in case["ops"]:
        if not len(o):
            return
        before, tab = o.obs.copy(), trackgen.content(o)
        rr = gen.rng(op["a"])
        fake = dict(op)
        if op["name"] in ("mask", "area", "polygons", "sub_sample", "index", "reverse", "callable", "copy"):
            # these ones do not need tracks
            o_tracks = trackgen.groups
            try:
                trackgen.groups = lambda n: {}
                res = select(o, fake, rr, ctx)
            finally:
                trackgen.groups = o_tracks
        else:
            continue
        assert np.array_equal(o.obs, before), (op["name"], "the table was changed by a selection")
        if res is None:
            continue
        new, m, _ = res
        tags = np.array(trackgen.names(o))
        assert trackgen.names(new) == tags[m].tolist(), (op["name"], trackgen.names(new), tags[m].tolist())
        got = trackgen.content(new)
        assert all(got[k] == tab[k] for k in got) and new.sign_type == o.sign_type and type(new) is type(o), (op["name"], "field changed")
        ctx.nontrivial(0 < m.sum() < len(m))
        o = new


# ---------------------------------------------------------------- long tracks, great numbers
def long_check(case, ctx):
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    r = gen.rng(case["a"])
    size = r.integers(1, 6, case["nb"])
    size[r.integers(0, case["nb"])] = case["longest"]
    size[r.integers(0, case["nb"])] = r.integers(1, case["longest"] + 1)
    num = np.cumsum(r.integers(1, 3, case["nb"])) + case["first"]
    n = TrackEddiesObservations(size=int(size.sum()))
    n.sign_type = 1
    n.obs["track"], n.obs["n"] = np.repeat(num, size), np.concatenate([np.arange(s) for s in size])
    n.obs["time"] = n.obs["n"] + np.repeat(r.integers(0, 2000, case["nb"]), size)
    n.obs["lon"], n.obs["lat"] = r.uniform(0, 1, len(n)), r.uniform(0, 1, len(n))
    check_state(n, "long tracks")
    limit = int(r.choice(size) + r.integers(-1, 2))
    long_ = np.repeat(size, size) >= limit
    new = n.extract_with_length((limit, -1)) if limit >= 0 else n
    assert np.array_equal(new.obs, n.obs[long_]), ("extract_with_length", limit, len(new), long_.sum())
    check_state(new, "long tracks")
    some = r.permutation(num)[: int(r.integers(1, case["nb"] + 1))]
    m = np.isin(n.obs["track"], some)
    new = n.extract_ids(some)
    assert np.array_equal(new.obs, n.obs[m]), ("extract_ids", len(new), m.sum())
    new = n.extract_with_mask(n.obs["n"] == n.obs["n"].max(), full_path=True)
    assert np.array_equal(new.obs, n.obs[np.repeat(size == size.max(), size)]), "extract_with_mask, full path"
    assert np.array_equal(n.first_obs().obs, n.obs[n.obs["n"] == 0]) and np.array_equal(n.last_obs().obs, n.obs[np.cumsum(size) - 1]), "first and last obs"
    life = np.repeat(size, size)
    assert np.array_equal(n.lifetime, life), "lifetime"
    ctx.nontrivial(case["longest"] > 127)


T = st.fixed_dictionaries(trackgen.TRACKS)
LONG = dict(a=gen.SEEDS, nb=st.integers(2, 6), longest=st.sampled_from([100, 130, 260, 400, 1100, 33000, 65000]), first=st.sampled_from([-1, 0, 250, 40000]))
FACETS = [
    Facet("history0", lambda: st.fixed_dictionaries(dict(tracks=T, ops=st.lists(OP, min_size=1, max_size=6))), history_check, quick=700, budget=60),
    Facet("history1", lambda: st.fixed_dictionaries(dict(tracks=T, ops=st.lists(OP, min_size=1, max_size=6))), history_check, quick=700, budget=60),
    Facet("long_tracks", lambda: st.fixed_dictionaries(LONG), long_check, quick=60, budget=40),
    Facet("filters", lambda: st.fixed_dictionaries(dict(tracks=T, a=gen.SEEDS, kinds=st.lists(st.sampled_from(["none", "all", "slice", "mask", "mask", "index", "index"]), min_size=1, max_size=4), as_list=st.booleans(), call=st.booleans())), filters_check, quick=700, budget=60),
    Facet("plain", lambda: st.fixed_dictionaries(dict(tracks=T, a=gen.SEEDS, unordered=st.booleans(), ops=st.lists(OP, min_size=2, max_size=8))), plain_check, quick=500, budget=60),
]
