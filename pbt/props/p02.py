"""Tracks built from a history of detections."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, trk
from ..core import Facet

RULE = (
    "Cases are histories of daily detections (drifting eddies, missed and single detections, empty days, date line, both rotation senses, in memory, NetCDF or Zarr, raw or not); "
    "a case is non-trivial when at least one track of three observations is built."
)
ASSUMPTIONS = [
    "The comparison with the reference tracker is skipped when two competing links have costs closer than 1e-3 (5e-3 for overlap) or a link is that close to the limit of acceptance."
]


def strat():
    return st.fixed_dictionaries(dict(trk.HISTORY, raw=st.just(False)))


def strat_netcdf():
    return st.fixed_dictionaries(dict(trk.HISTORY, raw=st.booleans(), store=st.just("netcdf")))


def strat_zarr():
    return st.fixed_dictionaries(dict(trk.HISTORY, raw=st.booleans(), store=st.just("zarr"), days=st.integers(2, 6)))


def merged(c, raw):
    c.prepare_merging()
    return c.merge(raw_data=raw)


def check(case, ctx):
    days = trk.days_of(case)
    with trk.Store(case, days) as store:
        _check(case, ctx, store)


def source(store, raw):
    """{tag: (day, index)} and the days as they are stored."""
    days = store.load(raw)
    where = dict()
    for d, o in enumerate(days):
        for i, tag in enumerate(o.obs["lon_max"].tolist()):
            assert tag not in where and tag > 0, "tags have to be unique"
            where[tag] = (d, i)
    return days, where


def check_table(table, days, where, virtual, costs=None):
    """Invariants of a table of tracks; gives the list of tracks as lists of (day, index)."""
    t, n = np.asarray(table.obs["track"]), np.asarray(table.obs["n"])
    tags = np.asarray(table.obs["lon_max"], "f8")
    assert np.all(np.diff(t.astype("i8")) >= 0), "tracks have to be contiguous"
    assert t.size == 0 or np.array_equal(np.unique(t), np.arange(t.max() + 1)), "track numbers have to be consecutive"
    out = []
    for k in np.unique(t):
        m = np.where(t == k)[0]
        assert np.array_equal(n[m], np.arange(m.size)), ("observation number", n[m])
        seq, d0 = [], None
        for q, i in enumerate(m):
            if tags[i] == 0:
                assert 0 < q < m.size - 1, "a track starts or ends by a virtual observation"
                assert float(table.obs["time"][i]) == 0
                continue
            assert tags[i] in where, ("observation which is not in the inputs", tags[i])
            d, j = where[tags[i]]
            if d0 is None:
                d0 = d - q
            assert d == d0 + q, ("one observation by time step", k, q, d, d0)
            for f in days[d].fields:
                if f == "cost_association":
                    continue
                a, b = np.asarray(table.obs[f][i]), np.asarray(days[d].obs[f][j])
                assert np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), ("value", f, a, b)
            seq.append((d, j))
        assert len(seq) >= 2, "track with one real observation"
        gaps = [b[0] - a[0] - 1 for a, b in zip(seq[:-1], seq[1:])]
        assert max(gaps) <= virtual, ("gap", gaps, virtual)
        out.append(seq)
    return out


def _check(case, ctx, store):
    raw = case["raw"]
    days, where = source(store, raw)
    c = trk.run_tracker(store, case)
    table = merged(c, raw)
    assert table.sign_type == case["sign"]
    tracks = check_table(table, days, where, case["virtual"])
    flat = [k for s in tracks for k in s]
    assert len(set(flat)) == len(flat), "an observation is in two tracks"
    unused = c.get_unused_data(raw_data=raw)
    lost = [where[k] for k in unused.obs["lon_max"].tolist()]
    assert sorted(lost + flat) == sorted(where.values()), ("tracked + untracked are not all the inputs", sorted(set(where.values()) ^ set(lost + flat)))
    for q, (d, i) in enumerate(lost):
        for f in days[d].fields:
            a, b = np.asarray(unused.obs[f][q]), np.asarray(days[d].obs[f][i])
            assert np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), ("untracked value", f)
    if case["seed"] % 3 == 0:
        # merge can stop after a number of steps: what is later is left undefined
        k = 1 + case["seed"] % 5
        c.prepare_merging()
        part = c.merge(until=k, raw_data=raw)
        t, done = np.asarray(table.obs["time"]), np.asarray(table.obs["lon_max"]) != 0
        last = {d: np.asarray(o.obs["time"])[:1] for d, o in enumerate(days)}
        late = done & np.isin(t, [v[0] for d, v in last.items() if v.size and d > k])
        # a track which is not started has none of its observations
        start = {tr: t[(table.obs["track"] == tr) & done].min() for tr in np.unique(table.obs["track"])}
        late |= np.isin(table.obs["track"], [tr for tr in start if not tracks[tr][1][0] <= k])
        assert len(part) == len(table) and np.array_equal(part.obs["track"], table.obs["track"]) and np.array_equal(part.obs["n"], table.obs["n"])
        assert np.array_equal(np.asarray(part.obs["lon_max"]), np.where(late, 0, np.asarray(table.obs["lon_max"]))), ("merge until", k, part.obs["lon_max"], table.obs["lon_max"])
        ctx.label("merge until")
    ref, costs, stats = trk.reference_tracks(store.load(False), case["virtual"], case["algo"], case["cmin"])
    long_ = any(len(s) > 2 for s in tracks)
    ctx.nontrivial(long_)
    ctx.label(case["algo"], case["store"])
    if any(b[0] - a[0] > 1 for s in tracks for a, b in zip(s[:-1], s[1:])):
        ctx.label("track with a gap")
    if ref is None:
        ctx.label("undecided history")
        return
    assert sorted(tracks) == sorted(ref), ("tracks", sorted(set(map(tuple, tracks)) ^ set(map(tuple, ref))))
    if stats["conflict"]:
        ctx.label("competing links")
    # cost of the link is stored on the observation which precedes
    by = {tuple(s): k for s, k in zip(map(tuple, ref), costs)}
    cost = np.asarray(table.obs["cost_association"], "f8")
    tags = np.asarray(table.obs["lon_max"], "f8")
    if "cost_association" not in days[0].fields and not any("cost_association" in o.fields for o in days):
        start = 0
        for s in tracks:
            size = s[-1][0] - s[0][0] + 1
            cc = cost[start:start + size]
            tol = 2e-2 if case["algo"] == "area" else 2e-4
            for (d, _), v in zip(s[1:], by[tuple(s)]):
                assert abs(cc[d - s[0][0] - 1] - v) < tol, ("cost of association", cc, by[tuple(s)])
            assert cc[-1] > 1e30, "last observation has no next one"
            start += size


FACETS = [
    Facet("history_vs_reference", strat, check, quick=1000, budget=100),
    Facet("history_in_netcdf", strat_netcdf, check, quick=50, budget=100),
    Facet("history_in_zarr", strat_zarr, check, quick=50, budget=100),
]
