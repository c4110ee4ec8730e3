"""Statistics around the events of networks and reduced views of a network."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, netgen
from ..core import Facet
from .p17 import apply_mask
from .p18 import labels, prepare, PRE

RULE = (
    "Cases are networks with random merging, splitting and trash, random coherence (two targets and percentages for each observation) and one request (percentiles around events, light extraction, "
    "events, conversion of class, masks of period, segments or networks); a case is non-trivial when the answer is neither empty nor undefined everywhere."
)
ASSUMPTIONS = ["Networks are sorted by network, segment and date; the segments given to the statistics are identifiers unique in the whole dataset."]


def base(**kw):
    d = dict(net=st.fixed_dictionaries(netgen.NETWORK), pre=PRE, a=gen.SEEDS)
    d.update(kw)
    return lambda: st.fixed_dictionaries(d)


def percentile(values, q):
    v = sorted(values)
    k = (len(v) - 1) * q / 100.0
    a = int(np.floor(k))
    b = min(a + 1, len(v) - 1)
    return v[a] + (v[b] - v[a]) * (k - a)


def percent_check(case, ctx):
    from py_eddy_tracker.observations.network import get_percentile_around_event

    n, rows, tags, r = prepare(case, whole=True)
    nb = len(n)
    if not nb:
        return
    seg = n.segment_track_array.astype("i4").copy()
    t = np.asarray(n.time).copy()
    # Targets: mostly observations of a few segments, in order to have many matches
    hot = r.choice(nb, min(nb, 3))
    ind = np.where(r.uniform(0, 1, (nb, 2)) < 0.5, r.choice(hot, (nb, 2)), r.integers(-1, nb, (nb, 2))).astype("i4")
    if case["same"] == "distinct":
        m = (ind[:, 1] != -1) & (seg[ind[:, 0]] == seg[ind[:, 1]])
        ind[m, 1] = -1
    ind[ind[:, 0] == -1, 1] = -1
    pct = r.integers(1, 100, (nb, 2)).astype(case["dtype"])
    pct[ind == -1] = 0
    event = n.merging_event if case["event"] == "merging" else n.splitting_event
    i, i1, i2 = event(triplet=True, only_index=True)
    ok = (i >= 0) & (i1 >= 0) & (i2 >= 0)
    i, i1, i2 = i[ok], i1[ok], i2[ok]
    if not i.size:
        i = i1 = i2 = r.integers(0, nb, 2)
    follow = n.next_obs if case["follow_next"] else n.previous_obs
    keep = [v.copy() for v in (i, i1, i2, ind, pct, follow, t, seg)]
    w, q, nm = case["window"], case["q"], case["nb_min"]
    s1, s2 = get_percentile_around_event(i, i1, i2, ind, pct, follow, t, seg, window=w, follow_parent=case["parent"], q=q, nb_min=nm)
    for a, b in zip(keep, (i, i1, i2, ind, pct, follow, t, seg)):
        assert np.array_equal(a, b), "an input was modified"
    some = False
    for k in range(i.size):
        for s, other in ((s1, i1[k]), (s2, i2[k])):
            start, target = (i[k], other) if case["parent"] else (other, i[k])
            v, o = [], int(start)
            while o != -1 and seg[o] == seg[start] and abs(t[o] - t[start]) < w:
                v += [float(pct[o, z]) for z in (0, 1) if ind[o, z] != -1 and seg[ind[o, z]] == seg[target]]
                o = int(follow[o])
            want = percentile(v, q) if len(v) >= nm else np.nan
            some = some or len(v) > 1
            got = float(s[k])
            assert (np.isnan(want) and np.isnan(got)) or abs(got - want) < 1e-4, f"event {i[k], i1[k], i2[k]}: {got} instead of {want} (percent {v} from {start} to the segment of {target}, window {w})"
    ctx.label(case["event"], "parent" if case["parent"] else "child", "several" if some else "few")
    ctx.nontrivial(some)


def light_check(case, ctx):
    n, rows, tags, r = prepare(case)
    nb = len(n)
    if not nb:
        return
    # contours are the fields which are kept
    from py_eddy_tracker.observations.network import NetworkObservations

    m = gen.make_obs(nb, 6, extra=["lon_max"], cls=NetworkObservations)
    for f in m.fields:
        m.obs[f] = n.obs[f] if f in n.fields else r.uniform(-5, 5, m.obs[f].shape)
    m.sign_type = case["sign"]
    before = m.obs.copy()
    extra = case["extra"]
    if case["slice"]:
        a = int(r.integers(0, nb))
        mask = slice(a, int(r.integers(a, nb + 1)))
        idx = np.arange(nb)[mask]
    else:
        mask = r.uniform(0, 1, nb) < case["p"]
        idx = np.where(mask)[0]
    if case["kind"] == "light":
        e = m.extract_light_with_mask(mask, list(extra))
        arrays = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]
        want = {"time", *arrays, *extra}
        assert want <= set(e.fields), f"fields {e.fields} instead of {want}"
        assert len(e) == idx.size
        for f in want - {"next_obs", "previous_obs"}:
            assert np.array_equal(e.obs[f], m.obs[f][idx]), f"field {f} of a light extraction"
        if "next_obs" in extra and "previous_obs" in extra:
            pos = dict(zip(idx.tolist(), range(idx.size)))
            for f in ("next_obs", "previous_obs"):
                ref = [pos.get(int(v), -1) for v in m.obs[f][idx]]
                assert e.obs[f].tolist() == ref, f"{f} of a light extraction {e.obs[f].tolist()} instead of {ref}"
        assert type(e) is type(m) and e.sign_type == case["sign"]
    elif case["kind"] == "event":
        idx = r.integers(0, nb, int(r.integers(0, 6)))
        e = m.extract_event(idx)
        assert len(e) == idx.size and e.sign_type == case["sign"]
        assert {"lon", "lat", "time", "contour_lon_e", "lon_max"} <= set(e.fields)
        for f in e.fields:
            assert np.array_equal(e.obs[f], m.obs[f][idx]), f"field {f} of events"
    else:
        from py_eddy_tracker.observations.observation import EddiesObservations
        from py_eddy_tracker.observations.tracking import TrackEddiesObservations

        cls = dict(eddies=EddiesObservations, tracks=TrackEddiesObservations, network=NetworkObservations)[case["cls"]]
        e = m.astype(cls)
        assert type(e) is cls and len(e) == nb and e.sign_type == case["sign"]
        for f in e.fields:
            if f in m.fields:
                assert np.array_equal(e.obs[f], m.obs[f]), f"field {f} after a conversion"
        assert {"lon", "lat", "time", "contour_lon_e", "lon_max"} <= set(e.fields)
        idx = np.arange(nb)
    if len(e):
        e.obs["time"][:] = -1
        e.obs["contour_lon_e"][:] = -1
    assert m.obs.tobytes() == before.tobytes(), "network changed by an extraction"
    ctx.label(case["kind"], "slice" if case["slice"] else "mask")
    ctx.nontrivial(0 < idx.size)


def masks_check(case, ctx):
    n, rows, tags, r = prepare(case)
    nb = len(n)
    if not nb:
        return
    o = n.obs.copy()
    t = np.asarray(n.time)
    t0, t1 = float(t.min()), float(t.max())

    def bound(k):
        return dict(zero=0, abs=float(r.integers(int(t0) - 1, int(t1) + 2)), rel=-float(r.integers(1, 6)))[k]

    p = bound(case["b0"]), bound(case["b1"])
    lo = p[0] if p[0] > 0 else t0 - p[0]
    hi = p[1] if p[1] > 0 else t1 + p[1]
    want = np.array([lo <= v <= hi for v in t])
    m = n.get_mask_with_period(p)
    assert m.dtype == bool and np.array_equal(m, want), f"period {p}: {np.where(m)[0]} instead of {np.where(want)[0]}"
    e = n.extract_with_period(p)
    assert labels(e) == [k for k, w in zip(tags, want) if w]
    if len(e):
        got, _ = netgen.state(e)
        for k, v in apply_mask(rows, set(labels(e))).items():
            assert got[k].key() == v.key(), f"observation {got[k]} instead of {v}"
    # segments and networks
    uniq = n.segment_track_array
    couples = list(zip(o["track"].tolist(), o["segment"].tolist()))
    order = sorted(set(couples))
    assert uniq.tolist() == [order.index(c) for c in couples], "segment_track_array"
    assert n.group_id.tolist() == uniq.tolist()
    ids = r.integers(-2, len(order) + 3, int(r.integers(0, 5)))
    ref = np.isin(uniq, ids)
    assert np.array_equal(n.segment_mask(ids), ref), f"segment_mask {ids}"
    assert np.array_equal(n.networks_mask(ids, segment=True), ref), f"networks_mask(segment=True) {ids}"
    ids = r.choice(np.r_[np.unique(o["track"]).astype(int), -1, int(o["track"].max()) + 1], int(r.integers(0, 4)))
    assert np.array_equal(n.networks_mask(ids), np.isin(o["track"], ids)), f"networks_mask {ids}"
    k = int(r.choice(np.unique(o["track"])))
    assert labels(n.network(k)) == [v for v in tags if rows[v].track == k], f"network {k}"
    sizes = n.segment_size()
    assert sizes[sizes > 0].tolist() == [couples.count(c) for c in order], "segment_size"
    trash = [v for v in rows.values() if v.track == 0]
    first = order[0][0] == 0 and all(v.next is None and v.previous is None for v in trash if v.segment == order[0][1])
    assert bool(n.first_is_trash()) == first, "first_is_trash"
    a, b = np.unique(uniq, return_index=True)
    j = int(r.choice(a))
    tr, sg = n.unique_segment_to_id(j)
    assert (int(tr), int(sg)) == order[j], f"unique_segment_to_id({j}) {tr, sg} instead of {order[j]}"
    d = case["days"]
    keep = []
    for k in tags:
        tt = [v.time for v in rows.values() if v.track == rows[k].track]
        keep.append(d[0] <= max(tt) - min(tt) + 1 and (d[1] < 0 or max(tt) - min(tt) + 1 <= d[1]))
    m = n.mask_longer_than(*d)
    assert m.tolist() == keep, f"mask_longer_than{tuple(d)}"
    assert np.array_equal(n.obs, o), "network changed by a request"
    ctx.nontrivial(0 < want.sum() < nb)
    ctx.label(case["b0"] + case["b1"])


FACETS = [
    Facet("percent", base(window=st.sampled_from([1, 2, 3, 5, 10]), q=st.sampled_from([0, 25, 50, 80, 100]), nb_min=st.integers(1, 3), parent=st.booleans(), follow_next=st.booleans(),
                          event=st.sampled_from(["merging", "splitting"]), dtype=st.sampled_from(["i1", "f4"]), same=st.sampled_from(["distinct", "any"])), percent_check, 400),
    Facet("light", base(kind=st.sampled_from(["light", "light", "event", "astype"]), slice=st.booleans(), p=st.sampled_from([0.0, 0.3, 0.8, 1.0]), sign=st.sampled_from([1, -1]),
                        cls=st.sampled_from(["eddies", "tracks", "network"]),
                        extra=st.sampled_from([[], ["previous_obs", "next_obs"], ["track", "segment"], ["segment", "next_obs", "previous_obs", "lon_max"], ["lon", "lon_max"]])), light_check, 250),
    Facet("masks", base(b0=st.sampled_from(["zero", "abs", "rel"]), b1=st.sampled_from(["zero", "abs", "rel"]), days=st.sampled_from([(-1, -1), (2, -1), (3, 6), (-1, 4), (5, 5)])), masks_check, 250),
]
