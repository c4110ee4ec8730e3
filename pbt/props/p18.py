"""Queries on the graph of networks."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, netgen
from ..core import Facet
from .p17 import apply_mask

RULE = (
    "Cases are networks with random merging, splitting and trash (possibly reduced before by a selection of segments or networks, or dead end removal) and one query with random observations and orders; "
    "a case is non-trivial when the expected answer is neither empty nor the whole network."
)
ASSUMPTIONS = [
    "Networks are sorted by network, segment and date; observations without network (trash) are not used as the origin of a query.",
    "Triplets of events are asked for networks whose segments are whole (an observation which receives a merging has its own previous observation).",
]

PRE = st.sampled_from([None, None, None, "segments", "networks", "dead_end", "close", "mask"])


def prepare(case, whole=False):
    n = netgen.network(case["net"])
    r = gen.rng(case["a"])
    if len(n):
        if case["pre"] == "segments":
            k = np.where(r.uniform(0, 1, n.nb_segment) < 0.6)[0]
            n = n.extract_segment(k if k.size else np.array([0]), absolute=True)
        elif case["pre"] == "networks":
            ids = np.unique(n.obs["track"]).astype(int)
            n = n.networks(ids[r.uniform(0, 1, ids.size) < 0.5] if ids.size > 1 else ids)
        elif case["pre"] == "dead_end":
            n.remove_dead_end(nobs=2, ndays=2)
        elif case["pre"] == "close":
            n.correct_close_events(5)
        elif case["pre"] == "mask" and not whole:
            n = n.extract_with_mask(r.uniform(0, 1, len(n)) < 0.9)
    rows, tags = netgen.state(n)
    return n, rows, tags, r


def base(**kw):
    d = dict(net=st.fixed_dictionaries(netgen.NETWORK), pre=PRE, a=gen.SEEDS)
    d.update(kw)
    return lambda: st.fixed_dictionaries(d)


def labels(n):
    return n.obs["lon_max"].astype(int).tolist()


def origins(rows, tags, r, k):
    ok = [i for i, t in enumerate(tags) if rows[t].track != 0]
    return [int(v) for v in r.choice(ok, min(k, len(ok)), replace=False)] if ok else []


def check_sub(sub, rows, tags, keep, what):
    """sub is the part of the network made of keep, in the same order"""
    assert labels(sub) == [t for t in tags if t in keep], (what, labels(sub), sorted(keep))
    got, _ = netgen.state(sub)
    for k, v in apply_mask(rows, keep).items():
        assert got[k].key() == v.key(), (what, k, got[k], v)


# ---------------------------------------------------------------- relatives
def relatives_check(case, ctx):
    n, rows, tags, r = prepare(case)
    obs = origins(rows, tags, r, case["k"])
    if not obs:
        return
    keep_obs = n.obs.copy()
    segs, g = netgen.graph(rows)
    seg_of = lambda i: (rows[tags[i]].track, rows[tags[i]].segment)  # noqa: E731
    d = netgen.reach(g, [seg_of(i) for i in obs], case["order"])
    keep = set(k for s in d for k in segs[s])
    arg = obs[0] if len(obs) == 1 and case["scalar"] else np.array(obs) if case["scalar"] else obs
    check_sub(n.relatives(arg, order=case["order"]), rows, tags, keep, "relatives")
    ctx.nontrivial(len(d) > len(set(seg_of(i) for i in obs)) and len(keep) < len(rows))
    # one network: order of each segment, relatives of two observations
    i = obs[0]
    d1 = netgen.reach(g, [seg_of(i)])
    one = [t for t in tags if rows[t].track == rows[tags[i]].track]
    nw = n.network(rows[tags[i]].track)
    assert labels(nw) == one
    j = one.index(tags[i])
    expected = [float(d1.get((rows[t].track, rows[t].segment), -1)) for t in one]
    assert nw.obs_relative_order(j).tolist() == expected, ("obs_relative_order", nw.obs_relative_order(j).tolist(), expected)
    assert nw.segment_relative_order(rows[tags[i]].segment).tolist() == expected, "segment_relative_order"
    c = nw.connexions()
    gg = dict((s[1], set(o[1] for o in v)) for s, v in g.items() if s[0] == rows[tags[i]].track and v)
    assert dict((int(a), set(int(v) for v in b)) for a, b in c.items()) == gg, ("connexions", c, gg)
    sub = n.find_segments_relative(i, order=case["order"])
    keep = set(k for s in netgen.reach(g, [seg_of(i)], case["order"]) for k in segs[s])
    check_sub(sub, rows, tags, keep, "find_segments_relative")
    same = [o for o in obs if rows[tags[o]].track == rows[tags[i]].track]
    if len(same) > 1:
        sub = n.find_segments_relative(i, stopped=same[1], order=case["order"])
        keep = set(k for s in netgen.reach(g, [seg_of(i), seg_of(same[1])], case["order"]) for k in segs[s])
        check_sub(sub, rows, tags, keep, "find_segments_relative with two observations")
    assert np.array_equal(n.obs, keep_obs), "network changed by a query"


# ---------------------------------------------------------------- past and future
def flow(rows, start, forward):
    segs = netgen.segments(rows)
    pos = dict((k, (s, j)) for s, m in segs.items() for j, k in enumerate(m))
    out, todo = dict(), dict()
    # where one goes from an observation, besides its segment
    for s, m in segs.items():
        h, t = m[0], m[-1]
        if rows[h].previous is not None:
            a, b = (rows[h].previous, h) if forward else (h, rows[h].previous)
            todo.setdefault(a, set()).add(b)
        if rows[t].next is not None:
            a, b = (t, rows[t].next) if forward else (rows[t].next, t)
            todo.setdefault(a, set()).add(b)
    stack, out = list(start), set()
    while stack:
        k = stack.pop()
        s, j = pos[k]
        for q in segs[s][j:] if forward else segs[s][: j + 1]:
            if q not in out:
                out.add(q)
                stack.extend(todo.get(q, ()))
    return out


def link_check(case, ctx):
    n, rows, tags, r = prepare(case)
    obs = origins(rows, tags, r, case["k"])
    if not obs:
        return
    keep_obs = n.obs.copy()
    start = [tags[i] for i in obs]
    keep = set()
    if case["forward"]:
        keep |= flow(rows, start, True)
    if case["backward"]:
        keep |= flow(rows, start, False)
    arg = obs[0] if len(obs) == 1 and case["scalar"] else np.array(obs) if case["scalar"] else obs
    check_sub(n.find_link(arg, forward=case["forward"], backward=case["backward"]), rows, tags, keep, "find_link")
    ctx.nontrivial(0 < len(keep) < len(rows) and len(set((rows[k].track, rows[k].segment) for k in keep)) > 1)
    assert np.array_equal(n.obs, keep_obs), "network changed by a query"


# ---------------------------------------------------------------- events
def events_check(case, ctx):
    n, rows, tags, r = prepare(case, whole=True)
    if not len(n):
        return
    keep_obs = n.obs.copy()
    segs = netgen.segments(rows)
    trash = (0, 0)
    birth = [m[0] for s, m in sorted(segs.items()) if s != trash and rows[m[0]].previous is None]
    death = [m[-1] for s, m in sorted(segs.items()) if s != trash and rows[m[-1]].next is None]
    assert labels(n.birth_event()) == birth, ("birth", labels(n.birth_event()), birth)
    assert labels(n.death_event()) == death, ("death", labels(n.death_event()), death)
    merge = [(rows[m[-1]].next, rows[rows[m[-1]].next].previous, m[-1]) for s, m in segs.items() if rows[m[-1]].next is not None]
    split = [(rows[m[0]].previous, rows[rows[m[0]].previous].next, m[0]) for s, m in segs.items() if rows[m[0]].previous is not None]
    for name, events in (("merging", merge), ("splitting", split)):
        f = getattr(n, name + "_event")
        one = sorted(set(e[0] for e in events), key=tags.index)
        idx = f(only_index=True)
        assert [tags[i] for i in idx] == one, (name, "index", idx, one)
        e = f()
        assert labels(e) == one and e.sign_type == n.sign_type, (name, labels(e), one)
        for g in e.fields:
            assert np.array_equal(e.obs[g], n.obs[g][idx]), (name, g)
        if any(None in v for v in events):
            ctx.label("event on a cut segment")
            continue
        i0, i1, i2 = f(triplet=True, only_index=True)
        got = [(tags[a], tags[b], tags[c]) for a, b, c in zip(i0, i1, i2)]
        assert sorted(got) == sorted(events), (name, "triplet", got, events)
        t = [rows[v[0]].time for v in got]
        assert t == sorted(t), (name, "order of events", t)
        e0, e1, e2 = f(triplet=True)
        assert list(zip(labels(e0), labels(e1), labels(e2))) == got, (name, "triplet of observations")
    if not any(None in v for v in merge + split):
        dt = case["dt"]
        keep = set()

        def follow(k, field):
            o = k
            while o is not None and (o == k or abs(rows[o].time - rows[k].time) < dt):
                keep.add(o)
                o = getattr(rows[o], field)

        if case["merging"]:
            for t, a, b in merge:
                follow(t, "next"), follow(a, "previous"), follow(b, "previous")
        if case["splitting"]:
            for t, a, b in split:
                follow(t, "previous"), follow(a, "next"), follow(b, "next")
        m = n.mask_obs_close_event(merging=case["merging"], spliting=case["splitting"], dt=dt)
        assert set(t for t, v in zip(tags, m) if v) == keep, ("mask_obs_close_event", sorted(keep), m.tolist())
    ctx.nontrivial(bool(merge) and bool(split))
    # map on segments and networks
    y = np.array([rows[t].time * 3 + t for t in tags])
    by_s = dict((s, np.array([rows[t].time * 3 + t for t in m])) for s, m in segs.items())
    got = n.map_segment(lambda v: v.max() - v.min(), y)
    assert got.tolist() == [float(np.ptp(by_s[rows[t].track, rows[t].segment])) for t in tags], "map_segment"
    got = n.map_segment(lambda v: v.max(), y, same=False)
    assert got.tolist() == [float(by_s[s].max()) for s in sorted(segs)], "map_segment(same=False)"
    assert np.allclose(n.mean_by_segment(y), [by_s[rows[t].track, rows[t].segment].mean() for t in tags], rtol=1e-12), "mean_by_segment"
    nets = sorted(set(v.track for v in rows.values()))
    by_n = dict((i, y[[k for k, t in enumerate(tags) if rows[t].track == i]]) for i in nets)
    assert n.map_network(lambda v: v.min(), y).tolist() == [float(by_n[rows[t].track].min()) for t in tags], "map_network"
    assert n.map_network(lambda v: v.size, y, same=False).tolist() == [by_n[i].size for i in nets], "map_network(same=False)"
    assert dict((int(a), int(b)) for a, b in n.map_network(lambda v: v.size, y, same=False, return_dict=True).items()) == dict((i, by_n[i].size) for i in nets), "map_network(return_dict)"
    assert np.array_equal(n.obs, keep_obs), "network changed by a query"


# ---------------------------------------------------------------- comparison of atlases
def identify_check(case, ctx):
    n, rows, tags, r = prepare(case, whole=True)
    if not len(n):
        return
    # other: a part of the networks, renumbered, some of them with one observation changed or removed, and new ones
    o = n.copy()
    ids = np.unique(o.obs["track"]).astype(int)
    new = dict(zip(ids.tolist(), (case["shift"] + 1 + r.permutation(ids.size)).tolist()))
    o.obs["track"] = [new[int(i)] for i in o.obs["track"]]
    o.obs["segment"] += case["shift"]
    o.sort()
    if r.uniform() < 0.5 and len(o) > 2:
        k = int(r.integers(0, len(o)))
        if r.integers(0, 2):
            o.obs[r.choice(["lon", "lat", "time"])][k] += 0.25
            o.sort()
        else:
            o = o.extract_with_mask(np.arange(len(o)) != k)
    elif r.uniform() < 0.3:
        t = np.unique(o.obs["track"])
        o = o.networks(t[: 1 + t.size // 2].astype(int))
    if not len(o):
        return
    a, b = (n, o) if case["way"] else (o, n)
    a.reset_index(), b.reset_index()

    def content(x):
        uniq = x.segment_track_array if case["segment"] else x.obs["track"]
        out = dict()
        for k in range(len(x)):
            out.setdefault(int(uniq[k]), []).append((float(x.obs["time"][k]), float(x.obs["lon"][k]), float(x.obs["lat"][k])))
        return dict((k, tuple(sorted(v))) for k, v in out.items())

    ca, cb = content(a), content(b)
    back = dict((v, k) for k, v in cb.items())
    expected = dict((k, back.get(v, -1)) for k, v in ca.items() if len(v) >= case["size"])
    if not expected:
        return
    i, j = a.identify_in(b, size_min=case["size"], segment=case["segment"])
    got = dict(zip(i.astype(int).tolist(), j.astype(int).tolist()))
    assert len(i) == len(got), ("twice", i.tolist())
    assert got == expected, ("identify_in", got, expected)
    ctx.nontrivial(any(v != -1 for v in expected.values()))
    if any(v == -1 for v in expected.values()):
        ctx.label("missing in other")


# ---------------------------------------------------------------- long chains of segments
def chain_check(case, ctx):
    """Segments of two observations, each linked to the following one: the k-th starts at step k"""
    from py_eddy_tracker.observations.network import NetworkObservations

    nb, r = case["nb"], gen.rng(case["a"])
    merge = r.uniform(0, 1, nb) < case["p"]
    n = gen.make_obs(2 * nb, 0, extra=["lon_max"], cls=NetworkObservations)
    k = np.arange(nb)
    n.obs["track"], n.obs["segment"] = 1, np.repeat(k + 1, 2)
    n.obs["lon_max"] = np.arange(2 * nb) + 1
    n.obs["time"][::2], n.obs["time"][1::2] = 20000 + k, 20001 + k
    nxt, prv = -np.ones(2 * nb, dtype=int), -np.ones(2 * nb, dtype=int)
    nxt[::2], prv[1::2] = 2 * k + 1, 2 * k
    m = np.where(merge[:-1])[0]
    nxt[2 * m + 1] = 2 * m + 3  # merges with the second observation of the following one
    s = np.where(~merge[:-1])[0]
    prv[2 * s + 2] = 2 * s  # the following one comes from the first observation
    cut = sorted(set(int(v) for v in r.integers(1, nb, case["cut"])))
    for c in cut:  # no link between c - 1 and c
        nxt[2 * c - 1] = prv[2 * c] = -1
    n.obs["next_obs"], n.obs["previous_obs"] = nxt, prv
    rows, tags = netgen.state(n)
    segs, g = netgen.graph(rows)
    i = int(r.integers(0, 2 * nb)) if case["any"] else 0
    s0 = rows[tags[i]].track, rows[tags[i]].segment
    d = netgen.reach(g, [s0])
    keep = set(q for s in d for q in segs[s])
    check_sub(n.relatives(i, order=2 * nb), rows, tags, keep, "relatives")
    assert n.obs_relative_order(i).tolist() == [float(d.get((rows[t].track, rows[t].segment), -1)) for t in tags], "obs_relative_order"
    keep = flow(rows, [tags[i]], True) | flow(rows, [tags[i]], False)
    check_sub(n.find_link(i, forward=True, backward=True), rows, tags, keep, "find_link")
    o = n.copy()
    o.dissociate_network()
    got, _ = netgen.state(o)
    b = [0] + cut + [nb]
    parts = [set(t for q in range(u, v) for t in segs[1, q + 1]) for u, v in zip(b[:-1], b[1:])]
    out = dict()
    for t, v in got.items():
        out.setdefault(v.track, set()).add(t)
        assert (v.next, v.previous) == (rows[t].next, rows[t].previous), ("link changed", t, v, rows[t])
    assert sorted(map(sorted, out.values())) == sorted(map(sorted, parts)), "dissociate_network"
    ctx.nontrivial(max(len(v) for v in parts) > 2000)


# ---------------------------------------------------------------- sizes
def sizes_check(case, ctx):
    n, _, _, r = prepare(case)
    if not len(n):
        return
    tr, sg = n.obs["track"].tolist(), n.obs["segment"].tolist()
    keys = list(zip(tr, sg))
    ids = sorted(set(tr))
    assert n.nb_network == len(ids), ("nb_network", n.nb_network, len(ids))
    assert n.nb_segment == len(set(keys)), ("nb_segment", n.nb_segment, len(set(keys)))
    ask = ids + [k for k in (0, max(ids) + 1, max(ids) + 40) if k not in ids]
    ask = np.array(ask)[r.permutation(len(ask))]
    for what, got, want in (
        ("network_size", n.network_size, lambda k: tr.count(k)), ("network_segment_size", n.network_segment_size, lambda k: len(set(q for q in keys if q[0] == k))),
    ):
        assert np.asarray(got(ask)).tolist() == [want(k) for k in ask.tolist()], (what, ask.tolist(), np.asarray(got(ask)).tolist())
        k = int(ask[0])
        assert int(got(k)) == want(k), (what, k, got(k), want(k))
        every = [int(v) for v in got()]
        first = ids[0]
        assert every == [want(k) for k in range(first, max(ids) + 1)], (what, "every network", every)
    u = n.segment_track_array.tolist()
    size = n.segment_size()
    assert [int(size[k - n.ref_segment_track_index]) for k in u] == [keys.count(q) for q in keys], ("segment_size", size.tolist())
    ctx.nontrivial(len(ids) > 1)


FACETS = [
    Facet("chain", lambda: st.fixed_dictionaries(dict(nb=st.sampled_from([5, 60, 1100, 1500]), a=gen.SEEDS, p=st.sampled_from([0.0, 0.5, 1.0]), cut=st.integers(0, 3), any=st.booleans())), chain_check, quick=40, budget=60),
    Facet("relatives", base(k=st.integers(1, 3), order=st.integers(0, 4), scalar=st.booleans()), relatives_check, quick=500, budget=60),
    Facet("link", base(k=st.integers(1, 4), forward=st.booleans(), backward=st.booleans(), scalar=st.booleans()), link_check, quick=600, budget=60),
    Facet("events", base(dt=st.integers(0, 5), merging=st.booleans(), splitting=st.booleans()), events_check, quick=500, budget=60),
    Facet("identify", base(size=st.integers(1, 4), segment=st.booleans(), shift=st.integers(0, 5), way=st.booleans()), identify_check, quick=400, budget=60),
    Facet("sizes", base(), sizes_check, quick=200, budget=60),
]
