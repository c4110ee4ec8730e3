"""Segments of networks: links between observations and construction of the network."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from . import p15

RULE = (
    "Cases are groups of observations on 2 to 8 dates (any sampling, missing dates, several groups and observations without group) with overlapping contours, a window, a threshold, an overlap definition and a kind of contour; "
    "a case is non-trivial when at least one merging or splitting has to be found."
)
ASSUMPTIONS = [
    "Groups are ordered by group then by date, as build_dataset does.",
    "The sampling of the dates is regular, with possible missing dates (the most frequent gap between dates is the time step).",
    "Cases with an overlap within 2e-3 of the threshold, or with two candidates within 2e-3, are only judged on the invariants of the links.",
]


def case_strategy():
    d = p15.geo_fields()
    d.pop("before")
    d.update(
        days=st.integers(2, 8), n=st.sampled_from([1, 3, 5, 7]), mode=st.sampled_from(["union", "union", "minimal", "hybrid"]), groups=st.sampled_from(["components", "components", "one", "random"]),
        step=st.sampled_from([1.0, 1.0, 1.0, 7.0, 2.0, 0.25, 1 / 24, 0.1]), t0=st.sampled_from([20000.0, 20001.0, 19999.5, 5000.0, 12345.125]), holes=st.booleans(), window=st.integers(1, 5), spread=st.sampled_from([0.3, 0.8, 1.5]),
    )
    return st.fixed_dictionaries(d)


def build(case):
    """Groups dataset (TrackEddiesObservations), with the step of each observation."""
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    days = p15.make_days(case)
    r = gen.rng(case["seed"] + 7)
    nd = len(days)
    steps = np.arange(nd)
    if case["holes"]:
        jump = (r.uniform(0, 1, nd) < 0.25) * r.integers(1, 3, nd)
        steps = steps + np.cumsum(jump)
    step = np.concatenate([np.full(len(o), s) for o, s in zip(days, steps)]).astype(int)
    nb = step.size
    cat = dict((f, np.concatenate([o.obs[f] for o in days])) for f in days[0].fields)
    a, b = ("contour_lon_s", "contour_lat_s") if case["intern"] else ("contour_lon_e", "contour_lat_e")
    xs, ys = cat[a].astype("f8"), cat[b].astype("f8")
    scores = dict()
    for i in range(nb):
        for j in range(i + 1, nb):
            if 0 < step[j] - step[i] <= case["window"]:
                s = value(xs[i], ys[i], xs[j], ys[j], case["mode"], case["overlap"])
                if s is not None:
                    scores[i, j] = s
    if case["groups"] == "components":
        group = np.zeros(nb, int)
        k = 0
        for c in p15.components(nb, [e for e, s in scores.items() if s[0] > 0]):
            if len(c) > 1:
                k += 1
                group[c] = k
    elif case["groups"] == "one":
        group = np.full(nb, 3)
    else:
        group = r.integers(0, 4, nb)
    order = np.argsort(group, kind="stable")
    new = TrackEddiesObservations(
        size=nb, track_extra_variables=[f for f in days[0].track_extra_variables if f != "track"] + (["track"] if "track" not in TrackEddiesObservations.ELEMENTS else []),
        track_array_variables=days[0].track_array_variables, array_variables=days[0].array_variables,
    )
    new.sign_type = case["sign"]
    for f in new.fields:
        if f in cat:
            new.obs[f] = cat[f][order]
    new.obs["track"] = group[order]
    new.obs["time"] = case["t0"] + step[order] * case["step"]
    back = np.argsort(order)
    scores = dict(((int(back[i]), int(back[j])), s) for (i, j), s in scores.items())
    return new, step[order], group[order], scores, steps


def value(xa, ya, xb, yb, mode, overlap):
    """(score, sure) or None if polygons are far from each other; score is 0 when they are not linked"""
    xb = xb + round((xa[0] - xb[0]) / 360) * 360
    inter = gen.intersection_area(xa, ya, xb, yb)
    if inter == 0:
        return None
    a, b = abs(gen.shoelace(xa, ya)), abs(gen.shoelace(xb, yb))
    v = inter / (min(a, b) if mode == "minimal" else a + b - inter)
    linked, sure = p15.score(xa, ya, xb, yb, mode, overlap)
    return (v if linked else 0.0), sure


def reference(step, group, scores, window):
    """next, previous, their costs, and False if a choice is not decided"""
    nb = step.size
    nxt, prv = np.full(nb, -1), np.full(nb, -1)
    nc, pc = np.zeros(nb), np.zeros(nb)
    by = dict()
    for (i, j), (s, sure) in scores.items():
        if group[i] == group[j] != 0:
            if not sure:
                return None
            if s > 0:
                by.setdefault((i, "f"), []).append((step[j] - step[i], s, j))
                by.setdefault((j, "b"), []).append((step[j] - step[i], s, i))
    eps = 2e-3

    def best(cand):
        """Closest date, then best score"""
        d = min(c[0] for c in cand)
        c = sorted((c for c in cand if c[0] == d), key=lambda c: -c[1])
        return c[0][2], c[0][1], len(c) > 1 and c[0][1] - c[1][1] < eps

    for i in range(nb):
        if (i, "f") in by:
            nxt[i], nc[i], tie = best(by[i, "f"])
            if tie:
                return None
    for t in range(nb):
        claim = sorted(((nc[i], i) for i in range(nb) if nxt[i] == t), reverse=True)
        if claim:
            if len(claim) > 1 and claim[0][0] - claim[1][0] < eps:
                return None
            pc[t], prv[t] = claim[0]
        elif (t, "b") in by:
            prv[t], pc[t], tie = best(by[t, "b"])
            if tie:
                return None
    return nxt, prv, nc, pc


def links_check(case, ctx):
    from py_eddy_tracker.observations.network import NetworkObservations

    e, step, group, scores, steps = build(case)
    if step.size == 0 or np.unique(step).size < 2:
        return
    d = np.diff(np.unique(step))
    if np.median(d) != 1:
        ctx.label("coarse")
        return
    kw = dict((k, v) for k, v in p15.options(case).items())
    before = e.obs.copy()
    ids = e.split_network(intern=case["intern"], window=case["window"], **kw)
    assert np.array_equal(before, e.obs), "input changed"
    nb = len(e)
    nxt, prv, trk = ids["next_obs"].astype(int), ids["previous_obs"].astype(int), ids["track"].astype(int)
    assert np.array_equal(ids["group"], group)
    u = np.unique(np.c_[ids["time"], step], axis=0)
    assert (np.diff(u, axis=0) > 0).all(), ("dates are mixed", ids["time"].tolist(), e.obs["time"].tolist())
    invariants(nxt, prv, trk, group, step, case["window"], ctx)
    ref = reference(step, group, scores, case["window"])
    if ref is None:
        ctx.label("undecided")
    else:
        rn, rp, rnc, rpc = ref
        assert np.array_equal(nxt, rn), ("next", nxt.tolist(), rn.tolist())
        assert np.array_equal(prv, rp), ("previous", prv.tolist(), rp.tolist())
        assert np.allclose(ids["next_cost"], rnc, atol=2e-3), ("next cost", ids["next_cost"].tolist(), rnc.tolist())
        assert np.allclose(ids["previous_cost"], rpc, atol=2e-3), ("previous cost", ids["previous_cost"].tolist(), rpc.tolist())
    # network
    net = NetworkObservations.from_split_network(e, ids)
    assert np.array_equal(before, e.obs), "input changed by from_split_network"
    assert len(net) == nb and net.sign_type == e.sign_type
    tag, ntag = e.obs["lon_max"].astype(int), net.obs["lon_max"].astype(int)
    assert sorted(tag.tolist()) == sorted(ntag.tolist()), "observations lost"
    where = dict((t, k) for k, t in enumerate(tag))
    src = np.array([where[t] for t in ntag], int)
    for f in e.fields:
        if f in net.fields and f not in ("n", "virtual", "track"):
            assert np.array_equal(net.obs[f], e.obs[f][src]), f
    assert np.array_equal(net.obs["track"], group[src]) and np.array_equal(net.obs["segment"], trk[src])
    key = list(zip(net.obs["track"].tolist(), net.obs["segment"].tolist(), net.obs["time"].tolist()))
    assert key == sorted(key), "order"
    new = np.r_[np.argsort(src), -1]
    assert np.array_equal(net.obs["next_obs"], new[nxt[src]]), ("next in network", net.obs["next_obs"].tolist())
    assert np.array_equal(net.obs["previous_obs"], new[prv[src]]), ("previous in network", net.obs["previous_obs"].tolist())
    assert np.array_equal(net.obs["next_cost"], ids["next_cost"][src]) and np.array_equal(net.obs["previous_cost"], ids["previous_cost"][src])


def invariants(nxt, prv, trk, group, step, window, ctx):
    nb = nxt.size
    event = False
    for i in range(nb):
        if group[i] == 0:
            assert nxt[i] == -1 and prv[i] == -1 and trk[i] == 0, ("trash", i)
            continue
        assert trk[i] > 0
        for k, s in ((nxt[i], 1), (prv[i], -1)):
            assert -1 <= k < nb
            if k != -1:
                assert group[k] == group[i], ("link to another group", i, k)
                assert 0 < s * (step[k] - step[i]) <= window, ("link out of window", i, k, step[i], step[k])
        if nxt[i] != -1:
            mutual = prv[nxt[i]] == i
            assert mutual == (trk[nxt[i]] == trk[i]), ("segment changes only at an event", i, nxt[i])
            event |= not mutual
            assert prv[nxt[i]] != -1
        if prv[i] != -1 and nxt[prv[i]] != i:
            assert trk[prv[i]] != trk[i], ("splitting inside a segment", i)
            event = True
    for g in set(group.tolist()) - {0}:
        for t in set(trk[group == g].tolist()):
            k = np.where((group == g) & (trk == t))[0]
            k = k[np.argsort(step[k])]
            assert (np.diff(step[k]) > 0).all(), ("two observations of a segment at one date", g, t)
            for a, b in zip(k[:-1], k[1:]):
                assert nxt[a] == b and prv[b] == a, ("consecutive observations of a segment are not linked", a, b)
    ctx.nontrivial(event)


FACETS = [Facet("links%d" % k, case_strategy, links_check, quick=350, budget=60) for k in range(3)]
