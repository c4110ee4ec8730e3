"""Groups of observations by bin or window, alignment and comparison of two datasets."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, netgen, trackgen
from ..core import Facet

RULE = (
    "Cases are variables (any type, sorted or not, constant or empty, in or out of the bins) with regular or irregular bins or moving windows, pairs of datasets to align, and pairs of atlases which share some tracks or networks; "
    "a case is non-trivial when at least two groups are given (two datasets: at least one common and one separate group)."
)
ASSUMPTIONS = [
    "Values and bins are multiples of 1/8 (no rounding), bins increase and there are at least two bounds; no undefined value.",
    "The limits of a moving window do not touch a value.",
    "Scores of the comparison of atlases are further than 1e-3 from the threshold.",
]
DTYPES = ["f8", "f4", "i4", "u4", "u2", "i8"]


def values(r, nb, dtype, kind, lo=0):
    if kind == "constant":
        v = np.full(nb, int(r.integers(1, 9)))
    elif kind == "sparse":
        v = r.integers(0, 8, nb) * 37
    else:
        v = r.integers(0, 12, nb)
    v = v.astype("f8") + lo
    if dtype[0] == "f":
        v = v + r.integers(0, 8, nb) / 8
        if kind == "negative":
            v -= 6
    elif dtype[0] == "i" and kind == "negative":
        v -= 6
    if kind != "free" or r.uniform() < 0.3:
        v = np.sort(v) if r.uniform() < 0.5 else v
    return v.astype(dtype)


def make_bins(r, x, kind):
    if kind == "none" or not x.size:
        return None
    lo, hi = float(x.min()), float(x.max())
    if kind == "cover":
        return np.arange(np.floor(lo), hi + 2.0)
    if kind == "inside":
        a = np.floor(lo + (hi - lo) * r.uniform(0, 0.5))
        return np.arange(a, a + 3.0 + int(r.integers(0, 4)))
    if kind == "wide":
        return np.arange(np.floor(lo) - 5.0, hi + 9, 2.5)
    if kind == "out":
        return np.arange(hi + 1, hi + 6)
    if kind == "integer":
        return np.arange(int(lo) - 1, int(hi) + 3, int(r.integers(1, 4)))
    b = np.unique(np.floor(r.uniform(lo - 2, hi + 3, 6) * 8) / 8)
    return b if b.size > 1 else np.array([lo, lo + 1])


def holder(x, cls=None):
    """Observations with this variable, time is the variable when it is a name"""
    o = gen.make_obs(len(x), 0, extra=["lon_max"])
    o.obs["lon_max"] = np.arange(len(x)) + 1
    return o


def expected_groups(x, bins):
    out = []
    for a, b in zip(bins[:-1], bins[1:]):
        i = [k for k, v in enumerate(x.tolist()) if a <= v < b]
        if i:
            out.append((i, float(a), float(b)))
    return out


def as_list(i, nb):
    return np.arange(nb)[i].tolist()


def default_bins(x):
    return np.arange(float(x.min()), float(x.max()) + 2)


def iter_check(case, ctx):
    r = gen.rng(case["seed"])
    nb = case["nb"]
    x = values(r, nb, case["dtype"], case["kind"])
    bins = make_bins(r, x, case["bins"])
    o = holder(x)
    name = x
    if case["name"] and case["dtype"] == "f8":
        o.obs["time"] = x
        name = "time"
    given = bins if bins is None or case["array"] else bins.tolist()
    keep = x.copy()
    got = [(sorted(as_list(i, nb)), float(a), float(b)) for i, a, b in o.iter_on(name, bins=given)]
    ref = expected_groups(x, default_bins(x) if bins is None else bins) if nb else []
    assert got == ref, ("iter_on", got, ref)
    assert np.array_equal(x, keep), "values changed"
    ctx.nontrivial(len(ref) > 1)
    if nb and (np.diff(x.astype("f8")) < 0).any():
        ctx.label("not sorted")
    if len(ref) and sum(len(g[0]) for g in ref) < nb:
        ctx.label("values out of bins")


def window_check(case, ctx):
    r = gen.rng(case["seed"])
    nb = case["nb"]
    x = values(r, nb, "f8", case["kind"])
    o = holder(x)
    h = case["h"] + 1 / 32
    centers = np.sort(r.uniform(x.min() - 2, x.max() + 2, int(r.integers(1, 8)))) if nb else np.arange(3.0)
    centers = np.floor(centers * 8) / 8
    got = [(sorted(as_list(i, nb)), float(a), float(b)) for i, a, b in o.iter_on(x, window=h, bins=centers)]
    ref = [([k for k, v in enumerate(x.tolist()) if abs(v - c) < h], c - h, c + h) for c in centers.tolist()] if nb else []
    assert got == ref, ("iter_on window", got, ref)
    ctx.nontrivial(sum(1 for g in ref if g[0]) > 1)


def align_check(case, ctx):
    r = gen.rng(case["seed"])
    dtype = case["dtype"]
    x0, x1 = values(r, case["nb"], dtype, case["kind"]), values(r, case["nb1"], dtype, case["kind1"], lo=int(r.integers(0, 6)))
    both = np.concatenate((x0, x1)).astype("f8")
    if not both.size:
        return
    bins = make_bins(r, both, case["bins"])
    if bins is None:
        if dtype[0] == "f":
            return  # groups of both datasets would not have the same bounds
        bins0, bins1 = (default_bins(x) if x.size else np.array([0.0, 1.0]) for x in (x0, x1))
    else:
        bins0 = bins1 = bins
    a, b = holder(x0), holder(x1)
    kw = {} if bins is None else dict(bins=bins)
    if case["name"] and dtype == "f8":
        a.obs["time"], b.obs["time"] = x0, x1
    else:
        kw["var_name"] = (x0, x1)
    g0 = expected_groups(x0, bins0) if x0.size else []
    g1 = dict((v[1], v) for v in (expected_groups(x1, bins1) if x1.size else []))
    got = [(sorted(as_list(i, len(x0))), sorted(as_list(j, len(x1))), float(u), float(v)) for i, j, u, v in a.align_on(b, all_ref=case["all"], **kw)]
    ref = [(i, g1[u][0] if u in g1 else [], u, v) for i, u, v in g0 if u in g1 or case["all"]]
    assert got == ref, ("align_on", got, ref)
    ctx.nontrivial(any(u in g1 for _, u, _ in g0) and (any(u not in g1 for _, u, _ in g0) or len(g1) > len(g0)))


# ---------------------------------------------------------------- comparison of atlases
NV = 12


def contours(n, r, size):
    t = np.linspace(0, 2 * np.pi, NV)
    for s in "se":
        n.obs["contour_lon_" + s] = n.obs["lon"][:, None] + size * np.cos(t)
        n.obs["contour_lat_" + s] = n.obs["lat"][:, None] + size * np.sin(t) * (1.0 if s == "e" else 0.7)


def scores(a, i, b, j, s):
    k = "contour_lon_" + s, "contour_lat_" + s
    x0, y0, x1, y1 = (np.asarray(v, "f8") for v in (a.obs[k[0]][i], a.obs[k[1]][i], b.obs[k[0]][j], b.obs[k[1]][j]))
    if np.abs(x0 - x1).max() > 50 or np.abs(y0 - y1).max() > 50:
        x1 = x1 + 360 * np.round((x0[0] - x1[0]) / 360)
    inter = gen.intersection_area(x0, y0, x1, y1)
    if inter == 0:
        return 0.0
    return inter / (abs(gen.shoelace(x0, y0)) + abs(gen.shoelace(x1, y1)) - inter)


def close_check(case, ctx, network):
    r = gen.rng(case["a"])
    if network:
        from py_eddy_tracker.observations.network import NetworkObservations as cls

        n = netgen.network(case["net"])
        nb = len(n)
        if not nb:
            return
        a = gen.make_obs(nb, NV, extra=["lon_max"], cls=cls, arrays=gen.CONTOURS[:4], sign=1)
    else:
        from py_eddy_tracker.observations.tracking import TrackEddiesObservations as cls

        n = trackgen.tracks(case["tracks"])
        nb = len(n)
        a = gen.make_obs(nb, NV, extra=["lon_max"], cls=cls, arrays=gen.CONTOURS[:4], sign=n.sign_type)
    for f in n.fields:
        a.obs[f] = n.obs[f]
    a.obs["lon"], a.obs["lat"] = r.uniform(0, case["room"], nb) + case["lon"], r.uniform(0, case["room"], nb)
    contours(a, r, 1.0)
    # the other one: same observations, some of them moved in space, time or on another branch, renumbered
    b = a.copy()
    far = r.uniform(0, 1, nb) < case["p"]
    b.obs["lon"] += far * 30.0 + r.uniform(-0.3, 0.3, nb) * case["noise"]
    contours(b, r, 1.0)
    b.obs["contour_lon_s"] += 360 * case["branch"]
    b.obs["contour_lon_e"] += 360 * case["branch"]
    b.obs["time"] += case["shift"]
    b.obs["track"] += np.array(1, b.obs["track"].dtype)
    if case["cut"]:
        m = r.uniform(0, 1, nb) < 0.7
        b = b.extract_with_mask(m)
    if case["noday"]:
        # no common day
        keep = a.obs["time"] % (2 * 7) < 7
        a = a.extract_with_mask(keep)
        b = b.extract_with_mask((b.obs["time"] - case["shift"]) % (2 * 7) >= 7) if len(b) else b
    if not len(a) or not len(b):
        return
    s = "s" if case["intern"] else "e"
    p0, p1 = a.obs["time"].min(), a.obs["time"].max()
    count = dict()
    for i in range(len(a)):
        for j in range(len(b)):
            t0, t1 = a.obs["time"][i], b.obs["time"][j]
            if not p0 <= t1 < np.floor(p1 - p0) + 1 + p0 or np.floor(t0 - p0) != np.floor(t1 - p0):
                continue
            v = scores(a, i, b, j, s)
            if abs(v - case["cmin"]) < 1e-3:
                return
            if v >= case["cmin"]:
                k = int(b.obs["track"][j])
                count[k] = count.get(k, 0) + 1
    ok = set(k for k, v in count.items() if v >= case["nb_min"])
    new = getattr(a, "close_network" if network else "close_tracks")(b, nb_obs_min=case["nb_min"], intern=case["intern"], cmin=case["cmin"])
    ref = [k for k, t in zip(trackgen.names(b), b.obs["track"].tolist()) if t in ok]
    assert trackgen.names(new) == ref, (trackgen.names(new), ref, count)
    assert new.sign_type == b.sign_type and type(new) is type(b), "rotation"
    assert np.array_equal(new.obs["track"], [t for t in b.obs["track"].tolist() if t in ok]), "numbers"
    ctx.nontrivial(0 < len(ref) < len(b))
    if not count:
        ctx.label("nothing in common")


CLOSE = dict(
    a=gen.SEEDS, room=st.sampled_from([3.0, 8.0, 25.0]), lon=st.sampled_from([0.0, 175.0, 350.0]), p=st.sampled_from([0.2, 0.6, 1.0]), noise=st.integers(0, 1), branch=st.sampled_from([0, 0, 1, -1]),
    shift=st.sampled_from([0.0, 0.0, 0.0, 1.0, -2.0, 40.0]), cut=st.booleans(), noday=st.sampled_from([False] * 5 + [True]), intern=st.booleans(), cmin=st.sampled_from([0.05, 0.3, 0.7]), nb_min=st.sampled_from([1, 1, 2, 3, 6]),
)
T = dict(trackgen.TRACKS, nb=st.integers(1, 4), longest=st.sampled_from([1, 4, 7]))
NET = dict(netgen.NETWORK, groups=st.integers(1, 3), days=st.sampled_from([2, 3, 5]), n=st.integers(1, 2))
V = dict(seed=gen.SEEDS, nb=st.sampled_from([0, 1, 2, 3, 8, 30]), dtype=st.sampled_from(DTYPES), kind=st.sampled_from(["free", "free", "constant", "sparse", "negative"]), bins=st.sampled_from(["none", "cover", "inside", "inside", "wide", "out", "integer", "irregular"]), name=st.booleans())
FACETS = [
    Facet("iter", lambda: st.fixed_dictionaries(dict(V, array=st.booleans())), iter_check, quick=900, budget=60),
    Facet("window", lambda: st.fixed_dictionaries(dict(seed=gen.SEEDS, nb=V["nb"], kind=V["kind"], h=st.sampled_from([0.0, 0.5, 1.0, 3.0, 20.0]))), window_check, quick=500, budget=60),
    Facet("align", lambda: st.fixed_dictionaries(dict(V, nb1=V["nb"], kind1=V["kind"], all=st.booleans())), align_check, quick=900, budget=60),
    Facet("close_tracks", lambda: st.fixed_dictionaries(dict(CLOSE, tracks=st.fixed_dictionaries(T))), lambda c, x: close_check(c, x, False), quick=200, budget=60),
    Facet("close_network", lambda: st.fixed_dictionaries(dict(CLOSE, net=st.fixed_dictionaries(NET))), lambda c, x: close_check(c, x, True), quick=200, budget=60),
]
