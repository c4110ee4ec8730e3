"""Missing observations: detection, insertion and filling."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, netgen, trackgen
from ..core import Facet

RULE = (
    "Cases are tracks or networks with holes (any sampling, also under the day, tracks of one observation, trash, observations which are already virtual), and random flags to fill; "
    "a case is non-trivial when at least one observation is missing and one group has none."
)
ASSUMPTIONS = [
    "Tables are sorted by track (network and segment) then date, longitudes are continuous along tracks.",
    "The sampling is the median of the steps between observations of a same track (segment); when a hole is not a multiple of the sampling the number of missing observations is the integer part.",
    "Contours, association costs and link costs of virtual observations are not specified.",
    "Networks have a virtual field.",
]
FREE = ("n", "virtual", "track", "segment", "cost_association", "next_obs", "previous_obs", "next_cost", "previous_cost", "lon_max")


def expected_layout(group, time, skip=None):
    """[(index, None) or (index before, fraction)] in the order of the new table"""
    nb = len(time)
    d = [time[i + 1] - time[i] for i in range(nb - 1) if group[i] == group[i + 1]]
    if not d:
        return [(i, None) for i in range(nb)]
    dt = float(np.median(d))
    out = []
    for i in range(nb):
        out.append((i, None))
        if i + 1 < nb and group[i] == group[i + 1] and group[i] != skip:
            ratio = (time[i + 1] - time[i]) / dt
            k = int(np.floor(ratio + 1e-6)) - 1
            if abs(ratio - round(ratio)) < 1e-5:
                k = int(round(ratio)) - 1
            for j in range(k):
                out.append((i, (j + 1) / (k + 1)))
    return out


def tolerance(dtype, ref):
    return 1.0 + 1e-9 * np.abs(ref) if dtype.kind in "iu" else {2: 2e-3, 4: 1e-6, 8: 1e-12}[dtype.itemsize] * (1 + np.abs(ref))


def check_table(n, new, layout, what):
    nb = len(n)
    assert len(new) == len(layout), (what, "number of observations", len(new) - nb, len(layout) - nb)
    flag = np.array([f is not None for _, f in layout])
    i0 = np.array([i for i, _ in layout])
    w = np.array([0 if f is None else f for _, f in layout])
    i1 = np.minimum(i0 + 1, nb - 1)
    assert new.sign_type == n.sign_type, (what, "rotation")
    assert np.array_equal(new.obs["virtual"].astype(bool), flag | n.obs["virtual"].astype(bool)[i0]), (what, "virtual flag", new.obs["virtual"].tolist())
    assert np.array_equal(new.obs["track"], n.obs["track"][i0]), (what, "tracks of virtual observations", new.obs["track"].tolist())
    for f in n.fields:
        if n.obs[f].ndim > 1:
            assert np.array_equal(new.obs[f][~flag], n.obs[f]), (what, f, "changed")
            continue
        if f not in ("n", "next_obs", "previous_obs", "virtual"):
            assert np.array_equal(new.obs[f][~flag], n.obs[f]), (what, f, "changed")
        if f in FREE:
            continue
        v = n.obs[f].astype("f8")
        ref = v[i0] * (1 - w) + v[i1] * w
        tol = tolerance(n.obs[f].dtype, ref)
        assert (np.abs(new.obs[f].astype("f8") - ref) <= tol).all(), (what, f, "not interpolated between its neighbours", new.obs[f].tolist(), ref.tolist())
    return flag, i0


def tracks_check(case, ctx):
    n = trackgen.tracks(case["tracks"])
    n.obs["time"] *= case["scale"]
    if case["scale"] != 1.0:
        n.obs["time"] = np.round(n.obs["time"] * 86400) / 86400
    # first number of observation is not always 0
    gr = trackgen.groups(n)
    r = gen.rng(case["a"])
    for i in gr.values():
        n.obs["n"][i] += int(r.integers(0, 3)) * case["cut"]
    before = n.obs.copy()
    layout = expected_layout(n.obs["track"].tolist(), n.obs["time"].tolist())
    new = n.insert_virtual()
    assert np.array_equal(n.obs, before), "table changed"
    flag, i0 = check_table(n, new, layout, "insert_virtual")
    for k, i in trackgen.groups(new).items():
        first = int(n.obs["n"][gr[k][0]])
        assert new.obs["n"][i].tolist() == list(range(first, first + len(i))), ("numbers of observation", k, new.obs["n"][i].tolist())
    assert type(new) is type(n) and new.nb_tracks == n.nb_tracks
    assert not len(new.get_missing_indices(np.median(np.diff(new.obs["time"])[np.diff(new.obs["track"].astype(int)) == 0]) * 1.999 if len(new) > new.nb_tracks else 1.0)), "observations are still missing"
    holes = set(n.obs["track"][i0[flag]].tolist())
    ctx.nontrivial(bool(holes) and len(holes) < len(gr))
    if n.obs["virtual"].any() and holes:
        ctx.label("already virtual")


def networks_check(case, ctx):
    n = netgen.network(case["net"], extra=("lon_max", "virtual"))
    if not len(n):
        return
    r = gen.rng(case["a"])
    n.obs["virtual"] = r.uniform(0, 1, len(n)) < case["virtual"]
    before = n.obs.copy()
    rows, tags = netgen.state(n)
    group = [(rows[t].track, rows[t].segment) for t in tags]
    layout = expected_layout(group, n.obs["time"].tolist(), skip=(0, 0))
    if any(rows[t].track == 0 for t in tags):
        # sampling is not affected by trash in what is tested
        d = np.diff(n.obs["time"])
        same = np.array([a == b for a, b in zip(group[:-1], group[1:])], bool)
        with0, without = d[same], d[same & np.array([g != (0, 0) for g in group[1:]], bool)]
        if without.size == 0 or np.median(with0) != np.median(without):
            return
    new = n.insert_virtual()
    assert np.array_equal(n.obs, before), "table changed"
    flag, i0 = check_table(n, new, layout, "insert_virtual")
    assert np.array_equal(new.obs["segment"], n.obs["segment"][i0]), "segments of virtual observations"
    # links
    pos = dict((i, k) for k, (i, f) in enumerate(layout) if f is None)
    pos[-1] = -1
    nxt = [pos[int(v)] for v in n.obs["next_obs"][i0]]
    prv = [pos[int(v)] for v in n.obs["previous_obs"][i0]]
    for k, f in enumerate(flag):
        if f:
            nxt[k - 1], nxt[k], prv[k], prv[k + 1] = k, k + 1, k - 1, k
    assert new.obs["next_obs"].tolist() == nxt, ("next", new.obs["next_obs"].tolist(), nxt)
    assert new.obs["previous_obs"].tolist() == prv, ("previous", new.obs["previous_obs"].tolist(), prv)
    assert new.nb_network == n.nb_network and new.nb_segment == n.nb_segment
    holes = set(group[i] for i in i0[flag])
    ctx.nontrivial(bool(holes) and len(holes) < len(set(group)))


def missing_check(case, ctx):
    from py_eddy_tracker.observations.groups import get_missing_indices

    r = gen.rng(case["a"])
    nb = case["nb"]
    size = r.integers(1, 8, nb)
    track = np.repeat(np.cumsum(r.integers(1, 3, nb)) - 1, size).astype(case["dtype"])
    dt = case["dt"]
    k = r.choice([1, 1, 1, 2, 3, 5], size.sum())
    base = 20000 if case["far"] else 0
    time = np.concatenate([base + dt * (int(r.integers(0, 5)) + np.cumsum(v)) for v in np.split(k, np.cumsum(size)[:-1])])
    if case["sub"]:
        time = np.round(time * 86400) / 86400
    expected = []
    for i in range(1, len(time)):
        if track[i] == track[i - 1] and not (case["flag"] and track[i] == case["untrack"]):
            expected += [i] * (int(k[i]) - 1)
    got = get_missing_indices(time, track, dt=dt, flag_untrack=case["flag"], indice_untrack=case["untrack"])
    assert got.tolist() == expected, ("get_missing_indices", got.tolist(), expected)
    ctx.nontrivial(bool(expected))


def fill_check(case, ctx):
    """Filling of flagged observations inside tracks"""
    n = trackgen.tracks(case["tracks"], sampling=4)
    r = gen.rng(case["a"])
    m = r.uniform(0, 1, len(n)) < case["p"]
    for i in trackgen.groups(n).values():
        m[i[0]] = m[i[-1]] = False
    before = n.obs.copy()
    n.filled_by_interpolation(m)
    idx = np.arange(len(n))
    for f in n.fields:
        a, b = n.obs[f], before[f]
        assert np.array_equal(a[~m], b[~m]), (f, "changed for an observation which is not flagged")
        if b.ndim > 1 or f in ("n", "virtual", "track", "cost_association"):
            assert np.array_equal(a, b), (f, "changed")
            continue
        for i in np.where(m)[0]:
            lo, hi = idx[: i + 1][~m[: i + 1]][-1], idx[i:][~m[i:]][0]
            ref = float(b[lo]) + (float(b[hi]) - float(b[lo])) * (i - lo) / (hi - lo)
            tol = tolerance(b.dtype, ref)
            assert abs(float(a[i]) - ref) <= tol, (f, i, float(a[i]), ref)
    ctx.nontrivial(m.any() and not m.all())


T = dict(trackgen.TRACKS, hole=st.sampled_from([0.0, 0.1, 0.3]))
FACETS = [
    Facet("tracks", lambda: st.fixed_dictionaries(dict(tracks=st.fixed_dictionaries(T), a=gen.SEEDS, scale=st.sampled_from([1.0, 1.0, 0.25, 1 / 24, 1 / 48]), cut=st.integers(0, 1))), tracks_check, quick=500, budget=60),
    Facet("networks", lambda: st.fixed_dictionaries(dict(net=st.fixed_dictionaries(netgen.NETWORK), a=gen.SEEDS, virtual=st.sampled_from([0.0, 0.2]))), networks_check, quick=500, budget=60),
    Facet("missing", lambda: st.fixed_dictionaries(dict(a=gen.SEEDS, nb=st.integers(1, 6), dt=st.sampled_from([1.0, 7.0, 0.5, 1 / 24, 1 / 10]), flag=st.booleans(), untrack=st.integers(0, 3), far=st.booleans(), sub=st.booleans(), dtype=st.sampled_from(["u4", "i8"]))), missing_check, quick=500, budget=60),
    Facet("fill", lambda: st.fixed_dictionaries(dict(tracks=st.fixed_dictionaries(trackgen.TRACKS), a=gen.SEEDS, p=st.sampled_from([0.2, 0.5, 0.9]))), fill_check, quick=400, budget=60),
]
