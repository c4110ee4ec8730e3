"""Grouping of overlapping identifications in networks."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, ident  # noqa: F401 (ident builds the units registry once)
from ..core import Facet

RULE = (
    "Cases are sequences of 1 to 9 days of identifications (possibly without any eddy) with overlapping contours, or the raw list of overlaps of such days, with a window, an overlap threshold, an overlap definition and a kind of contour; "
    "a case is non-trivial when at least one group of three or more observations has to be built."
)
ASSUMPTIONS = [
    "Cases in which an overlap is within 2e-3 of the threshold are not decided by the geometric oracle.",
    "Files have the same fields (a network is built from one producer).",
    "Contours are narrower than 180 degrees.",
]


def components(n, edges):
    p = list(range(n))

    def find(a):
        while p[a] != a:
            p[a] = p[p[a]]
            a = p[a]
        return a

    for a, b in edges:
        p[find(a)] = find(b)
    out = dict()
    for k in range(n):
        out.setdefault(find(k), []).append(k)
    return out.values()


def check_partition(gr, n, edges):
    """gr is 0 for lonely observations and one same non null value by connected component."""
    gr = np.asarray(gr)
    assert gr.shape == (n,), ("shape", gr.shape, n)
    seen = dict()
    biggest = 0
    for c in components(n, edges):
        v = set(gr[c].tolist())
        assert len(v) == 1, ("a connected set has several groups", c, gr[c].tolist())
        v = v.pop()
        if len(c) == 1:
            assert v == 0, ("a lonely observation is in a group", c, v)
        else:
            assert v != 0, ("connected observations in trash", c)
            assert v not in seen, ("one group for two disconnected sets", seen.get(v), c)
            seen[v] = c
        biggest = max(biggest, len(c))
    return biggest


# ---------------------------------------------------------------- labels only
def labels_case():
    return st.fixed_dictionaries(dict(
        seed=gen.SEEDS, days=st.integers(1, 8), n=st.sampled_from([0, 1, 2, 5, 9]), window=st.integers(1, 9),
        density=st.sampled_from([0.02, 0.1, 0.25, 0.6]), chain=st.booleans(),
    ))


def labels_check(case, ctx):
    from py_eddy_tracker.observations.network import Network

    r = gen.rng(case["seed"])
    nd = case["days"]
    nb = [int(r.integers(0, case["n"] + 1)) for _ in range(nd)]
    start = np.cumsum([0] + nb)
    results, edges = [], []
    for i in range(nd):
        for j in range(i + 1, min(i + case["window"], nd)):
            m = r.uniform(0, 1, (nb[i], nb[j])) < case["density"]
            if case["chain"] and nb[i] and nb[j]:
                # few overlaps far in time to join groups already built
                m[:] = False
                if r.integers(0, 2):
                    m[r.integers(0, nb[i]), r.integers(0, nb[j])] = True
            ii, jj = np.nonzero(m)
            o = r.permutation(ii.size)
            ii, jj = ii[o].astype("i4"), jj[o].astype("i4")
            results.append((i, j, ii, jj))
            edges += [(int(start[i] + a), int(start[j] + b)) for a, b in zip(ii, jj)]
    n = Network.from_eddiesobservations([], window=case["window"])
    gr = n.get_group_array(results, nb)
    big = check_partition(gr, int(start[-1]), edges)
    ctx.nontrivial(big >= 3)
    if big >= 6:
        ctx.label("group of 6+")
    if 0 in nb:
        ctx.label("empty day")


# ---------------------------------------------------------------- geometry
def geo_fields():
    return dict(
        seed=gen.SEEDS, days=st.integers(1, 7), n=st.sampled_from([0, 1, 3, 6, 10]), window=st.integers(1, 6), overlap=st.sampled_from([0.0, 0.05, 0.2, 0.5, 0.8]),
        mode=st.sampled_from(["union", "union", "minimal", "hybrid", "p1"]), intern=st.booleans(), lon=st.sampled_from([12.0, 0.0, 180.0, 359.9, -170.0]), branch=st.sampled_from(["same", "wrap360", "wrap180", "file"]),
        spread=st.sampled_from([0.5, 1.5, 4.0]), sign=st.sampled_from([-1, 1]), before=st.sampled_from([None, "other contour", "same files"]),
    )


def make_days(case):
    r = gen.rng(case["seed"])
    s = case["spread"]
    days, tag = [], 1
    lat0 = r.uniform(-60, 60)
    n = case["n"]
    px, py = case["lon"] + r.uniform(-s, s, n), lat0 + r.uniform(-s, s, n)
    for d in range(case["days"]):
        m = r.uniform(0, 1, n) < 0.8
        if r.integers(0, 6) == 0:
            m[:] = False
        px, py = px + r.normal(0, 0.1, n), py + r.normal(0, 0.1, n)
        x, y = px[m], py[m]
        k = x.size
        o = gen.make_obs(k, 16, extra=["lon_max", "track"] if case["seed"] % 2 else ["lon_max"])
        o.sign_type = case["sign"]
        if "track" in o.fields:
            o.obs["track"] = 0
        shift = np.zeros(k)
        if case["branch"] == "wrap360":
            shift = -np.floor(x / 360) * 360
        elif case["branch"] == "wrap180":
            shift = -np.floor((x + 180) / 360) * 360
        elif case["branch"] == "file":
            shift[:] = 360 * (d % 2)
        for f in o.fields:
            v = o.obs[f]
            if f == "time":
                v[:] = 20000 + d
            elif v.ndim == 1 and f not in ("track", "lon_max"):
                v[:] = r.uniform(0, 1, k)
        o.obs["lon"], o.obs["lat"] = x + shift, y
        o.obs["lon_max"] = tag + np.arange(k)
        tag += k
        for i in range(k):
            for c in "es":
                q = r.uniform(0.15, 0.8) * (0.8 if c == "s" else 1)
                cx, cy = gen.star(r, x[i] + shift[i], y[i], q, q, 15, rough=0.25, cw=bool(r.integers(0, 2)))
                o.obs["contour_lon_" + c][i], o.obs["contour_lat_" + c][i] = cx, cy
        days.append(o)
    return days


def score(xa, ya, xb, yb, mode, overlap):
    """(linked, decided)"""
    xb = xb + round((xa[0] - xb[0]) / 360) * 360
    inter = gen.intersection_area(xa, ya, xb, yb)
    a, b = abs(gen.shoelace(xa, ya)), abs(gen.shoelace(xb, yb))
    v = inter / (min(a, b) if mode == "minimal" else b if mode == "p1" else a + b - inter)
    eps = 2e-3
    near = abs(v - overlap) < eps or 0 < inter < 1e-4 * min(a, b)
    linked = inter > 0 and v >= overlap
    if mode == "hybrid" and inter > 0:
        w = inter / min(a, b)
        if abs(w - 0.99) < eps and v < overlap + eps:
            return False, False
        if w > 0.99:
            return True, True
    return linked, not near


def expected_edges(days, case):
    c = "s" if case["intern"] else "e"
    start = np.cumsum([0] + [len(o) for o in days])
    edges = []
    for i, oa in enumerate(days):
        for j in range(i + 1, len(days)):
            if j - i > case["window"]:
                continue
            ob = days[j]
            for a in range(len(oa)):
                for b in range(len(ob)):
                    linked, decided = score(
                        oa.obs["contour_lon_" + c][a].astype("f8"), oa.obs["contour_lat_" + c][a].astype("f8"), ob.obs["contour_lon_" + c][b].astype("f8"), ob.obs["contour_lat_" + c][b].astype("f8"),
                        case["mode"], case["overlap"],
                    )
                    if not decided:
                        return None
                    if linked:
                        edges.append((int(start[i] + a), int(start[j] + b)))
    return edges


def options(case):
    kw = dict(min_overlap=case["overlap"])
    if case["mode"] == "minimal":
        kw["minimal_area"] = True
    elif case["mode"] == "hybrid":
        kw["hybrid_area"] = True
    elif case["mode"] == "p1":
        kw["p1_area"] = True
    return kw


def other_grouping(case, names):
    """Something done before in the same session, without any link with the tested network."""
    from py_eddy_tracker.observations.network import Network

    if case["before"] is None:
        return
    intern = not case["intern"] if case["before"] == "other contour" else case["intern"]
    Network.from_eddiesobservations(list(names), window=max(1, case["window"] - 1), intern=intern).group_observations(min_overlap=0.1)


def geometry_check(case, ctx):
    from py_eddy_tracker.observations.network import Network

    days = make_days(case)
    edges = expected_edges(days, case)
    other_grouping(case, days)
    n = Network.from_eddiesobservations(days, window=case["window"], intern=case["intern"])
    with np.errstate(all="ignore"):
        gr = n.group_observations(**options(case))
    if edges is None:
        ctx.label("undecided")
        return
    big = check_partition(gr, sum(len(o) for o in days), edges)
    ctx.nontrivial(big >= 3)
    ctx.label(case["mode"], "inner" if case["intern"] else "outer")


# ---------------------------------------------------------------- dataset
def dataset_case():
    d = geo_fields()
    d.update(store=st.sampled_from(["netcdf", "netcdf", "memory", "zarr"]), raw=st.booleans(), rewrite=st.booleans(), days=st.integers(1, 5))
    return st.fixed_dictionaries(d)


def dataset_check(case, ctx):
    from py_eddy_tracker.observations.network import Network
    from py_eddy_tracker.observations.observation import EddiesObservations

    days = make_days(case)
    folder = tempfile.mkdtemp()
    try:
        zarr = case["store"] == "zarr"
        names = [os.path.join(folder, "Anticyclonic_%d.%s" % (20200101 + i, "zarr" if zarr else "nc")) for i in range(len(days))]
        for o, f in zip(days, names):
            o.write_file(filename=f, **(dict(chunck_size=1000) if zarr else dict()))
        if case["before"] == "same files":
            # an older version of the same files was processed in the same session
            r = gen.rng(case["seed"] + 1)
            for f in names:
                shutil.move(f, f + ".keep")
                old = gen.make_obs(2, 16, extra=["lon_max"])
                old.obs["time"] = 1.0
                old.sign_type = case["sign"]
                for i in range(2):
                    for c in "es":
                        old.obs["contour_lon_" + c][i], old.obs["contour_lat_" + c][i] = gen.star(r, 10, 10, 2, 2, 15)
                old.write_file(filename=f, **(dict(chunck_size=1000) if zarr else dict()))
            other_grouping(case, names)
            for f in names:
                (shutil.rmtree if os.path.isdir(f) else os.remove)(f)
                shutil.move(f + ".keep", f)
        else:
            other_grouping(case, names)
        stored = [EddiesObservations.load_file(f) for f in names]
        edges = expected_edges(stored, case)
        n = Network(os.path.join(folder, "Anticyclonic_*"), window=case["window"], intern=case["intern"], memory=case["store"] == "memory")
        assert [os.path.basename(f) for f in n.filenames] == [os.path.basename(f) for f in names]
        with np.errstate(all="ignore"):
            gr = n.group_observations(**options(case))
        nb = sum(len(o) for o in days)
        if edges is not None:
            big = check_partition(gr, nb, edges)
            ctx.nontrivial(big >= 3)
        else:
            ctx.label("undecided")
        e = n.build_dataset(gr, raw_data=case["raw"])
        if case["raw"] or case["rewrite"]:
            out = os.path.join(folder, "net.nc")
            e.write_file(filename=out)
            e = type(e).load_file(out)
        assert len(e) == nb and e.sign_type == case["sign"], (len(e), nb, e.sign_type)
        # stable order by group, every observation is kept as it was in its file
        order = np.argsort(gr, kind="stable")
        assert np.array_equal(e.obs["track"], gr[order]), ("track", e.obs["track"].tolist(), gr[order].tolist())
        for f in stored[0].fields:
            if f == "track":
                continue
            v = np.concatenate([o.obs[f] for o in stored])[order]
            got = e.obs[f]
            assert got.shape == v.shape, (f, got.shape, v.shape)
            assert np.array_equal(got, v) or np.allclose(np.asarray(got, "f8"), np.asarray(v, "f8"), rtol=2e-7, atol=1e-9), ("field", f)
    finally:
        shutil.rmtree(folder)


FACETS = [
    Facet("labels", labels_case, labels_check, quick=1500, budget=60),
    Facet("geometry", lambda: st.fixed_dictionaries(geo_fields()), geometry_check, quick=500, budget=70),
    Facet("dataset", dataset_case, dataset_check, quick=120, budget=70),
]
