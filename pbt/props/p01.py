"""Overlap scores between eddy contours."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet

RULE = (
    "Cases are two sets of simple closed contours (random star polygons and nested/identical/shifted copies) placed around a reference "
    "meridian, with each side stored on its own 360-degree branch, and a scoring option set; a case is non-trivial when at least one "
    "pair has an exact intersection area > 0."
)
ASSUMPTIONS = [
    "Contours are simple, continuous in longitude and closed (last point equals first), as the library stores them; scores are compared with a float64 exact clip within 2e-3 when the "
    "float32 longitudes have to be shifted by 360 degrees, 1e-5 otherwise."
]


def _sets(case):
    r = gen.rng(case["seed"])
    ref = case["ref"]
    pols = [[], []]
    base = []
    for side in (0, 1):
        for k in range(case["n%d" % side]):
            mode = r.integers(0, 5)
            if mode == 0 and base:
                x, y = base[r.integers(len(base))]
                cx, cy = x[:-1].mean(), y[:-1].mean()
                f = r.choice([1.0, 0.4, 0.7, 1.6])
                x, y = cx + (x - cx) * f, cy + (y - cy) * f
                x[-1], y[-1] = x[0], y[0]
            else:
                x, y = gen.star(r, ref + r.uniform(-2, 2), case["lat"] + r.uniform(-2, 2), r.uniform(0.2, 1.5), r.uniform(0.2, 1.5),
                                case["nv"], rough=r.choice([0.0, 0.2, 0.45]), cw=bool(r.integers(2)))
            base.append((x, y))
            pols[side].append((x + case["branch%d" % side] * 360.0, y))
    return pols


def _obs(pols, nv, intern):
    o = gen.make_obs(len(pols), nv + 1)
    s = "s" if intern else "e"
    d = "e" if intern else "s"
    for k, (x, y) in enumerate(pols):
        o.obs["contour_lon_" + s][k], o.obs["contour_lat_" + s][k] = x, y
        # decoy: the other contour kind is somewhere else
        o.obs["contour_lon_" + d][k], o.obs["contour_lat_" + d][k] = x + 30, y - 3
        o.obs["lon"][k], o.obs["lat"][k] = x[:-1].mean(), y[:-1].mean()
    return o


def _reference(o0, o1, intern):
    s = "s" if intern else "e"
    X0, Y0, X1, Y1 = o0["contour_lon_" + s], o0["contour_lat_" + s], o1["contour_lon_" + s], o1["contour_lat_" + s]
    n0, n1 = len(o0), len(o1)
    inter = np.zeros((n0, n1))
    a0 = np.array([abs(gen.shoelace(X0[i], Y0[i])) for i in range(n0)])
    a1 = np.array([abs(gen.shoelace(X1[j], Y1[j])) for j in range(n1)])
    for i in range(n0):
        for j in range(n1):
            x1 = X1[j].astype("f8")
            x1 = x1 + 360 * np.round((float(X0[i][0]) - float(x1[0])) / 360)
            inter[i, j] = gen.intersection_area(X0[i], Y0[i], x1, Y1[j])
    return inter, a0, a1


def _score(inter, a0, a1, opt):
    A0, A1 = a0[:, None], a1[None, :]
    small = np.minimum(A0, A1)
    if opt.get("minimal_area"):
        s = inter / small
    elif opt.get("p1_area"):
        s = inter / A1
    else:
        s = inter / (A0 + A1 - inter)
    return s, inter / small


def strat_match():
    return st.fixed_dictionaries(
        dict(
            seed=gen.SEEDS,
            ref=st.sampled_from([0.0, 10.0, 179.5, 180.0, 359.9, -60.0]),
            lat=st.sampled_from([0.0, 35.0, -60.0]),
            n0=st.integers(1, 4),
            n1=st.integers(1, 4),
            nv=st.integers(3, 14),
            branch0=st.sampled_from([0, 0, 1, -1]),
            branch1=st.sampled_from([0, 0, 1, -1]),
            intern=st.booleans(),
            mode=st.sampled_from(["union", "minimal_area", "p1_area", "hybrid_area"]),
            min_overlap=st.sampled_from([0.0, 0.1, 0.3, 0.6]),
            cmin=st.sampled_from([0, 0.05, 0.4]),
        )
    )


def check_match(case, ctx):
    pols = _sets(case)
    o0, o1 = (_obs(p, case["nv"], case["intern"]) for p in pols)
    kw = {} if case["mode"] == "union" else {case["mode"]: True}
    if case["min_overlap"]:
        kw["min_overlap"] = case["min_overlap"]
    i, j, c = o0.match(o1, intern=case["intern"], cmin=case["cmin"], **kw)
    i, j, c = np.asarray(i), np.asarray(j), np.asarray(c)
    assert i.shape == j.shape == c.shape
    pairs = list(zip(i.tolist(), j.tolist()))
    assert len(set(pairs)) == len(pairs), "a pair is reported twice"
    inter, a0, a1 = _reference(o0, o1, case["intern"])
    s, small = _score(inter, a0, a1, kw)
    shifted = case["branch0"] != case["branch1"]
    amin = min(a0.min(), a1.min())
    tol = 1e-5 if not shifted else 2e-3
    tol = tol * max(1, 0.3 / amin)
    got = np.full(s.shape, -1.0)
    for (a, b), v in zip(pairs, c.tolist()):
        got[a, b] = v
    mo, cmin = case["min_overlap"], case["cmin"]
    for a in range(s.shape[0]):
        for b in range(s.shape[1]):
            e = s[a, b]
            if e > tol:
                ctx.nontrivial()
                ctx.label("overlap")
                if shifted:
                    ctx.label("different branch")
                if small[a, b] > 0.999:
                    ctx.label("included")
            choices = []
            # below min_overlap the score is dropped to 0 (hybrid keeps included polygons)
            if e >= mo - tol or e <= tol:
                choices.append(e)
            if e <= mo + tol:
                if case["mode"] == "hybrid_area" and e > 0:
                    if small[a, b] > 0.99 - tol:
                        choices.append(e)
                    if small[a, b] < 0.99 + tol:
                        choices.append(0.0)
                else:
                    choices.append(0.0)
            g = got[a, b]
            if g < 0:
                ok = any(v < cmin + tol or v <= tol for v in choices)
                assert ok, f"pair {(a, b)} missing, exact score {e} (cmin {cmin}, options {kw})"
            else:
                assert g >= cmin, f"pair {(a, b)} kept with score {g} < cmin {cmin}"
                assert any(abs(g - v) <= tol for v in choices), f"pair {(a, b)} score {g}, expected one of {choices} (options {kw})"
                assert -1e-9 <= g <= 1 + tol


def strat_meta():
    return st.fixed_dictionaries(
        dict(
            seed=gen.SEEDS,
            ref=st.sampled_from([0.0, 10.0, 179.5, 359.9]),
            lat=st.sampled_from([0.0, 35.0]),
            n0=st.integers(1, 5),
            n1=st.integers(1, 5),
            nv=st.integers(3, 14),
            branch0=st.just(0),
            branch1=st.just(0),
            mode=st.sampled_from(["union", "minimal_area"]),
            relation=st.sampled_from(["symmetry", "self", "reverse", "roll", "both+360", "permute"]),
        )
    )


def _matrix(o0, o1, kw):
    m = np.zeros((len(o0), len(o1)))
    i, j, c = o0.match(o1, **kw)
    m[i, j] = c
    return m


def check_meta(case, ctx):
    pols = _sets(case)
    kw = {} if case["mode"] == "union" else {case["mode"]: True}
    rel = case["relation"]
    nv = case["nv"]
    o0, o1 = (_obs(p, nv, False) for p in pols)
    m = _matrix(o0, o1, kw)
    ctx.nontrivial(bool((m > 0).any()))
    ctx.label(rel)
    tol = 1e-5
    if rel == "symmetry":
        m2 = _matrix(o1, o0, kw).T
    elif rel == "self":
        m = _matrix(o0, o0, kw)
        ctx.nontrivial()
        assert np.allclose(np.diag(m), 1, atol=1e-9), "an eddy does not fully overlap itself"
        m2 = m.T
    elif rel == "reverse":
        m2 = _matrix(o0, _obs([(x[::-1], y[::-1]) for x, y in pols[1]], nv, False), kw)
    elif rel == "roll":
        m2 = _matrix(o0, _obs([(np.r_[np.roll(x[:-1], 1), x[-2]], np.r_[np.roll(y[:-1], 1), y[-2]]) for x, y in pols[1]], nv, False), kw)
    elif rel == "permute":
        p = gen.rng(case["seed"] + 1).permutation(len(o1))
        m2 = np.empty_like(m)
        m2[:, p] = _matrix(o0, o1.index(p), kw)
    else:
        m2 = _matrix(*(_obs([(x + 360, y) for x, y in p], nv, False) for p in pols), kw)
        tol = 5e-3
    assert np.allclose(m, m2, atol=tol), f"{rel}: scores changed\n{m}\n{m2}"


def strat_center():
    return st.fixed_dictionaries(
        dict(
            seed=gen.SEEDS,
            n0=st.integers(1, 8),
            n1=st.integers(1, 8),
            ref=st.sampled_from([0.0, 0.0, 180.0, 359.8, 90.0]),
            delta=st.sampled_from([0.1, 0.25, 1.0]),
            branch=st.sampled_from([0, 1, -1]),
        )
    )


def check_center(case, ctx):
    r = gen.rng(case["seed"])
    o0, o1 = gen.make_obs(case["n0"]), gen.make_obs(case["n1"])
    d = case["delta"]
    o0.obs["lon"] = (case["ref"] + r.uniform(-2 * d, 2 * d, case["n0"])) % 360
    o1.obs["lon"] = (case["ref"] + r.uniform(-2 * d, 2 * d, case["n1"])) % 360 + 360 * case["branch"]
    o0.obs["lat"] = 10 + r.uniform(-2 * d, 2 * d, case["n0"])
    o1.obs["lat"] = 10 + r.uniform(-2 * d, 2 * d, case["n1"])
    # at least one close pair keeps the compiled lists non empty
    o1.obs["lon"][0], o1.obs["lat"][0] = o0.obs["lon"][0], o0.obs["lat"][0]
    i, j, c = o0.match(o1, method="close_center", delta=d)
    got = set(zip(np.asarray(i).tolist(), np.asarray(j).tolist()))
    assert len(got) == len(i)
    assert (np.asarray(c) == 1).all()
    tol = 1e-4
    for a in range(len(o0)):
        for b in range(len(o1)):
            dx = abs(gen.wrap180(float(o1.lon[b]) - float(o0.lon[a])))
            dy = abs(float(o1.lat[b]) - float(o0.lat[a]))
            v = max(dx, dy)
            if v < d - tol:
                assert (a, b) in got, f"pair {(a, b)} at {dx},{dy} deg is missing"
                ctx.nontrivial(a + b > 0)
                if abs(float(o1.lon[b]) - float(o0.lon[a])) > 180:
                    ctx.label("across the seam")
            elif v > d + tol:
                assert (a, b) not in got, f"pair {(a, b)} at {dx},{dy} deg is reported"


def strat_polygons():
    return st.fixed_dictionaries(
        dict(
            seed=gen.SEEDS, ref=st.sampled_from([0.0, 10.0, 179.5, 359.9]), lat=st.sampled_from([0.0, 35.0, -60.0]), n0=st.integers(1, 3), n1=st.integers(1, 5), nv=st.integers(3, 14),
            branch0=st.just(0), branch1=st.just(0), minimal=st.booleans(), several=st.booleans(),
        )
    )


def check_polygons(case, ctx):
    """One polygon (maybe of several pieces) against a list of polygons"""
    from Polygon import Polygon

    from py_eddy_tracker.poly import create_vertice, polygon_overlap

    pols = _sets(case)
    p1 = [Polygon(create_vertice(x, y)) for x, y in pols[1]]
    for x, y in pols[0]:
        p0 = Polygon(create_vertice(x, y))
        if case["several"]:
            # a far piece, which nothing overlaps
            p0.addContour(create_vertice(x + 20, y))
        a = abs(gen.shoelace(x, y)) * (2 if case["several"] else 1)
        got = polygon_overlap(p0, p1, minimal_area=case["minimal"])
        assert len(got) == len(p1)
        for (x1, y1), v in zip(pols[1], got):
            i, b = gen.intersection_area(x, y, x1, y1), abs(gen.shoelace(x1, y1))
            e = i / (min(a, b) if case["minimal"] else a + b - i)
            assert abs(v - e) < 1e-5, ("polygon_overlap", v, e)
            ctx.nontrivial(1e-4 < e < 1 - 1e-4)


FACETS = [
    Facet("polygons", strat_polygons, check_polygons, quick=200, budget=40),
    Facet("scores_vs_exact_clip", strat_match, check_match, quick=500, budget=90),
    Facet("score_relations", strat_meta, check_meta, quick=500, budget=60),
    Facet("close_centers", strat_center, check_center, quick=400, budget=40),
]
