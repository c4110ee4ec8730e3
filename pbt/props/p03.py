"""Association of detections between two dates."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, trk
from ..core import Facet

RULE = (
    "Cases are two sets of detections (0 to 12 each, date line, perturbed copies so that links compete) for the default, overlap and ellipse/ground trackers, or a random matrix of "
    "costs with forbidden links; a case is non-trivial when at least two allowed links compete for one detection."
)
ASSUMPTIONS = [
    "Expected associations are compared when no link is within 0.05 km (2e-3 of overlap, 1e-4 of ellipse or ratio) of the acceptance limit and competing costs differ by more than 1e-4 "
    "(5e-3 for overlap); a land barrier is judged when it is at least three pixels thick and the detections are at least two pixels away from it."
]


def one_to_one(i, j, allowed, n0, n1, maximal=True):
    assert len(i) == len(j)
    assert len(set(i.tolist())) == len(i), ("a detection of the first date is used twice", i)
    assert len(set(j.tolist())) == len(j), ("a detection of the second date is used twice", j)
    assert all(allowed[a, b] for a, b in zip(i, j)), "forbidden link"
    if maximal:
        fi, fj = np.ones(n0, bool), np.ones(n1, bool)
        fi[i], fj[j] = False, False
        assert not (allowed & fi[:, None] & fj).any(), "an allowed link is left between two free detections"


def strat_solve():
    return st.fixed_dictionaries(dict(seed=gen.SEEDS, n0=st.integers(1, 9), n1=st.integers(1, 9), p=st.sampled_from([0.1, 0.3, 0.6, 1.0]), ties=st.booleans()))


def check_solve(case, ctx):
    from py_eddy_tracker.observations.observation import EddiesObservations

    r = gen.rng(case["seed"])
    n0, n1 = case["n0"], case["n1"]
    allowed = r.uniform(0, 1, (n0, n1)) < case["p"]
    cost = r.uniform(0, 1, (n0, n1))
    if case["ties"]:
        cost = np.round(cost * 4) / 4
    cost = cost.astype("f4")
    mat = np.ma.array(cost.copy(), mask=~allowed)
    o = gen.make_obs(0)
    i, j = o.solve_function(mat)
    one_to_one(i, j, allowed, n0, n1)
    pairs = dict(zip(i.tolist(), j.tolist()))
    got = np.sort([float(cost[a, b]) for a, b in pairs.items()])
    # the retained link is never beaten by two free detections: stable for the cost
    back = {b: a for a, b in pairs.items()}
    for a in range(n0):
        for b in range(n1):
            if allowed[a, b] and pairs.get(a) != b:
                ca = cost[a, pairs[a]] if a in pairs else np.inf
                cb = cost[back[b], b] if b in back else np.inf
                assert min(ca, cb) <= cost[a, b], ("a cheaper link has been dropped", a, b)
    exp, tie = trk.greedy({(a, b): float(cost[a, b]) for a in range(n0) for b in range(n1) if allowed[a, b]}, 0)
    if not tie and not case["ties"]:
        assert exp == pairs, ("association", exp, pairs)
        assert np.array_equal(got, np.sort([float(cost[a, b]) for a, b in exp.items()]))
    ctx.nontrivial(allowed.sum() > len(exp))
    ctx.label("ties" if case["ties"] else "no tie")


PAIR = dict(
    seed=gen.SEEDS, n0=st.integers(0, 10), n1=st.integers(0, 10), spread=st.sampled_from([0.6, 1.5, 4.0]), lon=st.sampled_from([10.0, 0.0, 359.7, 180.1]),
    lat=st.sampled_from([0.0, 12.0, -35.0, 58.0, -17.0]), branch=st.integers(-1, 1), copies=st.booleans(),
)


def strat_pair():
    return st.fixed_dictionaries(dict(PAIR, algo=st.sampled_from(["default", "area"]), cmin=st.sampled_from([0.05, 0.2, 0.5])))


def sets(case, area, cls, kw=None):
    r = gen.rng(case["seed"])
    out = []
    prev = None
    for q, n in enumerate((case["n0"], case["n1"])):
        x, y = case["lon"] + r.uniform(-1, 1, n) * case["spread"], case["lat"] + r.uniform(-1, 1, n) * case["spread"]
        a, e = r.uniform(0.02, 0.2, n), r.uniform(3e4, 1.2e5, n)
        if q and case["copies"]:
            k = min(n, prev[0].size)
            x[:k], y[:k] = prev[0][:k] + r.normal(0, 0.15, k), prev[1][:k] + r.normal(0, 0.15, k)
            if case.get("west"):
                # moved near of the western limit of the ellipse
                x[:k] -= r.uniform(0.85, 1.6, k)
            a[:k], e[:k] = prev[2][:k] * r.uniform(0.7, 1.3, k), prev[3][:k] * r.uniform(0.7, 1.3, k)
        prev = x, y, a, e
        p = r.permutation(n)
        x, y, a, e = x[p], y[p], a[p], e[p]
        x = x + 360 * (case["branch"] if q else 0)
        o = cls(size=n, track_array_variables=9 if area else 0, array_variables=gen.CONTOURS if area else [], **(kw or {}))
        o.obs["lon"], o.obs["lat"], o.obs["amplitude"], o.obs["radius_s"], o.obs["radius_e"] = x, y, a, e, e * 1.1
        if area:
            t = np.linspace(0, 2 * np.pi, 9)
            for i in range(n):
                dr = e[i] * 1.2 / 111.2e3
                cx, cy = x[i] + dr / math.cos(math.radians(y[i])) * np.cos(t), y[i] + dr * np.sin(t)
                cx[-1], cy[-1] = cx[0], cy[0]
                o.obs["contour_lon_e"][i], o.obs["contour_lat_e"][i] = cx, cy
                # decoy
                o.obs["contour_lon_s"][i], o.obs["contour_lat_s"][i] = cx + 3, cy
        out.append(o)
    return out


def check_pair(case, ctx):
    from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker
    from py_eddy_tracker.observations.observation import EddiesObservations

    area = case["algo"] == "area"
    o0, o1 = sets(case, area, AreaTracker if area else EddiesObservations, dict(cmin=case["cmin"]) if area else None)
    n0, n1 = len(o0), len(o1)
    i, j, c = o0.tracking(o1)
    e0, e1 = [trk.entry(o0, k, area) for k in range(n0)], [trk.entry(o1, k, area) for k in range(n1)]
    costs, near = dict(), False
    for a in range(n0):
        for b in range(n1):
            v, lim = trk.link_cost(e0[a], e1[b], case["algo"], case["cmin"])
            near |= lim
            if v is not None:
                costs[a, b] = v
    if near:
        ctx.label("too close of the limit")
        return
    allowed = np.zeros((n0, n1), bool)
    for k in costs:
        allowed[k] = True
    one_to_one(i, j, allowed, n0, n1)
    tol = 5e-3 if area else 1e-4
    for a, b, v in zip(i, j, c):
        assert abs(v - costs[a, b]) < tol, ("cost", v, costs[a, b])
    exp, tie = trk.greedy(costs, tol)
    ctx.label(case["algo"])
    if tie:
        ctx.label("tie")
        return
    assert exp == dict(zip(i.tolist(), j.tolist())), ("association", exp, i, j)
    ctx.nontrivial(len(costs) > len(exp))


def strat_chelton():
    return st.fixed_dictionaries(dict(PAIR, n0=st.integers(1, 12), n1=st.integers(1, 12), copies=st.sampled_from([True, True, False]), spread=st.sampled_from([0.6, 1.2, 4.0]), west=st.booleans(), wall=st.sampled_from(["none", "full", "part"]), wlon=st.floats(-1, 1)))


def check_chelton(case, ctx):
    from py_eddy_tracker.dataset.grid import RegularGridDataset
    from py_eddy_tracker.featured_tracking.old_tracker_reference import CheltonTracker

    step = 0.1
    x, y = np.arange(0, 360, step), np.arange(-75, 75.01, step)
    mask = np.zeros((x.size, y.size), "f4")
    w = case["lon"] + case["wlon"]
    d = np.abs(gen.wrap180(x - w))
    iw = d < 1.6 * step
    top = case["lat"]
    jw = np.ones(y.size, bool) if case["wall"] == "full" else y > top
    if case["wall"] != "none":
        mask[np.ix_(iw, jw)] = 1

    class Tracker(CheltonTracker):
        __slots__ = ()
        GROUND = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, mask=np.ma.array(mask, mask=np.zeros(mask.shape, bool))), centered=True)

    o0, o1 = sets(case, False, Tracker)
    n0, n1 = len(o0), len(o1)
    if case["wall"] != "none":
        for o in (o0, o1):
            s = gen.wrap180(o.lon - w)
            k = np.abs(s) < 3.1 * step
            o.lon[k] += np.where(s[k] > 0, 3.1 * step, -3.1 * step) - s[k]
            k = np.abs(o.lat - top) < 2.1 * step
            o.lat[k] = top + 2.2 * step * np.sign(o.lat[k] - top + 1e-9)
    i, j, c = o0.tracking(o1)
    allowed, cost = np.zeros((n0, n1), bool), np.zeros((n0, n1))
    near = False
    for a in range(n0):
        x0, y0 = float(o0.lon[a]), float(o0.lat[a])
        al = abs(y0)
        west = 1.5 if al < 5 else 1.05 if al > 23 else 1.5 + (al - 5) / (23 - 5) * (1.05 - 1.5)
        for b in range(n1):
            x1, y1 = float(o1.lon[b]), float(o1.lat[b])
            dx, dy = gen.wrap180(x1 - x0), y1 - y0
            # ellipse from `west` degrees at the west to 1.05 degrees at the east
            cx, ax = (1.05 - west) / 2, (1.05 + west) / 2
            e = ((dx - cx) / ax) ** 2 + (dy / 1.05) ** 2
            ra, rr = o1.amplitude[b] / o0.amplitude[a], o1.radius_e[b] / o0.radius_e[a]
            ok = e < 1
            near |= abs(e - 1) < 1e-4
            for q in (ra, rr):
                near |= ok and (abs(q - 2.5) < 1e-4 or abs(q - 0.4) < 1e-4)
                ok = ok and 0.4 < q < 2.5
            cost[a, b] = trk.haversine_km(x0, y0, x1, y1)
            if ok and case["wall"] != "none":
                s0, s1 = gen.wrap180(x0 - w), gen.wrap180(x1 - w)
                m = 3 * step
                lo, hi = min(y0, y1), max(y0, y1)
                if case["wall"] == "part" and hi < top - 2 * step:
                    pass
                elif (s0 > m and s1 > m) or (s0 < -m and s1 < -m):
                    pass
                elif min(s0, s1) < -m and max(s0, s1) > m and (case["wall"] == "full" or lo > top + 2 * step):
                    ok = False
                    ctx.label("link refused by land")
                else:
                    near = True
            allowed[a, b] = ok
    if near:
        ctx.label("too close of a limit")
        return
    one_to_one(i, j, allowed, n0, n1, maximal=False)
    for a, b, v in zip(i, j, c):
        assert abs(v - cost[a, b]) < 1e-2, ("cost", v, cost[a, b])
    best = dict()
    for a in range(n0):
        k = np.where(allowed[a])[0]
        if k.size:
            q = k[np.argsort(cost[a, k])]
            if k.size > 1 and cost[a, q[1]] - cost[a, q[0]] < 1e-3:
                ctx.label("tie")
                return
            best.setdefault(int(q[0]), []).append(a)
    exp = {max(v, key=lambda a: o0.amplitude[a]): b for b, v in best.items()}
    assert exp == dict(zip(i.tolist(), j.tolist())), ("association", exp, i, j)
    ctx.nontrivial(allowed.sum() > len(exp))
    ctx.label("wall " + case["wall"])
    if any(len(v) > 1 for v in best.values()):
        ctx.label("two eddies for one")


def strat_common():
    return st.fixed_dictionaries(dict(PAIR, n0=st.integers(1, 6), intern=st.booleans(), branch_out=st.integers(-1, 1)))


def check_common(case, ctx):
    from py_eddy_tracker.observations.observation import EddiesObservations

    r = gen.rng(case["seed"])
    n = case["n0"]
    o = [gen.make_obs(n, 13), gen.make_obs(n, 13)]
    s = "s" if case["intern"] else "e"
    exp = []
    for k in range(n):
        x, y = gen.star(r, case["lon"] + r.uniform(-1, 1), case["lat"], r.uniform(0.3, 1.5), r.uniform(0.3, 1.5), 12, rough=0.2)
        mode = r.integers(0, 4)
        if mode == 0:
            x1, y1 = x.copy(), y.copy()
        elif mode == 1:
            x1, y1 = gen.star(r, case["lon"] + r.uniform(-1, 1), case["lat"] + 0.3, r.uniform(0.3, 1.5), r.uniform(0.3, 1.5), 12, rough=0.2)
        elif mode == 2:
            x1, y1 = x + r.uniform(-4, 4), y + r.uniform(-4, 4)
        else:
            cx, cy = x[:-1].mean(), y[:-1].mean()
            x1, y1 = cx + (x - cx) * 0.4, cy + (y - cy) * 0.4
        o[0].obs["contour_lon_" + s][k], o[0].obs["contour_lat_" + s][k] = x, y
        o[1].obs["contour_lon_" + s][k], o[1].obs["contour_lat_" + s][k] = x1 + 360 * case["branch_out"], y1
        a, b = o[0].obs["contour_lon_" + s][k].astype("f8"), o[1].obs["contour_lon_" + s][k].astype("f8")
        b = b + 360 * round((a[0] - b[0]) / 360)
        inter = gen.intersection_area(a, o[0].obs["contour_lat_" + s][k], b, o[1].obs["contour_lat_" + s][k])
        exp.append(1 - inter / min(abs(gen.shoelace(a, o[0].obs["contour_lat_" + s][k])), abs(gen.shoelace(b, o[1].obs["contour_lat_" + s][k]))))
    got = EddiesObservations.cost_function_common_area(o[0].obs, o[1].obs, np.zeros(n), intern=case["intern"])
    exp = np.array(exp)
    m = np.ma.getmaskarray(got)
    for k in range(n):
        v = 1.0 if m[k] else float(got[k])
        assert abs(v - exp[k]) < 2e-3, ("cost of common area", k, v, exp[k])
    ctx.nontrivial(bool(((exp > 1e-3) & (exp < 1 - 1e-3)).any()))
    ctx.label("other branch" if case["branch_out"] else "same branch")


FACETS = [
    Facet("solve", strat_solve, check_solve, quick=1500, budget=60),
    Facet("tracking", strat_pair, check_pair, quick=500, budget=80),
    Facet("ellipse_and_ground", strat_chelton, check_chelton, quick=300, budget=80),
    Facet("common_area_cost", strat_common, check_common, quick=300, budget=60),
]
