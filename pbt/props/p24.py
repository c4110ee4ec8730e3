"""Eddies in which the particles released in an eddy are found after their advection."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, netgen
from ..core import Facet

RULE = (
    "Cases are daily currents (still, uniform or variable, with or without undefined area, regional or global, in memory or in files) and eddies of some days (overlapping or not, days without eddy, speed and effective contours), with a mesh step and a forward or backward duration; "
    "a case is non-trivial when at least one eddy has a target and one particle is lost, or an eddy has two targets."
)
ASSUMPTIONS = [
    "The mesh of particles in a contour and the advection are taken from create_particles and GridCollection.advect, which P05 and P09 check on their own.",
    "Times are whole days, one current by day; contours stay on the branch of longitude of a regional grid.",
    "Cases where a particle is in two final contours, or within 1e-6 degree of the limit of one, are not judged.",
]
CONTOURS = ("e", "s")


def currents(case, r):
    """x, y and for each day u, v (m/s)"""
    step = 1.0
    if case["grid"] == "global":
        x, y = np.arange(0, 360, step), np.arange(18, 38, step)
    else:
        x, y = case["lon"] - 10 + np.arange(0, 20, step / 2), np.arange(18, 38, step / 2)
    out = []
    m = np.zeros((x.size, y.size), bool)
    if case["land"]:
        i = np.where((x - case["lon"] + r.uniform(-2, 2)) % 360 < 2)[0]
        m[np.ix_(i, np.arange(y.size // 3, 2 * y.size // 3))] = True
    a, b = r.uniform(-0.5, 0.5, 2)
    for day in range(case["days"]):
        if case["flow"] == "still":
            u, v = np.zeros(m.shape), np.zeros(m.shape)
        elif case["flow"] == "uniform":
            u, v = np.full(m.shape, a), np.full(m.shape, b)
        else:
            u, v = (k + r.uniform(-0.8, 0.8, m.shape) for k in (a, b))
        out.append(tuple(np.ma.array(np.where(m, 1e3, k), mask=m) for k in (u, v)))
    return x, y, out


def eddies(case, r):
    from py_eddy_tracker.observations.network import NetworkObservations

    days = []
    for day in range(case["days"]):
        nb = int(r.integers(case["max"] // 2 if case["tiles"] else 0, case["max"] + 1))
        if case["hole"] == day:
            nb = 0
        days += [day] * nb
    n = gen.make_obs(len(days), case["nv"], cls=NetworkObservations)
    n.obs["time"] = case["t0"] + np.array(days, "f8")
    n.obs["track"], n.obs["segment"] = 1, 1 + np.arange(len(days)) % 7
    cx, cy = case["lon"] + r.uniform(-case["room"], case["room"], len(days)), 28 + r.uniform(-case["room"], case["room"], len(days))
    n.obs["lon"], n.obs["lat"] = cx, cy
    n.obs["next_obs"] = n.obs["previous_obs"] = -1
    size = r.uniform(*case["size"], len(days))
    if case["tiles"]:
        # contours of a date side by side, moved from one date to the other
        size[:] = case["room"] / 2.4
        side = 2 * case["room"] / 2.4 * 1.21
        rank = dict()
        for i, day in enumerate(days):
            order, shift = rank.setdefault(day, (r.permutation(9).tolist(), r.uniform(-0.6, 0.6, 2)))
            k = order.pop()
            cx[i], cy[i] = case["lon"] + (k % 3 - 1 + shift[0]) * side, 28 + (k // 3 - 1 + shift[1]) * side
    elif case["apart"]:
        # contours of a date do not overlap
        for i, day in enumerate(days):
            for j in range(i):
                if days[j] == day and np.hypot(cx[i] - cx[j], cy[i] - cy[j]) < 1.25 * (size[i] + size[j]):
                    size[i] = max(0, min(size[i], np.hypot(cx[i] - cx[j], cy[i] - cy[j]) / 1.25 - size[j]))
        size = np.maximum(size, 0.01)
    branch = 360 * r.integers(-1, 2, len(days)) if case["grid"] == "global" else np.zeros(len(days))
    for i in range(len(days)):
        for s, f in zip(CONTOURS, (2.2, 1) if case["big"] else (1, 0.6)):
            px, py = gen.star(r, cx[i], cy[i], size[i] * f, size[i] * f * r.uniform(0.5, 1), case["nv"] - 1, 0.2, cw=r.uniform() < 0.5)
            n.obs["contour_lon_" + s][i], n.obs["contour_lat_" + s][i] = px + branch[i], py
    # not always by date
    if case["shuffle"]:
        n.obs[:] = n.obs[r.permutation(len(days))]
    n.sign_type = 1
    return n


def collection(x, y, flow, t0):
    from py_eddy_tracker.dataset.grid import GridCollection, RegularGridDataset

    c = GridCollection()
    for k, (u, v) in enumerate(flow):
        g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, u=u.copy(), v=v.copy()), centered=True)
        c.datasets.append((t0 + k, g))
    return c


class Unclear(Exception):
    pass


def owner(n, idx, s, px, py):
    """Contour which holds each particle, -1 for none"""
    out = np.full(px.size, -1)
    alive = np.where(~np.isnan(px) & ~np.isnan(py))[0]
    for k in idx if alive.size else []:
        cx, cy = (n.obs[f"contour_{d}_{s}"][k].astype("f8") for d in ("lon", "lat"))
        qx = gen.wrap180(px[alive] - cx[0]) + cx[0]
        inside, dist = gen.point_in(cx, cy, qx, py[alive])
        if (dist < 1e-6).any() or (out[alive[inside]] != -1).any():
            raise Unclear
        out[alive[inside]] = k
    return out


def reference(n, c, t, dt, step, s0, s1, ref, found):
    """Number of particles in each observation at date t + dt for the observations at date t"""
    start, end = np.where(n.obs["time"] == t)[0], np.where(n.obs["time"] == t + dt)[0]
    if not start.size or not end.size:
        return
    px, py, own = n.extract_with_mask(n.obs["time"] == t).create_particles(step, intern=s0 == "s")
    px, py, own = px.copy(), py.copy(), own.copy()
    if not px.size:
        return
    p = c.advect(px, py, u_name="u", v_name="v", t_init=t, nb_step=6, time_step=14400, backward=dt < 0)
    for _ in range(abs(dt)):
        _, px, py = p.__next__()
    to = owner(n, end, s1, px, py)
    for rank, k in enumerate(start):
        mine = to[own == rank]
        if not mine.size:
            continue
        count = dict((int(j), int((mine == j).sum())) for j in np.unique(mine[mine != -1]))
        ref[k] = count, mine.size
        found.append((len(count), (mine == -1).any()))


def empty(n):
    return np.full((len(n), 2), -1, "i4"), np.zeros((len(n), 2), "i1")


def compare(n, got, ref, what):
    targets, pct = (np.asarray(v) for v in got)
    assert targets.shape == pct.shape == (len(n), 2), "shape"
    for k in range(len(n)):
        count, total = ref.get(k, (dict(), 1))
        best = sorted(count.values(), reverse=True)[:2]
        i, p = targets[k].tolist(), pct[k].tolist()
        info = (what, k, n.obs["time"][k], i, p, count, total)
        exact = [100 * v / total for v in best] + [0.0] * (2 - len(best))
        assert all(v in (int(e - 1e-9), int(e + 1e-9)) for v, e in zip(p, exact)), ("percents", info)
        # equal numbers of particles: the order of the two eddies is free
        assert [count.get(j, 0) for j in i] == best + [0] * (2 - len(best)) and len(set(i)) == 2 or i == [-1, -1] and not best, ("targets", info)
        assert all(j == -1 or j in count for j in i), ("targets", info)


def finish(found, ctx):
    ctx.nontrivial(any(nb for nb, _ in found) and (any(lost for _, lost in found) or any(nb > 1 for nb, _ in found)))
    if any(nb > 1 for nb, _ in found):
        ctx.label("two targets")


def setup(case):
    case = dict(case, days=abs(case["dt"]) + 1 + case["more"])
    r = gen.rng(case["seed"])
    x, y, flow = currents(case, r)
    return case, x, y, flow, eddies(case, r)


def check_candidate(case, ctx):
    from py_eddy_tracker.observations.groups import particle_candidate

    case, x, y, flow, n = setup(case)
    c = collection(x, y, flow, case["t0"])
    dt = case["dt"]
    ref, found = dict(), []
    got = empty(n)
    try:
        for day in range(case["days"]):
            if not 0 <= day + dt < case["days"]:
                continue
            t = case["t0"] + day
            reference(n, c, t, dt, case["step"], case["start"], case["end"], ref, found)
            names = dict(s="speed", e="effective")
            particle_candidate(c, n, case["step"], t, *got, n_days=dt, contour_start=names[case["start"]], contour_end=names[case["end"]])
    except Unclear:
        ctx.label("not judged")
        return
    compare(n, got, ref, "particle_candidate")
    finish(found, ctx)


def check_atlas(case, ctx):
    case, x, y, flow, n = setup(case)
    c = collection(x, y, flow, case["t0"])
    dt = case["dt"]
    if not len(n):
        return
    p0, p1 = n.obs["time"].min(), n.obs["time"].max()
    ref, found = dict(), []
    try:
        for t in np.arange(p0, p1 + 1):
            if p0 <= t + dt <= p1:
                reference(n, c, t, dt, case["step"], case["start"], case["end"], ref, found)
    except Unclear:
        ctx.label("not judged")
        return
    got = n.particle_candidate_atlas(c, case["step"], dt, start_intern=case["start"] == "s", end_intern=case["end"] == "s", u_name="u", v_name="v")
    compare(n, got, ref, "particle_candidate_atlas")
    finish(found, ctx)


def linked(n, r):
    """Links along segments, and some merging and splitting; observations are sorted by segment and date."""
    last = 0
    for i in range(1, len(n)):
        # one observation by date in a segment
        a, b = n.obs[i - 1], n.obs[i]
        if b["segment"] == a["segment"] and b["time"] == a["time"]:
            last += 1
            b["segment"] = 100 + last
    n.obs.sort(order=["track", "segment", "time"])
    t, s = n.obs["time"], n.obs["segment"]
    same = s[1:] == s[:-1]
    i = np.arange(len(n))
    n.obs["next_obs"][:-1] = np.where(same, i[1:], -1)
    n.obs["previous_obs"][1:] = np.where(same, i[:-1], -1)
    for k in i:
        for f, sign in (("next_obs", 1), ("previous_obs", -1)):
            if n.obs[f][k] == -1 and r.uniform() < 0.5:
                others = i[(s != s[k]) & (sign * (t - t[k]) > 0)]
                if others.size:
                    n.obs[f][k] = r.choice(others)


def check_segment(case, ctx):
    from netCDF4 import Dataset

    case, x, y, flow, n = setup(case)
    if not len(n):
        return
    c = collection(x, y, flow, case["t0"])
    dt = abs(case["dt"])
    p0, p1 = n.obs["time"].min(), n.obs["time"].max()
    if p1 - p0 < dt:
        return
    full = case["mode"] == "analysis"
    if full:
        case = dict(case, start="s", end="s")
        n.obs.sort(order=["track", "segment", "time"])
        linked(n, gen.rng(case["seed"] + 7))
    # each way with its references
    refs, found = dict(), []
    try:
        for d in (dt, -dt):
            refs[d] = dict()
            for t in np.arange(p0, p1 + 1):
                if p0 <= t + d <= p1:
                    reference(n, c, t, d, case["step"], case["start"], case["end"], refs[d], found)
    except Unclear:
        ctx.label("not judged")
        return
    folder = tempfile.mkdtemp(prefix="p24-")
    try:
        for k, (u, v) in enumerate(flow):
            with Dataset(f"{folder}/{case['t0'] + k}.nc", "w") as h:
                h.createDimension("lon", x.size), h.createDimension("lat", y.size)
                h.createVariable("lon", "f8", ("lon",))[:] = x
                h.createVariable("lat", "f8", ("lat",))[:] = y
                for name, z in (("u", u), ("v", v)):
                    h.createVariable(name, "f8", ("lon", "lat"), fill_value=-9999.0)[:] = z
        names = dict(s="speed", e="effective")
        kw = dict(date_function=lambda t: f"{folder}/{int(t)}.nc", uv_params=dict(x_name="lon", y_name="lat"), n_days=dt, step_mesh=case["step"])
        if full:
            keep = n.obs.copy()
            way = case["way"]
            out = f"{folder}/out" if case["output"] else None
            options = bool(case["dead"] or case["dissociate"] or case["close"])
            other = n.copy()
            clean, res = n.analysis_coherence(advection_mode=way, output_name=out, remove_dead_end=case["dead"], dissociate_network=case["dissociate"], correct_close_events=case["close"], **kw)
            if options:
                # the same steps one by one
                if case["dissociate"]:
                    other.dissociate_network()
                if case["close"]:
                    other.correct_close_events(nb_days_max=case["close"])
                if case["dead"]:
                    other.remove_dead_end(nobs=0, ndays=case["dead"])
                other.numbering_segment()
                for f in n.fields:
                    assert np.array_equal(clean.obs[f], other.obs[f], equal_nan=keep[f].dtype.kind == "f"), ("network is not the prepared one", f)
                want = []
                if way != "backward":
                    want += other.segment_coherence_forward(**kw)
                if way != "forward":
                    want += other.segment_coherence_backward(**kw)
                assert len(want) == len(res) and all(np.array_equal(a, b) for a, b in zip(want, res)), "result on the prepared network"
                ctx.label("prepared network")
            # segments are numbered again, nothing else
            same = [f for f in n.fields if f != "segment"]
            if not options:
                assert len(clean) == len(keep) and all(np.array_equal(clean.obs[f], keep[f], equal_nan=keep[f].dtype.kind == "f") for f in same), "observations changed"
                got = dict(zip([dt, -dt] if way == "both" else [dt] if way == "forward" else [-dt], [res[k:k + 2] for k in range(0, len(res), 2)]))
                assert len(got) == len(res) // 2 and len(res) == (4 if way == "both" else 2)
                for d in got:
                    compare(n, got[d], refs[d], f"analysis_coherence {way} {d}")
            if out and way == "both":
                import zarr

                z = zarr.open(out + ".zarr", mode="r")
                for name, v in zip(("target_forward", "pct_forward", "target_backward", "pct_backward"), res):
                    assert np.array_equal(z[name][:], v), "stored " + name
                from py_eddy_tracker.observations.network import NetworkObservations

                saved = NetworkObservations.load_file(out + ".nc")
                assert len(saved) == len(clean) and np.array_equal(saved.obs["segment"], clean.obs["segment"]) and np.array_equal(saved.obs["time"], clean.obs["time"]), "saved network"
        else:
            kw.update(contour_start=names[case["start"]], contour_end=names[case["end"]])
            compare(n, n.segment_coherence_forward(**kw), refs[dt], "segment_coherence_forward")
            compare(n, n.segment_coherence_backward(**kw), refs[-dt], "segment_coherence_backward")
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    finish(found, ctx)


def check_prepared(case, ctx):
    """Analysis of a network prepared with options is the analysis of the network prepared step by step."""
    from netCDF4 import Dataset

    n = netgen.network(case["net"], sampling=8)
    if not len(n):
        return
    r = gen.rng(case["net"]["seed"] + 5)
    n.obs["lon"], n.obs["lat"] = r.uniform(12, 18, len(n)), r.uniform(22, 28, len(n))
    for i in range(len(n)):
        for s in CONTOURS:
            n.obs["contour_lon_" + s][i], n.obs["contour_lat_" + s][i] = gen.star(r, n.obs["lon"][i], n.obs["lat"][i], 0.8, 0.7, 7, 0.2)
    other = n.copy()
    folder = tempfile.mkdtemp(prefix="p24-")
    try:
        with Dataset(f"{folder}/a.nc", "w") as h:
            h.createDimension("lon", 41), h.createDimension("lat", 41)
            h.createVariable("lon", "f8", ("lon",))[:] = 10 + np.arange(41) / 4
            h.createVariable("lat", "f8", ("lat",))[:] = 20 + np.arange(41) / 4
            for name in "uv":
                h.createVariable(name, "f8", ("lon", "lat"), fill_value=-9999.0)[:] = r.uniform(-0.3, 0.3)
        kw = dict(date_function=lambda t: f"{folder}/a.nc", uv_params=dict(x_name="lon", y_name="lat"), n_days=1, step_mesh=0.5)
        before = n.obs.copy()
        clean, res = n.analysis_coherence(advection_mode=case["way"], remove_dead_end=case["dead"], dissociate_network=case["dissociate"], correct_close_events=case["close"], **kw)
        if case["dissociate"]:
            other.dissociate_network()
        if case["close"]:
            other.correct_close_events(nb_days_max=case["close"])
        if case["dead"]:
            other.remove_dead_end(nobs=0, ndays=case["dead"])
        ctx.nontrivial((other.obs != before).any())
        other.numbering_segment()
        assert clean.obs.tobytes() == other.obs.tobytes(), "network is not the prepared one"
        want = []
        if case["way"] != "backward":
            want += other.segment_coherence_forward(**kw)
        if case["way"] != "forward":
            want += other.segment_coherence_backward(**kw)
        assert len(want) == len(res) and all(np.array_equal(a, b) for a, b in zip(want, res)), "result on the prepared network"
    finally:
        shutil.rmtree(folder, ignore_errors=True)


NET = dict(netgen.NETWORK, style=st.sampled_from(["band", "band", "links"]), density=st.sampled_from([0.1, 0.3, 0.6]), days=st.sampled_from([5, 8, 12]), groups=st.integers(1, 2), n=st.integers(2, 3), step=st.just(1.0))
BASE = dict(
    seed=gen.SEEDS, grid=st.sampled_from(["region", "region", "global"]), lon=st.sampled_from([20.0, 0.0, -60.0, 179.5]), more=st.sampled_from([0, 0, 1, 3]), t0=st.sampled_from([20000, 0, 25000]), max=st.sampled_from([1, 4, 9, 9]), hole=st.sampled_from([None, None, 0, 1, 2]),
    nv=st.sampled_from([8, 20]), size=st.sampled_from([(0.6, 1.6), (0.3, 2.5), (0.1, 1.0)]), shuffle=st.booleans(), tiles=st.booleans(), big=st.booleans(), apart=st.sampled_from([True, True, True, False]), room=st.sampled_from([1.0, 2.0, 3.0]), flow=st.sampled_from(["still", "uniform", "variable"]), land=st.booleans(), step=st.sampled_from([0.1, 0.2, 0.35]),
    start=st.sampled_from(CONTOURS), end=st.sampled_from(CONTOURS), dt=st.sampled_from([1, 2, 3, -1, -2, -3]),
)
FACETS = [
    Facet("prepared", lambda: st.fixed_dictionaries(dict(net=st.fixed_dictionaries(NET), way=st.sampled_from(["forward", "backward", "both"]), dead=st.sampled_from([0, 0, 2, 3]), dissociate=st.booleans(), close=st.sampled_from([0, 2, 3, 10]))), check_prepared, quick=80, budget=60),
    Facet("candidate", lambda: st.fixed_dictionaries(BASE), check_candidate, quick=250, budget=60),
    Facet("atlas", lambda: st.fixed_dictionaries(BASE), check_atlas, quick=250, budget=60),
    Facet("segments", lambda: st.fixed_dictionaries(dict(BASE, mode=st.sampled_from(["segments", "analysis"]), way=st.sampled_from(["both", "both", "forward", "backward"]), output=st.booleans(), dead=st.sampled_from([0, 0, 2, 3]), dissociate=st.sampled_from([False, False, True]), close=st.sampled_from([0, 0, 2, 10]))), check_segment, quick=130, budget=60),
]
