"""Lagrangian advection."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet
from .p06 import GRID, build

RULE = (
    "Cases are current fields (single grids or time series of grids, global or regional, masked, in memory or lazily read from NetCDF) with random particles; "
    "a case is non-trivial when at least one particle moves through at least one valid step."
)
ASSUMPTIONS = [
    "Time series: the release interval divides the spacing of the datasets and starting times are on this lattice; the run stays inside the period of the series; "
    "all datasets share one grid. Particles which come within 1e-6 cell of a cell border are not judged on validity."
]
R_EARTH = 6370997.0


def fields(case):
    """Random current which moves a particle by about `cells` cells in one time step."""
    coef = step_of(case) * 180 / np.pi / R_EARTH * case.get("factor", 1)
    umax = case["cells"] * case["step"] / coef

    def field(name, x, y, r):
        a, k, l = r.uniform(-0.4, 0.4), r.integers(1, 4), r.integers(1, 4)
        p, q = r.uniform(0, 6, 2)
        nx, ny = np.arange(x.size) * 2 * np.pi / x.size, np.arange(y.size) / 5
        s = np.sin(k * nx + p)[:, None] * np.cos(l * ny + q)
        z = a + 0.5 * s + 0.15 * r.uniform(-1, 1, (x.size, y.size))
        return umax * z * (np.cos(np.radians(y)) if name == "u" else 1)

    return field


def step_of(case):
    return case["time_step"] if "time_step" in case else 86400 // case["k"] // case["nb_step"]


def ref_uv(x, y, u, v, m, px, py, circular, eps):
    """Bilinear u, v (degrees by step), invalid flag and ambiguous flag."""
    su, sv = (px - x[0]) / (x[1] - x[0]), (py - y[0]) / (y[1] - y[0])
    nan = np.isnan(su) | np.isnan(sv)
    su, sv = np.where(nan, 0, su), np.where(nan, 0, sv)
    big = (np.abs(su) > 1e7) | (np.abs(sv) > 1e7)
    su, sv = np.where(big, -5, su), np.where(big, -5, sv)
    i, j = np.floor(su).astype(int), np.floor(sv).astype(int)
    xd, yd = su - i, sv - j
    amb = (xd < eps) | (xd > 1 - eps) | (yd < eps) | (yd > 1 - eps)
    i1, j1 = i + 1, j + 1
    if circular:
        i, i1 = i % x.size, i1 % x.size
    out = nan | big | (i < 0) | (i1 >= x.size) | (j < 0) | (j1 >= y.size)
    i, i1, j, j1 = (np.where(out, 0, k) for k in (i, i1, j, j1))
    bad = out | m[i, j] | m[i1, j] | m[i, j1] | m[i1, j1]

    def itp(z):
        return (z[i, j] * (1 - xd) + z[i1, j] * xd) * (1 - yd) + (z[i, j1] * (1 - xd) + z[i1, j1] * xd) * yd

    return itp(u), itp(v), bad, amb


class RefModel:
    """Particles advected one step after the other with numpy."""

    def __init__(self, x, y, circular, px, py, rk4, f4):
        self.f4, self.eps = f4, 1e-3 if f4 else 1e-6
        self.x, self.y, self.circular, self.rk4 = x, y, circular, rk4
        self.px, self.py = px.astype("f8").copy(), py.astype("f8").copy()
        self.dead = np.isnan(self.px) | np.isnan(self.py)
        self.amb = np.zeros(px.shape, bool)
        self.moved = np.zeros(px.shape, bool)

    def step(self, field):
        """field(tau) with tau in 0, .5, 1 gives u, v, m"""
        dead = self.dead.copy()

        def get(px, py, tau):
            u, v, bad, amb = ref_uv(self.x, self.y, *field(tau), px, py, self.circular, self.eps)
            live = ~(dead | new_dead)
            self.amb |= amb & live
            np.logical_or(new_dead, bad & live, out=new_dead)
            return np.where(bad, 0, u), np.where(bad, 0, v)

        new_dead = np.zeros(dead.shape, bool)
        px, py = self.px, self.py
        u1, v1 = get(px, py, 0)
        if self.rk4:
            u2, v2 = get(px + u1 / 2, py + v1 / 2, 0.5)
            u3, v3 = get(px + u2 / 2, py + v2 / 2, 0.5)
            u4, v4 = get(px + u3, py + v3, 1)
            du, dv = (u1 + 2 * u2 + 2 * u3 + u4) / 6, (v1 + 2 * v2 + 2 * v3 + v4) / 6
        else:
            du, dv = u1, v1
        live = ~(dead | new_dead)
        self.px, self.py = np.where(live, px + du, px), np.where(live, py + dv, py)
        self.moved |= live
        # a particle on the way to die has no more position
        self.px[new_dead], self.py[new_dead] = np.nan, np.nan
        self.dead |= new_dead

    def compare(self, gx, gy, tol, what):
        ok = ~self.amb
        gn, en = np.isnan(gx) | np.isnan(gy), np.isnan(self.px) | np.isnan(self.py)
        bad = ok & (gn != en)
        assert not bad.any(), (what, "validity", int(np.where(bad)[0][0]), gx[bad][0], gy[bad][0], self.px[bad][0], self.py[bad][0])
        c = ~gn & ~en
        e = np.maximum(np.abs(gx - self.px), np.abs(gy - self.py))
        bad = c & (e > tol)
        assert not bad.any(), (what, "position", int(np.where(bad)[0][0]), gx[bad][0], gy[bad][0], self.px[bad][0], self.py[bad][0])


def degrees(u, v, y, time_step, factor, backward, dtype):
    coef = time_step * 180 / np.pi / R_EARTH * factor * (-1 if backward else 1)
    return u.astype("f8") * coef / np.cos(np.radians(y)), v.astype("f8") * coef


def shear(ud, vd, m, x, y):
    """Amplification of a difference of position by one step."""
    s = x[1] - x[0]
    d = [np.abs(np.diff(k, axis=a)).max(initial=0) / s for k in (np.where(m, 0, ud), np.where(m, 0, vd)) for a in (0, 1)]
    return float(np.exp(2 * max(d)))


def particles(case, r, x, y):
    n = case["npt"]
    sx, sy = x[1] - x[0], y[1] - y[0]
    circular = case["kind"] == "global"
    px = r.uniform(x[0] - (0.5 if not circular else 300) * sx, x[-1] + 0.5 * sx, n)
    py = r.uniform(y[0] - 0.7 * sy, y[-1] + 0.7 * sy, n)
    k = r.integers(0, 10, n)
    # clusters in the same cell, next to date line/edge, undefined particles
    px[1:] = np.where(k[1:] < 3, px[:-1] + 0.01 * sx, px[1:])
    py[1:] = np.where(k[1:] < 3, py[:-1], py[1:])
    px = np.where(k == 3, x[0] - r.uniform(-0.4, 0.4, n) * sx, px)
    py = np.where(k == 5, y[0] - r.uniform(-0.4, 0.4, n) * sy, py)
    px = np.where(k == 4, np.nan, px)
    return px, py


BASE = dict(
    GRID,
    y0=st.sampled_from([-20.0, 35.125, -70.25]),
    npt=st.sampled_from([1, 8, 40]),
    cells=st.sampled_from([0.05, 0.3, 1.0, 3.0]),
    rk4=st.sampled_from([True, True, False]),
    backward=st.booleans(),
)


def strat_static():
    return st.fixed_dictionaries(
        dict(
            BASE, time_step=st.sampled_from([600, 3600, 21600, 86400]), nb_step=st.integers(1, 6), calls=st.integers(1, 3),
            factor=st.sampled_from([1, 1, 0.5, 3]), as_name=st.booleans(),
        )
    )


def setup(case):
    g, x, y, data, r = build(case, ("u", "v"), fields(case))
    u, v = data["u"].data, data["v"].data
    m = np.ma.getmaskarray(data["u"]) | np.ma.getmaskarray(data["v"])
    px, py = particles(case, r, x, y)
    return g, x, y, u, v, m, px, py, r


def check_static(case, ctx):
    g, x, y, u, v, m, px, py, r = setup(case)
    circular = case["kind"] == "global"
    assert g.is_circular() == circular
    names = ("u", "v") if case["as_name"] else (g.grid("u"), g.grid("v"))
    kw = dict(time_step=case["time_step"], factor=case["factor"], backward=case["backward"])
    ud, vd = degrees(u, v, y, case["time_step"], case["factor"], case["backward"], case["dtype"])
    tol = 1e-11 if case["dtype"] == "f8" else 3e-6
    ref = RefModel(x, y, circular, px, py, case["rk4"], case["dtype"] == "f4")
    gx, gy = px.copy(), py.copy()
    p = g.advect(gx, gy, *names, nb_step=case["nb_step"], rk4=case["rk4"], **kw)
    amp = shear(ud, vd, m, x, y)
    nsteps = 0
    for _ in range(case["calls"]):
        ox, oy = p.__next__()
        assert ox is gx and oy is gy, "positions have to be updated in place"
        for _ in range(case["nb_step"]):
            ref.step(lambda tau: (ud, vd, m))
            nsteps += 1
        lim = tol * amp**nsteps
        if lim > ref.eps * (x[1] - x[0]):
            # rounding too much amplified by the shear
            ctx.label("too much shear")
            break
        ref.compare(gx, gy, lim, "advect")
    # fields are not modified by the computation
    g2u = g.grid("u")
    assert np.array_equal(np.ma.getmaskarray(g2u), np.ma.getmaskarray(g.grid("u")))
    c = ~np.ma.getmaskarray(g2u)
    assert np.array_equal(g2u.data[c], u[c]), "the current field has been changed by the advection"
    ctx.nontrivial(bool(ref.moved.any()))
    ctx.label(case["kind"], "rk4" if case["rk4"] else "euler", "backward" if case["backward"] else "forward", "mask " + case["mask"])
    if (ref.dead & ref.moved).any():
        ctx.label("particle lost on the way")


def check_relations(case, ctx):
    g, x, y, u, v, m, px, py, r = setup(case)
    kw = dict(time_step=case["time_step"], factor=case["factor"], rk4=case["rk4"])
    nb, calls = case["nb_step"], case["calls"]
    bw = case["backward"]

    def run(x_, y_, nb_step, n, u="u", v="v", **k):
        x_, y_ = x_.copy(), y_.copy()
        p = g.advect(x_, y_, u, v, nb_step=nb_step, **dict(kw, **k))
        for _ in range(n):
            p.__next__()
        return x_, y_

    def same(a, b, what, tol=0.0):
        for p, q in zip(a, b):
            n0, n1 = np.isnan(p), np.isnan(q)
            assert np.array_equal(n0, n1), (what, "validity", p, q)
            assert np.all(np.abs(p[~n0] - q[~n0]) <= tol), (what, np.abs(p[~n0] - q[~n0]).max())

    base = run(px, py, nb, calls, backward=bw)
    same(run(px, py, 1, nb * calls, backward=bw), base, "one step by call")
    same(run(px, py, nb * calls, 1, backward=bw), base, "all steps in one call")
    half = run(*run(px, py, nb, 1, backward=bw), nb, calls - 1, backward=bw)
    same(half, base, "restart from intermediate positions")
    o = r.permutation(px.size)
    perm = run(px[o], py[o], nb, calls, backward=bw)
    same(perm, (base[0][o], base[1][o]), "order of particles")
    sel = r.integers(0, 2, px.size) == 0
    sub = run(px[sel], py[sel], nb, calls, backward=bw)
    same(sub, (base[0][sel], base[1][sel]), "other particles")
    # not the same memory layout: rounding may differ and is amplified by the shear
    ud, vd = degrees(u, v, y, case["time_step"], case["factor"], bw, None)
    lim = (1e-11 if case["dtype"] == "f8" else 3e-6) * shear(ud, vd, m, x, y) ** (nb * calls)
    if lim < 1e-5:
        rev = run(px, py, nb, calls, u=-g.grid("u"), v=-g.grid("v"), backward=not bw)
        same(rev, base, "backward is forward with opposite current", lim)
    # filament is the history of the advection
    size = 1 + case["seed"] % 4
    # a line of one particle: nan, newest, ..., oldest
    f = g.filament(px, py, "u", "v", nb_step=nb, filament_size=size, backward=bw, **kw)
    hist = [(px.copy(), py.copy())]
    cx, cy = px.copy(), py.copy()
    p = g.advect(cx, cy, "u", "v", nb_step=nb, backward=bw, **kw)
    for k in range(calls + 1):
        fx, fy = f.__next__()
        p.__next__()
        hist.insert(0, (cx.copy(), cy.copy()))
        X, Y = fx.reshape(px.size, size + 1), fy.reshape(px.size, size + 1)
        assert np.isnan(X[:, -1]).all() and np.isnan(Y[:, -1]).all(), "filaments must be separated"
        for q in range(size):
            if q < len(hist):
                ex, ey = hist[q]
                same((X[:, q], Y[:, q]), (ex.astype("f4"), ey.astype("f4")), "filament", 0)
            else:
                assert np.isnan(X[:, q]).all(), "filament older than start"
    ok = ~np.isnan(base[0])
    ctx.nontrivial(bool(ok.any()))
    ctx.label(case["kind"], "rk4" if case["rk4"] else "euler")
    if (~ok & ~np.isnan(px)).any():
        ctx.label("particle lost on the way")


def strat_series():
    return st.fixed_dictionaries(
        dict(
            BASE, k=st.sampled_from([1, 2, 4, 8]), nb_step=st.sampled_from([1, 2, 3, 6]), nds=st.integers(2, 4), gaps=st.lists(st.sampled_from([1, 1, 2]), min_size=3, max_size=3),
            start=st.integers(0, 11), calls=st.integers(1, 6), t0=st.sampled_from([20000, 20454, 0]), mode=st.sampled_from(["advect", "advect", "path", "filament"]),
            reset=st.sampled_from([None, 0, 1]), cube=st.booleans(), premask=st.booleans(),
        )
    )


def collection(case):
    from netCDF4 import Dataset

    from py_eddy_tracker.dataset.grid import GridCollection

    times = [case["t0"]]
    for q in range(case["nds"] - 1):
        times.append(times[-1] + case["gaps"][q])
    c = GridCollection()
    sets = []
    for q, t in enumerate(times):
        g, x, y, data, r = build(dict(case, seed=(case["seed"] + 7919 * q) % 2**32, source="array" if case["cube"] else case["source"]), ("u", "v"), fields(case))
        m = np.ma.getmaskarray(data["u"]) | np.ma.getmaskarray(data["v"])
        sets.append((t, data, m))
        if not case["cube"]:
            c.datasets.append((t, g))
    fn = None
    if case["cube"]:
        fd, fn = tempfile.mkstemp(suffix=".nc")
        os.close(fd)
        with Dataset(fn, "w") as h:
            h.createDimension("time", len(times)), h.createDimension("lon", x.size), h.createDimension("lat", y.size)
            h.createVariable("time", "f8", ("time",))[:] = times
            h.createVariable("lon", "f8", ("lon",))[:] = x
            h.createVariable("lat", "f8", ("lat",))[:] = y
            for k in ("u", "v"):
                var = h.createVariable(k, case["dtype"], ("time", "lat", "lon"), fill_value=-9999.0)
                for q, (_, data, _m) in enumerate(sets):
                    var[q] = data[k].T
        c = GridCollection.from_netcdf_cube(fn, "lon", "lat", "time", unset=True)
    return c, times, sets, x, y, r, fn


def check_series(case, ctx):
    c, times, sets, x, y, r, fn = collection(case)
    try:
        _series(case, ctx, c, times, sets, x, y, r)
    finally:
        if fn:
            os.unlink(fn)


def _series(case, ctx, c, times, sets, x, y, r):
    circular = case["kind"] == "global"
    px, py = particles(case, r, x, y)
    k, nb, bw = case["k"], case["nb_step"], case["backward"]
    release = 86400 // k
    time_step = release // nb
    span = (times[-1] - times[0]) * k
    a = case["start"] % span
    calls = min(case["calls"], span - a)
    t_init = times[-1] - a / k if bw else times[0] + a / k
    tol = 1e-11 if case["dtype"] == "f8" else 3e-6
    deg = [(t * 86400.0, *degrees(d["u"].data, d["v"].data, y, time_step, 1, bw, None), m) for t, d, m in sets]
    sgn = -1 if bw else 1

    def bracket(t_mid):
        for p, q in zip(deg[:-1], deg[1:]):
            if p[0] <= t_mid <= q[0]:
                return p, q

    ref = RefModel(x, y, circular, px, py, case["rk4"], case["dtype"] == "f4")
    kw = dict(t_init=t_init, nb_step=nb, time_step=time_step, rk4=case["rk4"], backward=bw, u_name="u", v_name="v")
    gx, gy = px.copy(), py.copy()
    still = None
    if case["mode"] == "advect":
        mp = None
        if case["premask"]:
            mp = r.integers(0, 4, px.size) == 0
            still = mp.copy()
            ref.dead |= mp
            kw["mask_particule"] = mp
        p = c.advect(gx, gy, reset_grid=case["reset"] if case["cube"] else None, **kw)
    elif case["mode"] == "filament":
        size = 2
        p = c.filament(gx, gy, filament_size=size, **kw)
    else:
        pt, pxx, pyy = c.path(gx, gy, nb_time=calls, **kw)
        assert pt[0] == t_init * 86400, ("time of start", pt[0], t_init * 86400)
        ref.compare(pxx[0], pyy[0], 0, "path start") if not np.isnan(px).any() else None
    amp = max(shear(d[1], d[2], d[3], x, y) for d in deg)
    t = t_init * 86400.0
    nsteps = 0
    old = px, py
    switched = False
    last = None
    for call in range(calls):
        for _ in range(nb):
            p0, p1 = bracket(t + sgn * time_step / 2)
            switched |= last is not None and last is not p0
            last = p0

            def field(tau, t=t, p0=p0, p1=p1):
                w = (t + sgn * tau * time_step - p0[0]) / (p1[0] - p0[0])
                return p0[1] * (1 - w) + p1[1] * w, p0[2] * (1 - w) + p1[2] * w, p0[3] | p1[3]

            ref.step(field)
            t += sgn * time_step
            nsteps += 1
        lim = tol * amp**nsteps
        if lim > ref.eps * (x[1] - x[0]):
            ctx.label("too much shear")
            break
        if case["mode"] == "path":
            tt, ox, oy = pt[call + 1], pxx[call + 1], pyy[call + 1]
        elif case["mode"] == "filament":
            tt, fx, fy = p.__next__()
            ox, oy = fx[:: size + 1].astype("f8"), fy[:: size + 1].astype("f8")
            lim += 5e-5
            e0 = old[0].astype("f4")
            n = np.isnan(e0)
            same = np.array_equal(fx[1 :: size + 1], e0, equal_nan=True) if call == 0 else np.allclose(fx[1 :: size + 1][~n & ~ref.amb], e0[~n & ~ref.amb], atol=lim)
            assert same, ("second point of filaments is not previous position", fx[1 :: size + 1], e0)
            assert np.isnan(fx[size :: size + 1]).all()
        else:
            tt, ox, oy = p.__next__()
        assert abs(tt - t) < 1e-3, ("time", tt, t)
        if still is not None:
            keep = still & ~np.isnan(px)
            assert np.array_equal(ox[still], px[still], equal_nan=True) and np.array_equal(oy[still], py[still], equal_nan=True), "masked particles moved"
        ref.compare(np.where(still, np.nan, ox) if still is not None else ox, oy, lim, case["mode"]) if still is None else _cmp_sel(ref, ox, oy, lim, ~still)
        old = ref.px.copy(), ref.py.copy()
    ctx.nontrivial(bool(ref.moved.any()))
    ctx.label(case["kind"], case["mode"], "rk4" if case["rk4"] else "euler", "backward" if bw else "forward", "cube file" if case["cube"] else "in memory")
    if a % k:
        ctx.label("start between two datasets")
    if switched:
        ctx.label("dataset switch")
    if case["mode"] == "path":
        assert np.array_equal(gx, px, equal_nan=True), "path must not move the given particles"


def _cmp_sel(ref, ox, oy, lim, sel):
    sub = RefModel(ref.x, ref.y, ref.circular, ref.px[sel], ref.py[sel], ref.rk4, ref.f4)
    sub.amb = ref.amb[sel]
    sub.compare(ox[sel], oy[sel], lim, "advect")


FACETS = [
    Facet("advect_vs_reference", strat_static, check_static, quick=400, budget=100),
    Facet("advect_relations", strat_static, check_relations, quick=250, budget=100),
    Facet("time_series", strat_series, check_series, quick=400, budget=100),
]
