"""Height fields and an independent eddy identification."""
from datetime import datetime
import math

import numpy as np
import pint
from hypothesis import strategies as st

from . import gen

# parsing of the units takes longer than the identification of these small grids
_UNITS = pint.UnitRegistry()
pint.UnitRegistry = lambda *args, **kwargs: _UNITS

R_EARTH = 6370997.0
DATE = datetime(2003, 5, 17)

FIELD = dict(
    seed=gen.SEEDS,
    kind=st.sampled_from(["regional", "regional", "global"]),
    lat=st.sampled_from([-42.0, 25.0, -12.0, 50.0]),
    lon=st.sampled_from([0.0, -180.0, 350.3, 17.2]),
    bumps=st.integers(4, 16),
    noise=st.sampled_from([0.0, 0.0, 0.004, 0.015]),
    land=st.sampled_from(["none", "scalar", "block", "islands"]),
    step=st.sampled_from([0.01, 0.02, 0.005]),
)


def field(case, no_mask_scalar=False):
    """x, y, h, mask, u, v (float64)."""
    r = gen.rng(case["seed"])
    if case["kind"] == "global":
        x = case["lon"] + np.arange(90) * 4.0
        y = case["lat"] / 2 + np.arange(30) * 1.0 - 15
        sx, sy = 9.0, 4.0
    else:
        x = case["lon"] + np.arange(44) * 0.25
        y = case["lat"] + np.arange(34) * 0.25
        sx, sy = 1.2, 1.0
    X, Y = np.meshgrid(x, y, indexing="ij")

    def bumps(n, amp, k=1.0):
        z = np.zeros(X.shape)
        for _ in range(n):
            cx, cy = (x[0] + r.uniform(-12, 12) if case["kind"] == "global" and r.uniform() < 0.3 else r.uniform(x[0], x[-1])), r.uniform(y[1], y[-2])
            ax, ay, rot = sx * r.uniform(0.4, 1.3) * k, sy * r.uniform(0.4, 1.3) * k, r.uniform(-0.5, 0.5)
            dx = X - cx
            if case["kind"] == "global":
                dx = gen.wrap180(dx)
            dx, dy = dx / ax, (Y - cy) / ay
            dx, dy = dx * math.cos(rot) + dy * math.sin(rot), dy * math.cos(rot) - dx * math.sin(rot)
            z += r.choice([-1, 1]) * amp * r.uniform(0.2, 1) * np.exp(-(dx**2 + dy**2))
        return z

    h = bumps(case["bumps"] * (3 if case["kind"] == "global" else 1), 12 * case["step"]) + case["noise"] * r.uniform(-1, 1, X.shape)
    # avoids values shared by two pixels or by a pixel and a level
    h += r.uniform(-1e-6, 1e-6, X.shape) + 0.3 * case["step"]
    if case.get("plateau"):
        # areas of equal height, never on a level
        p = case["plateau"] * case["step"]
        h = np.round(h / p) * p + 0.3035 * case["step"]
    if case.get("flat"):
        # extrema replaced by flat areas of any shape, with holes and branches
        for _ in range(case["flat"]):
            i, j = int(r.integers(3, x.size - 3)), int(r.integers(3, y.size - 3))
            s = float(r.choice([-1, 1]))
            while True:
                # climbs to the top
                w = s * h[i - 1 : i + 2, j - 1 : j + 2]
                a, b = np.unravel_index(int(w.argmax()), (3, 3))
                if (a, b) == (1, 1) or not (2 < i + a - 1 < x.size - 3 and 2 < j + b - 1 < y.size - 3) or w[a, b] == w[1, 1]:
                    break
                i, j = i + int(a) - 1, j + int(b) - 1
            cells = [(i, j)]
            for _ in range(int(r.integers(2, 16))):
                a, b = cells[int(r.integers(len(cells)))] if r.uniform() < 0.6 else cells[-1]
                q = [(a + 1, b), (a - 1, b), (a, b + 1), (a, b - 1)][int(r.integers(4))]
                # not too many neighbours, to have branches instead of a disc
                if q not in cells and 2 < q[0] < x.size - 3 and 2 < q[1] < y.size - 3 and sum(abs(q[0] - c[0]) + abs(q[1] - c[1]) == 1 for c in cells) <= (1 if r.uniform() < 0.7 else 4):
                    cells.append(q)
            top = max(s * h[c] for c in cells) + r.uniform(0.05, 0.6) * case["step"]
            for c in cells:
                h[c] = s * top
    k = np.deg2rad(7 if case["kind"] == "global" else 70)
    p0, p1 = r.uniform(0, 6, 2)
    u = 0.3 * bumps(6, 1.0) + 0.1 * np.sin(k * X + p0) + 0.05
    v = 0.3 * bumps(6, 1.0) + 0.1 * np.sin(k * Y + p1) * np.cos(k * X)
    m = np.zeros(X.shape, bool)
    if case["land"] == "block":
        i, j = r.integers(0, x.size), r.integers(0, y.size)
        m[i : i + x.size // 5, j : j + y.size // 4] = True
    elif case["land"] == "islands":
        m = r.uniform(0, 1, X.shape) < 0.004
    return x, y, h, m, u, v


def make_grid(case, x, y, h, m, u, v, dtype="f8", units="m", speed_units="m/s"):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    def arr(a):
        a = np.asarray(a).astype(dtype)
        return np.ma.array(a) if case["land"] == "scalar" else np.ma.array(a, mask=m.copy())

    return RegularGridDataset.with_array(
        ("lon", "lat"), dict(lon=x, lat=y, h=arr(h), u=arr(u), v=arr(v)),
        variables_description=dict(h=dict(units=units), u=dict(units=speed_units), v=dict(units=speed_units)), centered=True,
    )


# ---- geometry --------------------------------------------------------------


def to_local(lon, lat, lon0, lat0):
    """Azimuthal equidistant projection (m)."""
    d = np.pi / 180
    l, p, p0 = (lon - lon0) * d, lat * d, lat0 * d
    X, Y, Z = np.cos(p) * np.sin(l), np.cos(p0) * np.sin(p) - np.sin(p0) * np.cos(p) * np.cos(l), np.sin(p0) * np.sin(p) + np.cos(p0) * np.cos(p) * np.cos(l)
    n = np.hypot(X, Y)
    c = np.arctan2(n, Z) * R_EARTH
    k = np.where(n > 0, c / np.where(n > 0, n, 1), R_EARTH)
    return X * k, Y * k


def from_local(x, y, lon0, lat0):
    c = math.hypot(x, y) / R_EARTH
    p0 = math.radians(lat0)
    a = math.atan2(x, y)
    lat = math.asin(math.sin(p0) * math.cos(c) + math.cos(p0) * math.sin(c) * math.cos(a))
    lon = math.atan2(math.sin(a) * math.sin(c) * math.cos(p0), math.cos(c) - math.sin(p0) * math.sin(lat))
    return lon0 + math.degrees(lon), math.degrees(lat)


def circle(x, y):
    """Algebraic least squares circle of a closed line, and the shape error in percent."""
    px, py = x[1:], y[1:]
    mx, my = px.mean(), py.mean()
    s = max(np.abs(px - mx).max(), np.abs(py - my).max())
    a = np.c_[2 * (px - mx) / s, 2 * (py - my) / s, np.ones(px.size)]
    q = np.linalg.lstsq(a, ((px - mx) / s) ** 2 + ((py - my) / s) ** 2, rcond=None)[0]
    rad = math.sqrt(q[2] + q[0] ** 2 + q[1] ** 2) * s
    x0, y0 = q[0] * s + mx, q[1] * s + my
    # part of the polygon in the circle
    d = np.hypot(x - x0, y - y0)
    k = np.minimum(1, rad / np.where(d > 0, d, 1))
    area, inter = abs(gen.shoelace(x, y)), abs(gen.shoelace(x0 + (x - x0) * k, y0 + (y - y0) * k))
    c = math.pi * rad**2
    return x0, y0, rad, 100 * (c + area - 2 * inter) / c


def circle_geo(lon, lat):
    lon0, lat0 = lon[1:].mean(), lat[1:].mean()
    x0, y0, rad, err = circle(*to_local(lon, lat, lon0, lat0))
    clon, clat = from_local(x0, y0, lon0, lat0)
    return clon, clat, rad, err


def resample(lon, lat, n):
    d = np.pi / 180
    h = np.sin((lat[1:] - lat[:-1]) / 2 * d) ** 2 + np.cos(lat[1:] * d) * np.cos(lat[:-1] * d) * np.sin((lon[1:] - lon[:-1]) / 2 * d) ** 2
    s = np.maximum(2 * 6370997.0 * np.arcsin(np.sqrt(h)), 1e-3)
    s = np.r_[0, s.cumsum()]
    t = np.linspace(0, s[-1], n)
    return np.interp(t, s, lon), np.interp(t, s, lat)


def bilinear(x, y, z, px, py, wrap):
    """nan out of the grid or when one of the four cells is nan."""
    sx, sy = x[1] - x[0], y[1] - y[0]
    fx, fy = (px - x[0]) / sx, (py - y[0]) / sy
    i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
    wx, wy = fx - i, fy - j
    i0, i1 = i, i + 1
    bad = (j < 0) | (j + 1 >= y.size)
    if wrap:
        i0, i1 = i0 % x.size, i1 % x.size
    else:
        bad |= (i0 < 0) | (i1 >= x.size)
    i0, i1, j = np.clip(i0, 0, x.size - 1), np.clip(i1, 0, x.size - 1), np.clip(j, 0, y.size - 2)
    w = (1 - wx) * (1 - wy) * z[i0, j] + wx * (1 - wy) * z[i1, j] + (1 - wx) * wy * z[i0, j + 1] + wx * wy * z[i1, j + 1]
    return np.where(bad, np.nan, w)


# ---- identification ---------------------------------------------------------


class Contour:
    def __init__(self, lon, lat, seam, cross):
        self.lon, self.lat, self.seam, self.cross = lon, lat, seam, cross
        self.used = False


def contours(x, y, z, m, level, wrap):
    import contourpy

    n = x.size
    if wrap:
        x, z, m = np.r_[x - 360, x, x + 360], np.concatenate((z, z, z)), np.concatenate((m, m, m))
    g = contourpy.contour_generator(x, y, np.ma.array(z, mask=m).T, name="mpl2014", corner_mask=True)
    out = []
    for v in g.lines(level)[0]:
        if len(v) < 4 or np.hypot(*(v[0] - v[-1])) > 1e-2:
            continue
        gap = np.hypot(*(v[0] - v[-1])) > 1e-9
        v = v.copy()
        v[-1] = v[0]
        lon, lat = v[:, 0], v[:, 1]
        if wrap and not x[n] <= lon.min() < x[n] + 360:
            continue
        if np.ptp(lon) < 1e-8 or np.ptp(lat) < 1e-8:
            continue
        seam = False
        if wrap and lon.max() > x[n] + 360 - 1e-9:
            if gap:
                raise Ambiguous("almost closed, over the seam")
            # the library joins the two sides: starts at the seam, eastward
            lon = lon - 360
            k = np.where(np.abs(lon[:-1] - x[n]) < 1e-9)[0]
            east = [q for q in k if lon[q + 1] > x[n] + 1e-9]
            if k.size == 2 and len(east) == 1:
                lon, lat = np.r_[np.roll(lon[:-1], -east[0]), x[n]], np.roll(lat[:-1], -east[0])
                lat = np.r_[lat, lat[0]]
            else:
                seam = True
        elif wrap and lon.min() < x[n] + 1e-9:
            seam = True
        out.append(Contour(lon, lat, seam, wrap and lon.min() < x[n]))
    return out


class Ambiguous(Exception):
    pass




def near(a, b, tol):
    if abs(a - b) <= tol:
        raise Ambiguous((a, b, tol))


def identify(x, y, h, m, u, v, step, wrap, shape_error=55, pixel_limit=(4, 1000), nb_step_min=2, mle=1, nb_step_to_be_mle=2, presampling=10, mean_speed=True):
    """Independent identification; raises Ambiguous when a decision is too close of a limit.

    Returns [anticyclones, cyclones], lists of dict."""
    zmin, zmax = h[~m].min(), h[~m].max()
    k0, k1 = math.floor(zmin / step), math.floor(zmax / step) + 1
    levels = [k * step for k in range(k0, k1 + 1)]
    speed = np.where(m, np.nan, np.hypot(u, v))
    all_c = [contours(x, y, h, m, lv, wrap) for lv in levels]
    taken = m.copy()
    X, Y = np.meshgrid(x, y, indexing="ij")

    def pixels(c):
        if not hasattr(c, "pix"):
            xs = X
            inside = np.zeros(X.shape, bool)
            for k in (-360, 0) if wrap else (0,):
                q = (xs + k >= c.lon.min()) & (xs + k <= c.lon.max()) & (Y >= c.lat.min()) & (Y <= c.lat.max())
                if q.any():
                    a, d = gen.point_in(c.lon, c.lat, xs[q] + k, Y[q])
                    if (d < 1e-9).any():
                        raise Ambiguous()
                    inside[q] |= a
            c.pix = inside
        return c.pix

    def mean_speed(c):
        a, b = resample(c.lon, c.lat, 2 * c.lon.size)
        z = bilinear(x, y, speed, a[1:], b[1:], wrap)
        # contours have points on the limits of cells: they are valid or not by rounding
        c.loose = c.seam or any((np.isnan(z) != np.isnan(bilinear(x, y, speed, a[1:] + d, b[1:] + e, wrap))).any() for d in (-1e-9, 1e-9) for e in (-1e-9, 1e-9))
        return np.nan if np.isnan(z).all() else np.nanmean(z)

    def extrema(pix, sgn):
        z = np.where(taken, -1e10, sgn * h)  # reserved pixels do not count
        out = []
        for i, j in np.argwhere(pix):
            if j == 0 or j == y.size - 1 or (not wrap and (i == 0 or i == x.size - 1)):
                continue
            q = [z[(i + a) % x.size, j + b] for a in (-1, 0, 1) for b in (-1, 0, 1)]
            if z[i, j] == max(q):
                out.append((i, j))
        if len(out) <= mle:
            return [({k}, sgn * h[k]) for k in out]
        # a plateau is one extremum, at its mean position
        groups = []
        left = set(out)
        while left:
            todo, grp = [left.pop()], []
            while todo:
                i, j = todo.pop()
                grp.append((i, j))
                for q in (((i + 1) % x.size, j), ((i - 1) % x.size, j), (i, j + 1), (i, j - 1)):
                    if q in left:
                        left.remove(q)
                        todo.append(q)
            ii = np.array([g[0] for g in grp])
            if wrap:
                ii = (ii - ii[0] + x.size // 2) % x.size + ii[0] - x.size // 2
            mi, mj = ii.mean(), np.mean([g[1] for g in grp])
            # the pixel of the group which is the nearest of its middle
            dist = [(a - mi) ** 2 + (g[1] - mj) ** 2 for a, g in zip(ii, grp)]
            reps = {g for a, g in zip(dist, grp) if a < min(dist) + 1e-9}
            groups.append((reps, sgn * h[grp[0]]))
        return groups

    found = []
    for sgn in (1, -1):
        eddies = []
        order = range(len(levels)) if sgn == 1 else range(len(levels))[::-1]
        for k in order:
            lv = levels[k]
            for c in all_c[k]:
                if c.used:
                    continue
                if not hasattr(c, "err"):
                    c.err = circle_geo(c.lon, c.lat)[3]
                tol = 2.0 if c.seam else 1e-4
                near(c.err, shape_error, tol)
                if c.err < 0 or c.err > shape_error:
                    continue
                p = pixels(c)
                n = int(p.sum())
                if (p & taken).any():
                    continue
                if n and (sgn * (h[p] - lv)).min() < 0:
                    # noisy limit of the library is 1e-8
                    continue
                if n == 0:
                    continue
                if not pixel_limit[0] <= n <= pixel_limit[1]:
                    continue
                e = extrema(p, sgn)
                if not e:
                    continue
                d = [a - sgn * lv for _, a in e]
                for a in d:
                    near(a, nb_step_to_be_mle * step, 1e-9)
                if sum(a >= nb_step_to_be_mle * step for a in d) > mle and len(e) > 1:
                    continue
                amp = max(d)
                near(amp, nb_step_min * step, 1e-9)
                if amp < nb_step_min * step:
                    continue
                centers = set().union(*(q for (q, _), a in zip(e, d) if a == amp))
                plateau = (np.abs(sgn * h[p] - lv * sgn - amp) < 1e-12).sum() > 1
                cx, cy = (lambda q: (x[q[0]], y[q[1]]))(sorted(centers)[0])
                # profile of speed
                speeds, sel, inner, ks, ki = [mean_speed(c)], c, c, k, k
                best, loose = speeds[0], c.loose
                c.used = True
                kk = k + sgn
                while 0 <= kk < len(levels):
                    near_ones = []
                    for ci, cj in centers:
                        cand = []
                        for q in all_c[kk]:
                            px = (x[ci] - q.lon.min()) % 360 + q.lon.min() if wrap else x[ci]
                            if q.lon.min() <= px <= q.lon.max() and q.lat.min() <= y[cj] <= q.lat.max():
                                cand.append((np.hypot(q.lon - px, q.lat - y[cj]).min(), q))
                        cand.sort(key=lambda t: t[0])
                        if len(cand) > 1:
                            near(cand[0][0], cand[1][0], 1e-9)
                        near_ones.append(cand[0][1] if cand else None)
                    if any(q is not near_ones[0] for q in near_ones):
                        raise Ambiguous("several centres")
                    q = near_ones[0]
                    if q is None:
                        break
                    ql = q.lon + 360 * round((c.lon[0] - q.lon[0]) / 360)
                    a, dd = gen.point_in(c.lon, c.lat, ql, q.lat)
                    if (dd < 1e-9).any():
                        raise Ambiguous()
                    if not a.all():
                        break
                    nq = int(pixels(q).sum())
                    s = mean_speed(q)
                    speeds.append(s)
                    loose |= q.loose
                    if pixel_limit[0] < nq:
                        near(s, best, (0.02 if q.loose or sel.loose else 1e-7) * abs(best))
                        if s >= best:
                            best, sel, ks = s, q, kk
                    inner, ki = q, kk
                    q.used = True
                    kk += sgn
                taken |= p
                eddies.append(dict(
                    contour=c, speed=sel, inner=inner, level=lv, level_s=levels[ks], level_i=levels[ki], speeds=np.array(speeds), best=best, amp=amp, pix=p, seam=c.seam or sel.seam or inner.seam, cross=c.cross, loose=sel.loose, loose_any=loose,
                    extremum=(cx, cy), plateau=plateau,
                ))
        found.append(eddies)
    return found


def describe(e, presampling=10):
    """Values which the identification announces for a reference eddy."""
    out = dict(
        height_external_contour=e["level"], height_max_speed_contour=e["level_s"], height_inner_contour=e["level_i"], amplitude=e["amp"], speed_average=e["best"],
        loose=e["loose"], nb_contour_selected=len(e["speeds"]), num_point_e=e["contour"].lon.size, num_point_s=e["speed"].lon.size,
    )
    i = resample(e["inner"].lon, e["inner"].lat, presampling * e["inner"].lon.size)
    s = resample(e["speed"].lon, e["speed"].lat, presampling * e["speed"].lon.size)
    c = resample(e["contour"].lon, e["contour"].lat, presampling * e["contour"].lon.size)
    out["lon_max"], out["lat_max"] = circle_geo(*i)[:2]
    out["lon"], out["lat"], out["radius_s"], out["shape_error_s"] = circle_geo(*s)
    _, _, out["radius_e"], out["shape_error_e"] = circle_geo(*c)
    out["speed_area"] = abs(gen.shoelace(*to_local(*s, out["lon"], out["lat"])))
    cl = c[0] + 360 * round((out["lon"] - c[0][0]) / 360)
    out["effective_area"] = abs(gen.shoelace(*to_local(cl, c[1], out["lon"], out["lat"])))
    out["line_e"], out["line_s"] = (e["contour"].lon, e["contour"].lat), (e["speed"].lon, e["speed"].lat)
    return out


def line_distance(lon, lat, line):
    """Largest distance (degree) of points to a polyline, whatever the 360 degrees branch."""
    x, y = line
    lon = lon + 360 * np.round((x.mean() - lon.mean()) / 360)
    return gen.point_in(x, y, lon, lat)[1].max()
