"""Generators and helpers shared by the properties."""
import math

import numpy as np
from hypothesis import strategies as st

SEEDS = st.integers(0, 2**32 - 1)


def rng(seed):
    return np.random.default_rng(seed)


def wrap180(d):
    return (d + 180.0) % 360.0 - 180.0


def star(r, cx, cy, rx, ry, n, rough=0.3, cw=False, phase=None):
    """Closed simple polygon (first point == last) with n distinct vertices."""
    a0 = r.uniform(0, 2 * np.pi) if phase is None else phase
    ang = a0 + (np.arange(n) + r.uniform(-0.3, 0.3, n)) * 2 * np.pi / n
    rad = 1 + rough * r.uniform(-1, 1, n)
    x, y = cx + rx * rad * np.cos(ang), cy + ry * rad * np.sin(ang)
    if cw:
        x, y = x[::-1], y[::-1]
    return np.r_[x, x[0]], np.r_[y, y[0]]


def ellipse(cx, cy, rx, ry, n, rot=0.0):
    t = np.linspace(0, 2 * np.pi, n)
    x, y = rx * np.cos(t), ry * np.sin(t)
    c, s = math.cos(rot), math.sin(rot)
    x, y = c * x - s * y + cx, s * x + c * y + cy
    x[-1], y[-1] = x[0], y[0]
    return x, y


def shoelace(x, y):
    x, y = np.asarray(x, "f8"), np.asarray(y, "f8")
    x, y = x - x[0], y - y[0]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def _clip(poly, clip):
    """Sutherland-Hodgman: convex poly by convex ccw clip; lists of (x,y)."""
    out = poly
    m = len(clip)
    for k in range(m):
        ax, ay = clip[k]
        bx, by = clip[(k + 1) % m]
        ex, ey = bx - ax, by - ay
        src, out = out, []
        if not src:
            return out
        px, py = src[-1]
        pd = ex * (py - ay) - ey * (px - ax)
        for qx, qy in src:
            qd = ex * (qy - ay) - ey * (qx - ax)
            if (pd >= 0) != (qd >= 0):
                t = pd / (pd - qd)
                out.append((px + t * (qx - px), py + t * (qy - py)))
            if qd >= 0:
                out.append((qx, qy))
            px, py, pd = qx, qy, qd
    return out


def _area(p):
    s = 0.0
    if len(p) < 3:
        return 0.0
    x0, y0 = p[0]
    for k in range(1, len(p) - 1):
        s += (p[k][0] - x0) * (p[k + 1][1] - y0) - (p[k + 1][0] - x0) * (p[k][1] - y0)
    return abs(s) / 2


def _fan(x, y):
    pts = list(zip(x.tolist(), y.tolist()))
    if pts[0] == pts[-1]:
        pts = pts[:-1]
    tris = []
    o = pts[0]
    for k in range(1, len(pts) - 1):
        a, b = pts[k], pts[k + 1]
        s = (a[0] - o[0]) * (b[1] - o[1]) - (b[0] - o[0]) * (a[1] - o[1])
        if s > 0:
            tris.append((1, (o, a, b)))
        elif s < 0:
            tris.append((-1, (o, b, a)))
    return tris


def intersection_area(x0, y0, x1, y1):
    """Exact (float64) area of the intersection of two simple polygons."""
    x0, y0, x1, y1 = (np.asarray(v, "f8") for v in (x0, y0, x1, y1))
    if x0.max() <= x1.min() or x1.max() <= x0.min() or y0.max() <= y1.min() or y1.max() <= y0.min():
        return 0.0
    ox, oy = x0[0], y0[0]
    f0, f1 = _fan(x0 - ox, y0 - oy), _fan(x1 - ox, y1 - oy)
    tot = 0.0
    for s0, t0 in f0:
        a, b = min(p[0] for p in t0), max(p[0] for p in t0)
        c, d = min(p[1] for p in t0), max(p[1] for p in t0)
        for s1, t1 in f1:
            if min(p[0] for p in t1) >= b or max(p[0] for p in t1) <= a or min(p[1] for p in t1) >= d or max(p[1] for p in t1) <= c:
                continue
            tot += s0 * s1 * _area(_clip(list(t0), t1))
    return abs(tot)


def point_in(x, y, px, py):
    """Even-odd test (float64) of points (px,py) in closed polygon, plus distance to edges."""
    x, y = np.asarray(x, "f8"), np.asarray(y, "f8")
    if x[0] != x[-1] or y[0] != y[-1]:
        x, y = np.r_[x, x[0]], np.r_[y, y[0]]
    px, py = np.atleast_1d(np.asarray(px, "f8")), np.atleast_1d(np.asarray(py, "f8"))
    inside = np.zeros(px.shape, bool)
    dist = np.full(px.shape, np.inf)
    for k in range(x.size - 1):
        xa, ya, xb, yb = x[k], y[k], x[k + 1], y[k + 1]
        cond = (ya > py) != (yb > py)
        if ya != yb:
            xi = xa + (py - ya) / (yb - ya) * (xb - xa)
            inside ^= cond & (px < xi)
        dx, dy = xb - xa, yb - ya
        l2 = dx * dx + dy * dy
        t = np.clip(((px - xa) * dx + (py - ya) * dy) / l2, 0, 1) if l2 > 0 else np.zeros(px.shape)
        dist = np.minimum(dist, np.hypot(px - xa - t * dx, py - ya - t * dy))
    return inside, dist


CONTOURS = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile"]


def make_obs(n, sampling=0, extra=(), cls=None, arrays=None, sign=1, only=None):
    from py_eddy_tracker.observations.observation import EddiesObservations

    cls = cls or EddiesObservations
    o = cls(
        size=n,
        track_extra_variables=list(extra),
        track_array_variables=sampling,
        array_variables=(CONTOURS if arrays is None else arrays) if sampling else [],
        only_variables=only,
    )
    o.sign_type = sign
    return o


def obs_equal(a, b, fields=None):
    """Bitwise equality of the observation tables (nan == nan)."""
    fields = sorted(a.obs.dtype.names) if fields is None else fields
    if len(a) != len(b):
        return False
    return all(np.array_equal(np.asarray(a.obs[f]), np.asarray(b.obs[f]), equal_nan=np.asarray(a.obs[f]).dtype.kind == "f") for f in fields)


def rows(o, fields=None):
    """Hashable rows of the table (for multiset comparisons)."""
    fields = sorted(o.obs.dtype.names) if fields is None else fields
    return [tuple(np.asarray(o.obs[f][i]).tobytes() for f in fields) for i in range(len(o))]
