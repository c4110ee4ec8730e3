"""Histories of detections and a reference tracker (used by P02-P04)."""
import math
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker
from py_eddy_tracker.observations.observation import EddiesObservations

from . import gen

REGISTRY = dict()


class _Mem:
    @classmethod
    def load_file(cls, key, raw_data=False, include_vars=None, **kw):
        src = REGISTRY[key]
        o = cls(
            size=len(src), track_extra_variables=src.track_extra_variables, track_array_variables=src.track_array_variables,
            array_variables=src.array_variables, **kw,
        )
        for f in src.fields:
            o.obs[f] = src.obs[f]
        o.sign_type = src.sign_type
        return o


class MemObs(_Mem, EddiesObservations):
    __slots__ = ()


class MemArea(_Mem, AreaTracker):
    __slots__ = ()


HISTORY = dict(
    seed=gen.SEEDS,
    days=st.sampled_from([2, 3, 5, 7, 9]),
    n=st.sampled_from([1, 3, 5, 8]),
    virtual=st.sampled_from([0, 1, 2, 3, 6]),
    algo=st.sampled_from(["default", "default", "area"]),
    cmin=st.sampled_from([0.05, 0.2, 0.4]),
    presence=st.sampled_from([1.0, 0.85, 0.6, 0.4]),
    spread=st.sampled_from([1.0, 2.0, 4.0]),
    jitter=st.sampled_from([0.02, 0.2, 0.5]),
    drift=st.sampled_from([0.0, 0.1, -0.4]),
    lon=st.sampled_from([10.0, 0.0, 180.0, 359.5]),
    branch=st.sampled_from(["same", "same", "wrap360", "wrap180"]),
    empty=st.booleans(),
    sign=st.sampled_from([-1, 1]),
    store=st.just("mem"),
)


def days_of(case):
    """One EddiesObservations by day; lon_max holds a unique tag."""
    r = gen.rng(case["seed"])
    n, nd = case["n"], case["days"]
    lat0 = r.uniform(-60, 60)
    if case["seed"] % 7 == 3:
        # meridians are close to each other
        lat0 = math.copysign(60 + abs(lat0) / 4, lat0)
    s = case["spread"]
    px, py = case["lon"] + r.uniform(-s, s, n), lat0 + r.uniform(-s, s, n)
    vx, vy = case["drift"] + r.normal(0, 0.05, n), r.normal(0, 0.05, n)
    amp, rad = r.uniform(0.02, 0.3, n), r.uniform(3e4, 1.2e5, n)
    area = case["algo"] == "area"
    tag = 1
    out = []
    for d in range(nd):
        here = r.uniform(0, 1, n) < case["presence"]
        if case["empty"] and nd > 2 and r.integers(0, 4) == 0:
            here[:] = False
        k = np.where(here)[0]
        # eddies which are seen only one day
        extra = r.integers(0, 3) if not (case["empty"] and k.size == 0) else 0
        x = np.r_[px[k] + case["jitter"] * r.normal(0, 0.5, k.size), case["lon"] + r.uniform(-s, s, extra)]
        y = np.r_[py[k] + case["jitter"] * r.normal(0, 0.5, k.size), lat0 + r.uniform(-s, s, extra)]
        a = np.r_[amp[k], r.uniform(0.02, 0.3, extra)] * r.uniform(0.8, 1.2, k.size + extra)
        q = np.r_[rad[k], r.uniform(3e4, 1.2e5, extra)] * r.uniform(0.8, 1.2, k.size + extra)
        o_ = r.permutation(x.size)
        x, y, a, q = x[o_], y[o_], a[o_], q[o_]
        if case["branch"] == "wrap360":
            shift = -np.floor(x / 360) * 360
        elif case["branch"] == "wrap180":
            shift = -np.floor((x + 180) / 360) * 360
        else:
            shift = np.zeros(x.size)
        ob = gen.make_obs(x.size, 9 if area else 0, extra=["lon_max", "lat_max"] + (["cost_association"] if case["seed"] % 8 == 0 else []))
        ob.sign_type = case["sign"]
        ob.obs["lon"], ob.obs["lat"] = x + shift, y
        ob.obs["amplitude"], ob.obs["radius_s"], ob.obs["radius_e"] = a, q, q * 1.1
        ob.obs["time"] = 20000 + d
        ob.obs["speed_average"] = r.uniform(0.05, 0.5, x.size)
        ob.obs["lat_max"] = y
        ob.obs["lon_max"] = tag + np.arange(x.size)
        tag += x.size
        if area:
            t = np.linspace(0, 2 * np.pi, 9)
            for i in range(x.size):
                dr = q[i] * 1.3 / 111.2e3
                cx, cy = x[i] + shift[i] + dr / math.cos(math.radians(y[i])) * np.cos(t), y[i] + dr * np.sin(t)
                cx[-1], cy[-1] = cx[0], cy[0]
                ob.obs["contour_lon_e"][i], ob.obs["contour_lat_e"][i] = cx, cy
                ob.obs["contour_lon_s"][i], ob.obs["contour_lat_s"][i] = cx, cy
        out.append(ob)
    return out


class Store:
    """Keep the days in the medium of the case; gives names to be used by the tracker."""

    def __init__(self, case, days):
        self.kind, self.dir, self.raw = case["store"], None, False
        area = case["algo"] == "area"
        self.class_kw = dict(cmin=case["cmin"]) if area else dict()
        if self.kind == "mem":
            self.names = []
            for i, o in enumerate(days):
                key = "day%02d" % i
                REGISTRY[key] = o
                self.names.append(key)
            self.cls = MemArea if area else MemObs
        else:
            self.cls = AreaTracker if area else EddiesObservations
            self.dir = tempfile.mkdtemp()
            self.names = []
            for i, o in enumerate(days):
                fn = os.path.join(self.dir, "Det_%d.%s" % (20200101 + i, "nc" if self.kind == "netcdf" else "zarr"))
                o.write_file(filename=fn, **(dict() if self.kind == "netcdf" else dict(chunck_size=1000)))
                self.names.append(fn)

    def load(self, raw=False):
        return [self.cls.load_file(n, raw_data=raw, **self.class_kw) for n in self.names]

    def close(self):
        REGISTRY.clear()
        if self.dir:
            shutil.rmtree(self.dir)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def haversine_km(lon0, lat0, lon1, lat1):
    dlat, dlon = math.radians(lat1 - lat0), math.radians((lon1 - lon0 + 180) % 360 - 180)
    a = math.sin(dlat / 2) ** 2 + math.cos(math.radians(lat0)) * math.cos(math.radians(lat1)) * math.sin(dlon / 2) ** 2
    return 6370.997 * 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))


def entry(o, i, area):
    e = dict(lon=float(o.obs["lon"][i]), lat=float(o.obs["lat"][i]), amp=float(o.obs["amplitude"][i]), rad=float(o.obs["radius_s"][i]))
    if area:
        e["x"], e["y"] = o.obs["contour_lon_e"][i].astype("f8"), o.obs["contour_lat_e"][i].astype("f8")
    return e


def link_cost(a, b, algo, cmin):
    """(cost or None, True if too close of a limit to be decided)"""
    if algo == "area":
        xb = b["x"] + round((a["x"][0] - b["x"][0]) / 360) * 360
        if np.abs(xb - a["x"][0]).max() > 15:
            return None, False
        inter = gen.intersection_area(a["x"], a["y"], xb, b["y"])
        c = inter / (abs(gen.shoelace(a["x"], a["y"])) + abs(gen.shoelace(xb, b["y"])) - inter)
        return (1 - c if c > cmin else None), abs(c - cmin) < 2e-3
    d = haversine_km(a["lon"], a["lat"], b["lon"], b["lat"])
    if d >= 125:
        return None, d < 125.05
    c = math.sqrt(((a["amp"] - b["amp"]) / a["amp"]) ** 2 + ((a["rad"] - b["rad"]) / a["rad"]) ** 2 + (d / 125) ** 2)
    return c, d > 124.95


def greedy(costs, eps):
    """Greedy one to one association {a: b} by increasing cost, and True if a tie makes it undecided."""
    todo = sorted((c, k) for k, c in costs.items())
    out, used_b, tie = dict(), set(), False
    for n, (c, (a, b)) in enumerate(todo):
        if a in out or b in used_b:
            continue
        for c2, (a2, b2) in todo[n + 1:]:
            if c2 - c > eps:
                break
            if (a2 == a) != (b2 == b) and a2 not in out and b2 not in used_b:
                tie = True
        out[a] = b
        used_b.add(b)
    return out, tie


def reference_tracks(days, virtual, algo, cmin, eps=None):
    """Tracks as lists of (day, index) with the virtual gaps, the costs and a flag 'decided'."""
    area = algo == "area"
    eps = (5e-3 if area else 1e-3) if eps is None else eps
    tracks, costs_of = [], []
    real = [[entry(o, i, area) for i in range(len(o))] for o in days]
    owner = dict()  # index in previous day -> track
    virt = []
    last_links = dict()
    stats = dict(conflict=False, rebirth=False)
    for t in range(1, len(days)):
        prev = real[t - 1] + [v["e"] for v in virt]
        costs = dict()
        for a, ea in enumerate(prev):
            for b, eb in enumerate(real[t]):
                c, near = link_cost(ea, eb, algo, cmin)
                if near:
                    return None, None, stats
                if c is not None:
                    costs[a, b] = c
        pairs, tie = greedy(costs, eps)
        if tie:
            return None, None, stats
        if len(pairs) < len(costs):
            stats["conflict"] = True
        links, new_owner = dict(), dict()
        for a, b in pairs.items():
            if a < len(real[t - 1]):
                k = owner.get(a)
                if k is None:
                    k = len(tracks)
                    tracks.append([(t - 1, a)])
                    costs_of.append([])
            else:
                k = virt[a - len(real[t - 1])]["track"]
                stats["rebirth"] = True
            tracks[k].append((t, b))
            costs_of[k].append(costs[a, b])
            links[k] = prev[a], real[t][b]
            new_owner[b] = k
        nvirt = []
        if virtual and t > 1:
            for k, (ea, eb) in last_links.items():
                if k not in links:
                    dlon, dlat = eb["lon"] - ea["lon"], eb["lat"] - ea["lat"]
                    e = dict(eb, lon=float(eb["lon"] + dlon), lat=float(eb["lat"] + dlat))
                    nvirt.append(dict(track=k, e=e, dlon=dlon, dlat=dlat, size=1))
            for v in virt:
                if v["track"] not in links and v["size"] < virtual:
                    e = dict(v["e"], lon=float(v["e"]["lon"] + v["dlon"]), lat=float(v["e"]["lat"] + v["dlat"]))
                    nvirt.append(dict(v, e=e, size=v["size"] + 1))
        virt, last_links, owner = nvirt, links, new_owner
    return tracks, costs_of, stats


def run_tracker(store, case, names=None, previous=None):
    from py_eddy_tracker.tracking import Correspondances

    c = Correspondances(
        datasets=list(store.names if names is None else names), virtual=case["virtual"], class_method=store.cls, class_kw=store.class_kw,
        previous_correspondance=previous,
    )
    c.track()
    return c


def sequences(table, tag="lon_max", tags=None):
    """{frozen sequence of tags by track} from a merged table (0 is a virtual observation)."""
    t, n, v = table.obs["track"], table.obs["n"], np.asarray(table.obs[tag], "f8")
    out = []
    for k in np.unique(t):
        m = t == k
        out.append(tuple(v[m].tolist()))
    return sorted(out)
