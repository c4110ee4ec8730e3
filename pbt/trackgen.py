"""Tables of tracks built directly (used by P19, P20, P21...)."""
import numpy as np
from hypothesis import strategies as st

from . import gen

TRACKS = dict(
    seed=gen.SEEDS, nb=st.integers(1, 7), longest=st.sampled_from([1, 2, 4, 9, 15]), ids=st.sampled_from(["0..", "1..", "gaps", "gaps", "far"]), hole=st.sampled_from([0.0, 0.0, 0.2]), step=st.sampled_from([1.0, 1.0, 1.0, 7.0, 0.5]),
    lon0=st.sampled_from([-170.0, 0.0, 5.0, 179.0, 355.0, 100.0]), speed=st.sampled_from([0.3, 2.0, 9.0]), virtual=st.sampled_from([0.0, 0.3]), cast=st.sampled_from([None, None, "f4"]),
)


def tracks(case, cls=None, extra=(), sampling=0):
    """Tracks sorted by number then date; lon_max is the name of each observation. Longitudes are continuous along tracks."""
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    r = gen.rng(case["seed"])
    size = r.integers(1, case["longest"] + 1, case["nb"])
    if case["ids"] in ("0..", "1.."):
        num = np.arange(case["nb"]) + int(case["ids"] == "1..")
    else:
        num = np.cumsum(r.integers(1, 4 if case["ids"] == "gaps" else 300, case["nb"])) - 1
    nb = int(size.sum())
    n = gen.make_obs(nb, sampling, extra=["lon_max"] + [e for e in extra if e != "lon_max"], cls=cls or TrackEddiesObservations)
    for f in n.fields:
        v = n.obs[f]
        if v.dtype.kind == "f":
            v[:] = r.uniform(0, 1, v.shape)
    n.obs["lon_max"] = 1 + r.permutation(nb)
    n.obs["track"] = np.repeat(num, size)
    n.obs["n"] = np.concatenate([np.arange(s) for s in size])
    n.obs["virtual"] = r.uniform(0, 1, nb) < case["virtual"]
    t, lon, lat = [], [], []
    for s in size:
        jumps = 1 + (r.uniform(0, 1, s) < case["hole"]) * r.integers(1, 4, s)
        t.append(20000 + case["step"] * (int(r.integers(0, 6)) + np.cumsum(jumps)))
        lon.append(case["lon0"] + r.uniform(-20, 20) + np.cumsum(r.uniform(-1, 1, s) * case["speed"]))
        lat.append(r.uniform(-55, 55) + np.cumsum(r.uniform(-1, 1, s) * min(case["speed"], 2.0)))
    n.obs["time"], n.obs["lon"], n.obs["lat"] = np.concatenate(t), np.concatenate(lon), np.concatenate(lat)
    n.sign_type = int(r.choice([-1, 1]))
    return n


def names(n):
    return n.obs["lon_max"].astype(int).tolist()


def content(n, skip=("track",)):
    """{name: bytes of the other fields}"""
    f = sorted(f for f in n.fields if f not in skip)
    return dict((k, tuple(n.obs[g][i].tobytes() for g in f)) for i, k in enumerate(names(n)))


def groups(n):
    """{number: indices}, in the order of the table"""
    out = dict()
    for i, k in enumerate(n.obs["track"].tolist()):
        out.setdefault(k, []).append(i)
    return out
