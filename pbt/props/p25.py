"""Assembling datasets: copies, concatenations, merges, insertions, additions and removals of fields."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Facet

RULE = (
    "Cases are sequences of operations (copy, concatenate, merge, insert, append, index, mask, add and remove fields, change of a value, queries) on a pool of datasets (observations or tracks, with or without contours, empty or not, all fields or some of them), "
    "the whole pool is compared after each operation with a model (one dict by observation); a case is non-trivial when at least two operations succeed on datasets which are not empty."
)
ASSUMPTIONS = [
    "Tracks are stored one after the other with increasing numbers, as in files; numbers stay under 2**32.",
    "concatenate and append may refuse (exception) datasets which do not have the same fields.",
]
EXTRA = ["lon_max", "lat_max", "type_cyc", "track", "n", "virtual"]
ARRAYS = ["contour_lon_e", "contour_lat_e", "uavg_profile"]
FORCED = ("track", "n", "virtual")


def value(tag, name, dtype, size=None):
    h = sum(ord(c) * (k + 3) for k, c in enumerate(name))
    if size is not None:
        return ((tag * 7 + h + np.arange(size) * 3) % 120).astype(dtype)
    return np.array((tag * 5 + h) % 120, dtype)[()]


def fill(o, tags, r):
    """Values of each field from the tag of the observation"""
    for f in o.fields:
        a = o.obs[f]
        for k, t in enumerate(tags):
            a[k] = value(t, f, a.dtype, a.shape[1] if a.ndim > 1 else None)
    nb = len(tags)
    if "track" in o.fields and nb:
        o.obs["track"] = np.cumsum(r.integers(0, 2, nb)) + int(r.integers(0, 3))
    if "time" in o.fields:
        o.obs["time"] = 20000 + r.integers(0, 30, nb)


def snapshot(o):
    """Model: fields, and one dict by observation"""
    return [dict((f, np.array(o.obs[f][k]).tolist()) for f in o.fields) for k in range(len(o))]


def agree(o, model, what):
    got = snapshot(o)
    assert len(got) == len(model), (what, "size", len(got), len(model))
    for k, (a, b) in enumerate(zip(got, model)):
        if a != b:
            bad = [(f, a.get(f), b.get(f)) for f in sorted(set(a) | set(b)) if a.get(f) != b.get(f)][:4]
            raise AssertionError((what, "observation", k, bad))


def partition(tracks):
    names = dict()
    return [names.setdefault(t, len(names)) for t in tracks]


class Item:
    def __init__(self, o, model, kind, fields):
        self.o, self.model, self.kind, self.fields, self.sign = o, model, kind, frozenset(fields), o.sign_type


def new_item(spec, tag0):
    from py_eddy_tracker.observations.observation import EddiesObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    r = gen.rng(spec["seed"])
    nb = spec["nb"]
    cls = TrackEddiesObservations if spec["kind"] == "tracks" else EddiesObservations
    extra = [f for f in EXTRA if f in spec["extra"] and not (spec["kind"] == "tracks" and f in FORCED)]
    o = gen.make_obs(nb, spec["sampling"], extra=extra, cls=cls, arrays=[a for a in ARRAYS if a in spec["arrays"]] if spec["sampling"] else None, sign=spec["sign"])
    if spec["only"]:
        keep = [f for f in sorted(o.fields) if f in ("lon", "time", "track") or r.uniform() < 0.5]
        o = gen.make_obs(nb, spec["sampling"], extra=extra, cls=cls, arrays=[a for a in ARRAYS if a in spec["arrays"]] if spec["sampling"] else None, sign=spec["sign"], only=keep)
    fill(o, [tag0 + k for k in range(nb)], r)
    return Item(o, snapshot(o), spec["kind"], o.fields)


def check_queries(it, what):
    o, m = it.o, it.model
    if not m:
        return
    t = [v["time"] for v in m]
    assert tuple(o.period) == (min(t), max(t)), (what, "period", o.period, min(t), max(t))
    assert o.nb_days == max(t) - min(t) + 1, (what, "number of days")
    if it.kind == "tracks":
        tr = [v["track"] for v in m]
        if all(a <= b for a, b in zip(tr, tr[1:])):
            count = dict((k, tr.count(k)) for k in tr)
            assert o.nb_tracks == len(count), (what, "number of tracks", o.nb_tracks, len(count))
            assert [int(o.nb_obs_by_track[k]) for k in sorted(count)] == [count[k] for k in sorted(count)], (what, "size of tracks")
            assert [int(o.index_from_track[k]) for k in sorted(count)] == [tr.index(k) for k in sorted(count)], (what, "first observation of tracks")
            pick = tr[len(tr) // 2]
            assert [v["time"] for v in m if v["track"] == pick] == o.extract_ids([pick]).obs["time"].tolist(), (what, "extract_ids")


def shifted(parts, got, what):
    """Tracks of an assembly: those of each part, never mixed"""
    tracks = [int(t) for t in got.obs["track"]]
    expected = [(k, t) for k, p in enumerate(parts) for t in [v["track"] for v in p]]
    assert partition(tracks) == partition(expected), (what, "tracks", tracks, expected)
    return tracks


def step(op, pool, ctx):
    """Apply an operation, returns the new item (or None)"""
    name = op["op"]
    a = pool[op["a"] % len(pool)]
    b = pool[op["b"] % len(pool)]
    r = gen.rng(op["seed"])
    nb = len(a.model)
    if name == "copy":
        o = a.o.copy()
        new = Item(o, [dict(v) for v in a.model], a.kind, a.fields)
        assert o.sign_type == a.sign and type(o) is type(a.o), "copy"
        assert o == a.o and a.o == o, "a copy is equal"
        return new
    if name == "equal":
        # same values and different one
        o = a.o.copy()
        if nb:
            f = sorted(a.fields)[op["k"] % len(a.fields)]
            o.obs[f][op["b"] % nb] += np.array(1, o.obs[f].dtype)
            assert not o == a.o and not a.o == o, ("equality despite of", f)
        return None
    def same(u, v):
        # fields declared in another order could be refused
        return u.fields == v.fields and list(u.o.track_extra_variables) == list(v.o.track_extra_variables) and list(u.o.array_variables) == list(v.o.array_variables) and u.o.track_array_variables == v.o.track_array_variables

    def ordered(*items):
        tr = [[v["track"] for v in i.model] for i in items if "track" in i.fields]
        return all(u <= v for t in tr for u, v in zip(t, t[1:]))

    if name == "concat":
        items = [pool[(op["a"] + k * (1 + op["b"])) % len(pool)] for k in range(1 + op["k"] % 3)]
        items = [i for i in items if i.kind == a.kind]
        if a.kind == "tracks" and not ordered(*items):
            return None
        uniform = all(i.fields == a.fields for i in items)
        declared = all(same(i, a) for i in items)
        try:
            o = type(a.o).concatenate([i.o for i in items])
        except Exception as e:
            if not declared:
                ctx.label("refused")
                return None
            raise
        assert uniform, ("concatenation of datasets which do not have the same fields", sorted(a.fields ^ items[-1].fields))
        model = [dict(v) for i in items for v in i.model]
        if a.kind == "tracks":
            for v, t in zip(model, shifted([i.model for i in items], o, name)):
                v["track"] = t
        assert o.sign_type == a.sign and type(o) is type(a.o), "type of the concatenation"
        return Item(o, model, a.kind, a.fields)
    if name == "merge":
        if not ordered(a, b):
            return None
        o = a.o.merge(b.o)
        zero = dict((f, np.zeros_like(o.obs[f][0]).tolist()) for f in a.fields) if len(o) else dict()
        model = [dict(v) for v in a.model] + [dict((f, v[f] if f in b.fields else zero[f]) for f in a.fields) for v in b.model]
        if "track" in a.fields and "track" in b.fields:
            for v, t in zip(model, shifted([a.model, b.model], o, name)):
                v["track"] = t
        assert o.sign_type == a.sign and type(o) is type(a.o), "type of the merge"
        if b.fields != a.fields:
            ctx.label("merge of different fields")
        return Item(o, model, a.kind, a.fields)
    if name in ("insert", "append"):
        if b.kind != a.kind:
            return None
        index = nb if name == "append" else op["k"] % (nb + 1)
        arg = index if op["seed"] % 2 or name == "append" else index - nb - 1
        try:
            o = a.o.append(b.o) if name == "append" else a.o.insert_observations(b.o, arg)
        except Exception:
            if not same(a, b):
                ctx.label("refused")
                return None
            raise
        assert not b.model or a.fields == b.fields, ("insertion of a dataset which does not have the same fields", sorted(a.fields ^ b.fields))
        assert o is a.o, "insertion is in place"
        a.model = [dict(v) for v in a.model[:index] + b.model + a.model[index:]]
        return None
    if name == "index":
        if not nb:
            return None
        kind = op["k"] % 4
        if kind == 0:
            i, sel = op["b"] % nb, [op["b"] % nb]
        elif kind == 1:
            sel = r.integers(0, nb, op["b"] % 4 + 1).tolist()
            i = np.array(sel)
        elif kind == 2:
            u, v = sorted(r.integers(0, nb + 1, 2).tolist())
            i, sel = slice(u, v), list(range(u, v))
        else:
            out = set(r.integers(0, nb, op["b"] % 4).tolist())
            sel = [k for k in range(nb) if k not in out]
            o = a.o.index(np.array(sorted(out), int), reverse=True)
            assert o.sign_type == a.sign and type(o) is type(a.o), "type of the selection"
            return Item(o, [dict(a.model[k]) for k in sel], a.kind, a.fields)
        o = a.o.index(i)
        assert o.sign_type == a.sign and type(o) is type(a.o), "type of the selection"
        return Item(o, [dict(a.model[k]) for k in sel], a.kind, a.fields)
    if name == "mask":
        m = r.uniform(size=nb) < 0.6
        o = a.o.extract_with_mask(m)
        assert o.sign_type == a.sign and type(o) is type(a.o), "type of the selection"
        return Item(o, [dict(v) for v, k in zip(a.model, m) if k], a.kind, a.fields)
    if name == "add":
        names = [f for f in ("lat_max", "lon_max", "segment_size", "dlon", "type_cyc") if f not in a.fields][: 1 + op["k"] % 2]
        arrays = [f for f in ("contour_lat_s", "contour_lon_s") if f not in a.fields][: op["b"] % 2] if a.o.track_array_variables else []
        if op["k"] % 5 == 0 and "type_cyc" not in a.fields and a.sign is not None:
            o, names, arrays = a.o.add_rotation_type(), ["type_cyc"], []
            zero = a.sign
        else:
            o = a.o.add_fields(names, arrays)
            zero = 0
        nv = a.o.track_array_variables
        model = [dict(v, **{f: zero for f in names}, **{f: [0.0] * nv for f in arrays}) for v in a.model]
        assert o.sign_type == a.sign and type(o) is type(a.o), "type after addition of fields"
        assert set(o.fields) == a.fields | set(names) | set(arrays), ("fields after addition", set(o.fields) ^ (a.fields | set(names) | set(arrays)))
        return Item(o, model, a.kind, o.fields)
    if name == "remove":
        free = sorted(f for f in a.fields if f not in ("time", "track") and not (a.kind == "tracks" and f in FORCED))
        if not free:
            return None
        names = [free[(op["k"] + q * 3) % len(free)] for q in range(1 + op["b"] % 3)]
        o = a.o.remove_fields(*names)
        model = [dict((f, x) for f, x in v.items() if f not in names) for v in a.model]
        assert o.sign_type == a.sign and type(o) is type(a.o), "type after removal of fields"
        assert set(o.fields) == a.fields - set(names), ("fields after removal", set(o.fields) ^ (a.fields - set(names)))
        return Item(o, model, a.kind, o.fields)
    if name == "set":
        if not nb:
            return None
        f = sorted(f for f in a.fields if f != "track")[op["k"] % (len(a.fields) - ("track" in a.fields))]
        k = op["b"] % nb
        if f == "time":
            return None
        a.o.obs[f][k] = 77
        a.model[k][f] = np.array(a.o.obs[f][k]).tolist()
        return None
    if name == "query":
        check_queries(a, name)
        return None


def check_history(case, ctx):
    base = case["pool"]
    pool = []
    for k, spec in enumerate(base):
        # most of the pool with the fields of the first one
        pool.append(new_item(dict(base[0], nb=spec["nb"], seed=spec["seed"] if not base[0]["only"] else base[0]["seed"]) if spec["same"] else spec, 100 * k))
    done = 0
    trace = []
    for op in case["ops"]:
        busy = len(pool[op["a"] % len(pool)].model)
        new = step(op, pool, ctx)
        trace.append(op["op"])
        if new is not None:
            new.sign = new.o.sign_type
            agree(new.o, new.model, trace)
            pool.append(new)
            if len(pool) > 6:
                pool.pop(0)
        for it in pool:
            agree(it.o, it.model, trace + ["other dataset"])
        check_queries(pool[op["a"] % len(pool)], trace)
        done += busy > 0
    for it in pool:
        check_queries(it, trace)
    ctx.nontrivial(done > 1)


SPEC = dict(
    seed=gen.SEEDS, kind=st.sampled_from(["tracks", "tracks", "observations"]), nb=st.sampled_from([3, 2, 6, 1, 0]), sampling=st.sampled_from([0, 0, 5]), extra=st.lists(st.sampled_from(EXTRA), max_size=4, unique=True), arrays=st.lists(st.sampled_from(ARRAYS), max_size=3, unique=True),
    only=st.sampled_from([False, False, True]), sign=st.sampled_from([1, -1]), same=st.sampled_from([True, True, False]),
)
OPS = ["copy", "equal", "concat", "concat", "merge", "merge", "insert", "append", "index", "mask", "add", "remove", "set", "query"]
OP = st.fixed_dictionaries(dict(op=st.sampled_from(OPS), a=st.integers(0, 5), b=st.integers(0, 5), k=st.integers(0, 40), seed=st.integers(0, 1000)))
FACETS = [
    Facet("history", lambda: st.fixed_dictionaries(dict(pool=st.lists(st.fixed_dictionaries(SPEC), min_size=1, max_size=3), ops=st.lists(OP, min_size=2, max_size=10))), check_history, quick=1500, budget=200),
]
