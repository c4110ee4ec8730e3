"""Histories of transformations of networks."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, netgen
from ..core import Facet

RULE = (
    "Cases are histories of 1 to 8 transformations (sort, extractions by mask, network, segment, period or duration, dead end removal, close events correction, dissociation, numbering) of networks with random merging, splitting and trash; "
    "a case is non-trivial when the network has a merging or a splitting and at least one transformation changes it."
)
ASSUMPTIONS = [
    "Networks are sorted by network, segment and date, as every function of the class gives them.",
    "Observations without network (trash) have network 0, segment 0 and no link.",
]


def op_strategy(names):
    return st.fixed_dictionaries(dict(name=st.sampled_from(names), a=st.integers(0, 2**16), p=st.sampled_from([0.1, 0.3, 0.5, 0.8, 0.95]), n=st.integers(0, 5), d=st.integers(0, 6), rec=st.integers(0, 2), flag=st.booleans()))


OPS = ["sort", "mask", "slice", "networks", "network", "segments", "period", "longer", "longer", "dead_end", "dead_end", "dead_end", "trash", "dissociate", "numbering_segment", "numbering_network", "copy"]


def history_case():
    return st.fixed_dictionaries(dict(net=st.fixed_dictionaries(netgen.NETWORK), ops=st.lists(op_strategy(OPS), min_size=1, max_size=8)))


def apply_mask(rows, keep):
    out = dict((k, v.copy()) for k, v in rows.items() if k in keep)
    for v in out.values():
        v.next = v.next if v.next in keep else None
        v.previous = v.previous if v.previous in keep else None
    return out


def same(real, rows, what):
    got, tags = netgen.state(real)
    assert set(got) == set(rows), (what, "observations", sorted(set(got) ^ set(rows)))
    for k, v in rows.items():
        assert got[k].key() == v.key(), (what, k, got[k], v)
    return got, tags


def check_indexes(n, rows, what):
    """What the object says about its own structure"""
    keys = [(int(a), int(b), float(c)) for a, b, c in zip(n.obs["track"], n.obs["segment"], n.obs["time"])]
    assert keys == sorted(keys), (what, "order", keys)
    if not keys:
        return
    segs = netgen.segments(rows)
    nets = dict()
    for v in rows.values():
        nets[v.track] = nets.get(v.track, 0) + 1
    assert n.nb_segment == len(segs), (what, "nb_segment", n.nb_segment, len(segs))
    assert n.nb_network == len(nets), (what, "nb_network", n.nb_network, len(nets))
    ref = min(nets)
    assert n.ref_index == ref
    size = n.network_size()
    assert size.tolist() == [nets.get(k, 0) for k in range(ref, max(nets) + 1)], (what, "network_size", size.tolist(), nets)
    ids = sorted(nets)
    assert n.network_size(np.array(ids)).tolist() == [nets[i] for i in ids], (what, "network_size of ids")
    ns = [sum(1 for s in segs if s[0] == i) for i in ids]
    assert n.network_segment_size(np.array(ids)).tolist() == ns, (what, "network_segment_size", ns)
    order = sorted(segs)
    assert n.segment_size().tolist() == [len(segs[s]) for s in order], (what, "segment_size")
    uniq = n.segment_track_array
    pos = dict((s, k) for k, s in enumerate(order))
    assert uniq.tolist() == [pos[a, b] for a, b, _ in keys], (what, "segment_track_array")
    tr, sg = n.unique_segment_to_id(np.arange(len(order)))
    assert list(zip(tr.tolist(), sg.tolist())) == order, (what, "unique_segment_to_id")
    for i in ids[:2]:
        sl = n.network_slice(i)
        assert set(n.obs["track"][sl].tolist()) == {i} and sl.stop - sl.start == nets[i], (what, "network_slice")


def others(n):
    f = [f for f in n.fields if f not in ("track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost", "lon_max")]
    return dict((int(t), tuple(n.obs[g][k].tobytes() for g in f)) for k, t in enumerate(n.obs["lon_max"]))


def history_check(case, ctx):
    n = netgen.network(case["net"])
    rows, tags = netgen.state(n)
    segs, g = netgen.graph(rows)
    event = any(g.values())
    base = others(n)
    changed = False
    for op in case["ops"]:
        if not len(n):
            break
        check_indexes(n, rows, "before")  # fill the cache of the object too
        r = gen.rng(op["a"])
        name = op["name"]
        before, keep_obs = rows, n.obs.copy()
        segs, g = netgen.graph(rows)
        new, extraction = n, True
        times = np.array([rows[t].time for t in tags])
        if name == "sort":
            o = r.permutation(len(n)) if not op["flag"] else np.roll(np.arange(len(n)), op["n"])
            back = np.r_[np.argsort(o), -1]
            obs = n.obs[o].copy()
            for f in ("next_obs", "previous_obs"):
                obs[f] = back[obs[f]]
            n.obs[:] = obs
            old = n.obs["lon_max"].astype(int)
            index, translate = n.sort()
            assert np.array_equal(n.obs["lon_max"].astype(int), old[index]), "returned order"
            assert np.array_equal(translate[index], np.arange(len(n))) and translate[-1] == -1, "returned translation"
            extraction = False
        elif name in ("mask", "slice", "segments", "networks", "network", "period", "longer", "trash"):
            if name == "mask":
                m = r.uniform(0, 1, len(n)) < op["p"]
                new = n.extract_with_mask(m)
            elif name == "slice":
                a, b = sorted(r.integers(0, len(n) + 1, 2).tolist())
                m = np.zeros(len(n), bool)
                m[a:b] = True
                new = n.extract_with_mask(slice(a, b))
            elif name == "segments":
                order = sorted(segs)
                ids = np.where(r.uniform(0, 1, len(order)) < op["p"])[0]
                if ids.size == 0:
                    continue
                ids = r.permutation(ids)
                chosen = set(order[i] for i in ids)
                m = np.array([(rows[t].track, rows[t].segment) in chosen for t in tags])
                new = n.extract_segment(ids.tolist() if op["flag"] else ids, absolute=True)
                mask = n.networks_mask(ids, segment=True)
                assert np.array_equal(mask, m), "networks_mask(segment)"
            elif name in ("networks", "network"):
                ids = sorted(set(v.track for v in rows.values()))
                if name == "network":
                    chosen = {ids[op["a"] % len(ids)]}
                    new = n.network(list(chosen)[0])
                else:
                    chosen = set(i for i in ids if r.uniform() < op["p"]) or {ids[0]}
                    wanted = list(chosen)
                    if op["flag"]:
                        # some which do not exist
                        wanted += [max(ids) + 1 + op["n"] * 1000, max(0, min(ids) - 1)] + [k for k in range(min(ids), max(ids)) if k not in ids][:2]
                        chosen = chosen | ({min(ids) - 1} & set(ids))
                        chosen = set(wanted) & set(ids)
                        ctx.label("missing ids")
                    new = n.networks(wanted)
                    assert np.array_equal(n.networks_mask(np.array(wanted)), [rows[t].track in chosen for t in tags]), "networks_mask"
                m = np.array([rows[t].track in chosen for t in tags])
            elif name == "period":
                t0, t1 = times.min(), times.max()
                a, b = [(t0 + op["n"], t1 - op["d"]), (-op["n"], -op["d"]), (0, t1 - op["d"]), (t0 + op["n"], 0), (0, -op["d"])][op["a"] % 5]
                lo = a if a > 0 else t0 - a if a < 0 else t0
                hi = b if b > 0 else t1 + b if b < 0 else t1
                m = (times >= lo) & (times <= hi)
                new = n.extract_with_period((a, b))
            elif name == "longer":
                lo, hi = op["d"] - 1, op["n"] + op["d"] if op["flag"] else -1
                dur = dict((i, 1 + max(v.time for v in rows.values() if v.track == i) - min(v.time for v in rows.values() if v.track == i)) for i in set(v.track for v in rows.values()))
                ok = set(i for i, d in dur.items() if d >= lo and (hi < 0 or d <= hi))
                m = np.array([rows[t].track in ok for t in tags])
                new = n.longer_than(lo, hi)
            else:
                m = np.array([rows[t].track != 0 for t in tags])
                new = n.remove_trash()
            rows = apply_mask(rows, set(t for t, k in zip(tags, m) if k))
            got, order = same(new, rows, name)
            assert order == [t for t, k in zip(tags, m) if k], (name, "order of the observations")
            assert new.sign_type == n.sign_type
        elif name == "dead_end":
            mask = None
            protected = set()
            if op["flag"]:
                mask = r.uniform(0, 1, len(n)) < op["p"] / 2
                protected = set(t for t, k in zip(tags, mask) if k)
            n.remove_dead_end(nobs=op["n"], ndays=op["d"], recursive=op["rec"], mask=mask)
            for _ in range(op["rec"] + 1):
                rows = dead_end(rows, op["n"], op["d"], protected)
            extraction = False
            if op["rec"] and op["flag"]:
                ctx.label("recursive with mask")
        elif name == "dissociate":
            n.dissociate_network()
            got, _ = netgen.state(n)
            rows = dict((k, v.copy()) for k, v in rows.items())
            names = dict()
            for s in sorted(segs):
                if s not in names:
                    for o in netgen.reach(g, [s]):
                        names[o] = got[segs[o][0]].track
                        for k in segs[o]:
                            assert got[k].track == got[segs[s][0]].track, ("dissociate", "linked segments are separated", s, o)
            comp = [frozenset(netgen.reach(g, [s])) for s in segs]
            assert len(set(got[m_[0]].track for m_ in segs.values())) == len(set(comp)), ("dissociate", "separated segments share a network")
            for k, v in rows.items():
                v.track = got[k].track
                first = sorted(segs)[0]
                trash = first[0] == 0 and (before[k].track, before[k].segment) in netgen.reach(g, [first])
                assert (v.track == 0) == trash, ("dissociate", "trash", k)
            extraction = False
        elif name == "numbering_segment":
            start = op["n"]
            n.numbering_segment(start)
            rows = dict((k, v.copy()) for k, v in rows.items())
            for i in set(s[0] for s in segs):
                for k, s in enumerate(sorted(s for s in segs if s[0] == i)):
                    for t in segs[s]:
                        rows[t].segment = start + k
            extraction = False
        elif name == "numbering_network":
            start = 1 + op["n"]  # 0 is for the trash
            n.numbering_network(start)
            rows = dict((k, v.copy()) for k, v in rows.items())
            tr = dict((i, start + k) for k, i in enumerate(sorted(set(s[0] for s in segs))))
            for v in rows.values():
                v.track = tr[v.track]
            extraction = False
        elif name == "copy":
            new = n.copy()
            same(new, rows, "copy")
            new.obs["track"] += 1
            assert np.array_equal(n.obs, keep_obs), "a copy shares its data"
            new.obs["track"] -= 1
        if extraction:
            assert np.array_equal(n.obs, keep_obs), (name, "the source is changed")
        n = new
        _, tags = same(n, rows, name)
        check_indexes(n, rows, name)
        now = others(n)
        assert all(base[k] == v for k, v in now.items()), (name, "another field is changed")
        if len(rows) != len(before) or any(rows[k].key() != before[k].key() for k in rows):
            changed = True
            ctx.label(name)
    ctx.nontrivial(event and changed)


def dead_end(rows, nobs, ndays, protected):
    segs, g = netgen.graph(rows)
    drop = set()
    for s, m in segs.items():
        long_ = len(m) >= nobs and rows[m[-1]].time - rows[m[0]].time + 1 >= ndays
        if not (long_ or len(g[s]) >= 2 or any(k in protected for k in m)):
            drop |= set(m)
    out = dict((k, v.copy()) for k, v in rows.items())
    for k, v in out.items():
        if k in drop:
            v.track = v.segment = 0
            v.next = v.previous = None
            v.nc = v.pc = 0.0
        else:
            if v.next in drop:
                v.next, v.nc = None, 0.0
            if v.previous in drop:
                v.previous, v.pc = None, 0.0
    return out


# ---------------------------------------------------------------- swapping parts of segments
def close_case():
    d = dict(netgen.NETWORK)
    d.update(style=st.sampled_from(["links", "band", "band", "band"]), density=st.sampled_from([0.1, 0.3, 0.6]), days=st.sampled_from([3, 5, 8, 12]), n=st.integers(2, 4), groups=st.integers(1, 2))
    return st.fixed_dictionaries(dict(net=st.fixed_dictionaries(d), days_max=st.sampled_from([1, 2, 3, 5, 20]), pre=st.sampled_from([None, None, "dead_end", "networks", "mask"]), again=st.booleans(), a=gen.SEEDS))


def consistent(rows, what):
    """Observations of a segment have distinct dates and are linked to each other when they are linked"""
    for s, m in netgen.segments(rows).items():
        if s[0] == 0:
            continue
        t = [rows[k].time for k in m]
        assert all(a < b for a, b in zip(t[:-1], t[1:])), (what, "two observations of a segment at the same date", s, t)
        for k in m:
            v = rows[k]
            for o, sign in ((v.next, 1), (v.previous, -1)):
                if o is not None:
                    assert rows[o].track == v.track, (what, "link to another network", k, o)
                    assert sign * (rows[o].time - v.time) > 0, (what, "link back in time", k, o)
            if v.next is not None and rows[v.next].previous == k:
                assert rows[v.next].segment == v.segment, (what, "mutual link between two segments", k, v.next)
                assert abs(rows[v.next].pc - v.nc) < 1e-6, (what, "two costs for one link", k, v.next, v.nc, rows[v.next].pc)
        for a, b in zip(m[:-1], m[1:]):
            linked = rows[a].next, rows[b].previous
            assert linked == (b, a) or linked[0] is None or linked[1] is None, (what, "consecutive observations are not linked", s, a, b, linked)


def close_check(case, ctx):
    n = netgen.network(case["net"])
    r = gen.rng(case["a"])
    rows, tags = netgen.state(n)
    consistent(rows, "start")
    if case["pre"] == "dead_end":
        n.remove_dead_end(nobs=2)
        rows, tags = netgen.state(n)
    elif case["pre"] == "networks" and len(n):
        n = n.network(n.obs["track"][-1])
        rows, tags = netgen.state(n)
    elif case["pre"] == "mask" and len(n):
        n = n.extract_with_mask(r.uniform(0, 1, len(n)) < 0.9)
        rows, tags = netgen.state(n)
    if not len(n):
        return
    base = others(n)
    check_indexes(n, rows, "before")
    for _ in range(1 + case["again"]):
        if case["net"]["step"] in (1.0, 7.0, 130.0):
            # entire durations: shorter than d is shorter than d - 0.5
            other = n.copy()
            other.correct_close_events(case["days_max"] * case["net"]["step"] - 0.5)
            n.correct_close_events(case["days_max"] * case["net"]["step"])
            assert n.obs.tobytes() == other.obs.tobytes(), "limit of duration"
        else:
            n.correct_close_events(case["days_max"])
        new, _ = netgen.state(n)
        assert others(n) == base, "another field is changed"
        check_indexes(n, new, "close events")
        assert set(new) == set(rows)
        moved = 0
        for k, v in rows.items():
            w = new[k]
            assert (w.track, w.time, w.next) == (v.track, v.time, v.next), ("changed", k, v, w)
            if w.previous != v.previous:
                # only for another observation which was merging on this one
                assert w.previous is not None and rows[w.previous].next == k, ("previous", k, v, w)
                moved += 1
            moved += w.segment != v.segment
        consistent(new, "close events")
        assert set(netgen.segments(new)) == set(netgen.segments(rows)), "a segment disappears or appears"
        ctx.nontrivial(moved > 0)
        rows = new


def swap_case():
    d = dict(netgen.NETWORK)
    d.update(style=st.sampled_from(["band", "band", "links"]), density=st.sampled_from([0.1, 0.3, 0.6]), days=st.sampled_from([3, 5, 8, 12]), n=st.integers(2, 4), groups=st.integers(1, 2))
    return st.fixed_dictionaries(dict(net=st.fixed_dictionaries(d), main=st.sampled_from([0, 1, 2, 3, 6]), second=st.sampled_from([0, 1, 1, 2, 3, 4]), delta=st.sampled_from([-0.2, -5.0, -0.5, 0.0]), cut=st.sampled_from([1.0, 1.0, 0.9]), again=st.booleans(), a=gen.SEEDS))


def swap_check(case, ctx):
    n = netgen.network(case["net"])
    if case["cut"] < 1 and len(n):
        n = n.extract_with_mask(gen.rng(case["a"]).uniform(0, 1, len(n)) < case["cut"])
    if not len(n):
        return
    base = others(n)
    rows, _ = netgen.state(n)
    consistent(rows, "start")
    check_indexes(n, rows, "before")
    for _ in range(1 + case["again"]):
        todo, events = wanted_swaps(rows, case)
        n.swap_track(case["main"], case["second"], case["delta"])
        new, _ = netgen.state(n)
        assert others(n) == base and set(new) == set(rows), "another field is changed"
        check_indexes(n, new, "swap")
        consistent(new, "swap")
        assert set(netgen.segments(new)) == set(netgen.segments(rows)), "a segment disappears or appears"
        for k, v in rows.items():
            w = new[k]
            assert (w.track, w.time, w.previous) == (v.track, v.time, v.previous), ("changed", k, v, w)
            if w.next != v.next:
                # the main segment continues by the branch, its former end is the branch now
                ctx.nontrivial()
                assert w.next is not None and rows[w.next].previous == k and rows[w.next].segment != v.segment, ("next", k, v, w)
                assert new[w.next].segment == w.segment != new[v.next].segment
        if not todo:
            assert all(new[k].key() == rows[k].key() for k in rows), "swap out of the limits"
            ctx.label("nothing to swap")
        elif len(todo) == 1 and len(events) == 1:
            (p, k), = todo
            assert new[p].next == k, ("swap in the limits is not done", p, k)
            assert new[p].nc == rows[k].pc, "cost of the swap"
            ctx.label("one swap")
        rows = new


def wanted_swaps(rows, case):
    """(observation which splits, first one of the branch) to swap, and every splitting."""
    segs = netgen.segments(rows)
    todo, events = [], []
    for k, v in rows.items():
        p = v.previous
        if p is None or rows[p].segment == v.segment or rows[p].track != v.track or v.track == 0:
            continue
        events.append((p, k))
        main, branch = segs[rows[p].track, rows[p].segment], segs[v.track, v.segment]
        i1 = rows[p].next
        if i1 is None or rows[main[-1]].next is not None:
            continue
        delta = v.pc - rows[i1].pc
        if abs(delta - case["delta"]) < 1e-6:
            events.append(None)  # not decided
        if rows[main[-1]].time - rows[p].time <= case["main"] and rows[branch[-1]].time - v.time >= case["second"] and delta > case["delta"] - 1e-6:
            todo.append((p, k))
    return todo, events


FACETS = [Facet("history%d" % k, history_case, history_check, quick=400, budget=60) for k in range(3)] + [
    Facet("close", close_case, close_check, quick=600, budget=60),
    Facet("swap", swap_case, swap_check, quick=1200, budget=60),
]
