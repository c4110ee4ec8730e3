"""Networks of segments built directly from random links (used by P17, P18 and others)."""
import numpy as np
from hypothesis import strategies as st

from . import gen

NETWORK = dict(
    seed=gen.SEEDS, style=st.sampled_from(["links", "band"]), groups=st.integers(1, 4), days=st.sampled_from([2, 3, 5, 8, 12]), n=st.integers(1, 4), density=st.sampled_from([0.0, 0.1, 0.3, 0.6]), hold=st.sampled_from([1.0, 0.9, 0.6]),
    window=st.integers(1, 3), trash=st.sampled_from([0, 0, 1, 4]), ids=st.sampled_from(["1..", "gaps", "gaps", "big"]), segs=st.sampled_from(["1..", "gaps", "shuffled"]), step=st.sampled_from([1.0, 1.0, 1.0, 7.0, 0.5, 130.0]),
)


def links(r, case):
    """One group: steps of the observations, then next, previous, costs and the components."""
    nd, n, w = case["days"], case["n"], case["window"]
    d0 = int(r.integers(0, 4))
    obs = []  # (step, path)
    for d in range(nd):
        here = r.uniform(0, 1, n) < case["hold"]
        obs += [(d0 + d, k) for k in np.where(here)[0]]
    nb = len(obs)
    edges = dict()
    for i in range(nb):
        for j in range(i + 1, nb):
            dt = obs[j][0] - obs[i][0]
            if not 0 < dt <= w:
                continue
            if obs[i][1] == obs[j][1]:
                edges[i, j] = r.uniform(0.4, 1.0)
            elif r.uniform() < case["density"] / dt:
                edges[i, j] = r.uniform(0.05, 0.9)
    nxt, prv, nc, pc = [-1] * nb, [-1] * nb, [0.0] * nb, [0.0] * nb
    fw, bw = dict(), dict()
    for (i, j), s in edges.items():
        fw.setdefault(i, []).append((obs[j][0] - obs[i][0], -s, j))
        bw.setdefault(j, []).append((obs[j][0] - obs[i][0], -s, i))
    for i, c in fw.items():
        _, s, j = min(c)
        nxt[i], nc[i] = j, -s
    for t in range(nb):
        claim = [(nc[i], i) for i in range(nb) if nxt[i] == t]
        if claim:
            pc[t], prv[t] = max(claim)
        elif t in bw:
            _, s, j = min(bw[t])
            prv[t], pc[t] = j, -s
    p = list(range(nb))

    def find(a):
        while p[a] != a:
            a = p[a]
        return a

    for i, j in edges:
        p[find(i)] = find(j)
    comp = [find(i) for i in range(nb)]
    seg, k = [0] * nb, 0
    for i in range(nb):
        if prv[i] != -1 and nxt[prv[i]] == i:
            seg[i] = seg[prv[i]]
        else:
            k += 1
            seg[i] = k
    return [o[0] for o in obs], nxt, prv, nc, pc, comp, seg


def band(r, case):
    """Same thing with many events: segments first, then where they split from and merge to."""
    w, nd = case["window"], case["days"] + 2
    ns = int(r.integers(2, 3 + 2 * case["n"]))
    obs, seg_obs = [], []
    for k in range(ns):
        a = int(r.integers(0, nd - 1))
        b = int(r.integers(a, min(nd, a + 1 + case["days"])))
        t, mine = a, []
        while t <= b:
            mine.append((t, k))
            t += int(r.integers(1, w + 1)) if r.uniform() > case["hold"] else 1
        seg_obs.append(mine)
    obs = sorted(o for m in seg_obs for o in m)
    pos = dict((o, i) for i, o in enumerate(obs))
    nb = len(obs)
    nxt, prv, nc, pc, seg = [-1] * nb, [-1] * nb, [0.0] * nb, [0.0] * nb, [0] * nb
    heads = set(m[0] for m in seg_obs)
    for k, m in enumerate(seg_obs):
        for o in m:
            seg[pos[o]] = k + 1
        for o, q in zip(m[:-1], m[1:]):
            nxt[pos[o]], prv[pos[q]] = pos[q], pos[o]
            nc[pos[o]] = pc[pos[q]] = r.uniform(0.5, 1.0)
    for k, m in enumerate(seg_obs):
        up = [o for o in obs if o[1] != k and 0 < m[0][0] - o[0] <= w and nxt[pos[o]] != -1]
        if up and r.uniform() < 0.8:
            prv[pos[m[0]]], pc[pos[m[0]]] = pos[up[int(r.integers(0, len(up)))]], r.uniform(0.05, 0.5)
    for k, m in enumerate(seg_obs):
        down = [o for o in obs if o[1] != k and 0 < o[0] - m[-1][0] <= w and o not in heads]
        if down and r.uniform() < 0.8:
            nxt[pos[m[-1]]], nc[pos[m[-1]]] = pos[down[int(r.integers(0, len(down)))]], r.uniform(0.05, 0.5)
    return [o[0] for o in obs], nxt, prv, nc, pc, [0] * nb if case["hold"] < 1 else seg, seg


def rows(case):
    """Rows of the table: dict of lists, links as positions in the table, sorted as in files."""
    r = gen.rng(case["seed"])
    out = []  # track, segment, step, key, next key, previous key, costs
    base = 0
    used = 0
    for _ in range(case["groups"]):
        step, nxt, prv, nc, pc, comp, seg = (links if case["style"] == "links" else band)(r, case)
        if case["style"] == "band" and comp == seg:
            # one network by connected set of segments
            p = list(range(max(seg) + 1))
            for i, (a, b) in enumerate(zip(nxt, prv)):
                for o in (a, b):
                    if o != -1:
                        i0, i1 = p[seg[i]], p[seg[o]]
                        p = [i1 if v == i0 else v for v in p]
            comp = [p[k] for k in seg]
        sizes = dict((c, comp.count(c)) for c in comp)
        names = dict()
        for c in sorted(sizes):
            if sizes[c] > 1:
                used += 1 if case["ids"] == "1.." else int(r.integers(1, 4 if case["ids"] == "gaps" else 50))
                names[c] = used
        for c, tr in names.items():
            mine = [i for i in range(len(step)) if comp[i] == c]
            labels = sorted(set(seg[i] for i in mine))
            if case["segs"] == "1..":
                new = list(range(1, len(labels) + 1))
            elif case["segs"] == "gaps":
                new = np.cumsum(r.integers(1, 4, len(labels))).tolist()
            else:
                new = (1 + r.permutation(len(labels))).tolist()
            tr_seg = dict(zip(labels, new))
            for i in mine:
                out.append((tr, tr_seg[seg[i]], step[i], base + i, base + nxt[i] if nxt[i] >= 0 else -1, base + prv[i] if prv[i] >= 0 else -1, nc[i], pc[i]))
        base += len(step)
    for _ in range(case["trash"]):
        out.append((0, 0, int(r.integers(0, case["days"] + 4)), base, -1, -1, 0.0, 0.0))
        base += 1
    out.sort(key=lambda v: v[:4])
    where = dict((v[3], k) for k, v in enumerate(out))
    where[-1] = -1
    return out, where, r


def network(case, cls=None, extra=("lon_max",), sampling=0):
    """NetworkObservations, lon_max is a label of the observation (1 to nb)."""
    from py_eddy_tracker.observations.network import NetworkObservations

    out, where, r = rows(case)
    nb = len(out)
    n = gen.make_obs(nb, sampling, extra=list(extra), cls=cls or NetworkObservations)
    for f in n.fields:
        v = n.obs[f]
        if v.ndim == 1 and v.dtype.kind == "f":
            v[:] = r.uniform(0, 1, nb)
    n.obs["lon_max"] = 1 + r.permutation(nb)
    n.obs["lon"], n.obs["lat"] = r.uniform(-180, 360, nb), r.uniform(-60, 60, nb)
    n.obs["track"] = [v[0] for v in out]
    n.obs["segment"] = [v[1] for v in out]
    n.obs["time"] = [20000.0 + v[2] * case["step"] for v in out]
    n.obs["next_obs"] = [where[v[4]] for v in out]
    n.obs["previous_obs"] = [where[v[5]] for v in out]
    n.obs["next_cost"] = [v[6] for v in out]
    n.obs["previous_cost"] = [v[7] for v in out]
    n.sign_type = 1
    return n


class Row:
    __slots__ = ("track", "segment", "time", "next", "previous", "nc", "pc")

    def __init__(self, *a):
        self.track, self.segment, self.time, self.next, self.previous, self.nc, self.pc = a

    def copy(self):
        return Row(*(getattr(self, k) for k in Row.__slots__))

    def key(self):
        """A cost has a meaning only with its link"""
        return self.track, self.segment, self.time, self.next, self.previous, self.nc if self.next is not None else 0.0, self.pc if self.previous is not None else 0.0

    def __repr__(self):
        return repr(self.key())


def state(n):
    """Content of a network by label of observation: {label: Row}, and the labels in the order of the table."""
    tag = n.obs["lon_max"].astype(int).tolist()
    nb = len(tag)
    o = n.obs
    cols = [o[f].tolist() for f in ("track", "segment", "time", "next_obs", "previous_obs", "next_cost", "previous_cost")]
    out = dict()
    for k in range(nb):
        tr, sg, t, a, b, c, d = (v[k] for v in cols)
        assert -1 <= a < nb and -1 <= b < nb, ("link out of the table", a, b, nb)
        out[tag[k]] = Row(tr, sg, t, tag[a] if a != -1 else None, tag[b] if b != -1 else None, c, d)
    assert len(out) == nb, "observation twice"
    return out, tag


def segments(rows_):
    """{(track, segment): labels by date}"""
    out = dict()
    for k, v in rows_.items():
        out.setdefault((v.track, v.segment), []).append(k)
    for v in out.values():
        v.sort(key=lambda k: rows_[k].time)
    return out


def graph(rows_):
    """{(track, segment): set of segments linked by its first or last observation}"""
    segs = segments(rows_)
    g = dict((s, set()) for s in segs)
    for s, m in segs.items():
        for k in (rows_[m[0]].previous, rows_[m[-1]].next):
            if k is not None:
                o = rows_[k].track, rows_[k].segment
                g[s].add(o)
                g[o].add(s)
    return segs, g


def reach(g, start, order=None):
    """{segment: distance}"""
    d = {s: 0 for s in start}
    todo = list(d)
    while todo:
        nxt = []
        for s in todo:
            if order is not None and d[s] >= order:
                continue
            for o in g[s]:
                if o not in d:
                    d[o] = d[s] + 1
                    nxt.append(o)
        todo = nxt
    return d
