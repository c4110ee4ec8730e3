"""Figures: what is drawn is what the data hold."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, netgen
from ..core import Facet

RULE = (
    "Cases are sets of eddies with contours, tracks, networks and grids with a request of drawing (field, factor, western bound, contour, colours, bounds of colours); the artists created on a figure which is not shown "
    "are compared with the data. A case is non-trivial when at least two elements are drawn."
)
ASSUMPTIONS = ["Only artists are examined (positions, breaks, colours, labels), not the pixels of an image. Longitudes are compared modulo 360 and inside the requested bound where one is asked."]


def new_ax():
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure

    fig = Figure()
    FigureCanvasAgg(fig)
    return fig.add_subplot(111)


def near(a, b, tol=1e-4):
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    return a.shape == b.shape and (np.isnan(a) == np.isnan(b)).all() and np.abs(a - b)[~np.isnan(a)].max(initial=0) < tol


def near_mod(a, b, tol=1e-4):
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    return a.shape == b.shape and (np.isnan(a) == np.isnan(b)).all() and np.abs(gen.wrap180(a - b))[~np.isnan(a)].max(initial=0) < tol


def parts(x, y):
    """Pieces between breaks"""
    out, cur = [], []
    for a, b in zip(np.asarray(x, "f8"), np.asarray(y, "f8")):
        if np.isnan(a) or np.isnan(b):
            if cur:
                out.append(np.array(cur))
            cur = []
        else:
            cur.append((a, b))
    if cur:
        out.append(np.array(cur))
    return out


def bounded(pieces, ref, jump=20):
    """A piece may go over the bound only by its ends, to show where it goes on"""
    for q in pieces:
        x = q[1:-1, 0]
        assert (x >= ref - 1e-3).all() and (x <= ref + 360 + 1e-3).all(), f"line out of the bound {ref}: {q}"
        assert q[:, 0].min() > ref - jump and q[:, 0].max() < ref + 360 + jump, f"line out of the bound {ref}: {q}"
        if len(q) > 1:
            assert np.abs(np.diff(q[:, 0])).max() < jump, f"a line crosses the whole map: {q}"


def colors_of(v, vmin, vmax, cmap, lut):
    """Colour of each value, and whether it is far enough of a change of colour"""
    import matplotlib

    cm = matplotlib.colormaps[cmap]
    if lut:
        cm = cm.resampled(lut)
    k = (v - vmin) / (vmax - vmin)
    z = k * cm.N
    sure = np.abs(z - np.round(z)) > 1e-3
    sure |= (k < -1e-6) | (k > 1 + 1e-6)
    return cm(k), sure & ~((np.abs(k) < 1e-9) | (np.abs(k - 1) < 1e-9))


EDDIES = dict(
    seed=gen.SEEDS, n=st.integers(1, 8), samp=st.sampled_from([6, 20]), x0=st.sampled_from([0.0, 175.0, 350.0, -179.0, 20.0]), ref=st.sampled_from([None, None, -180, 0, 20.5, -10]),
    what=st.sampled_from(["scatter", "filled", "display", "color"]), field=st.sampled_from([None, "amplitude", "radius_e", "array"]), factor=st.sampled_from([1, 100.0]),
    vmin=st.sampled_from([None, 0.1]), vmax=st.sampled_from([None, 0.7]), lut=st.sampled_from([None, 5, 10]), intern=st.booleans(), only=st.sampled_from(["both", "extern", "intern"]), label=st.booleans(),
    cross=st.booleans(),
)


def eddies(case, cls=None, extra=()):
    r = gen.rng(case["seed"])
    n = case["n"]
    o = gen.make_obs(n, case["samp"], extra=list(extra), cls=cls)
    for f in o.fields:
        if o.obs[f].ndim == 1 and o.obs[f].dtype.kind == "f":
            o.obs[f] = r.uniform(0, 1, n)
    o.obs["lon"], o.obs["lat"] = case["x0"] + r.uniform(0, 25, n), r.uniform(-50, 50, n)
    if case.get("cross") and case.get("ref") is not None:
        # the western bound goes through some of eddies
        m = r.uniform(size=n) < 0.5
        m[r.integers(n)] = True
        o.obs["lon"][m] = case["ref"] + r.uniform(-1.5, 1.5, m.sum()) + 360 * r.integers(-1, 2)
    o.obs["time"] = 20000 + r.integers(0, 30, n)
    for k in "es":
        for i in range(n):
            o.obs["contour_lon_" + k][i], o.obs["contour_lat_" + k][i] = gen.star(r, o.obs["lon"][i], o.obs["lat"][i], 1.2, 0.8, case["samp"] - 1)
    return o, r


def check_eddies(case, ctx):
    o, r = eddies(case)
    n = case["n"]
    ax = new_ax()
    ref = case["ref"]
    keep = o.obs.copy()
    field = case["field"]
    if field == "array":
        field = r.uniform(0, 1, n)
    v = None if field is None else np.asarray(o.obs[field] if isinstance(field, str) else field, "f8")
    kw = dict(label="{nb_obs} eddies") if case["label"] and case["what"] in ("filled", "display") else dict()
    k = "s" if case["intern"] else "e"
    cx, cy = o.obs["contour_lon_" + k], o.obs["contour_lat_" + k]
    ctx.label(case["what"], "ref" if ref is not None else "no ref")
    ctx.nontrivial(n > 1)
    if case["what"] == "scatter":
        p = o.scatter(ax, field, ref=ref, factor=case["factor"])
        xy = np.asarray(p.get_offsets())
        assert near_mod(xy[:, 0], o.obs["lon"]) and near(xy[:, 1], o.obs["lat"]), "positions of scatter"
        if ref is None:
            assert near(xy[:, 0], o.obs["lon"], 1e-4), "longitudes changed"
        else:
            assert (xy[:, 0] >= ref - 1e-4).all() and (xy[:, 0] <= ref + 360 + 1e-4).all(), f"longitudes out of the bound {ref}: {xy[:, 0]}"
        if v is not None:
            assert near(p.get_array(), v * case["factor"], 1e-5 * case["factor"]), "values of scatter"
    elif case["what"] in ("filled", "color"):
        if v is None:
            field = "amplitude"
            v = np.asarray(o.obs["amplitude"], "f8")
        f = case["factor"] if case["what"] == "filled" else 1
        if case["vmin"] is not None:
            kw["vmin"] = case["vmin"] * f
        if case["vmax"] is not None:
            kw["vmax"] = case["vmax"] * f
        if n < 2 and (case["vmin"] is None or case["vmax"] is None):
            return
        if case["what"] == "filled":
            p = o.filled(ax, field, ref=ref, intern=case["intern"], factor=f, lut=case["lut"], cmap="magma_r", **kw)
            got = p.get_facecolors()
        else:
            p = o.display_color(ax, field, ref=ref, intern=case["intern"], cmap="magma_r", **kw)
            got = p.get_colors()
        vmin, vmax = kw.get("vmin", v.min() * f), kw.get("vmax", v.max() * f)
        want, sure = colors_of(v * f, vmin, vmax, "magma_r", case["lut"] if case["what"] == "filled" else None)
        assert got.shape == want.shape and np.abs(got - want)[sure].max(initial=0) < 1e-6, "colours of contours"
        assert abs(p.norm.vmin - vmin) < 1e-5 * f and abs(p.norm.vmax - vmax) < 1e-5 * f, f"bounds of colours {p.norm.vmin, p.norm.vmax} instead of {vmin, vmax}"
        paths = p.get_paths()
        assert len(paths) == n, f"{len(paths)} contours drawn for {n} eddies"
        for i, q in enumerate(paths):
            w = q.vertices[: case["samp"]]
            assert near_mod(w[:, 0], cx[i]) and near(w[:, 1], cy[i]), f"contour {i} drawn elsewhere"
            if ref is None:
                assert near(w[:, 0], cx[i]), f"longitudes of contour {i} changed"
            elif np.floor((cx[i].min() - ref) / 360) == np.floor((cx[i].max() - ref) / 360):
                assert w[:, 0].min() >= ref - 1e-4 and w[:, 0].max() <= ref + 360 + 1e-4, f"contour {i} out of the bound {ref}"
        if kw.get("label"):
            assert p.get_label() == f"{n} eddies", p.get_label()
        assert p in ax.collections
    else:
        m = o.display(ax, ref=ref, extern_only=case["only"] == "extern", intern_only=case["only"] == "intern", **kw)
        names = dict(both="se", extern="e", intern="s")[case["only"]]
        assert len(m) == len(names) == len(ax.lines), f"{len(m)} lines for {case['only']}"
        for line, k in zip(m, names):
            x, y = np.asarray(line.get_xdata(), "f8"), np.asarray(line.get_ydata(), "f8")
            p = parts(x, y)
            xs, ys = o.obs["contour_lon_" + k], o.obs["contour_lat_" + k]
            assert line.get_linestyle() == ("-." if k == "e" else "-"), "style of the effective contour"
            if ref is None:
                assert len(p) == n, f"{len(p)} contours for {n} eddies"
                for i, q in enumerate(p):
                    assert near(q[:, 0], xs[i]) and near(q[:, 1], ys[i]), f"contour {i} drawn elsewhere"
            else:
                ok = ~np.isnan(x)
                bounded(p, ref)
                # every vertex is drawn, and nothing is drawn elsewhere
                d = np.hypot(gen.wrap180(xs.reshape(-1, 1).astype("f8") - x[ok]), ys.reshape(-1, 1) - y[ok])
                assert d.min(axis=1).max() < 1e-3, "a vertex is not drawn"
                for q in p:
                    assert np.abs(np.diff(q[:, 0])).max(initial=0) < 10, "a line crosses the whole map"
            if kw and (k == "s" or case["only"] == "extern"):
                assert line.get_label() == f"{n} eddies", line.get_label()
            elif kw:
                assert not str(line.get_label()).endswith("eddies"), "label given twice"
    assert keep.tobytes() == o.obs.tobytes(), "data changed by a drawing"


TRACKS = dict(
    seed=gen.SEEDS, k=st.integers(1, 5), samp=st.sampled_from([8]), ref=st.sampled_from([None, None, -180, 0, 20.5]), what=st.sampled_from(["plot", "plot", "shape"]),
    x0=st.sampled_from([0.0, 170.0, 355.0, -5.0]), ids=st.sampled_from(["1..", "gaps"]), label=st.booleans(), intern=st.booleans(),
)


def check_tracks(case, ctx):
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    r = gen.rng(case["seed"])
    sizes = r.integers(1, 5, case["k"])
    n = int(sizes.sum())
    o, _ = eddies(dict(case, n=n), cls=TrackEddiesObservations)
    ids = np.cumsum(r.integers(1, 2 if case["ids"] == "1.." else 4, case["k"]))
    o.obs["track"] = ids.repeat(sizes)
    first = np.r_[0, np.cumsum(sizes)[:-1]]
    o.obs["n"] = np.arange(n) - first.repeat(sizes)
    o.obs["lon"] = (case["x0"] + r.uniform(-12, 12, case["k"])).repeat(sizes) + 0.7 * o.obs["n"]
    o.obs["time"] = 20000 + o.obs["n"]
    for c in "es":
        for i in range(n):
            o.obs["contour_lon_" + c][i], o.obs["contour_lat_" + c][i] = gen.star(r, o.obs["lon"][i], o.obs["lat"][i], 1.2, 0.8, case["samp"] - 1, rough=0.1)
    keep = o.obs.copy()
    ax = new_ax()
    ref = case["ref"]
    kw = dict(label="{nb_tracks} tracks {nb_obs} obs") if case["label"] else dict()
    ctx.label(case["what"], "ref" if ref is not None else "no ref")
    ctx.nontrivial(case["k"] > 1)
    if case["what"] == "plot":
        m = o.plot(ax, ref=ref, **kw)
        assert len(m) == 1
        x, y = np.asarray(m[0].get_xdata(), "f8"), np.asarray(m[0].get_ydata(), "f8")
        p = parts(x, y)
        if ref is None:
            assert len(p) == case["k"], f"{len(p)} lines for {case['k']} tracks"
            for q, a, s in zip(p, first, sizes):
                assert near(q[:, 0], o.obs["lon"][a:a + s]) and near(q[:, 1], o.obs["lat"][a:a + s]), "track drawn elsewhere"
        else:
            ok = ~np.isnan(x)
            bounded(p, ref)
            in_ = ok & (x >= ref - 1e-3) & (x <= ref + 360 + 1e-3)
            d = np.hypot(gen.wrap180(o.obs["lon"].reshape(-1, 1).astype("f8") - x[in_]), o.obs["lat"].reshape(-1, 1) - y[in_])
            assert d.min(axis=1).max() < 1e-3, "an observation is not drawn"
            # nothing joins two tracks: every piece is on the line of one track
            for q in p:
                good = False
                for a, s in zip(first, sizes):
                    tx, ty = o.obs["lon"][a:a + s].astype("f8"), o.obs["lat"][a:a + s].astype("f8")
                    lo, hi = q[:, 1].min(), q[:, 1].max()
                    if lo < ty.min() - 1e-3 or hi > ty.max() + 1e-3:
                        continue
                    dd = np.hypot(gen.wrap180(q[:, 0][:, None] - tx), q[:, 1][:, None] - ty).min(axis=1)
                    if (dd < 1e-3).all():
                        good = True
                assert good, f"a line joins different tracks: {q}"
        if kw:
            assert m[0].get_label() == f"{case['k']} tracks {n} obs", m[0].get_label()
    else:
        p = o.shape_polygon(intern=case["intern"])
        assert len(p) == case["k"], f"{len(p)} shapes for {case['k']} tracks"
        k = "s" if case["intern"] else "e"
        for (x, y), a, s in zip(p, first, sizes):
            rings = parts(x, y)
            px = r.uniform(np.nanmin(x) - 0.2, np.nanmax(x) + 0.2, 60)
            py = r.uniform(np.nanmin(y) - 0.2, np.nanmax(y) + 0.2, 60)
            ins, sure = np.zeros(60, bool), np.ones(60, bool)
            for i in range(a, a + s):
                w, near_ = inside(px, py, o.obs["contour_lon_" + k][i], o.obs["contour_lat_" + k][i])
                ins |= w
                sure &= ~near_
            got = np.zeros(60, bool)
            for q in rings:
                w, _ = inside(px, py, q[:, 0], q[:, 1])
                got ^= w
            assert (got == ins)[sure].all(), "shape of a track is not the union of its contours"
        m = o.display_shape(ax, ref=ref, intern=case["intern"], **kw)
        x, y = np.asarray(m[0].get_xdata(), "f8"), np.asarray(m[0].get_ydata(), "f8")
        allx, ally = np.concatenate([q[0] for q in p]), np.concatenate([q[1] for q in p])
        if ref is None:
            a, b = parts(x, y), parts(allx, ally)
            assert len(a) == len(b) and all(near(u, w) for u, w in zip(a, b)), "shapes drawn"
        else:
            bounded(parts(x, y), ref)
    assert keep.tobytes() == o.obs.tobytes(), "data changed by a drawing"


def inside(px, py, x, y):
    x, y = np.asarray(x, "f8"), np.asarray(y, "f8")
    if x[0] != x[-1] or y[0] != y[-1]:
        x, y = np.r_[x, x[0]], np.r_[y, y[0]]
    w = np.zeros(px.size, bool)
    d = np.full(px.size, np.inf)
    for a, b, c, e in zip(x[:-1], y[:-1], x[1:], y[1:]):
        up = (b > py) != (e > py)
        with np.errstate(divide="ignore", invalid="ignore"):
            w ^= up & (px < (c - a) * (py - b) / (e - b) + a)
        l2 = (c - a) ** 2 + (e - b) ** 2
        t = np.clip(((px - a) * (c - a) + (py - b) * (e - b)) / l2, 0, 1) if l2 else 0
        d = np.minimum(d, np.hypot(px - a - t * (c - a), py - b - t * (e - b)))
    return w, d < 1e-3


NET = dict(
    net=st.fixed_dictionaries(netgen.NETWORK), a=gen.SEEDS, what=st.sampled_from(["plot", "scatter", "timeline", "timeline", "map", "scatter_timeline"]),
    field=st.sampled_from([None, "amplitude", "array"]), method=st.sampled_from([None, "mean", "all"]), factor=st.sampled_from([1, 10.0]), colors=st.sampled_from(["roll", "y"]),
    ref=st.sampled_from([None, 0, -30.0]), cycle=st.sampled_from([None, ["k", "r"], []]), event=st.booleans(),
)


def check_network(case, ctx):
    n = netgen.network(dict(case["net"], step=1.0))
    if not len(n):
        return
    r = gen.rng(case["a"])
    if case["what"] in ("timeline", "scatter_timeline"):
        ids = np.unique(n.obs["track"])
        ids = ids[ids != 0]
        if not ids.size:
            return
        n = n.network(int(r.choice(ids)))
    nb = len(n)
    tr, sg = n.obs["track"].astype(int), n.obs["segment"].astype(int)
    couples = list(zip(tr.tolist(), sg.tolist()))
    segs = [[i for i in range(nb) if couples[i] == c] for c in sorted(set(couples))]
    keep = n.obs.copy()
    ax = new_ax()
    field, f = case["field"], case["factor"]
    if field == "array":
        field = r.uniform(0, 1, nb)
    v = None if field is None else np.asarray(n.obs[field] if isinstance(field, str) else field, "f8")
    nxt, prv = n.obs["next_obs"], n.obs["previous_obs"]
    merging = [(s[-1], int(nxt[s[-1]])) for s in segs if nxt[s[-1]] != -1]
    splitting = [(s[0], int(prv[s[0]])) for s in segs if prv[s[0]] != -1]
    ctx.label(case["what"])
    ctx.nontrivial(len(segs) > 1)
    import matplotlib.dates as md
    from matplotlib.colors import to_rgba

    def days(x):
        x = np.asarray(x)
        return (x - np.datetime64("1950-01-01")).astype("timedelta64[s]").astype("f8") / 86400 if x.dtype.kind == "M" else np.asarray(x, "f8")

    t = np.asarray(n.obs["time"], "f8")

    def line_data(l):
        return days(np.asarray(l.get_xdata(orig=True))), np.asarray(l.get_ydata(orig=True), "f8")

    ref = case["ref"]
    if case["what"] == "plot":
        m = n.plot(ax, ref=ref, color_cycle=case["cycle"])
        assert len(m) == len(segs), f"{len(m)} lines for {len(segs)} segments"
        cyc = n.COLORS if case["cycle"] is None else case["cycle"]
        for j, (l, s) in enumerate(zip(m, segs)):
            x, y = line_data(l)
            if ref is None:
                assert near(x, n.obs["lon"][s]) and near(y, n.obs["lat"][s]), f"segment {couples[s[0]]} drawn elsewhere"
            else:
                ok = ~np.isnan(x)
                d = np.hypot(gen.wrap180(n.obs["lon"][s].reshape(-1, 1).astype("f8") - x[ok]), n.obs["lat"][s].reshape(-1, 1) - y[ok])
                assert d.min(axis=1).max() < 1e-3, f"an observation of segment {couples[s[0]]} is not drawn"
                bounded(parts(x, y), ref, 180.01)
            if cyc:
                assert to_rgba(l.get_color()) == to_rgba(cyc[j % len(cyc)]), f"colour of segment number {j}"
    elif case["what"] == "scatter":
        kw = dict(edgecolor_cycle=case["cycle"]) if case["cycle"] else dict()
        m = n.scatter(ax, **(dict(name=field, factor=f) if field is not None else dict(name=None)), ref=ref, **kw)
        xy = np.asarray(m["scatter"].get_offsets())
        assert near_mod(xy[:, 0], n.obs["lon"]) and near(xy[:, 1], n.obs["lat"]), "positions of scatter"
        if ref is not None:
            assert (xy[:, 0] >= ref - 1e-4).all() and (xy[:, 0] <= ref + 360 + 1e-4).all(), "scatter out of the bound"
        if field is not None:
            assert near(m["scatter"].get_array(), v * f, 1e-5 * f), "values of scatter"
        if case["cycle"]:
            j, want = 0, []
            for i in range(nb):
                j += i > 0 and sg[i] != sg[i - 1]
                want.append(to_rgba(case["cycle"][j % len(case["cycle"])]))
            assert near(m["edges"].get_edgecolor(), want), "colours of the edges"
    elif case["what"] == "map":
        n.event_map(ax)
        lon, lat = n.obs["lon"], n.obs["lat"]
        two = [l for l in ax.lines if len(np.atleast_1d(l.get_xdata())) == 2]
        one = [l for l in ax.lines if len(np.atleast_1d(l.get_xdata())) == 1]
        want = sorted((float(lon[a]), float(lat[a]), float(lon[b]), float(lat[b])) for a, b in merging + splitting)
        have = sorted((float(l.get_xdata()[0]), float(l.get_ydata()[0]), float(l.get_xdata()[1]), float(l.get_ydata()[1])) for l in two)
        assert len(have) == len(want) and near(have, want), "links of events on the map"
        for mark, ev in (("H", merging), ("*", splitting)):
            have = sorted((float(np.atleast_1d(l.get_xdata())[0]), float(np.atleast_1d(l.get_ydata())[0])) for l in one if l.get_marker() == mark)
            want = sorted((float(lon[a]), float(lat[a])) for a, _ in ev)
            assert len(have) == len(want) and near(have, want), f"marks {mark} of events"
    else:
        yname, me = field, case["method"]

        def ys(idx):
            """ordinate of observations"""
            idx = np.atleast_1d(idx)
            if v is None:
                return sg[idx].astype("f8")
            if me == "all":
                return v[idx] * f
            mean = dict((couples[s[0]], v[s].mean()) for s in segs)
            return np.array([mean[couples[i]] for i in idx]) * f

        if case["what"] == "timeline":
            m = n.display_timeline(ax, event=case["event"], field=yname, method=me, factor=f, colors_mode=case["colors"])
            assert len(m["lines"]) == len(segs), f"{len(m['lines'])} lines for {len(segs)} segments"
            for j, (l, s) in enumerate(zip(m["lines"], segs)):
                x, y = line_data(l)
                assert near(x, t[s], 1e-3) and near(y, ys(s), 1e-4 * f), f"timeline of segment {couples[s[0]]}: {x, y} instead of {t[s], ys(s)}"
                k = j if case["colors"] == "roll" else couples[s[0]][1] - 1
                assert to_rgba(l.get_color()) == to_rgba(n.COLORS[k % len(n.COLORS)]), "colour of a segment"
            lines = m["lines"]
        else:
            if f != 1 and yname is None:
                f = 1
            m = n.scatter_timeline(ax, "lat", factor=2.0, event=case["event"], yfield=yname, yfactor=f, method=me)
            xy = np.asarray(m["scatter"].get_offsets(), "f8")
            assert near(xy[:, 1], ys(np.arange(nb)), 1e-4 * f), f"ordinates of scatter {xy[:, 1]} instead of {ys(np.arange(nb))}"
            assert near(xy[:, 0] - md.date2num(np.datetime64("1950-01-01")), t, 1e-3), "dates of scatter"
            assert near(m["scatter"].get_array(), n.obs["lat"] * 2.0, 1e-3), "values of scatter"
            lines = []
        if case["event"]:
            want = []
            for a, b in merging + splitting:
                want.append((t[a], float(ys(a)[0]), t[b], float(ys(b)[0])))
            have = []
            marks = dict()
            for l in ax.lines:
                if l in lines:
                    continue
                x, y = line_data(l)
                if l.get_linestyle() in (" ", "None"):
                    marks[l.get_marker()] = sorted(zip(x.tolist(), y.tolist()))
                else:
                    have.append((x[0], y[0], x[1], y[1]))
            assert len(have) == len(want) and near(sorted(have), sorted(want), 1e-3 * f), f"links of events {sorted(have)} instead of {sorted(want)}"
            for mark, ev in (("H", merging), ("*", splitting)):
                w = sorted((t[a], float(ys(a)[0])) for a, _ in ev)
                h = marks.get(mark, [])
                assert len(h) == len(w) and (not w or near(h, w, 1e-3 * f)), f"marks {mark} of events {h} instead of {w}"
    assert keep.tobytes() == n.obs.tobytes(), "network changed by a drawing"


GRIDS = dict(
    seed=gen.SEEDS, nx=st.integers(3, 12), ny=st.integers(3, 8), circular=st.booleans(), x0=st.sampled_from([0.0, -180.0, 350.0]), ref=st.sampled_from([None, None, -180.0, 5.0, 361.0, 0.0]),
    what=st.sampled_from(["display", "contour"]), factor=st.sampled_from([1, 100]), array=st.booleans(), mask=st.sampled_from([0, 0.1]), step=st.sampled_from([0.5, 1.0]),
)


def check_grid(case, ctx):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    r = gen.rng(case["seed"])
    nx, sx = (12, 30.0) if case["circular"] else (case["nx"], case["step"])
    x, y = case["x0"] + np.arange(nx) * sx, 10 + np.arange(case["ny"]) * case["step"]
    if case["what"] == "contour":
        z = np.cos(np.radians(x))[:, None] + 0 * y + 0.01 * y
    else:
        z = r.uniform(-1, 1, (nx, y.size))
    m = (r.uniform(0, 1, z.shape) < case["mask"]) & (case["what"] == "display")
    g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, h=np.ma.array(z.copy(), mask=m.copy())), centered=True)
    ax = new_ax()
    ref = case["ref"]
    name = g.grid("h") if case["array"] else "h"
    ctx.label(case["what"], "ref" if ref is not None else "no ref")
    ctx.nontrivial()
    if ref is not None and not case["circular"]:
        xr = (x - ref) % 360 + ref
        if np.ptp(xr) > np.ptp(x) + 1e-6:
            return  # the bound cuts a regional grid in two parts, which a mesh can not draw
    if case["what"] == "display":
        q = g.display(ax, name, factor=case["factor"], ref=ref)
        c = np.asarray(q.get_coordinates())
        bx, by = c[0, :, 0], c[:, 0, 1]
        a = np.ma.array(q.get_array()).reshape(y.size, nx)
        cx = (bx[1:] + bx[:-1]) / 2
        if ref is None:
            assert near(cx, x, 1e-6), f"centres {cx} instead of {x}"
        else:
            assert (cx >= ref - 1e-6).all() and (cx < ref + 360).all(), f"mesh out of the bound {ref}: {cx}"
        assert near(np.sort(bx), bx), "mesh is not ordered"
        assert near((by[1:] + by[:-1]) / 2, y, 1e-6), "latitudes of the mesh"
        for k in range(nx):
            i = int(np.argmin(np.abs(gen.wrap180(x - cx[k]))))
            assert abs(gen.wrap180(x[i] - cx[k])) < 1e-4, f"no column at {cx[k]}"
            assert (np.ma.getmaskarray(a)[:, k] == m[i]).all(), "mask of a column"
            assert near(np.asarray(a.data)[:, k][~m[i]], z[i][~m[i]] * case["factor"], 1e-6 * case["factor"]), f"values of the column {cx[k]}"
    else:
        lv = float(np.sort(z.ravel())[z.size // 2]) + 0.0011
        q = g.contour(ax, name, factor=case["factor"], ref=ref, levels=[lv * case["factor"]])
        from scipy.interpolate import RegularGridInterpolator

        xx, zz = x, z
        if case["circular"]:
            xx, zz = np.r_[x[0] - sx, x, x[-1] + sx], np.concatenate((z[-1:], z, z[:1]))
        f = RegularGridInterpolator((xx, y), zz)
        for path in (p for c in q.collections for p in c.get_paths()) if hasattr(q, "collections") else q.get_paths():
            v = path.vertices
            if not len(v):
                continue
            if ref is not None:
                assert v[:, 0].min() >= ref - 1e-6 and v[:, 0].max() < ref + 360, f"contour out of the bound {ref}"
            px = (v[:, 0] - (xx[0])) % 360 + xx[0]
            ok = (px <= xx[-1]) & (v[:, 1] >= y[0]) & (v[:, 1] <= y[-1])
            d = np.abs(f(np.column_stack((px, v[:, 1]))[ok]) - lv)
            assert d.max(initial=0) < 1e-6, f"contour of {lv} drawn at {d.max()} from it"
    assert (g.x_c == x).all() and (g.grid("h").data == z).all(), "grid changed by a drawing"


ANIM = dict(seed=gen.SEEDS, n=st.integers(2, 12), samp=st.sampled_from([8]), x0=st.sampled_from([0.0, 170.0]), intern=st.booleans(), color=st.sampled_from(["time", "amplitude", None]), txt=st.sampled_from(["track", "n", None]),
            nb_step=st.integers(2, 6), vmax=st.sampled_from([None, 0.8]))


def check_anim(case, ctx):
    from matplotlib import pyplot
    from py_eddy_tracker.appli.gui import Anim
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations
    import py_eddy_tracker.gui  # noqa: F401 projection

    o, r = eddies(case, cls=TrackEddiesObservations)
    o.obs["time"] = 20000 + np.sort(r.integers(0, 6, case["n"]))
    o.obs["track"], o.obs["n"] = np.arange(case["n"]) // 2, np.arange(case["n"]) % 2
    keep = o.obs.copy()
    a = Anim(o, intern=case["intern"], field_color=case["color"], field_txt=case["txt"], nb_step=case["nb_step"], range_color=(None, case["vmax"]))
    try:
        t0, t1 = (int(v) for v in o.period)
        k = "s" if case["intern"] else "e"
        shown = []
        for now in range(t0, t1 + 1):
            a.func_animation(now)
            here = [i for i in range(case["n"]) if o.obs["time"][i] == now]
            shown = [s for s in shown if s]
            if here:
                shown.append(here)
            flat = [i for s in shown for i in s]
            paths = a.contour.get_paths()
            assert len(paths) == len(flat), f"{len(paths)} contours at {now} instead of {len(flat)}"
            for q, i in zip(paths, flat):
                assert near(q.vertices[:, 0], o.obs["contour_lon_" + k][i]) and near(q.vertices[:, 1], o.obs["contour_lat_" + k][i]), f"contour of {i} at {now}"
            lw = np.atleast_1d(a.contour.get_linewidths())
            want = [(1 - (now - o.obs["time"][i]) / case["nb_step"]) * 2.5 for i in flat]
            assert near(lw, want, 1e-6), f"widths {lw} instead of {want}"
            txt = sorted(t.get_text() for t in a.mappables)
            assert txt == sorted(str(o.obs[case["txt"]][i]) for i in here) if case["txt"] else not txt, f"texts {txt} at {now}"
            for tx, i in zip(a.mappables, here):
                assert near(tx.get_position(), (o.obs["lon"][i], o.obs["lat"][i])), "position of a text"
            date = (np.datetime64("1950-01-01") + np.timedelta64(now, "D")).astype(str).replace("-", "/")
            assert a.txt.get_text() == date, f"date {a.txt.get_text()} instead of {date}"
            if len(shown) > case["nb_step"]:
                shown.pop(0)
    finally:
        pyplot.close(a.fig)
    ctx.nontrivial()
    assert keep.tobytes() == o.obs.tobytes(), "data changed by a drawing"


FACETS = [
    Facet("eddies", lambda: st.fixed_dictionaries(EDDIES), check_eddies, 250, 3000),
    Facet("tracks", lambda: st.fixed_dictionaries(TRACKS), check_tracks, 120, 1500),
    Facet("network", lambda: st.fixed_dictionaries(NET), check_network, 250, 3000),
    Facet("grid", lambda: st.fixed_dictionaries(GRIDS), check_grid, 150, 2000),
    Facet("anim", lambda: st.fixed_dictionaries(ANIM), check_anim, 25, 300),
]
