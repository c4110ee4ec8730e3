"""Resumed tracking and selection of tracks by length."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, trk
from ..core import Facet
from .p02 import check_table, merged, source

RULE = (
    "Cases are the histories of detections of P02, cut in two or more runs linked by a saved correspondence file, or split by track length; "
    "a case is non-trivial when a track crosses a cut, or when both sides of the length limit are populated."
)
ASSUMPTIONS = [
    "Histories where two competing links have costs closer than 1e-3 (5e-3 for overlap) are not judged for the resumed tracking, because the saved virtual observations are packed."
]


def strat_resume():
    return st.fixed_dictionaries(dict(trk.HISTORY, days=st.sampled_from([3, 4, 6, 8]), cuts=st.lists(st.integers(2, 8), min_size=1, max_size=3), store=st.sampled_from(["mem", "mem", "mem", "mem", "mem", "netcdf"])))


def check_resume(case, ctx):
    days = trk.days_of(case)
    with trk.Store(case, days) as store:
        _resume(case, ctx, store)


def raises(function, *args, **kwargs):
    """Refused by the library itself, with an explanation"""
    try:
        function(*args, **kwargs)
    except Exception as e:
        return "different" in str(e)
    return False


def _resume(case, ctx, store):
    from py_eddy_tracker.tracking import Correspondances

    nd = case["days"]
    cuts = sorted({c for c in case["cuts"] if c < nd} | {2 + case["seed"] % (nd - 2)})
    full = trk.run_tracker(store, case)
    tab = merged(full, False)
    ref, _, stats = trk.reference_tracks(store.load(False), case["virtual"], case["algo"], case["cmin"])
    if ref is None:
        ctx.label("undecided history")
        return
    tmp = tempfile.mkdtemp(dir=store.dir)
    files = []
    try:
        previous = None
        for c in cuts + [nd]:
            run = trk.run_tracker(store, case, names=store.names[:c], previous=previous)
            previous = os.path.join(tmp, "c%d.nc" % c)
            files.append(previous)
            run.save(previous)
        tab2 = merged(run, False)
        assert trk.sequences(tab) == trk.sequences(tab2), ("resumed tracking differs", cuts, trk.sequences(tab), trk.sequences(tab2))
        days, where = source(store, False)
        check_table(tab2, days, where, case["virtual"])
        u0, u1 = full.get_unused_data(), run.get_unused_data()
        assert sorted(u0.obs["lon_max"].tolist()) == sorted(u1.obs["lon_max"].tolist()), "untracked observations differ"
        # a correspondence file which is read again gives the same tracks
        again = Correspondances.load(previous)
        assert again.nb_virtual == case["virtual"] and again.class_method == store.cls and again.class_kw == store.class_kw
        assert [str(k) for k in again.datasets] == [str(k) for k in store.names], ("names of the datasets", again.datasets[:2])
        tab3 = merged(again, False)
        assert gen.obs_equal(tab2, tab3), "tracks built from the saved correspondences differ"
        # correspondences made with other options are refused
        other = dict(case, virtual=(case["virtual"] + 1 if case["seed"] % 2 else case["virtual"] - 1) if case["virtual"] else 1)
        assert raises(trk.run_tracker, store, other, previous=previous), ("resumed with another number of virtual observations", case["virtual"], other["virtual"])
        was, kw = store.cls, store.class_kw
        try:
            store.cls, store.class_kw = (trk.EddiesObservations if was.__name__.startswith("Mem") else trk.MemObs), dict()
            assert raises(trk.run_tracker, store, case, previous=previous), "resumed with another class"
        finally:
            store.cls, store.class_kw = was, kw
        cross = any(s[0][0] < c - 1 < s[-1][0] for s in ref for c in cuts)
        ctx.nontrivial(cross)
        ctx.label(case["algo"], case["store"], "%d cuts" % len(cuts))
        if any(b[0] - a[0] > 1 and any(a[0] < c <= b[0] for c in cuts) for s in ref for a, b in zip(s[:-1], s[1:])):
            ctx.label("gap over a cut")
    finally:
        for f in files:
            if os.path.exists(f):
                os.unlink(f)
        os.rmdir(tmp)


def strat_length():
    return st.fixed_dictionaries(dict(trk.HISTORY, limit=st.sampled_from([3, 3, 4, 5, 7, 2, 9]), days=st.sampled_from([4, 6, 9])))


def check_length(case, ctx):
    days = trk.days_of(case)
    with trk.Store(case, days) as store:
        c = trk.run_tracker(store, case)
        days, where = source(store, False)
        full = merged(c, False)
        size = np.bincount(full.obs["track"].astype("i8")) if len(full) else np.zeros(0, int)
        c.prepare_merging()
        limit = case["limit"]
        long_, short = c._copy(), c._copy()
        got = long_.longer_than(limit)
        table_l = None if got is False else long_.merge(raw_data=False)
        short.shorter_than(limit)
        table_s = short.merge(raw_data=False)
        seq = trk.sequences(full)
        want_l = [s for s in seq if len(s) >= limit]
        want_s = [s for s in seq if len(s) < limit]
        assert (got is False) == (not want_l), "no long track has to be reported"
        if table_l is not None:
            check_table(table_l, days, where, case["virtual"])
            assert trk.sequences(table_l) == want_l, ("long tracks", trk.sequences(table_l), want_l)
        check_table(table_s, days, where, case["virtual"])
        assert trk.sequences(table_s) == want_s, ("short tracks", trk.sequences(table_s), want_s)
        # selections do not change the original
        assert trk.sequences(merged(c, False)) == seq, "original correspondences have been changed"
        ctx.nontrivial(bool(want_l) and bool(want_s))
        ctx.label(case["algo"], "limit %d" % limit)
        if not want_s:
            ctx.label("no short track")
        if not want_l:
            ctx.label("no long track")


FACETS = [
    Facet("resume", strat_resume, check_resume, quick=150, budget=100),
    Facet("length", strat_length, check_length, quick=300, budget=100),
]
