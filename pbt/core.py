"""Small property-based-testing runner built on Hypothesis.

A *facet* is one executable check: a Hypothesis strategy that builds a JSON-able
case, and a function deciding the case against the code in /repo.  Facets of one
property run in parallel worker processes; the parent merges their reports into
the evidence file, prints VIOLATION / KNOWN-FINDING lines and chooses the exit
status (0 held, 1 violation, 2 harness error).
"""
import hashlib
import json
import math
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.path.realpath(os.environ.get("PET_REPO", "/repo") + "/src")


class Facet:
    def __init__(self, name, strategy, check, quick, thorough=None, budget=100, weight=1):
        self.name = name
        self.strategy = strategy  # zero-argument callable giving a strategy
        self.check = check  # check(case, ctx)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.budget = budget  # soft seconds (quick); never decides the verdict
        self.weight = weight


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class Ctx:
    """Per-case recorder."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


def canonical(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def short(case, limit=600):
    txt = canonical(case)
    if len(txt) <= limit:
        return json.loads(txt)
    return txt[:limit] + "...(%d chars)" % len(txt)


def classify_exception(exc):
    """'violation' or 'harness' for an exception leaving a check function."""
    if isinstance(exc, HarnessError):
        return "harness"
    if isinstance(exc, AssertionError):
        return "violation"
    tb = exc.__traceback__
    in_repo = False
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO_SRC):
            in_repo = True
        tb = tb.tb_next
    if in_repo:
        return "violation"
    if isinstance(exc, (ImportError, AttributeError, NameError, MemoryError)):
        return "harness"
    # compiled code leaves no frame
    return "violation"


def describe(exc):
    lines = traceback.format_exception(type(exc), exc, exc.__traceback__)
    txt = "".join(lines)
    return txt[-3000:]


def run_case(facet, case):
    """Run one case; returns (status, ctx, message)."""
    ctx = Ctx()
    try:
        facet.check(case, ctx)
    except Exception as e:  # noqa: BLE001
        return classify_exception(e), ctx, describe(e)
    return "ok", ctx, ""


def seed_for(prop, facet_name, seed):
    h = hashlib.sha256(f"{prop}/{facet_name}/{seed}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_facet(prop, facet, tier, seed, current_file):
    """Drive Hypothesis over one facet and give a JSON-able report."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 30 if tier == "quick" else 120
    n = facet.quick if tier == "quick" else facet.thorough
    budget = facet.budget if tier == "quick" else max(600, facet.budget * 8)
    report = dict(
        facet=facet.name, evaluations=0, nontrivial=[], labels={}, samples=[], status="ok", message="", case=None,
        truncated=False, requested=n,
    )
    hashes = set()
    t0 = time.time()
    state = dict(failing=None, message="", status=None, nsample=0)

    def body(case):
        if state["status"] is None and time.time() - t0 > budget:
            report["truncated"] = True
            return
        txt = canonical(case)
        with open(current_file, "w") as h:
            h.write(txt)
        case = json.loads(txt)
        ctx = Ctx()
        report["evaluations"] += 1
        try:
            facet.check(case, ctx)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:  # noqa: BLE001
            kind = classify_exception(e)
            state["failing"] = json.loads(txt)
            state["message"] = describe(e)
            state["status"] = kind
            raise
        finally:
            for lab in ctx.labels:
                report["labels"][lab] = report["labels"].get(lab, 0) + 1
        if ctx.is_nontrivial:
            h = hashlib.sha1(txt.encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                if len(hashes) in (1, 7, 40) and len(report["samples"]) < 3:
                    report["samples"].append(dict(facet=facet.name, case=short(case), labels=sorted(ctx.labels)))

    test = given(facet.strategy())(body)
    test = settings(
        max_examples=n,
        deadline=None,
        database=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
    )(test)
    test = hypothesis.seed(seed_for(prop, facet.name, seed))(test)
    try:
        test()
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if state["failing"] is None:
            report["status"] = "harness"
            report["message"] = describe(e)
        else:
            report["status"] = state["status"]
            report["case"] = state["failing"]
            report["message"] = state["message"]
    report["nontrivial"] = sorted(hashes)
    report["wall_s"] = time.time() - t0
    return report


def close(a, b, rtol=1e-6, atol=1e-9):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
