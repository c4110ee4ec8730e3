#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--facet NAME] [--jobs N]

Parent process: no dependency besides the standard library.  Runs every facet of
the property in its own worker (fresh interpreter, fresh numba cache) and merges.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VENDORED = ("hypothesis", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py", "sortedcontainers", "attr", "attrs")
REPO = os.environ.get("PET_REPO", "/repo")
HANG = 300  # seconds on one single case (they take well under a second, or the time of a compilation)
CRASH_SIGNALS = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


def make_env(work):
    libs = os.path.join(work, "lib")
    os.makedirs(libs, exist_ok=True)
    for name in VENDORED:
        src = os.path.join(TOOLS, name)
        dst = os.path.join(libs, name)
        if os.path.exists(src) and not os.path.lexists(dst):
            os.symlink(src, dst)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("NUMBA_", "HYPOTHESIS", "PYTHON")):
            env.pop(k)
    env.update(
        PYTHONPATH=os.pathsep.join([REPO + "/src", VERIF, libs]),
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONNOUSERSITE="1",
        NUMBA_CACHE_DIR=os.path.join(work, "numba"),
        NUMBA_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="agg",
        MPLCONFIGDIR=os.path.join(work, "mpl"),
        HOME=os.path.join(work, "home"),
        TMPDIR=os.path.join(work, "tmp"),
        PET_REPO=REPO,
        PET_WORK=work,
        TZ="UTC",
    )
    for d in ("numba", "mpl", "home", "tmp"):
        os.makedirs(os.path.join(work, d), exist_ok=True)
    return env


def worker(args, env, work, tag):
    out = os.path.join(work, tag + ".json")
    cur = os.path.join(work, tag + ".current")
    log = open(os.path.join(work, tag + ".log"), "w")
    env = dict(env)
    env["NUMBA_CACHE_DIR"] = os.path.join(work, "numba", tag)
    env["TMPDIR"] = os.path.join(work, "tmp", tag)
    os.makedirs(env["TMPDIR"], exist_ok=True)
    p = subprocess.Popen(
        [PY, "-X", "faulthandler", "-m", "pbt.worker", *args, "--out", out, "--current", cur],
        cwd=work, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
    )
    return dict(p=p, out=out, cur=cur, log=log.name, t0=time.time())


def tail(path, n=3000):
    try:
        with open(path, errors="replace") as h:
            return h.read()[-n:]
    except OSError:
        return ""


def hung(w):
    try:
        return time.time() - os.path.getmtime(w["cur"]) > HANG
    except OSError:
        return False


def collect(w, facet):
    rc = w["p"].returncode
    if rc == 0 and os.path.exists(w["out"]):
        with open(w["out"]) as h:
            return json.load(h)
    rep = dict(facet=facet, evaluations=0, nontrivial=[], labels={}, samples=[], status="harness", case=None,
               message="worker exit status %s\n%s" % (rc, tail(w["log"])), wall_s=time.time() - w["t0"])
    if (w.get("hung") or (rc is not None and rc < 0 and -rc in CRASH_SIGNALS)) and os.path.exists(w["cur"]):
        with open(w["cur"]) as h:
            txt = h.read()
        try:
            rep["case"] = json.loads(txt)
            rep["status"] = "violation"
            if w.get("hung"):
                rep["message"] = "no answer after %d s on this case" % HANG
            else:
                rep["message"] = "the process died with %s on this case\n%s" % (signal.Signals(-rc).name, tail(w["log"]))
        except ValueError:
            pass
    return rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--replay")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--jobs", type=int, default=max(1, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="petcheck-")
    rc = 2
    running = []
    try:
        env = make_env(work)
        rc = run(args, seed, env, work, t0, running)
    finally:
        for w in running:
            if w["p"].poll() is None:
                os.killpg(w["p"].pid, signal.SIGKILL)
                w["p"].wait()
        shutil.rmtree(work, ignore_errors=True)
    return rc


def run(args, seed, env, work, t0, running):
    prop = args.property
    if args.replay:
        w = worker([prop, "--replay", os.path.abspath(args.replay)], env, work, "replay")
        running.append(w)
        w["p"].wait()
        rep = collect(w, "replay")
        print(rep["message"])
        if rep["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        print("replay: %s" % rep["status"])
        return 0 if rep["status"] == "ok" else 2
    listing = subprocess.run([PY, "-c", "import sys,json;from pbt.listing import facets;print(json.dumps(facets(sys.argv[1])))", prop],
                             env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if listing.returncode:
        print("harness error: cannot load the check\n" + listing.stderr[-3000:])
        return 2
    info = json.loads(listing.stdout.strip().splitlines()[-1])
    names = info["facets"]
    if args.facet:
        names = [n for n in names if n in args.facet]
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as h:
            known = [k for k in json.load(h) if k.get("status") == "known" and k["property"] == prop]
    except FileNotFoundError:
        known = []
    queue = [("f", n) for n in names] + ([("k", None)] if known and not args.facet else [])
    reports, known_report = [], None
    pending = list(queue)
    hard = 840 if args.tier == "quick" else 6 * 3600
    while pending or running:
        while pending and len(running) < args.jobs:
            kind, n = pending.pop(0)
            if kind == "f":
                w = worker([prop, "--facet", n, "--tier", args.tier, "--seed", str(seed), "--scale", str(args.scale)], env, work, "f_" + n)
            else:
                w = worker([prop, "--known"], env, work, "known")
            w["kind"], w["name"] = kind, n
            running.append(w)
        time.sleep(0.05)
        for w in list(running):
            if w["p"].poll() is None:
                if time.time() - t0 > hard:
                    os.killpg(w["p"].pid, signal.SIGKILL)
                    w["p"].wait()
                elif hung(w):
                    os.killpg(w["p"].pid, signal.SIGKILL)
                    w["p"].wait()
                    w["hung"] = True
                else:
                    continue
            running.remove(w)
            rep = collect(w, w["name"])
            if w["kind"] == "k":
                known_report = rep
            else:
                reports.append(rep)
                if args.v:
                    print("  facet %-28s %-9s %5d cases %5d nontrivial %6.1fs %s" % (
                        rep["facet"], rep["status"], rep["evaluations"], len(rep["nontrivial"]), rep.get("wall_s", 0),
                        json.dumps(rep["labels"], sort_keys=True)), flush=True)
    reports.sort(key=lambda r: names.index(r["facet"]))
    exit_code = 0
    violations = 0
    for rep in reports:
        if rep["status"] == "violation":
            violations += 1
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-seed%d.json" % (prop, rep["facet"], seed))
            with open(path, "w") as h:
                json.dump(dict(property=prop, facet=rep["facet"], seed=seed, case=rep["case"], message=rep["message"]), h, indent=1)
            print("facet %s:\n%s" % (rep["facet"], rep["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
            exit_code = 1
    if exit_code == 0:
        for rep in reports:
            if rep["status"] != "ok" or rep["evaluations"] == 0 or not rep["nontrivial"]:
                print("harness error in facet %s (%s, %d cases, %d non-trivial)\n%s" % (
                    rep["facet"], rep["status"], rep["evaluations"], len(rep["nontrivial"]), rep["message"]))
                exit_code = 2
    if known and known_report is not None:
        if known_report["status"] == "ok":
            for line in known_report["known"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, line))
        else:
            print("harness error while replaying known findings\n" + known_report["message"])
            exit_code = exit_code or 2
    evidence = dict(
        property=prop,
        tier=args.tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in reports),
            distinct_nontrivial=sum(len(r["nontrivial"]) for r in reports),
            rule=info["rule"],
            samples=[s for r in reports for s in r["samples"][:2]][:14],
            facets={r["facet"]: dict(cases=r["evaluations"], distinct_nontrivial=len(r["nontrivial"]), labels=r["labels"],
                                     stopped_by_time_budget=bool(r.get("truncated")), wall_s=round(r.get("wall_s", 0), 1))
                    for r in reports},
        ),
        assumptions=info["assumptions"],
        wall_s=round(time.time() - t0, 2),
        violations=violations,
    )
    if not args.facet:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h:
            json.dump(evidence, h, indent=1)
    print("property %s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1fs, exit %d" % (
        prop, args.tier, seed, evidence["coverage"]["evaluations"], evidence["coverage"]["distinct_nontrivial"],
        evidence["wall_s"], exit_code))
    return exit_code


if __name__ == "__main__":
    sys.exit(main())
