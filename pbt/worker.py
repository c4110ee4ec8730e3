"""Worker process: one facet (or one replay, or the known findings)."""
import argparse
import json
import logging
import os
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--facet")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--known", action="store_true")
    ap.add_argument("--out")
    ap.add_argument("--current")
    args = ap.parse_args()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from pbt import core
    from pbt.listing import module

    # before numba is loaded: a property may choose how kernels are compiled
    m = module(args.property)

    import py_eddy_tracker

    if not os.path.realpath(py_eddy_tracker.__file__).startswith(core.REPO_SRC):
        raise core.HarnessError("wrong py_eddy_tracker: " + py_eddy_tracker.__file__)
    facets = {f.name: f for f in m.FACETS}
    base = dict(facet=args.facet, evaluations=0, nontrivial=[], labels={}, samples=[], status="ok", message="", case=None)
    if args.replay:
        with open(args.replay) as h:
            rep = json.load(h)
        status, ctx, msg = core.run_case(facets[rep["facet"]], rep["case"])
        base.update(status=status, message=msg, evaluations=1)
        out = base
    elif args.known:
        lines = []
        with open(os.path.join(core.VERIF, "known_findings.json")) as h:
            for k in json.load(h):
                if k.get("status") != "known" or k["property"] != args.property:
                    continue
                status, ctx, msg = core.run_case(facets[k["facet"]], k["case"])
                if status == "violation":
                    lines.append(k["what"])
                elif status != "ok":
                    raise core.HarnessError(msg)
        base.update(known=lines)
        out = base
    else:
        f = facets[args.facet]
        f.quick = max(1, int(f.quick * args.scale))
        f.thorough = max(1, int(f.thorough * args.scale))
        out = core.run_facet(args.property, f, args.tier, args.seed, args.current)
    with open(args.out, "w") as h:
        json.dump(out, h, default=core._default)


if __name__ == "__main__":
    main()
