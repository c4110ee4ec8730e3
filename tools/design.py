"""Writes DESIGN.md: head, one section by property (oracle, bounds, reach), repaired defects, planted bugs."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

# id: (oracle, beyond the tests, corrections made after false alarms)
HOW = {
    "P01": (
        "Independent float64 clip of the two polygons (scan of all vertices and crossings), even-odd area; the metamorphic facet permutes eddies, turns, rotates or reverses contours and moves branches on either side.",
        "The same pair of shapes is stored on every combination of branches and nested, identical, touching and disjoint pairs are made on purpose, with each of the scoring options.", ""),
    "P02": (
        "A tracker in pure python written from the documentation (`pbt/trk.py`): candidates, cost, one-to-one choice, births, virtual extension, end of tracks. The table after merge is compared as a partition of the detections, "
        "with day by day virtual observations, whatever the store of the files.",
        "Histories hold births, deaths, gaps of each length, empty days, drift over the date line; each of the trackers (default, overlap, ellipse, ground).",
        "Near ties are not judged on the choice, only on the invariants."),
    "P03": (
        "`solve`: exhaustive definition of a stable one-to-one association on random matrices. `tracking`, `ellipse_and_ground`: independent costs and ellipses (written from the article) and a land barrier of some pixels. `common_area_cost`: the exact clip of P01.",
        "Dense sets make links compete for the same detection, at the limits of the ellipse and of ratios, on both hemispheres.", ""),
    "P04": (
        "Differential: one run against two to four resumed runs through a saved file; model of lengths for the two sides of the split.",
        "Cuts fall inside gaps, right after a birth, on runs without any link.", "Histories with near ties are skipped because saved virtual observations are packed."),
    "P05": (
        "Even-odd rule in float64 on unwrapped coordinates, for points, pixels, particles, mesh and nested contours; curvilinear grids pixel by pixel.",
        "Contours cross each border of regional grids and the seam of global grids from any branch.", ""),
    "P06": (
        "Bilinear (nearest) combination in float64 from the arrays of the case; resampled contour points or covered pixels for statistics; linear in time.",
        "Axes of float32, steps without exact binary value, first meridian anywhere, order of dimensions, masks with one cell.", ""),
    "P07": (
        "Direct double loop on pixels with kernel weights computed from their definition (Bessel, Lanczos) and real distances; relations: constants, linearity, masked values, seam, high + low.",
        "Any mask, seam in the kernel, latitude limits crossing the grid.", "The reference uses the central latitude of the kernel as documented; kernels wider than the grid are not asked."),
    "P08": (
        "Reference stencil per pixel: widest centred one whose cells are valid, one-sided otherwise; relations: linearity, offset, rotation, unchanged field; equatorial band against the geostrophic currents off the band and, on fields larger than the filter, the analytic beta-plane currents in it.",
        "Any mask with any half width, borders of regional grids, both hemispheres, values hidden under the mask.", "Four rows or less are out of the domain (the library's own stencil needs them)."),
    "P09": (
        "Runge-Kutta 4 in plain python on a bilinear reference; relations: forward/backward, independent particles, steps; time series in memory or lazy against the same reference linear in time.",
        "Particles beside masked cells, corners, seams and borders; start between two dates; direction changes of lazy readings.", ""),
    "P10": (
        "Complete reference identification (`pbt/ident.py`) written from the definition: levels, closed contours (matplotlib contours taken as input of the definition, themselves checked by P31), shape error, pixels, extrema, amplitude, speed profile, reservation of pixels.",
        "Random fields with nested, adjacent, multi-extremum and land-cut structures, plateaus (heights rounded to a precision), and options changed one by one.",
        "Pixels reserved by an accepted eddy do not count as extrema (was wrong in the reference); contours with vertices on cell limits are compared loosely for speed; a criterion within rounding of its limit is not judged. The pixel of a plateau was the barycentre of the group, not always in it (repaired). Shoulders of equal height count as extrema (a TODO in the code, the reference does the same)."),
    "P11": (
        "Metamorphic: two identifications of one field and of a changed representation must give the same eddies.",
        "13 changes of representation on each random field, regional, curvilinear and across the seam; large fields with a spike (percentile branch).", "Cases near a limit of a criterion (known from the reference of P10) are skipped."),
    "P12": (
        "Least squares in float64, shape areas by exact clip of dense polygons, haversine and rotations; round trips of local coordinates; invariance to rotation, start, direction, scale.",
        "Degenerate aspect ratios, few vertices, far origins, sizes over 8 orders of magnitude.", ""),
    "P13": (
        "Small references for each line tool (arc length resampling, triangle removal with a heap, hull, simplification, cutting at the bound, groups and windows), union by sampling points.",
        "Undefined points anywhere, lines of one point, windows at the ends.", "Aligned vertices: the order of removal is a matter of rounding, they are not generated (general position)."),
    "P14": (
        "Round trip, second round trip, and independent reading of the containers with netCDF4/zarr against the documented packing; attributes, dimensions and units of what is written (table of units in the harness).",
        "Each class, field set, sampling, size (also 0 and 1), container and way to read, with slices of any form.",
        "Forced fields of the network and tracks classes are added whatever include/remove variables say; accepted."),
    "P15": (
        "Union-find on overlaps (given, or from the exact clip of contours at most 'window' files apart); the dataset is compared row by row with the files.",
        "Empty days, several networks in one session, threshold close to scores.", "Overlaps within 2e-3 of the threshold are not judged."),
    "P16": (
        "Reference in python: best overlap forward in the window, reciprocal choice, attachments backward; invariants on links (mutual, increasing dates, one segment).",
        "Sampling with holes, several groups, windows of one to several steps.", "The `time` of the returned table is only an order; ties within 2e-3 are judged on invariants only."),
    "P17": (
        "Model of a network as rows with tags, links as tags; each operation is re-defined on the model; the whole table is compared after each step of a history (contours, costs, links, order, index).",
        "Histories of up to 8 operations in any order on networks with loops, trash, sparse numbers.",
        "A cost means something only with its link; numbering starts at 1 or more because 0 is the trash."),
    "P18": (
        "Graph of segments as python dictionaries: breadth-first search for relatives and reach, definition of events, equality of sets for identification.",
        "Chains of thousands of segments, both directions, selections made before the query.", ""),
    "P19": (
        "Model of rows (one dict by observation), each selection as a predicate on rows or on tracks; whole histories compared after each step; metamorphic compositions of filters.",
        "Sparse numbers, single observation tracks, areas over the branches, relative or absolute periods, filters of every type.", ""),
    "P20": (
        "Definition per track in python (great circle, bearing, window medians, local regression) on the rows of the track only.",
        "Sparse numbers and first number not 0; window limits on and off the sampling.", ""),
    "P21": (
        "Model: which dates are missing for each track (segment), expected rows with linear interpolation, translation of links.",
        "Sampling under the day, existing virtual observations, trash, tracks of one.", "Half float fields are compared at their precision."),
    "P22": (
        "Definition of bins and windows on python lists; alignment as an intersection of bins; exact clip for comparisons of atlases.",
        "Unsorted or constant values, unsigned types, bins out of the range, empty datasets.", ""),
    "P23": (
        "Direct counting in python with float64 sums; percentiles by sorting.",
        "Each storage type (half float, unsigned), global/regional boxes on any branch, masks, filters.", "Decreasing bins with method 'inside' are not generated."),
    "P24": (
        "Particles and positions are those of the library (checked by P05, P09), attribution, order, percentages, offsets and dates are recomputed in python.",
        "Dates without eddy, uncovered ends of the period, both directions, masked currents, ties.",
        "Order of eddies inside a date is free, overlapping final contours and equal counts are not judged; truncation of percentages accepts the rounding of a float."),
    "P25": (
        "Stateful model-based testing: a pool of datasets and its model, compared entirely after each operation; memory sharing is detected by a change of value.",
        "Any order of up to 10 operations, empty operands, field sets.",
        "Forced fields of tracks cannot be removed; datasets declaring fields in another order or sampling may be refused; networks are not concatenated (links are not shifted, documented limitation)."),
    "P26": (
        "Commands are run in process on files of a scratch folder; outputs are read with netCDF4 and compared with the model of tracking (P02), with packed inputs, or with recomputed classes and counts.",
        "Random combinations of the options, resumed runs, blank periods, mixed rotation files.",
        "A tag is kept in lat_max because lon_max is normalised with the tracks; undecided resumed histories are skipped."),
    "P27": (
        "Same as P26, differential against the documented chain of library calls (which other properties check), and union-find or set equality for networks.",
        "Random combinations of options.", ""),
    "P28": (
        "Files are written by netCDF4 from arrays of the case, whatever the layout; everything which is read, copied, tiled, regridded, written again is compared with these arrays. Spectra against a direct Welch reference; pixel paths against a supercover of the line; land against an independent reading of the shapefile.",
        "Permutations of dimensions, packing, NaN, order of load/copy/write, shift of collections.",
        "Grids with a long time axis are not written; columns whose NaN falls in the unused tail of windows are kept; paths are judged at one pixel."),
    "P29": (
        "Definitions in python on rows (percentiles by sorting, window, parents) and on the model of P17.",
        "Number of values over the window, unknown identifiers, selections made before.", "Light extractions keep the forced fields of networks."),
    "P30": (
        "Artists created by matplotlib (positions, breaks, colours, labels) are compared with the data.",
        "Western bounds cutting tracks and contours, any numbers, masked grids, arrays as fields.",
        "wrap_longitude(cut=True) draws the end of a line over the bound on purpose; networks use whole days (times are truncated for axes)."),
    "P31": (
        "Independent marching squares on the array; lines are compared as sets of edges crossings; nearest contour by brute force; labels by definition.",
        "Seams crossed any number of times, saddles, masked corners, open lines.",
        "matplotlib draws cells with three valid corners; contours round the globe are not judged."),
    "P32": (
        "The numba package compiles every kernel with NUMBA_BOUNDSCHECK=1 (set before it is imported, in processes of this check only); an IndexError of compiled code is the violation. Each run first gives a kernel of its own which reads after the end, and fails as a harness error if nothing is raised.",
        "The generators of the other properties (which reach kernels through public functions), and kernels called directly with small series, lines, contours and grids: sizes from the smallest which makes sense, missing, constant and repeated values, positions on and out of boundaries.",
        "No opinion about values: those are judged by the other properties. Private kernels which do not exist any more, or with other arguments, are skipped. Empty inputs are not given to kernels called directly."),
}


def main():
    out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip()]
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    seeds = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        meta = json.load(open(f))
        seeds.setdefault(meta["property"], []).append((os.path.basename(os.path.dirname(f)), meta))
    out.append("\n## Properties\n")
    for p in props:
        pid = p["id"]
        mod = importlib.import_module("pbt.props." + pid.lower())
        oracle, beyond, corrected = HOW[pid]
        out.append(f"### {pid} {p['title']}\n")
        out.append(f"* Oracle: {oracle}")
        out.append(f"* Generated: {mod.RULE}")
        out.append("* Bounds and assumptions: " + " ".join(mod.ASSUMPTIONS))
        out.append(f"* Reach beyond the tests: {beyond} {p['why_tests_cant']}")
        out.append("* Facets (cases in quick / thorough): " + ", ".join(f"`{f.name}` {f.quick}/{f.thorough}" for f in mod.FACETS))
        if corrected:
            out.append(f"* Corrected after false alarms, or left free on purpose: {corrected}")
        mine = [k for k in known if k["property"] == pid]
        if mine:
            out.append("* Genuine defects: " + "; ".join(f"{k['what']} ({k['status']}{' ' + k['commit'] if k.get('commit') else ''})" for k in mine))
        out.append("")
    foot = os.path.join(ROOT, "tools", "design_foot.md")
    out.append(open(foot).read().rstrip() + "\n" if os.path.exists(foot) else "")
    out.append("## Planted bugs (`seeded/`)\n\n| id | property | needs | found by |\n|---|---|---|---|")
    for pid in sorted(seeds):
        for sid, meta in seeds[pid]:
            out.append(f"| {sid} | {pid} | {meta['needs']} | {meta.get('caught_by', pid)} |")
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


main()
