#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below (PROPS)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/py_eddy_tracker/"
PROPS = []


def prop(id, title, statement, text, why, files, mechanism, observe, note, over=("inputs",), technique=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=[S + f for f in files],
        mechanism=[dict(name=n, where=S + w) for n, w in mechanism], observe=observe, note=note,
        technique=technique or "property-based testing (Hypothesis): generated cases against an independent reference model and metamorphic relations",
    ))


prop(
    "P01", "Overlap of two sets of eddies is the exact overlap of their contours",
    "Matching two sets of eddies by overlap gives, for every pair whose contours intersect and only for them, a score equal to the area of the intersection over the area of the union "
    "(or over the smallest, first or second contour, when asked), and the pairs above the requested minimum are returned with the right positions. "
    "The result does not depend on the order of the eddies, on the direction or starting point of the contours, nor on the 360-degree branch on which longitudes are stored; "
    "matching by centre distance obeys the same rules with the distance in degrees on both axes.",
    "Every pair of sets of simple closed contours (any size, nested, identical, disjoint, touching a 0/180/360 meridian, any branch on either side) and every scoring option.",
    "Tests match one sample file with itself and a few fixed polygons; they never vary the branch, the order, nested or empty sets, nor the scoring options.",
    ["observations/observation.py", "poly.py"],
    [("match", "observations/observation.py"), ("bbox_intersection, vertice_overlap, close_center", "poly.py")],
    ["EddiesObservations.match, poly.vertice_overlap, poly.bbox_intersection"],
    "Exploration. Trusts an independent float64 polygon clip; scores are compared within the float32 precision of the stored longitudes.",
)
prop(
    "P02", "Tracking builds exactly the tracks of the announced algorithm",
    "After tracking a sequence of daily detection files, every detection belongs to exactly one track, a track has at most one observation a day, and consecutive observations of a track are "
    "never separated by more undetected days than allowed. Each link is one which the announced criterion allows (150 km-like distance and size cost, or overlap), "
    "taken by increasing cost, with detections of the previous day extended through interpolated virtual observations which fill each gap day by day. "
    "The result is the same for files in memory, NetCDF or Zarr.",
    "Every history of daily detections (any number of eddies, births, deaths, gaps, empty or single days, any longitude) for each tracking algorithm and gap length.",
    "The repository has one tracking test on a dozen of files with the default options; histories with gaps, empty days, competing links and virtual observations are not exercised.",
    ["tracking.py", "observations/observation.py", "featured_tracking/area_tracker.py"],
    [("Correspondances.track, append, prepare_merging, merge", "tracking.py"), ("tracking, solve_function, propagate", "observations/observation.py"), ("AreaTracker", "featured_tracking/area_tracker.py")],
    ["Correspondances.track/prepare_merging/merge"],
    "Exploration of random histories against an independent tracker written from the documented algorithm. Histories with near ties are not judged on the choice, only on the invariants.",
    over=("histories", "inputs", "configurations"),
)
prop(
    "P03", "Associating two dates is one-to-one, allowed, and takes the cheapest links first",
    "Associating the detections of two dates never uses a detection twice, never keeps a forbidden link, never leaves an allowed link between two free detections, and a link is only dropped for a cheaper "
    "(or equal) one of one of its two ends. With the ellipse criterion, a link needs the second detection inside the latitude dependent ellipse, amplitude and radius ratios within 1/2.5-2.5 and no land on the way; "
    "the closest is kept and the largest amplitude wins a shared detection. The cost from common area is one minus intersection over the smallest area, on whatever 360-degree branch the contours are stored.",
    "Every cost matrix with forbidden links, every pair of detection sets (any density, date line, hemisphere), every land mask made of a barrier.",
    "Tests never look at individual links, use no land mask, and never meet competing or forbidden links in a controlled way.",
    ["observations/observation.py", "featured_tracking/old_tracker_reference.py", "featured_tracking/area_tracker.py"],
    [("solve_conflict, solve_simultaneous, solve_first, tracking, cost_function*", "observations/observation.py"), ("CheltonTracker", "featured_tracking/old_tracker_reference.py")],
    ["EddiesObservations.tracking, solve_function, cost_function_common_area"],
    "Exploration. Near ties and links within a small margin of a limit are not judged.",
)
prop(
    "P04", "Interrupting and resuming tracking, or splitting by length, loses nothing",
    "Tracking a period in several runs, each one resuming from the correspondences saved by the previous one, gives the same tracks as one single run. "
    "Saving and loading correspondences keeps the datasets, the links, the virtual observations and the track numbering. "
    "Resuming with another class or another number of virtual observations than the saved ones is refused. "
    "Splitting tracks at a minimum length puts every observation in exactly one side, whole tracks only.",
    "Every history and every cut of it in two to four runs, including cuts inside gaps and runs without any link; every length limit.",
    "No test saves and reloads correspondences, and length selection is tested once.",
    ["tracking.py"],
    [("load_state, save, load, merge, longer_than, shorter_than", "tracking.py")],
    ["Correspondances.track/save/load/longer_than/shorter_than/merge"],
    "Exploration of random histories and cuts, differential against a single run.",
    over=("histories", "inputs"),
)
prop(
    "P05", "Inside and outside of a contour are decided exactly, for points and grid pixels",
    "Deciding whether points, particles or other eddies' centres are inside a contour, which grid pixels a contour covers, how many eddies cover each pixel and which contours lie inside an open contour agrees with exact geometry. "
    "The answers are independent of the 360-degree branch of points, contours and grid, of the direction of the contour and of repeated last points, and masks drawn on global or regional grids wrap or stop at the borders accordingly.",
    "Every simple closed contour (padded or not, clockwise or not, any branch) and every set of points, regular or curvilinear grid.",
    "Tests check a single square and sample files on one grid; borders, branches, padded contours and nested contours are not explored.",
    ["poly.py", "dataset/grid.py", "observations/observation.py", "eddy_feature.py", "observations/groups.py"],
    [("winding_number_poly, poly_contain_poly, is_left, get_pixel_in_regular, create_meshed_particles", "poly.py"), ("bbox_indice, get_pixels_in, eddy pixels", "dataset/grid.py"), ("contains, inside, grid_count, create_particles", "observations/observation.py")],
    ["contains, inside, get_pixels_in, grid_count, create_particles"],
    "Exploration against an independent even-odd test in float64. Points within 2e-4 degree of a contour line are not judged.",
)
prop(
    "P06", "Grid interpolation is bilinear (or nearest), undefined over masked cells",
    "Interpolating a field at points or along contours gives the bilinear combination of the four surrounding cells (or the nearest cell), a global grid being continuous across its first meridian, and is undefined whenever a used cell is masked or out of the grid. "
    "Statistics of a field along or inside contours use exactly the resampled contour points or covered pixels; regridding and interpolation in time between grids are the same combination applied everywhere. "
    "The result does not depend on how the file orders its dimensions, on the 360-degree branch, or on the chosen first meridian.",
    "Every regular grid (global from any meridian, regional, masked, float32/float64, in memory or file in both orders) and every point, contour or date.",
    "Tests interpolate a 2x2 toy grid; masks, seams, files with the other dimension order and time are not covered.",
    ["dataset/grid.py", "observations/observation.py", "poly.py"],
    [("interp2d_geo, interp2d_bilinear, interp2d_nearest, interp, regrid, GridCollection.interp", "dataset/grid.py"), ("interp_grid", "observations/observation.py")],
    ["RegularGridDataset.interp/regrid, GridCollection.interp, EddiesObservations.interp_grid"],
    "Exploration against a pure numpy bilinear reference.",
)
prop(
    "P07", "High and low pass filters are normalised averages with the documented kernel",
    "Filtering a grid replaces every pixel by the average of the valid pixels around it weighted by the kernel (Bessel or Lanczos) of the real distance, in kilometres at that latitude, cut at the requested order times the wavelength. "
    "Constant fields are unchanged, filters are linear, masked pixels never contribute, a global grid is filtered across its seam, and high pass plus low pass gives back the field. "
    "Rows beyond the latitude limit are undefined, and filling of gaps happens only where enough weight is on valid pixels.",
    "Every regular grid (global or regional, any mask, steps 1-3 degrees) and every wavelength, order, latitude limit and filter kind.",
    "Tests filter one sample with one wavelength and compare sums; the mask, seam and order behaviours are not covered.",
    ["dataset/grid.py"],
    [("kernel_bessel, kernel_lanczos, estimate_kernel_shape, convolve_filter_with_dynamic_kernel, bessel_*_filter, lanczos_*_filter", "dataset/grid.py")],
    ["RegularGridDataset.bessel_high_filter/bessel_low_filter/bessel_band_filter/lanczos_*"],
    "Exploration against a direct sum with independently computed weights.",
)
prop(
    "P08", "Geostrophic currents are the exact rotated gradient of the height field",
    "Currents computed from heights are gravity over Coriolis times the rotated gradient, using the widest centred stencil (up to the requested half width) whose cells are all valid, a one-sided difference beside a masked cell, and nothing where no valid neighbour exists. "
    "They are linear, unchanged by a constant offset, periodic on a global grid, follow rotations of the globe, and leave the height unmodified. "
    "Out of the equatorial band, the equatorial variant gives the same currents.",
    "Every height field on a regular grid (global or regional, both hemispheres, any mask, any stencil width).",
    "Tests compute currents once and compare to stored sums for one sample without mask edge cases.",
    ["dataset/grid.py"],
    [("compute_stencil, add_uv, add_uv_lagerloef, uv_stencil", "dataset/grid.py")],
    ["RegularGridDataset.add_uv/add_uv_lagerloef"],
    "Exploration against an independent finite difference reference and analytic fields.",
)
prop(
    "P09", "Advecting particles integrates the currents with the announced scheme",
    "Moving particles in currents follows a fourth order Runge-Kutta integration of the bilinearly interpolated velocity (metres per second turned into degrees at the local latitude), forward or backward, over exactly the requested times. "
    "A particle becomes undefined as soon as it needs a masked or outside cell and stays so; the others are unaffected by it, and a global grid is crossed seamlessly. "
    "With a time series of grids velocities are linear in time, whichever date starts the run and whether grids are in memory or read on demand, and returned dates match positions.",
    "Every current field or time series (masked, global/regional), particle set, time step, number of steps and direction.",
    "No test runs advection at all on generated fields; the sample runs only check that plots are made.",
    ["dataset/grid.py", "observations/groups.py"],
    [("advect, advect_rk4, advect_t, advect_t_rk4, path, filament, get_uv_quad, get_next_time_step", "dataset/grid.py")],
    ["RegularGridDataset.advect/path/filament, GridCollection.advect/path"],
    "Exploration against an independent scalar RK4 integrator, plus reversibility and invariance relations.",
    over=("inputs", "configurations"),
)
prop(
    "P10", "Identification finds exactly the eddies its definition describes",
    "Scanning height levels inward, an eddy is kept exactly when its outer contour is closed, convex enough (shape error under the limit), within the size limits, free of masked pixels, all pixels on the right side of the level, holding an acceptable number of extrema, and of sufficient amplitude. "
    "Its attributes (centre, radii, areas, amplitude, contours, speed profile, number of contours) are those the definition gives, and an accepted eddy's pixels are reserved to it. "
    "Both polarities follow the same rules.",
    "Every height field (regional, global, masked, noisy), grid step, contour step and set of identification options.",
    "The tests identify one real map and compare a handful of counts and means; no independent definition is run against the code.",
    ["dataset/grid.py", "eddy_feature.py", "poly.py"],
    [("eddy_identification, get_uavg, get_amplitude", "dataset/grid.py"), ("Amplitude, Contours.get_next, get_index_nearest_path_bbox_contain_pt", "eddy_feature.py")],
    ["RegularGridDataset.eddy_identification"],
    "Exploration against an independent reference implementation of identification on synthetic sums of Gaussian eddies.",
    over=("inputs", "configurations"),
)
prop(
    "P11", "Identification does not depend on how the same field is represented",
    "Identifying the same physical field gives the same eddies whether heights are in metres or centimetres, offset by a constant, stored with longitudes shifted by 360 degrees or with another first meridian, read from a file or held in memory, in row or column memory order, in single or double precision, as a regular or equivalent curvilinear grid, and whatever hides under the mask. "
    "The number of points kept per contour only changes the stored contours.",
    "Every height field, grid and set of options, with each change of representation applied to it.",
    "Tests run a single representation of a single file.",
    ["dataset/grid.py", "eddy_feature.py", "observations/observation.py"],
    [("eddy_identification, setup_coordinates, grid, units handling", "dataset/grid.py"), ("Contours", "eddy_feature.py")],
    ["RegularGridDataset/UnRegularGridDataset.eddy_identification"],
    "Exploration with metamorphic relations between two runs of the real code.",
    over=("inputs", "configurations"),
)

prop(
    "P12", "Circles, shape errors, areas and distances are the exact geometric quantities",
    "The circle fitted on a contour is the least squares one, so an exact circle gives its centre and radius with no more error than its sampling, and the fit follows any translation, rotation, change of scale, direction or starting point of the contour. "
    "Shape error is the area between contour and circle in percent of the circle. Distances are great circle distances, the same in both directions and on every longitude branch; local metric coordinates keep distances to their origin and convert back to the same position. "
    "Circles rebuilt from centre and radius have this radius.",
    "Every simple closed contour, ellipse, set of positions (any latitude out of poles, date line) and table of eddies.",
    "Tests fit two hard-coded contours and never vary position, scale, direction or branch.",
    ["poly.py", "generic.py", "dataset/grid.py", "observations/observation.py"],
    [("fit_circle, fit_circle_, fit_ellipse, shape_error, poly_area", "poly.py"), ("distance, distance_grid, coordinates_to_local, local_to_coordinates", "generic.py"), ("_fit_circle_path", "dataset/grid.py"), ("circle_contour, distance", "observations/observation.py")],
    ["poly.fit_circle/fit_ellipse/shape_error/poly_area, generic.distance*/coordinates_to_local/local_to_coordinates, EddiesObservations.circle_contour"],
    "Exploration against independent float64 geometry.",
)
prop(
    "P13", "Resampling, simplifying, wrapping and grouping lines keep what they announce",
    "Resampling gives the requested number of points evenly spaced along the contour, with the same ends. Contour simplification removes the vertices of smallest triangle first and returns a closed contour made of vertices in their order. "
    "The convex hull is the smallest convex contour. Line simplification keeps every point farther than the precision from the last kept one and all breaks. "
    "Wrapped lines are the same lines modulo 360 degrees, cut exactly where they cross the bound. Group bounds, windows, running counts and sums match their definition.",
    "Every contour, line with undefined points, reference meridian, precision, size, sorted group array and window.",
    "Tests use one or two short arrays per function; wrapped input, single valid points, hull ends and array ends are not covered.",
    ["generic.py", "poly.py"],
    [("uniform_resample, simplify, wrap_longitude, flatten_line_matrix, split_line, build_index, window_index, cumsum_by_track", "generic.py"), ("visvalingam, get_convex_hull, convex, reduce_size, merge", "poly.py")],
    ["functions of generic.py and poly.py"],
    "Exploration against naive references.",
)
prop(
    "P14", "Writing observations to a file and reading them back loses nothing",
    "Observations written to NetCDF or Zarr and read back (from a path, bytes, memory, an open handle or a tar member) have the same size, fields, types, polarity and values within the documented packing, on an equivalent longitude branch; "
    "reading again what was written after a reading changes nothing more, in either container. Reading a slice or a selection of variables gives this part of the full reading, the raw mode gives the packed values and can be written again, "
    "and files of other producers (names, units, dimensions) are converted. Writing leaves the observations unmodified.",
    "Every table of observations (any size including empty, fields, sampling, class, longitude branch), container, way to read, slice and variable selection.",
    "Tests compare one sample in netCDF and zarr on a few fields; empty tables, western longitudes, slices, raw mode and extra variables are not varied.",
    ["observations/observation.py", "__init__.py"],
    [("write_file, to_netcdf, to_zarr, create_variable*, load_from_netcdf, load_from_zarr, compare_units", "observations/observation.py"), ("VAR_DESCR", "__init__.py")],
    ["EddiesObservations.write_file/load_file"],
    "Exploration of round trips with the packing as tolerance.",
    over=("inputs", "configurations"),
)
prop(
    "P15", "Network groups are the connected components of the contour overlaps",
    "Grouping a set of daily identification files gives the same non-null group to two observations if and only if they are linked by a chain of overlaps above the threshold, each one between two files at most 'window' files apart, "
    "and group 0 to the observations without any overlap. Only the chosen contour (speed or effective), overlap definition and threshold matter: not the order of the overlaps, the 360-degree branch, the direction of the contours, "
    "nor the networks built before in the same session. The dataset which is built has every observation once, as it was in its file, ordered by group and by date in each group.",
    "Every list of overlaps and every sequence of identification files (any density, empty files, window, threshold, definition of the overlap, contour, netCDF or zarr, in memory or not, raw or not), after any other grouping in the session.",
    "Tests check group_translator on one list of pairs, no grouping of files is tested.",
    ["observations/network.py", "poly.py"],
    [("Network.group_observations, get_group_array, group_translator, build_dataset, get_next_index, Buffer", "observations/network.py")],
    ["Network(...).group_observations, build_dataset"],
    "Exploration against a union-find on exactly clipped contours; overlaps within 2e-3 of the threshold are not judged.",
    over=("inputs", "configurations"),
)
prop(
    "P16", "Segments of a network follow the best overlap, links are consistent",
    "Splitting groups in segments links each observation to the best overlapping observation of its group at the first following date (at most 'window' steps later) which has one, and no other; "
    "among the observations linked to the same one, the best overlap continues the segment and the others end there (merging); an observation which no one is linked to starts a segment, "
    "attached to the best overlap at the closest previous date of the window if any (splitting). Hence in a segment dates strictly increase and next/previous observations are each other's, a change of segment along a link is a merging or a splitting, "
    "links never join two groups, and the costs are the overlaps. The network built from it has every observation once, ordered by network, segment and date, with links translated to the new positions.",
    "Every set of groups (components of the overlaps or not, any density, observations without group), sampling of dates with holes, window, threshold, definition of the overlap and contour.",
    "Tests run split_network on one sample and check counts of segments only.",
    ["observations/tracking.py", "observations/network.py"],
    [("split_network, set_tracks, follow_obs, get_next_obs, get_previous_obs", "observations/tracking.py"), ("from_split_network", "observations/network.py")],
    ["TrackEddiesObservations.split_network, NetworkObservations.from_split_network"],
    "Exploration against an order-free reference of the links; near ties are judged on the invariants only.",
    over=("inputs", "configurations"),
)
prop(
    "P17", "Transformations of networks keep observations, links and segments true",
    "Any history of extractions (mask, networks, segments, period, duration, trash), dead end removals, close event corrections, dissociations, renumberings and sorts of a network gives exactly the network of its definition: "
    "the observations which satisfy the criterion, each with its fields, whose next and previous observations are the same ones as before wherever both remain and none otherwise; ordered by network, segment and date; "
    "dissociation gives a network for each connected set of segments; dead end removal removes only segments which end or begin nowhere and are shorter than the limits, as many times as asked, never one of the mask to keep; "
    "correction of close events exchanges ends of segments only around a split followed by a merge between the same ones within the delay, and keeps segments as chains of links. Indexes asked to the object after that agree with the table.",
    "Every network with any number of merging, splitting, loops, trash, sparse numbers of networks or segments, and every sequence of these operations.",
    "Tests check extraction and dead end removal on one sample network each; no sequence, no close event, no renumbering.",
    ["observations/network.py"],
    [("extract_with_mask, sort, networks, extract_segment, extract_with_period, longer_than, remove_dead_end, remove_trash, dissociate_network, correct_close_events, numbering_network, numbering_segment, swap_track", "observations/network.py")],
    ["NetworkObservations"],
    "Exploration of histories against a model where links are names of observations.",
    over=("inputs", "histories"),
)
prop(
    "P18", "Queries on networks follow the graph of segments",
    "The relatives of observations at order n are the segments at most n links away from their segments; the past or future of observations is every observation reached by following segments and events in time (in both directions when both are asked); "
    "birth, death, merging and splitting events are exactly the first observations without past, the last ones without future, and the observations which receive or give a segment; map functions apply to each segment or network; "
    "networks or segments of another atlas are identified if and only if they have the same observations. Whatever the numbers, the part of network extracted before, and the length of the chains of segments. A query does not change the network.",
    "Every network with any number of merging, splitting, loops, trash, sparse numbers, chains of thousands of segments; every set of origin observations, order, direction.",
    "Tests check relatives and links of a network of a few segments, and number of events in one sample.",
    ["observations/network.py"],
    [("relatives, find_segments_relative, segment_relative_order, connexions, find_link, birth_event, death_event, merging_event, spliting_event, mask_obs_close_event, map_segment, map_network, identify_in", "observations/network.py")],
    ["NetworkObservations"],
    "Exploration against breadth-first searches on the graph of segments built from the links.",
    over=("inputs", "histories"),
)
prop(
    "P19", "A selection keeps exactly the observations which meet its criterion",
    "Every selection (mask, whole tracks touched by it, complete tracks only, area on any branch of longitude, polygons, period with absolute or relative bounds, length, identifiers, direction, first observation in a box, time sampling, "
    "first or last observations, presence at two dates, index or its complement) returns exactly the observations which meet its criterion, in the same order, with the same fields, rotation and track numbers "
    "(consecutive from 1, and the same everywhere in the object, when compression is asked). A composition of filters (slices, masks, indices, functions, none) is their intersection. "
    "Nothing given by the caller is changed; unknown identifiers select nothing; a selection in an empty dataset is empty.",
    "Every table of tracks (sparse numbers, tracks of one observation, holes, any branch of longitude) and every sequence of selections, every composition of filters.",
    "Tests use one sample file, with a few selections and no sequence.",
    ["observations/tracking.py", "observations/observation.py", "observations/groups.py"],
    [("extract_with_mask, extract_with_period, extract_with_length, extract_ids, extract_longer_eddies, extract_toward_direction, extract_in_direction, extract_first_obs_in_box", "observations/tracking.py"),
     ("extract_with_area, mask_from_polygons, time_sub_sample, merge_filters, first_obs, last_obs, index", "observations/observation.py"), ("keep_tracks_by_date", "observations/groups.py")],
    ["TrackEddiesObservations", "EddiesObservations"],
    "Exploration of histories of selections against a row by row definition.",
    over=("inputs", "histories"),
)
prop(
    "P20", "Quantities along a track depend on this track only and are exact",
    "Index, durations, ages, number of tracks, counts, bearings and distance to the next observation (0 at the end of each track) of every track are those of its own observations, whatever the numbers of the tracks and their place in the table, also in the text displayed. "
    "Normalisation puts each track on a continuous branch, its maximum and contours with it, and moves nothing else. Median and local weighted smoothing of a field use every observation of the track (or of the segment, in a network) in the window, and no other; "
    "a smoothing which is not in place changes nothing.",
    "Every table of tracks (sparse numbers, tracks of one observation, holes), every field, sampling and window.",
    "Tests check none of them except the number of observations of one sample.",
    ["observations/tracking.py"],
    [("compute_index, lifetime, age, iter_track, distance_to_next, add_distance, get_azimuth, normalize_longitude, median_filter, loess_filter, position_filter, __repr__", "observations/tracking.py")],
    ["TrackEddiesObservations"],
    "Exploration against definitions applied to each track alone.",
    over=("inputs",),
)
prop(
    "P21", "Missing observations are found in each track, and filled from its neighbours",
    "The missing observations are those which the sampling lets expect between two consecutive observations of a same track (of a same segment, trash excluded, for networks), and nothing else. "
    "Inserting virtual observations keeps every existing observation with its fields, its flag and its links (translated), and adds the missing ones, equally spaced in time, "
    "in the right track and segment, numbered and linked in sequence, interpolated linearly between the neighbours of the same track. Filling changes only flagged observations.",
    "Every table of tracks or network with holes, any sampling (also under the day), tracks of one observation, trash, observations already virtual.",
    "No test inserts virtual observations.",
    ["observations/groups.py", "observations/network.py", "observations/tracking.py"],
    [("get_missing_indices, insert_virtual, filled_by_interpolation", "observations/groups.py"), ("fix_next_previous_obs, get_missing_indices", "observations/network.py")],
    ["TrackEddiesObservations.insert_virtual", "NetworkObservations.insert_virtual"],
    "Exploration against the expected table.",
    over=("inputs",),
)
prop(
    "P22", "Groups by bin partition the observations, alignment matches the same bins",
    "Iterating on a variable gives, in increasing order, each bin which has values with exactly the observations whose value is in it (lower bound included), whatever the order, type and range of the values and the regularity of the bins; "
    "with a window, each centre with the observations closer than the half window. Aligning two datasets gives the observations of both in each common bin (and every bin of the first one if asked). "
    "Comparing atlases gives the tracks (networks) of the other one which overlap enough times at the same dates, none when there is nothing in common.",
    "Every variable (sorted or not, constant, empty, in or out of the bins, signed or not), bins, window, pair of datasets.",
    "Tests iterate on one sample with default bins.",
    ["observations/observation.py", "observations/tracking.py", "observations/network.py"],
    [("iter_on, align_on, numba_digitize, iter_mode_reduce, match", "observations/observation.py"), ("window_index", "generic.py"), ("close_tracks", "observations/tracking.py"), ("close_network", "observations/network.py")],
    ["EddiesObservations.iter_on, align_on", "close_tracks, close_network"],
    "Exploration against the definition applied to each value, and exactly clipped contours.",
    over=("inputs",),
)
prop(
    "P23", "Statistics by bins or by boxes are those of the observations of each bin or box",
    "Histograms, means and deviations by bins, gridded means, percentiles and counts of centres hold in each bin or box exactly the statistic of the observations which fall in it (all longitudes modulo 360, filters and masked values respected), for variables of any type of the atlas; "
    "bins without observation are undefined or zero; percentiles refuse observations out of their boxes rather than misplace them.",
    "Every table of observations, variable type, bins (regular or not), boxes (global or regional, any first meridian), filter, mask and percentile.",
    "Tests look at no statistic; the percentile of a box stored in the next box or an overflow with small integers depends on how observations are spread.",
    ["observations/observation.py", "generic.py", "dataset/grid.py"],
    [("hist, bins_stat, grid_stat, grid_box_stat, grid_count, merge_filters", "observations/observation.py"), ("hist_numba", "generic.py")],
    ["EddiesObservations.hist, bins_stat, grid_stat, grid_box_stat, grid_count(center=True)"],
    "Exploration against the definition applied to each bin and box.",
    over=("inputs",),
)
prop(
    "P24", "Coherence gives, for each eddy, where the particles released in it are found",
    "Particles seeded in the contour of each eddy of a date and advected forward or backward by the currents are attributed to the contours of the eddies of the final date: each eddy gets its (at most) two best targets, in decreasing order, as indexes in the whole dataset, with the truncated percentage of its particles (lost particles included in the total); "
    "all dates whose final date is in the period are computed; eddies without target have -1 and 0. The analysis of a network returns and stores the same values for its segments.",
    "Every set of eddies (order, dates without eddy, overlapping), currents (still, uniform, variable, masked), contour kinds, mesh, duration in both directions.",
    "The tests advect particles on one case and never look at coherence; ranking of close percentages, backward runs and the last dates need specific cases.",
    ["observations/groups.py", "observations/network.py", "dataset/grid.py", "poly.py"],
    [("particle_candidate, particle_candidate_step, get_matrix, get_targets, particle_candidate_atlas, fill_coherence, merge_particle_result, advect", "observations/groups.py"), ("segment_coherence_forward, segment_coherence_backward, analysis_coherence", "observations/network.py"), ("from_netcdf_list, shift_files", "dataset/grid.py"), ("create_meshed_particles, poly_indexs", "poly.py")],
    ["particle_candidate", "GroupEddiesObservations.particle_candidate_atlas", "NetworkObservations.segment_coherence_forward, segment_coherence_backward, analysis_coherence"],
    "Exploration against a recount of the particles contour by contour (mesh and advection are judged on their own in P05 and P09).",
    over=("inputs",),
)
prop(
    "P25", "Assembling or editing datasets keeps every observation and mixes nothing",
    "Copies, concatenations, merges, insertions, selections, additions and removals of fields give datasets which hold exactly the expected observations (values, order, type of eddies); tracks of different datasets are never mixed; datasets which do not have the same fields are refused or filled with zeros (merge), never mixed; "
    "a result never shares its memory with another dataset; period, number of tracks and index of tracks always describe the current content.",
    "Every sequence of operations on a pool of observations and tracks, empty or not, with or without contours, with all fields or some of them.",
    "The tests concatenate or merge once non-empty datasets; stale indexes, shared memory and positions of fields only appear on sequences of operations.",
    ["observations/observation.py", "observations/tracking.py"],
    [("copy, concatenate, merge, insert_observations, append, coherence, add_fields, remove_fields, add_rotation_type, index, extract_with_mask, new_like, empty_dataset, period", "observations/observation.py"), ("concatenate, nb_tracks, compute_index", "observations/tracking.py")],
    ["EddiesObservations.copy, concatenate, merge, insert_observations, append, index, add_fields, remove_fields", "TrackEddiesObservations.concatenate, nb_tracks, index_from_track, extract_ids"],
    "Model based exploration of sequences of operations against lists of dictionaries.",
    over=("inputs", "histories"),
)
prop(
    "P26", "Commands on detections and tracks produce what they announce",
    "EddyTracking writes each detection once, in long tracks, too short tracks or untracked observations, with the tracks of the library (also when resumed from saved correspondences or with a blank period), virtual observations being flagged and interpolated; MergeEddies keeps all packed values and separates the tracks of the files; EddyCircle replaces contours by circles of the stored radius around the centre and keeps the rest; "
    "EddyFrequency counts the eddies over each cell; EddyQuickCompare classifies each eddy in exactly one class of association and writes these classes; lists of files are sorted by date, regular and in the asked period.",
    "Every set of small files, every combination of the options.",
    "No test runs these commands: options, empty files and orders of names are never exercised.",
    ["appli/eddies.py", "tracking.py", "observations/observation.py", "observations/tracking.py"],
    [("eddies_tracking, track, browse_dataset_in, merge_eddies, eddies_add_circle, get_frequency_grid, get_group, run_compare, display_compare, quick_compare", "appli/eddies.py"), ("circle_contour, grid_count, empty_dataset, match", "observations/observation.py"), ("identify_time", "__init__.py")],
    ["EddyTracking, MergeEddies, EddyCircle, EddyFrequency, EddyQuickCompare", "browse_dataset_in", "get_group"],
    "Exploration against models of each command and the tracks given by the library (judged by P02 to P04).",
    over=("inputs", "histories"),
)
prop(
    "P27", "Commands on grids and networks produce what they announce",
    "GridFiltering and EddyId give what the library gives for the same options, and files dated as asked; EddyNetworkGroup gives each observation once with one group by connected set of overlapping contours; EddyNetworkBuildPath gives the segments of the library with all the values of the groups; EddyNetworkSubSetter keeps exactly the networks and observations which agree with its options (in days); "
    "EddyNetworkQuickCompare counts the networks and segments which are identical in both files.",
    "Every small grid, set of identification files or network, every combination of options.",
    "The tests only run EddyId on one grid; packed values and options of the other commands are never exercised.",
    ["appli/grid.py", "appli/network.py", "observations/network.py"],
    [("grid_filtering, eddy_id, identification", "appli/grid.py"), ("build_network, divide_network, subset_network, quick_compare, run_compare", "appli/network.py"), ("network_size, longer_than, get_mask_with_period, remove_trash, from_split_network", "observations/network.py")],
    ["GridFiltering, EddyId, EddyNetworkGroup, EddyNetworkBuildPath, EddyNetworkSubSetter, EddyNetworkQuickCompare"],
    "Exploration against models (groups, selections, counts) and the library on unpacked data (identification, filters, segments are judged by P07 to P11 and P16).",
    over=("inputs",),
)
prop(
    "P28", "Grids keep their values, axes and copies whatever the layout of the file",
    "A grid read from a file holds the values, mask, axes, bounds, steps and units of the file, in (longitude, latitude) order, whatever the order of its dimensions, its packing, the date or depth which is selected, "
    "its axes giving centres or corners; tiles are parts of it, copies and regridded variables are independent and are written and read back with their own name, dimensions and attributes. "
    "A series of grids gives the date which is asked and the dates which follow or precede, whether grids are loaded, released or shifted. Spectra are the mean spectra of the complete lines and columns of the area "
    "(with a reference, their ratio); filters on curvilinear grids keep constants, are linear, low plus high being the field; paths of pixels join their ends without hole; land is masked where the land mask says so.",
    "Every layout (order of dimensions, extra axes, type, packing, fill values, NaN, axes), history of copies and series of grids, every area, option of spectrum, curvilinear grid and couple of positions.",
    "Tests read three sample files in one layout; they never write a copy, a regridded variable or another layout, use series of grids or spectra.",
    ["dataset/grid.py"],
    [("GridDataset.grid, load_general_features, setup_coordinates, c_to_bounds, write, copy, add_grid, grid_tiles, units, clean, populate, get_mask, with_array, regrid, clean_land, is_circular", "dataset/grid.py"),
     ("GridCollection.from_netcdf_list, from_netcdf_cube, shift_files, reset_grids, are_loaded, get_next_time_step, get_previous_time_step, period, __getitem__", "dataset/grid.py"),
     ("spectrum_lonlat, compute_pixel_path, high_filter, low_filter, UnRegularGridDataset._low_filter", "dataset/grid.py")],
    ["RegularGridDataset, UnRegularGridDataset, GridCollection"],
    "Exploration. Files are written with netCDF4 alone; spectra are compared with scipy's estimator applied line by line; curvilinear filters with the regular one (decided by P07) on the box averages.",
)
prop(
    "P29", "Statistics around network events and reduced views are those of their definition",
    "The percentile of coherence around an event is the one of the percentages towards the target segment of the observations of the followed segment closer than the window (undefined under the asked number), "
    "following parents or children, whatever the number of values. Light extractions, events and conversions of class hold the asked observations, in order, with the same values, links translated, and share nothing with the network. "
    "Masks of periods (absolute or relative bounds), durations, segments and networks select exactly what they announce, unknown identifiers nothing; unique segment numbers and their translation agree with the table.",
    "Every network (any numbers, trash, merging, splitting, selection made before), coherence table, window, percentile, list of identifiers and period.",
    "No test calls these functions on a network with events, relative periods, unknown identifiers, or more values than the window.",
    ["observations/network.py"],
    [("get_percentile_around_event, get_percentile_on_following_obs", "observations/network.py"), ("extract_light_with_mask, extract_event, astype", "observations/network.py"),
     ("get_mask_with_period, mask_longer_than, segment_mask, networks_mask, generate_mask_from_ids, unique_segment_to_id, segment_track_array, build_unique_array, first_is_trash, segment_size", "observations/network.py")],
    ["NetworkObservations, get_percentile_around_event"],
    "Exploration. Trusts small loops over the table of observations.",
)
prop(
    "P30", "Figures draw exactly the data they are asked to draw",
    "Drawing eddies, tracks, networks, grids or animations creates exactly the elements of the data: every observation, contour, track, segment or pixel at its position (modulo 360 degrees, within the western bound which is asked, "
    "cut where it crosses it, never joining two tracks or contours), with the values and colours of the asked field (factor, bounds, number of colours), the number of elements in labels, the events of merging and splitting at the "
    "position of their observations, and the dates of the animation. Union shapes of tracks cover exactly their contours. A drawing changes nothing in the data.",
    "Every set of eddies, tracks (any numbers), networks, grids (global or not, masked), field or array, factor, bound, contour, colour options.",
    "Tests never draw anything.",
    ["observations/observation.py", "observations/tracking.py", "observations/network.py", "dataset/grid.py", "appli/gui.py"],
    [("scatter, filled, display, display_color, create_vertex, format_label", "observations/observation.py"), ("plot, shape_polygon, display_shape", "observations/tracking.py"),
     ("display_timeline, event_timeline, event_map, scatter_timeline, mean_by_segment, map_segment, plot, scatter", "observations/network.py"), ("display, contour", "dataset/grid.py"), ("Anim, func_animation, show", "appli/gui.py"), ("wrap_longitude, split_line", "generic.py")],
    ["Matplotlib artists created by EddiesObservations, TrackEddiesObservations, NetworkObservations, RegularGridDataset, Anim"],
    "Exploration. Artists are examined, not pixels of images.",
)
prop(
    "P31", "Level contours are complete, closed, joined across the seam, and retrievable",
    "The level contours of a grid are exactly the closed iso lines of the field (bilinear crossings on the sides of valid cells, three valid corners being enough), each one once, with its box, continuous in longitude and joined across "
    "the first meridian of a global grid in any number of pieces; open lines are kept only when asked; a field without iso line has none. The contour found for a position at a level is the one with the nearest vertex among those "
    "whose box contains the position, on any branch of longitude, or none. A contour which is not used is labelled as containing several eddies exactly when at least two eddies of the next level (above for anticyclones, below for "
    "cyclones) have their centre in it. Drawings of contours hold exactly those which are asked, with the colours of the criterion.",
    "Every field, mask, grid (global from any first meridian, or regional), set of levels, position and set of eddies.",
    "Tests only run the identification on one map, where few contours cross the seam and no position is ambiguous.",
    ["eddy_feature.py"],
    [("Contours, find_wrapcut_path_and_join, get_next, check_closing, iter, cvalues, levels, get_index_nearest_path_bbox_contain_pt, label_contour_unused_which_contain_eddies, index_from_nearest_path_with_pt_in_bbox_, display", "eddy_feature.py")],
    ["py_eddy_tracker.eddy_feature.Contours"],
    "Exploration. Trusts an independent marching through the cells and even-odd inclusion.",
)
prop(
    "P32", "Compiled kernels never read or write outside of their arrays",
    "Whatever the inputs that public functions accept (grids down to two rows or columns, contours reduced to one point, tracks of one observation, positions on or out of the boundaries, missing values), "
    "the compiled kernels which do the work (interpolation, currents, advection, contours, polygons, histograms, filters, windows, tables of tracks, segments and networks) only access elements of the arrays they are given: "
    "no result ever depends on what else is in memory, and nothing else is overwritten.",
    "Every input of every kernel, through the public functions and directly: any size (from the smallest one which has a meaning), any position, missing values, constant values, masks.",
    "Compiled code does not check indexes: a wrong access gives a plausible value most of the time, and tests run on large regular inputs only.",
    ["generic.py", "poly.py", "eddy_feature.py", "dataset/grid.py", "observations/observation.py", "observations/tracking.py", "observations/network.py", "observations/groups.py"],
    [("interp2d_geo, window_index, build_index, uniform_resample, wrap_longitude, simplify, split_line", "generic.py"), ("visvalingam, convexs, close_center, poly_indexs, reduce_size", "poly.py"), ("compute_stencil, advect*, get_pixel_in_regular, compute_pixel_path", "dataset/grid.py"), ("detect_local_minima_", "eddy_feature.py"), ("grid_box_stat, grid_stat, numba_digitize", "observations/observation.py"), ("track_loess_filter, track_median_filter, compute_index", "observations/tracking.py")],
    ["Every numba function of the package, compiled with NUMBA_BOUNDSCHECK=1"],
    "Exploration with a sanitizer (bounds checked at run time by numba), whose presence is tested by each run. Negative indexes which stay in the array are not seen.",
    technique="fuzzing with a sanitizer: structured random inputs (Hypothesis) given to kernels compiled with checks of bounds, any access out of an array is a violation",
)
#--NEXT--
NOT_APPLICABLE = []
#--END--


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as h:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            h.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None),
            )) + "\n")
    manifest = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -c 'import numba, numpy, netCDF4, zarr'",
        checks=[dict(
            property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"],
        ) for p in PROPS if os.path.exists(os.path.join(HERE, "pbt/props", p["id"].lower() + ".py"))],
        not_applicable=NOT_APPLICABLE,
        notes="No hook was added to /repo: every property is observed through the public API. Repairs are the commits starting with 'fix:'; see known_findings.json and DESIGN.md.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as h:
        json.dump(manifest, h, indent=1)
        h.write("\n")


if __name__ == "__main__":
    main()
