"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

P = "pointpats/"
def mech(*items):
    return [{"name": n, "where": w} for n, w in items]

PROPS = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[P + f for f in files], mechanism=mech(*mechanism),
                     observe_at=list(observe), hook_needed=None)))

I = ["inputs"]; IH = ["inputs", "histories"]; IC = ["inputs", "configurations"]

# ---------------------------------------------------------------- A: point pattern
prop("A01", "A pattern's summaries always describe its own points and current window",
 "At every moment of a point pattern's life its number of points, bounding box, convex hull, their areas, the rule-of-thumb distance and the three intensities equal the values computed directly from the points it holds and the window it has at that moment. Reading any of them in any order, repeatedly, adding marks, flipping the coordinates for plotting or replacing the window never makes another one stale or wrong, and a pattern given no window gets its bounding box as window.",
 IH, "any point set with a non-degenerate bounding box, any sequence of reads, window replacements, mark additions and coordinate flips",
 "the unit tests read each attribute once, on one fixed pattern, straight after construction; staleness only shows for particular orders of reads and updates",
 ["pointpattern.py", "window.py", "util.py"],
 [("PointPattern properties and cached_property memoisation", "pointpattern.py, util.py"), ("set_window/get_window/window", "pointpattern.py")],
 ["PointPattern attributes"])
prop("A02", "Nearest-neighbour queries return the true nearest neighbours",
 "For every point of a pattern the k nearest neighbour query returns k distinct other points of the pattern, never the point itself even when points coincide, at exactly the k smallest Euclidean distances in increasing order, and the nearest-distance summaries (all, minimum, maximum, mean) follow from them. Queries of another set of points against the pattern return its true k nearest points, and the search for pairs within a radius returns every pair at distance at most the radius, each once, and no other.",
 I, "any pattern of at least k+1 points including coincident, collinear and tied ones, any k from 1 to n-1, any radius",
 "tests query k=1 and k=2 on twelve well separated points; ties, duplicates and large k are never generated",
 ["pointpattern.py", "geometry.py"],
 [("knn, nnd, min_nnd, max_nnd, mean_nnd, knn_other, find_pairs", "pointpattern.py"), ("k_neighbors self-match handling", "geometry.py")],
 ["PointPattern.knn/knn_other/find_pairs"])
prop("A03", "Deduplicating, superimposing and exploding act as sets of marked points",
 "Removing duplicates keeps exactly one copy of every distinct combination of coordinates and marks and keeps the window; superimposing two patterns gives exactly the distinct marked points of both; exploding by a mark partitions the points into one pattern per distinct mark value, in increasing order of the value, each with all its rows and columns. A point belongs to a pattern exactly when some point has those coordinates, and none of these operations changes the patterns it is given.",
 IH, "any marked or unmarked patterns with repeated points and repeated marks, any column order, any composition of the operations",
 "tests use one tiny example per operation, without marks, without custom columns and without chaining",
 ["pointpattern.py"],
 [("unique, superimpose, explode, __contains__", "pointpattern.py")], ["returned PointPattern.df"])
prop("A04", "Building a pattern keeps every coordinate, mark and name",
 "A pattern built from an array, list or data frame holds every input row and column in the given order under the given names, with default names x, y, mark_0, mark_1, ... where none are given, and its coordinates are the two columns named as coordinates (the first two by default). Added marks appear under their names with their values, and the caller's points, name lists and marks are left unchanged, so that building the same pattern twice gives equal patterns.",
 I, "any table of at least two columns, any names, any choice of the coordinate columns, any added marks",
 "tests build patterns from one list with default names; permuted coordinate columns and reuse of the name lists are not tried",
 ["pointpattern.py"], [("PointPattern.__init__, add_marks", "pointpattern.py")], ["PointPattern.df, points, coord_names"])
# ---------------------------------------------------------------- B: centrography
prop("B01", "Bounding rectangles and hulls contain every point and are minimal",
 "The bounding rectangle is exactly the per-axis minima and maxima of the points. The convex hull is a convex polygon with vertices among the points, in counter-clockwise order for arrays, that contains every point; the minimum rotated rectangle is a rectangle containing every point whose area is the smallest over all rectangles having a side along a hull edge, and the reported angle is the direction of its first side modulo ninety degrees.",
 I, "any point set with positive hull area, any location (negative, far from the origin), scale and duplicates",
 "tests check the corners for one fixed point set in the positive quadrant",
 ["centrography.py"], [("minimum_bounding_rectangle, hull, minimum_rotated_rectangle", "centrography.py")], ["return values"])
prop("B02", "The minimum bounding circle contains all points and is the smallest one",
 "The minimum bounding circle of any set of at least three non-collinear points contains every point, up to rounding, and no circle with a smaller radius does. The result is the same whether or not the just-in-time compiler is installed.",
 IC, "any non-collinear point set (regular polygons, near-collinear, obtuse and right triangles, duplicates, UTM-like offsets), with and without numba",
 "tests compare one circle for one point set; the vertex elimination takes a different path for every input, and the pure Python variant is not the one that runs",
 ["centrography.py"], [("minimum_bounding_circle, _skyum_numba, _skyum_lists, _circle, _angle", "centrography.py")], ["return value"])
prop("B03", "Centres, medians and spreads satisfy their definitions",
 "The mean centre is the average of the points, the weighted mean centre the weighted average, the Manhattan median the coordinate-wise median, the standard distance the root mean squared distance to the mean centre, and the distance total the sum of Euclidean distances to the given location. The Euclidean median has a distance total no larger, up to a small relative tolerance, than that of the true geometric median, hence than that of any of the points or of the mean centre.",
 I, "any point set, any positive weights, any location including far from the origin",
 "tests compare one fixed number per function",
 ["centrography.py"], [("mean_center, weighted_mean_center, manhattan_median, std_distance, dtot, euclidean_median", "centrography.py")], ["return values"])
prop("B04", "The standard deviational ellipse has the covariance's axes and direction",
 "The semi-axes of the standard deviational ellipse are the square roots of the eigenvalues of the (weighted) covariance of the points, times the square root of two and the n/(n-2) degrees-of-freedom factor as the chosen method and switches prescribe, major before minor. The rotation is the counter-clockwise angle from the x axis to the major axis, and for geographic input the returned polygon is that ellipse around the (weighted) mean centre.",
 I, "any point set of three or more points, any positive weights, both methods, all switch combinations, any orientation",
 "tests pin three numbers for one unweighted cloud; axis aligned, tall, 45 degree and weighted clouds take other branches",
 ["centrography.py"], [("ellipse", "centrography.py")], ["return values"])
prop("B05", "Centrographic results do not depend on the type of container given",
 "Every centrographic measure gives the same numbers for the same points passed as an array, a list, a data frame, a GeoSeries or a GeoDataFrame; geographic input gives a geometry of the documented type carrying those numbers. Options such as weights, method, angle output or buffer resolution act identically for every container.",
 I, "any point set, each measure, each container, each option",
 "tests try each container once, with default options",
 ["centrography.py"], [("singledispatch registrations", "centrography.py")], ["return values"])
# ---------------------------------------------------------------- C: geometry and windows
prop("C01", "Area, extent, centroid and membership of a region are geometrically right",
 "For every supported kind of region (bounding box array, polygon, polygon with holes, multi-part polygon, convex hull) area, bounding box and centroid (for a convex hull object: the mean of its vertices) equal those of the geometric set, and membership is true for every location in its interior and false for every location outside. Preparing a region from points yields their bounding box by default, their convex hull or alpha shape on request, and returns a ready-made region unchanged.",
 I, "any region of each supported kind, any query location not on the boundary",
 "tests check a handful of locations in one square per kind",
 ["geometry.py"], [("area, bbox, centroid, contains, prepare_hull", "geometry.py")], ["return values"])
prop("C02", "Windows keep the geometry they are made from",
 "A window made from rings, or from a polygon with several parts and holes, has that geometry's area, bounding box and membership, holes excluded. Filtering keeps exactly the points inside, in order and with their coordinates; closing a ring repeats its first vertex only when it is open; a bounding-box polygon covers exactly the box.",
 I, "any simple polygon, multi-part polygon and polygon with holes; any points not on its boundary",
 "tests build one square and one polygon with a hole",
 ["window.py"], [("Window, as_window, to_ccf, poly_from_bbox, filter_contained", "window.py")], ["Window attributes"])
prop("C03", "Tree-based neighbour search equals exhaustive search for every metric",
 "For every supported metric, the k neighbours reported for each point exclude the point itself and are the k smallest distances to the other points in increasing order with matching indices, even when points coincide; a user-defined metric function works like the named one. An unknown metric is rejected, and without the optional machine-learning library Euclidean results are the same and other metrics are rejected.",
 IC, "any point set with ties and coincident points, k, metric; with and without scikit-learn",
 "tests use the Euclidean metric on a few random points; coincident points and the fallback are not compared with brute force",
 ["geometry.py"], [("build_best_tree, k_neighbors", "geometry.py")], ["return values"])
# ---------------------------------------------------------------- D: simulation
prop("D01", "Simulated points lie in the requested region, in the documented shape",
 "Every simulator (Poisson, normal, clustered Poisson, clustered normal, Strauss) returns only finite points that lie inside the region it was given, whatever kind of region that is, including regions with holes, several parts or an area far from one. The array has exactly the requested number of points and replications: (points, 2) for one replication and (replications, points, 2) for several, also for a single point.",
 I, "every simulator, every kind of region, any size and number of replications, any seed",
 "tests simulate from a unit square and one polygon with a few fixed seeds",
 ["random.py", "geometry.py"], [("poisson, normal, cluster_poisson, cluster_normal, strauss rejection loops", "random.py"), ("contains", "geometry.py")], ["returned arrays"])
prop("D02", "A seed fully determines a simulation, and nothing else is disturbed",
 "Calling a simulator twice with the same integer seed, or with two generators in the same state, gives identical points; different seeds, and successive calls on one generator, give different points, and the replications of one call differ from each other. A simulator given a seed neither reads nor changes the global random state.",
 IH, "every simulator, any seed, any sequence of calls interleaved with use of the global random state",
 "tests compare a few fixed seeds; independence of global state and between replications is not examined",
 ["random.py", "quadrat_statistics.py"], [("rng handling (SPEC 7)", "random.py"), ("_coerce_rng", "quadrat_statistics.py")], ["returned arrays"])
prop("D03", "Requested sizes and intensities are translated exactly",
 "With a size, the number of points and replications are exactly those requested and the implied intensity is the number of points divided by the region's area; with an intensity, the number of points is the intensity times the region's area, rounded down but never a point short of a product that is whole up to floating-point error, and an integer size counts replications. Nothing requested means one hundred points once, and an intensity together with a pair of sizes is refused.",
 I, "any region, intensity and size in every documented form",
 "tests try one value per form on the unit square where area times intensity is exact",
 ["random.py"], [("parse_size_and_intensity", "random.py")], ["return values and array shapes"])
prop("D04", "Poisson and normal simulations follow the distributions they are named after",
 "Poisson points are uniform over the region: every sub-region receives its area's share of the points, within sampling error. Normal points are centred at the requested centre (the region's centroid by default) with the requested variance, variances or covariance, before truncation to the region, within sampling error.",
 I, "any region; any centre; any scalar or matrix covariance",
 "tests check shapes and that points are inside, never where the points are",
 ["random.py"], [("poisson, normal", "random.py")], ["returned arrays"])
prop("D05", "Cluster simulations have the requested number, size and radius of clusters",
 "A clustered pattern consists of the requested number of clusters whose sizes differ by at most one, each holding its own centre, which lies in the region. In the clustered Poisson process every point lies within its cluster's radius of that centre: the given radius, the given radius of that cluster, or by default half the smallest distance between the centres of that replication; in the clustered normal process points scatter around their centre with the given covariance, by default the squared mean distance between the centres of that replication.",
 I, "any region, number of clusters, radius form, covariance, replications and seed",
 "tests check array shapes and membership only",
 ["random.py"], [("cluster_poisson, cluster_normal, _uniform_circle", "random.py")], ["returned arrays"])
prop("D06", "The Strauss simulator penalises close pairs, or says it cannot deliver",
 "A Strauss simulation returns exactly the requested number of points inside the region, or raises the documented error. Interaction parameters below one give fewer pairs closer than the radius than complete randomness does, one gives about as many, moderate values above one give more, smaller values below one give no more than larger ones, and only distances below the radius matter.",
 I, "any region and scale, number of points, interaction parameter, radius and seed",
 "tests run it on the unit square with one seed and check the shape",
 ["random.py"], [("strauss Metropolis-Hastings loop, _pairwise_count_kdtree", "random.py")], ["returned arrays"])
prop("D07", "Legacy point processes honour window, sizes, conditioning and clusters",
 "A legacy point process holds one realization per requested sample, every point lying in the window; without lambda conditioning each has exactly n points, with it the sizes vary and follow the drawn numbers (a draw of zero gives an empty realization). Cluster realizations place children within the radius of the requested number of parents, and realizations asked for as point patterns are patterns of the same points in the same window.",
 I, "any window (convex, non-convex, multi-part, with holes), n, parents, radius, samples and switches",
 "tests fix one seed, one convex window and n divisible by the number of parents",
 ["process.py"], [("PointProcess.draw, PoissonPointProcess, PoissonClusterPointProcess, runif_in_circle", "process.py")], ["realizations"])
# ---------------------------------------------------------------- E: quadrats
prop("E01", "Rectangular quadrat counts partition the points",
 "A rectangular quadrat count has one entry per cell of the requested grid over the points' bounding box, numbered row by row from the lower left, and each point is counted exactly once, in the cell that geometrically contains it, points on shared edges in an adjacent cell and points on the far edges in the last row or column. Cells given by width and height are just enough to cover the box.",
 I, "any point set with a non-degenerate bounding box, any grid or cell size including exact multiples",
 "tests count a few fixed points; points exactly on cell edges and cell sizes dividing the extent are rare in samples",
 ["quadrat_statistics.py"], [("RectangleM", "quadrat_statistics.py")], ["point_location_sta, num"])
prop("E02", "Hexagonal quadrat counts partition the points",
 "A hexagonal quadrat count has one entry per hexagon of a honeycomb anchored at the lower left corner of the points' bounding box, as many as the grid says it has, and these hexagons cover the box. Each point is counted exactly once, in the hexagon that geometrically contains it (either neighbour when it lies on a shared edge), including points on the far edges of the box.",
 I, "any point set with a non-degenerate bounding box, any hexagon size including exact fits",
 "tests only check totals for a few random points",
 ["quadrat_statistics.py"], [("HexagonM", "quadrat_statistics.py")], ["point_location_sta, num, cells"])
prop("E03", "Quadrat statistics and their p-values follow from the counts",
 "The quadrat chi-square, its contributions per cell, degrees of freedom and analytical p-value are those of the quadrat counts against equal expectation. With simulations, the pseudo p-value is one plus the number of simulated statistics at least as large as the observed one, over one plus the number of simulations, each simulated statistic is that of a pattern of as many points as observed, and the same seed gives the same simulations.",
 I, "any point set, shape, grid, window, number of simulations from one up, any seed form",
 "tests replace the simulator by a stub or use one seed; the number of simulated points and p-value formula are not checked on real simulations",
 ["quadrat_statistics.py", "random.py"], [("QStatistic, _coerce_rng", "quadrat_statistics.py"), ("parse_size_and_intensity", "random.py")], ["QStatistic attributes"])
prop("E04", "Quadrat maps show the counts and contributions of the right cells",
 "Quadrat maps draw every cell of the grid once, at its place, labelled with its own count or chi-square contribution, and every point. The same points give the same counts as array, list, point pattern, GeoSeries or GeoDataFrame, multi-points counting each part, and invalid input or options are refused.",
 I, "any point set, shape, grid and container",
 "tests check that plotting returns axes",
 ["quadrat_statistics.py"], [("plot, _iter_cells, _as_points_array", "quadrat_statistics.py")], ["matplotlib artists"])
# ---------------------------------------------------------------- F: distance functions
prop("F01", "F and G are the cumulative distributions of the nearest distances",
 "At each distance of the evaluation range G is the share of points whose nearest other point is closer than that distance, and F the share of empty-space locations whose nearest point of the pattern is closer (distances equal to it may count either way); both are between zero and one, never decrease and do not depend on which other distances are evaluated. The range is honoured in all its documented forms: number of steps, stop, start and stop, start, stop and number, or explicit values.",
 I, "any point set, range form, supplied distances",
 "there is no unit test of F or G; documentation notebooks show one pattern each",
 ["distance_statistics.py", "geometry.py"], [("f, g, _prepare", "distance_statistics.py"), ("k_neighbors", "geometry.py")], ["returned (support, values)"])
prop("F02", "K counts close pairs per point and intensity, and L is its square-root transform",
 "At each distance K is twice the number of point pairs closer than that distance, divided by the number of points and by the intensity (points over bounding-box area); it never decreases. L is the square root of K over pi, minus the distance itself when linearized.",
 I, "any point set with a non-degenerate bounding box, range form, supplied distances (square or condensed), metric",
 "there is no unit test of K or L",
 ["distance_statistics.py"], [("k, l, _prepare", "distance_statistics.py")], ["returned (support, values)"])
prop("F03", "J is the ratio of the complements of G and F, cut where it is undefined",
 "At each distance J is (1-G)/(1-F) for the same points, distances and empty-space locations, and undefined where both G and F are one. With truncation the result stops before the first distance at which J is infinite or undefined and is unchanged before it; without truncation all distances are kept.",
 I, "any point set, range, supplied distances, truncation switch",
 "there is no unit test of J",
 ["distance_statistics.py"], [("j, _truncate", "distance_statistics.py")], ["returned (support, values)"])
prop("F04", "Distance functions give the same values however the input is supplied",
 "F, G, J, K and L give the same values for the same points supplied as array, list, GeoSeries, GeoDataFrame or search tree, and for precomputed distances in every accepted layout (square matrix, condensed vector, nearest distances) as for distances computed internally. Distances of the wrong shape, a missing precomputed matrix, an invalid metric and edge correction are refused.",
 I, "any point set, container, distance layout and metric",
 "there is no unit test of these functions",
 ["distance_statistics.py"], [("_prepare and distance handling in f, g, j, k", "distance_statistics.py")], ["returned values, exceptions"])
prop("F05", "Tests of randomness report the observed function and honest p-values",
 "Each F, G, J, K and L test reports the same range and statistic as the corresponding function, as many simulated functions as requested (kept only on request, one value per distance) and, at each distance, a p-value that is one plus the smaller of the numbers of simulations at least and at most as large as the observed value, over one plus the number of simulations. A p-value is never zero, and truncating a J test cuts every part of the result at the same distance. Edge correction is refused.",
 I, "any point set, hull, range, number of simulations, metric",
 "there is no unit test of the Ripley tests",
 ["distance_statistics.py"], [("_ripley_test, _run_one_ripley_simulation, *_test", "distance_statistics.py")], ["test result tuples"])
prop("F06", "Tests of randomness compare with random patterns of the same size and region",
 "Each simulated function of an F, G, J, K or L test is the function of a pattern of as many points as observed, placed uniformly at random in the requested hull (the bounding box by default), with empty-space locations drawn from that hull too. Under complete randomness the simulated functions agree with theory within sampling error, and strongly clustered or regular patterns are recognised by extreme statistics on the documented side.",
 I, "any hull kind, number of points, function",
 "there is no unit test of the Ripley tests",
 ["distance_statistics.py", "random.py"], [("_run_one_ripley_simulation, empty-space points", "distance_statistics.py")], ["simulations attribute"])
# ---------------------------------------------------------------- G: space-time
prop("G01", "Knox counts and tables equal exhaustive pair counting",
 "The Knox statistic is the number of distinct pairs of events within the spatial threshold and within the temporal threshold (both inclusive); the observed table splits all pairs into both, space only, time only and neither, and sums to the number of pairs. The expected table has the same margins under independence, and the analytical p-value is the Poisson upper tail beyond the observed count at the expected one. The fitted object keeps the events, thresholds and options it was given.",
 I, "any events, thresholds, coincident events, integer and float times",
 "tests pin the Burkitt data at one pair of thresholds",
 ["spacetime.py"], [("_knox, Knox", "spacetime.py")], ["Knox attributes"])
prop("G02", "Knox permutation inference is a valid, reproducible permutation test",
 "The global pseudo p-value is one plus the number of permuted statistics at least as large as the observed one, over one plus the number of permutations; each permuted statistic is a count attainable by reassigning the observed times to events, their average agrees with the expected count, and thresholds that link all or none leave them constant. The same global random seed gives the same result and zero permutations give none.",
 I, "any events, thresholds, numbers of permutations, seeds",
 "tests check one seeded p-value",
 ["spacetime.py"], [("_knox permutation loop", "spacetime.py")], ["p_sim, sim"])
prop("G03", "Local Knox statistics and p-values equal their definitions",
 "Each event's local Knox statistic is its number of space-time neighbours, these sum to twice the global count, and its analytical p-value is the hypergeometric tail averaged over all events' numbers of temporal neighbours. The local pseudo p-values follow from the kept local permutation counts by the (exceedances+1)/(permutations+1) rule, those counts are attainable and average to the hypergeometric mean of that event, and the global results equal those of the global statistic.",
 I, "any events, thresholds, numbers of permutations, seeds",
 "tests pin the Burkitt data at one pair of thresholds",
 ["spacetime.py"], [("_knox_local, KnoxLocal", "spacetime.py")], ["nsti, p_hypergeom, p_sims, sims, sim"])
prop("G04", "Space-time links and hotspots name the right events",
 "The link table lists every space-time pair in both directions under the caller's event identifiers, marked lead when the focal event precedes its neighbour, lag when it follows and coincident when simultaneous. Hotspots are exactly the events significant at the chosen level and inference with their p-values and times (plus, on request, the events linked to one), each linked to one of its neighbours, and two of them share a cluster exactly when a chain of links through significant events connects them. Plots and maps show every event once, in the colour chosen for its role (significant, linked to a significant event, neither), and draw the links of the hotspots.",
 I, "any events, identifiers (integers in any order, strings), significance level, inference, neighbour switch",
 "tests check the number of rows for one data set",
 ["spacetime.py"], [("adjlist construction, hotspots, plot", "spacetime.py")], ["adjlist, hotspots(), plot(), explore()"])
prop("G05", "Classical space-time interaction tests equal exhaustive computation",
 "The Knox, modified Knox, Mantel and Jacquez statistics equal their definitions computed over all pairs of events: joint closeness counts, counts minus the expectation from the margins, the correlation of transformed distances, and shared k nearest neighbours in space and time. Their pseudo p-values are of the form (count+1)/(permutations+1), one hundred percent identical for the same global seed, and the caller's coordinates are not changed.",
 I, "any events, thresholds, constants, powers, k, numbers of permutations",
 "tests pin the Burkitt data at one setting",
 ["spacetime.py"], [("knox, modified_knox, mantel, jacquez", "spacetime.py")], ["returned statistics"])
prop("G06", "Data frame input to the Knox statistics equals array input and is validated",
 "The global and local Knox statistics built from a geographic data frame equal those built from its coordinates and time column, keep its identifiers and reference system, and leave it unchanged. Geographic reference systems, non-point geometries, non-numeric times and inconsistent arrays are refused.",
 I, "any data frame, column and index names, reference system",
 "tests use one data frame",
 ["spacetime.py"], [("from_dataframe, _spacetime_points_to_arrays, KnoxLocal.__init__", "spacetime.py")], ["attributes, exceptions"])
prop("G07", "Events read from a shapefile are exactly the stored ones",
 "Reading space-time events from a shapefile gives every event's coordinates and time stamp in file order from that file and the table next to it, wherever it is stored and however it is named. With time-stamp inference, calendar dates become whole days since the earliest date.",
 I, "any point shapefile, file name, directory, integer or date time column",
 "tests read the bundled Burkitt example only",
 ["spacetime.py"], [("SpaceTimeEvents", "spacetime.py")], ["SpaceTimeEvents attributes"])
# ---------------------------------------------------------------- H: density
prop("H01", "Density plots contour the kernel density estimate at the right places",
 "Contours drawn for a pattern run where its kernel density estimate with the requested bandwidth has the contour's level, over the extent of the data enlarged by the margin on each side, at the requested resolution per axis. Array and geographic input give the same plot, the axes supplied are the ones drawn on, levels and fill are honoured, and non-point input is refused.",
 I, "any point set, bandwidth, resolution, levels, margin, kernel",
 "tests check that axes are returned",
 ["kde.py"], [("plot_density", "kde.py")], ["matplotlib contour set"])
prop("H02", "Pattern plots show the points, the window and the hull",
 "Plotting a point pattern draws every point once at its coordinates (exchanged after flipping the coordinates), and, when asked to and only then, every part of the pattern's current window and its convex hull, under the given title, with equal scales, in a figure of its own that later plots leave alone. The axes are returned when asked for.",
 IH, "any pattern, window of one or several parts, option and order of plots",
 "tests do not look at what is drawn",
 ["pointpattern.py"], [("PointPattern.plot, flip_coordinates", "pointpattern.py")], ["matplotlib axes of the plot"])
# ---------------------------------------------------------------- X: cross-cutting
prop("X01", "No analysis changes the data it is given",
 "No public function or class modifies the arrays, lists, data frames, geographic series, windows or regions passed to it (closing a ring with to_ccf aside, which works in place), and giving it the same input again in the same random state gives the same result. This holds for descriptive measures, simulators, quadrat and distance statistics, space-time tests and plots alike.",
 IH, "every public entry point, any input, repeated calls on shared inputs",
 "tests hand over fresh literals and never look at them again",
 ["pointpattern.py", "centrography.py", "random.py", "quadrat_statistics.py", "distance_statistics.py", "spacetime.py", "kde.py"],
 [("public functions", "all modules")], ["arguments after the call"])
prop("X02", "Optional accelerators never change results",
 "With and without the just-in-time compiler and the machine-learning library installed, the package imports and gives the same minimum bounding circles, neighbour distances and distance functions. A requested feature that needs a missing library is refused with an explanation instead of giving other numbers.",
 IC, "any input, each subset of the optional libraries removed",
 "the test environment has all of them installed",
 ["centrography.py", "geometry.py", "distance_statistics.py"],
 [("import fallbacks", "centrography.py, geometry.py")], ["return values in each configuration"])
prop("X03", "Results do not depend on event order, origin or units of measurement",
 "Reordering the points, moving the origin, exchanging the axes or changing the unit of length or of time changes descriptive measures, quadrat counts, distance functions and space-time statistics only as geometry dictates: locations move along, lengths scale, areas scale with the square, counts, shares, p-values and angles stay. In particular no result depends on coordinates being positive or near the origin.",
 I, "any point set with any permutation, translation by representable offsets, power-of-two scaling or axis exchange",
 "tests never transform an input",
 ["centrography.py", "distance_statistics.py", "quadrat_statistics.py", "spacetime.py", "pointpattern.py"],
 [("all statistics", "all modules")], ["return values on transformed inputs"])
prop("X04", "A stopped or refused call leaves nothing behind",
 "A call that is stopped at any point (Ctrl-C, lack of memory) or refused leaves its inputs, and the objects it was asked of, as they were, and the same call made again gives the result of a first one. No call, completed or not, changes settings of the process: warning filters, floating-point error handling, print, plotting or table options; nor the global random state when it is given a seed or draws nothing.",
 ["crash_points", "inputs"], "every point of the package's code at which a call may be stopped, every entry point, any input",
 "tests never stop a call, and start each one in a fresh state",
 ["pointpattern.py", "centrography.py", "random.py", "quadrat_statistics.py", "distance_statistics.py", "spacetime.py", "kde.py", "window.py"],
 [("results are built up in locals and stored last", "all modules")], ["inputs and objects after the stop", "results of a repeated call", "process-wide settings"])
prop("X05", "Calls that overlap do not disturb each other",
 "Two calls that overlap in time, one of them suspended at any point while the other runs through, as with threads or event handlers, each give the result they give alone, whether they share inputs and pattern objects or not. This holds for all calls that neither plot nor draw from the global random state.",
 ["schedules", "inputs"], "every point of a call at which another may run, pairs of entry points on the same or other inputs",
 "tests run one call at a time",
 ["pointpattern.py", "centrography.py", "random.py", "quadrat_statistics.py", "distance_statistics.py", "geometry.py", "window.py", "util.py"],
 [("no shared scratch state; caches are filled with complete values", "all modules")], ["return values of both calls", "inputs"])

prop("X06", "Numbers mean the same whatever type stores them",
 "Coordinates, weights, times, supports, distances, radii and bounding boxes stored as 8- to 64-bit integers, signed or not, in single precision or as Python integers, and parameters given as NumPy numbers, give the results that the same numbers give in double precision: nothing overflows, wraps around, is truncated or refused because of its type.",
 I, "whole numbers nearly filling the range of every type of number, every entry point, every parameter",
 "tests use double precision and small Python integers",
 ["geometry.py", "centrography.py", "random.py", "distance_statistics.py", "pointpattern.py", "quadrat_statistics.py", "spacetime.py", "kde.py"],
 [("arithmetic on what the caller gave", "all modules")], ["return values for each type"])
prop("X07", "Copied and stored objects answer as the original and stay apart from it",
 "A pattern, window, quadrat count, fitted space-time statistic, point process or test result that is copied, or pickled and loaded in this or another process, at any point of its history, gives the same answer to every question as one never copied; copying changes nothing in the original, and later changes to one of the two do not show in the other.",
 ["histories", "inputs"], "any object after any history of reads, every way of copying, any history of reads and changes after it",
 "tests never copy or store an object",
 ["pointpattern.py", "util.py", "window.py", "process.py", "quadrat_statistics.py", "spacetime.py", "distance_statistics.py"],
 [("results kept in the instance", "util.py: cached_property"), ("results are plain attributes or named tuples of the module", "distance_statistics.py, spacetime.py")], ["answers of original and copy"])

prop("X08", "How numbers are laid out and rows are labelled changes no answer",
 "Every function and class gives the same values for the same numbers however the arrays holding them lie in memory (by row or column, slices and mirror images of other arrays, read-only), and whatever labels the rows of data frames, series and geographic objects carry (numbered from elsewhere, backwards, with repetitions, by words, dates or pairs), also after any history of changes to a pattern made from a labelled frame. Only where rows are identified by label in an answer does the label appear, with the values of its own row; the identifiers of events whose hotspots are asked for are distinct.",
 ["inputs", "histories"], "any point set, function and class, memory layout and row labels; any history of marks, flips, windows, parts and superpositions of a pattern",
 "tests use arrays by row and frames numbered from zero",
 ["pointpattern.py", "centrography.py", "distance_statistics.py", "quadrat_statistics.py", "spacetime.py", "random.py", "geometry.py", "kde.py"],
 [("np.asarray keeps the layout", "distance_statistics.py: _prepare; quadrat_statistics.py: _as_points_array"), ("rows of the caller's frame keep their labels", "pointpattern.py: unique, explode, superimpose"), ("values by position", "spacetime.py: _spacetime_points_to_arrays")], ["every answer"])

prop("X09", "Options mean the same left out, by position and by name",
 "For every public function, class and method, leaving an option out is the same as giving it its documented default, and giving arguments by position, in the documented order, is the same as giving them by name, whichever other options are given along with it: in the same random state the answers, objects, plots and printed text are identical. Giving an option another value has an effect wherever it applies.",
 ["inputs", "configurations"], "any public callable, any subset of its options left out, at the default or at another value, any prefix by position, any data",
 "tests call each function in one or two fixed ways",
 ["centrography.py", "distance_statistics.py", "geometry.py", "kde.py", "pointpattern.py", "process.py", "quadrat_statistics.py", "random.py", "spacetime.py", "window.py"],
 [("documented defaults and order", "signatures and docstrings of the public functions"), ("None stands for a computed default", "random.py: normal, cluster_poisson; distance_statistics.py: _prepare; kde.py: plot_density")], ["every answer"])

prop("X10", "Wrong requests are refused, doubtful ones warned of, and good ones neither",
 "A request outside what a function documents (a name it does not know, an input of the wrong shape, kind or length, contradicting options, more clusters than points, a pattern that cannot be simulated, edge correction) gets an error of the documented kind with its message filled in, and never an answer; a warning documented for a doubtful or deprecated request is given whenever its reason is there and never otherwise; every request within the documentation is answered.",
 ["inputs", "configurations"], "any data with any public function, any request on either side of each documented limit",
 "tests raise a handful of the errors with one input each and hardly look at warnings",
 ["centrography.py", "distance_statistics.py", "geometry.py", "kde.py", "pointpattern.py", "process.py", "quadrat_statistics.py", "random.py", "spacetime.py"],
 [("validation before use", "distance_statistics.py: _prepare, f, g, k; random.py: parse_size_and_intensity, normal, cluster_poisson; spacetime.py: KnoxLocal.__init__, _spacetime_points_to_arrays; quadrat_statistics.py: _as_points_array"), ("warnings.warn", "centrography.py: manhattan_median; distance_statistics.py; geometry.py: build_best_tree; spacetime.py: hotspots")], ["errors and warnings raised"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in PROPS:
            fh.write(json.dumps(p) + "\n")
    print(len(PROPS), "properties")
