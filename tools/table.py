UT = "The test-suite exercises this on one or two small samples at most; "

p("C01", "Eddies of two dates are matched one to one, within the search limits",
  """For every pair of observation sets, the pairs kept by the tracker use each eddy of either set at most once,
  link only pairs that passed the candidate search (distance limits and overlap or cost threshold of the configured tracker), and, among
  conflicting candidates, an eddy keeps its cheapest one. Pairs whose cost is masked or rejected are never kept.""",
  ["inputs", "configurations"], "all observation sets, all cost matrices, all tracker classes and their parameters",
  UT + "conflicts between candidates depend on the data; no test covers tracking of dense fields.",
  [TRK, OBS, S + "featured_tracking/area_tracker.py", S + "featured_tracking/old_tracker_reference.py"],
  [("cost matrix and gates", "EddiesObservations.tracking, mask_function, cost_function, solve_* in observations/observation.py"),
   ("tracker variants", "featured_tracking/*.py")])

p("C02", "A trajectory keeps one identifier, and no two trajectories share one",
  """Whatever the sequence of dates, an eddy matched with the previous date takes the identifier of its predecessor (real or extrapolated), an
  unmatched one takes an identifier never used before, and an eddy lost is extrapolated from its own last two positions for at most
  the configured number of dates. Joining two tracking results keeps the identifiers at the junction and makes every other identifier of the second
  distinct from those of the first.""",
  ["histories", "inputs", "configurations"], "all sequences of dates, gaps, extensions by virtual observations and merges of results",
  UT + "tracking over several dates with losses and extensions is run by no test.",
  [TRK, OBS], [("links", "Correspondances.store_correspondance, id_generator, recense_dead_id_to_extend, merge_correspondance in tracking.py"),
               ("extrapolation", "EddiesObservations.propagate in observations/observation.py")])

p("C03", "A saved tracking result reloads to the same state, and resuming continues it",
  """Everything a tracking result needs to continue (links of every date with all their attributes, file list in order, identifier counter, extension length, tracker class and its
  parameters) is written to the file and read back to the same place. A run resumed from a file starts again at the date that
  follows what it can trust, with the identifiers, previous observations and extrapolated eddies it would have had; a result made with another tracker class or another extension length
  is refused.""",
  ["histories", "crash_points", "configurations"], "all tracking results, saved after any number of steps, with or without extension",
  UT + "saving and resuming are run by no test.",
  [TRK], [("writer", "Correspondances.to_netcdf"), ("reader", "Correspondances.from_netcdf, load_state, load_compatible"), ("resume", "Correspondances.track, load")])

p("C04", "Merging links into trajectories puts every observation at its own place",
  """When links are merged into trajectories, each trajectory gets as many positions as its identifier has observations, every field of every observation is
  copied to the position of that observation in its trajectory and to no other, in date order, together with its identifier, its rank and its link cost. The only positions left
  unfilled (time 0) are those of extrapolated observations.""",
  ["histories", "inputs"], "all sets of links, with or without virtual observations, contours or raw data",
  UT + "the merge of links is run by no test.",
  [TRK], [("index", "Correspondances.prepare_merging"), ("copy", "Correspondances.merge")])

p("C05", "Long, short and unlinked eddies partition the observations",
  """For any minimal length, the links kept as long trajectories and the links kept as short ones are complementary, each trajectory entirely in one
  of them, with its identifiers renumbered consistently and the counter set accordingly. The untracked observations of a date are exactly those in no link with the date before or the date
  after.""",
  ["inputs", "histories"], "all tracking results and all minimal lengths",
  UT + "these selections are run by no test.",
  [TRK, TOB], [("selection", "Correspondances.longer_than, shorter_than, get_unused_data, prepare_merging"), ("tracks", "TrackEddiesObservations.extract_with_length, split/close")])

p("C06", "Derived collections keep the polarity, layout and contour format of their source",
  """A collection obtained from another by copy, selection, concatenation, merge or insertion has the polarity of its source, the same sample count of contours, the same kind of
  contours (raw or converted), the same set of fields and the same class of layout. Collections of different layouts are refused and not mixed.""",
  ["inputs", "configurations"], "all collections, both polarities, all layouts",
  UT + "only the anticyclonic, default layout is derived in tests.",
  [OBS, TRK, GRP, TOB, NET], [("derivation", "EddiesObservations.new_like, add_fields, extract_with_mask, concatenate, merge, insert_observations, coherence, propagate"), ("other", "merge in Correspondances, GroupEddiesObservations, NetworkObservations")])

p("C07", "Selecting or merging observations never mixes the fields of two observations",
  """In every operation that selects, sorts, merges, fills or re-orders observations, all the fields of an observation are moved together: one row index is used for all the fields of one
  copy on each side, and every field of the layout is covered.""",
  ["inputs"], "all collections, masks and orders",
  UT + "tests check sizes and not rows.",
  [OBS, TOB, GRP, NET], [("row copies", "every loop over fields in observations/*.py")])

p("C08", "Files written by the package are read back to the same values",
  """Every field written to netCDF or zarr is read back to the same field with the same scaling, offset and unit of time, sample count, polarity and layout, for raw and for converted storage: scaling is
  applied exactly once on each side, and what the reader requires the writer always writes. Partial reads return the rows asked for.""",
  ["inputs", "configurations"], "all collections and layouts, both file formats, raw or converted, any slice of rows",
  UT + "one file is round-tripped in one format.",
  [OBS, S + "__init__.py"], [("writers", "to_zarr, to_netcdf, create_variable(_zarr), write_file"), ("readers", "load_from_zarr, load_from_netcdf, load_file, copy_data_to_zarr")])

p("C09", "The table of fields describes every field consistently",
  """Each known field has a unique output name, a storage type that can hold its packed values, dimensions in the order used by the arrays, and scale and offset
  that are only combined with integer packing; every field the code writes is in the table with the dimensions it writes, and lookup by output name is the inverse of lookup by field name.""",
  ["programs", "configurations"], "all fields of the table and all uses of fields in the code",
  "Tests touch a few fields; the table has more than seventy and each is used only in some layout.",
  [S + "__init__.py"], [("table", "VAR_DESCR, VAR_DESCR_inv")], tech="evaluation of the literal table on the syntax tree and cross-check with every field used in the sources")

p("C10", "Queries and extractions leave the collections they read unchanged",
  """Computing an index, statistics, masks, costs, extractions, displays or merges never changes the fields of the collections or grids given as inputs or of the receiver: results are
  new objects, or explicit in-place operations documented as such.""",
  ["inputs", "histories"], "all read-only methods, all arguments, any order of calls",
  "A test of one call does not see the mutation of an argument used later.",
  [OBS, TOB, NET, GRP, POL, GEN, GRD], [("effects", "all public methods of the collections and the geometry functions")], tech="interprocedural side-effect and sharing analysis over value-flow graphs")

p("C11", "Links between network segments point to the right observations after any change",
  """After any extraction, sort, insertion or relabelling in a network, the index of the next and previous observation of each observation designates the same physical observation as before, or none
  when it was removed; the mark for 'none' is never shifted or used as an index.""",
  ["inputs", "histories"], "all networks and all chains of selections",
  UT + "tests only check group translation.",
  [NET], [("re-indexing", "NetworkObservations.extract_with_mask, sort, insert_virtual, merge, Network.build_dataset")])

p("C12", "Cached indexes are refreshed when the data they index change",
  """Position indexes of tracks or segments kept in a collection are dropped or rebuilt whenever the identifiers they were computed from are written or the collection is re-ordered, so that a later access never uses an index
  of older data.""",
  ["histories"], "all sequences of writes and accesses",
  "Tests build a collection and read it once.",
  [TOB, NET], [("caches", "TrackEddiesObservations.index_from_track, NetworkObservations.index_*, cached attributes")])

p("C13", "A statistic on contours uses one contour family throughout",
  """Where a method lets the caller choose between the effective and the speed-based contour, every coordinate, radius and shape it uses comes from the family chosen, longitudes are paired with latitudes of the same contour, and the default
  family is the one documented.""",
  ["configurations"], "every method and application with a choice of contour family",
  "Tests use one family, and mixing families changes values by a few percent.",
  [OBS, TOB, GRP, NET, S + "generic.py", EED, ENT], [("family", "EddiesObservations.intern and all uses of contour fields")])

p("C14", "A contour becomes an eddy only if it passes every identification gate",
  """Every contour retained as an eddy is closed, satisfies the shape error limit, holds no masked or previously claimed pixel, has a pixel count within the limits, only has pixels on
  the right side of its level, and reaches the amplitude threshold, for both polarities; pixels and contours of accepted eddies are claimed so that no other eddy uses them.""",
  ["inputs", "configurations"], "all grids, all identification parameters, both polarities",
  UT + "identification is run by no test on realistic fields.",
  [GRD, EF], [("gates", "UnRegularGridDataset.eddy_identification in dataset/grid.py"), ("amplitude", "Amplitude in eddy_feature.py")])

p("C15", "Cyclonic and anticyclonic eddies are processed symmetrically",
  """Detection treats a field and its opposite alike: for every test, extremum, iteration order of levels and amplitude in one polarity there is the mirrored one in the other, so that the eddies of one polarity in a field are those of
  the other polarity in the opposite field, apart from pixels which the polarity processed first already claimed.""",
  ["inputs"], "all grids and levels, both polarities",
  "Tests run one polarity.",
  [EF, GRD], [("branches", "Amplitude.within_amplitude_limits, all_pixels_below/above_h0, eddy_identification")], tech="duality check: one branch is the mirror image of the other in value-flow graphs")

p("C16", "Each recorded field of an identified eddy comes from its own contour",
  """Radius, area, shape error, contour, height and pixel count recorded as effective come from the outermost accepted contour, those recorded as speed-based come from the contour of maximum average speed inside it, centres come from the extremum
  or fitted circle they name, and contours are stored as longitude, latitude in that order.""",
  ["inputs", "configurations"], "all identified eddies",
  UT + "values are not compared by tests.",
  [GRD, EF], [("properties", "eddy_identification, get_uavg in dataset/grid.py")])

p("C17", "Units are converted completely and once",
  """Whatever the unit of the input grid and the one asked for, heights, amplitudes and levels stored are in metres, radii in metres, speeds in metres per second; no stored value is left unconverted or converted
  twice, and displayed kilometres, centimetres and days are converted by the matching factor.""",
  ["configurations"], "all units of input grids, all stored fields",
  "Tests use one unit.",
  [GRD, OBS, GRP], [("conversion", "eddy_identification, units, display in dataset/grid.py and observations")])

p("C18", "Grid kernels never read outside the grid, and wrap only circular grids",
  """Compiled kernels that read a grid at computed positions read only inside it: indices are limited to the grid or wrapped by modulo when the grid is circular in longitude, for every position given, and a position outside gives a masked or undefined result.""",
  ["inputs"], "all positions and grids, circular or not",
  "An out-of-range access in compiled code returns a value silently.",
  [GRD, POL, GEN], [("kernels", "njit functions of dataset/grid.py, generic.py, poly.py")])

p("C19", "Masked cells never contribute to a result",
  """A value computed from a grid at masked cells is masked or undefined, and never takes part in an average, a maximum or an interpolation; counters of averages count only the valid cells.""",
  ["inputs"], "all grids, masks and positions",
  "Tests use grids with few masked cells, away from the positions read.",
  [GRD], [("mask use", "interpolation, convolution, advection and statistics kernels of dataset/grid.py")])

p("C20", "Interpolation and advection use consistent weights, times and signs",
  """Spatial and temporal interpolation weights are those of the corners and dates they multiply and sum to one; advection evaluates the field at the position and time of each sub-step, backward advection uses the opposite
  time step, and trajectories stop being updated where the field is undefined.""",
  ["inputs", "configurations"], "all positions, dates, steps and directions",
  UT + "one bilinear interpolation is tested.",
  [GRD], [("kernels", "interp2d_bilinear, get_uv_quad, advect, advect_t, advect_rk4, advect_t_rk4, GridCollection")])

p("C21", "High-pass filtering is the original field minus its low-pass",
  """Low-pass filtering normalises by the weights of the valid cells only and leaves masked cells masked, and the high-pass field is the original minus this low-pass with the same parameters, for every way of asking it.""",
  ["inputs", "configurations"], "all grids and filter parameters",
  UT + "one convolution is tested.",
  [GRD], [("filters", "bessel_high_filter, bessel_low_filter, lanczos_*, convolve_filter_with_dynamic_kernel, high_filter, low_filter")])

p("C22", "Geodesic functions follow spherical formulas, with units and argument order kept",
  """Distances, local projections and their inverse use the same earth radius and spherical formulas, angles are in radians exactly once when they enter a trigonometric function, and longitude and latitude are given in the order each function expects at every
  call.""",
  ["inputs", "programs"], "all calls of geodesic functions",
  "A swap of arguments is only seen at large latitudes.",
  [GEN, POL, GRD, OBS], [("formulas", "distance, distance_grid, coordinates_to_local, local_to_coordinates, uv2... in generic.py"), ("calls", "all call sites")])

p("C23", "Longitudes are compared modulo 360 degrees",
  """Wherever eddies, contours, boxes or grids are compared in longitude, both sides are first brought to a common reference, so that results do not change when longitudes are shifted by 360 degrees.""",
  ["inputs"], "all longitudes conventions",
  "Test data do not cross the longitude limit.",
  [OBS, TRK, NET, GEN, POL, GRD], [("wrapping", "wrap_longitude, match, extract_with_area, propagate, display and interpolation")])

p("C24", "Memory that is never written is never returned",
  """Arrays allocated without initial values are fully written before they are returned, stored or read.""",
  ["inputs", "configurations"], "all functions which allocate arrays without initial values",
  "Uninitialised memory is often zero in tests.",
  [GRD, OBS, TRK, POL, GEN, NET, EF], [("allocations", "every call to an allocation without initial values")])

p("C25", "Every documented option of the command line tools takes effect",
  """Each option of each command line tool is read by the tool and given to the computation it documents, with its default, type and conversions; each installed command refers to an existing function, and arguments passed to the library exist
  there.""",
  ["configurations"], "all commands and options",
  "No test runs the command line tools.",
  [EED, ENT, EGR, S + "appli/misc.py", S + "appli/gui.py", "src/scripts/EddyFinalTracking", "src/scripts/EddySubSetter", "src/scripts/EddyTranslate", "src/scripts/EddyMergeCorrespondances"],
  [("options", "appli/*.py and scripts"), ("entry points", "setup.py")], tech="cross-check of declared options with the data flow of the parsed namespace on syntax trees and value-flow graphs")

p("C26", "The order of input files never depends on the file system",
  """Lists of files obtained from patterns or directories are sorted before they are used in an order-sensitive computation, and dates are paired with their own file.""",
  ["configurations", "schedules"], "all file systems and all listing orders",
  "The order returned by one file system is stable in tests.",
  [EED, ENT, GRD, TRK, NET], [("listings", "glob, listdir and date selection")])

p("C27", "Files opened by a function are closed on every path",
  """Every file or dataset opened by the package to read or write is closed when the function that opened it ends, normally or by an error, or is handed to the caller; written data are complete when the function returns.""",
  ["fault_sequences", "inputs"], "all paths out of each function",
  "Leaks and missing flush do not fail a short test.",
  [OBS, TRK, GRD, EED, ENT], [("handles", "every open in the sources")])

p("C28", "Selections by time, area, track or threshold keep exactly what was asked",
  """A selection keeps all the observations that satisfy the interval, box, polygon, track or threshold asked and no other, with each bound applied on the documented side and the options to keep whole tracks or the complement honoured.""",
  ["inputs", "configurations"], "all bounds, collections and options",
  "Tests of selection check a size on one sample.",
  [OBS, TOB, NET, GRP], [("selection", "extract_with_period, extract_with_area, extract_with_length, extract_ids, remove_tracks, network extractions")])

p("C29", "Extrapolated and interpolated observations are always flagged virtual",
  """An observation that was not detected but inserted by extrapolation or interpolation is flagged virtual in every output, one that was detected never is, and interpolation only fills the virtual ones, from the real ones of the same
  track, for every field asked.""",
  ["inputs", "histories"], "all tracks with gaps",
  UT + "no gap is filled in tests.",
  [TRK, TOB, GRP, NET, OBS, GEN], [("flag", "virtual in merge, filled_by_interpolation, insert_virtual, propagate"), ("interpolation", "filled_by_interpolation, get_missing_indices")])

p("C30", "Network groups are the connected components of the overlap relation",
  """Two observations are in the same group if and only if a chain of accepted overlaps between dates within the time window joins them; each pair of dates is compared once, observations with no link go to the trash group only, and groups are numbered
  without collision.""",
  ["inputs", "configurations"], "all series of observations and windows",
  UT + "group translation alone is tested.",
  [NET, GEN], [("grouping", "Network.group_translator, group_observations, build_dataset, new_numbering")])

p("C31", "Births, deaths, merges and splits of segments follow the links of the network",
  """In a network, a birth is the first observation of a segment with no previous one, a death the last observation of a segment with no next one, a merge is a segment whose last observation continues in
  another one and a split a segment whose first observation comes from another one; segments are numbered along chains of best links, relatives are the segments reached by these links at the
  asked order, and operations that close or remove segments only touch those they describe.""",
  ["inputs", "histories"], "all networks",
  UT + "no test builds a network with events.",
  [NET], [("events", "birth_event, death_event, merging_event, splitting_event, correct_close_events"), ("segments", "tag_segment, relatives, connexions, find_link, remove_dead_end")])

p("C32", "Particle coherence counts each particle once, in its source and target contours",
  """When particles are advected between dates, each particle is attributed to the contour it starts in and to the contour it ends in (or none), the share reported for a pair is the number of its particles over the number of particles released
  in the source contour, and forward and backward results are stored with the observation and date they belong to.""",
  ["inputs", "configurations"], "all networks, fields, steps and directions",
  "No test advects particles.",
  [GRP, NET, GRD], [("counting", "get_targets, get_matrix, particle_candidate(_step)"), ("storage", "particle_candidate_atlas, merge_particle_result, fill_coherence, segment_coherence_*, analysis_coherence")])

p("C33", "Polygon predicates and simplifications are exact on the vertices they are given",
  """Point-in-polygon, convexity, hull, area and containment only depend on the sequence of vertices, treat every edge including the closing one, and use the same orientation; simplifications keep only vertices of the source, in order, as many as asked,
  and a resampled or split line stays on its line.""",
  ["inputs"], "all polygons and lines",
  "Tests use one or two simple polygons.",
  [POL, GEN, EF], [("predicates", "winding_number_poly, is_left, convex, get_convex_hull, poly_area"), ("simplification", "visvalingam, reduce_size, simplify, split_line, uniform_resample")])

p("C34", "Computations along tracks never cross the boundary between two tracks",
  """Smoothing, cumulated distances, differences with the next observation, ages, lengths and first positions of tracks only use observations of one track, whatever the number and the sizes of the tracks, and are expanded back to
  the observations of that track.""",
  ["inputs"], "all collections of tracks, including tracks of one observation",
  "Tests use one long track at a time.",
  [TOB, GEN, NET], [("windows", "track_loess_filter, track_median_filter, cumsum_by_track, distance_to_next"), ("expansion", "count_by_track, lifetime, age, compute_index")])

p("C35", "A grid is read, oriented and written along its own coordinates",
  """A field read from a file is returned with its first axis along the abscissa and its second along the ordinate, in increasing order, with the extra dimensions taken at the asked position, masked where it has no value; bounds enclose the
  centres, and what is written is read back identically.""",
  ["inputs", "configurations"], "all grid files: order of dimensions, decreasing coordinates, extra dimensions, centred or not",
  "Tests read one grid.",
  [GRD], [("loading", "GridDataset.load_general_features, load, populate, setup_coordinates, grid, grid_tiles"), ("writing", "write, copy, add_grid")])

p("C36", "Histograms and gridded statistics count each observation once, in its own cell",
  """Counts, means and percentiles by cell or by class use for each observation the cell that contains it, with longitudes brought to the range of the grid, ignore what is outside, and finish every cell, including the last one.""",
  ["inputs", "configurations"], "all bins and collections",
  "Tests compare no count.",
  [OBS, GEN, NET], [("kernels", "grid_count_, grid_count_pixel_in, grid_box_stat, grid_stat, hist_numba, iter_mode_reduce, numba_digitize"), ("methods", "grid_count, bins_stat, hist, grid_box_stat, grid_stat")])

p("C37", "Displays show the observations of the date and place displayed",
  """Windows, animations, figures and text summaries show exactly the observations of the date they announce: contours, paths, labels and annotations are drawn from the observation they describe, in its family of contours, keys and mouse events
  change the date or the state as documented, every date of the period is shown, and summaries describe the whole object.""",
  ["inputs", "schedules", "histories"], "all collections, dates and sequences of events",
  "No test opens a window or draws an animation.",
  [S + "gui.py", S + "appli/gui.py", OBS, TOB, NET, GRD, EF, GEN, S + "misc.py"], [("windows", "GUI and Anim"), ("figures", "display, scatter, plot, filled, display_color"), ("summaries", "__repr__, _repr_html_")])
p("C38", "Names, locals and attributes used exist on every path",
  """No use of the package meets a missing name: every name read is bound in an enclosing scope, every local is bound before it is read, every attribute read on an object of the package is defined by its class, its bases or is a field of the
  collection, every method called and every name imported from another module exists, attributes written fit the slots of the class, and constructors set on every path all the attributes that other methods need.""",
  ["inputs", "configurations"], "all functions of the package, all their paths",
  "Python finds a missing name only when the line is executed; most lines are executed by no test.",
  [S + "observations/", S + "dataset/grid.py", S + "appli/", TRK, S + "gui.py", POL, GEN], [("scopes", "all modules"), ("classes", "__init__, __slots__, and methods of every class")], tech="scope resolution, definite assignment over all paths and class attribute analysis on syntax trees")
p("C39", "No state survives from one call to the next, except what is documented",
  """The result of a call depends on its arguments and on the object only: mutable defaults are neither changed, kept nor returned, tables of modules and of classes are changed by no function once the package is loaded, and a value computed once
  and kept (lazy indexes, cached pixels, speeds derived from a height) is used only for the arguments and data it was computed from.""",
  ["histories", "schedules"], "all sequences of calls, on one object or several",
  "Tests call each function once on fresh objects.",
  [OBS, NET, GRP, S + "dataset/grid.py", S + "eddy_feature.py", GEN, TRK], [("kept values", "lazy attributes (_slice, _pixels_in, speeds of uv_for_advection, indexes of tracks)"), ("tables", "module and class level containers"), ("defaults", "mutable defaults")], tech="effect analysis of mutable defaults and shared tables, and dependence analysis of memoised values")
p("C40", "Compiled kernels mean what their Python source means",
  """Functions compiled by numba give what their Python source gives on every input, missing values included: no option lets the compiler assume there is no NaN where one is tested or is meaningful, divisions by zero behave as reviewed,
  declared signatures match, values frozen at compilation never change, and iterations made parallel are independent.""",
  ["inputs", "schedules", "configurations"], "all compiled functions, all inputs including missing values",
  "Tests run a few kernels on data without missing values.",
  [POL, GEN, S + "dataset/grid.py", TRK, GRP, NET], [("kernels", "all functions decorated by njit")], tech="lints of numba options, signatures, frozen globals and parallel loops, with value-flow comparison of kernels with reviewed definitions")

p("X01", "Fitted shapes and areas are numerically accurate",
  """Circle and ellipse fits, polygon areas, overlaps and simplifications are within a small relative error of the exact geometric value for every simple polygon.""",
  ["inputs"], "all polygons", "Tests check a few polygons.", [POL], [("fits", "poly.py")],
  na="a bound on floating point error over every polygon is a runtime quantity: no static argument in reach bounds the error of least squares and clipping on arbitrary vertices (the formulas that have a closed form are covered by C22)")
p("X02", "The filters have the announced cut-off response",
  """The amplitude response of low and high pass filters is one half at the cut-off wavelength and follows the announced shape.""",
  ["inputs"], "all grids and wavelengths", "No test measures a response.", [GRD], [("kernels", "kernel_bessel, kernel_lanczos")],
  na="the response of a discretised kernel on a latitude dependent grid is a numerical quantity, obtained by evaluation and not by a rule on the source; normalisation and high = original - low are in C21")
p("X03", "Advection converges to the flow at the announced order",
  """The error on advected positions decreases with the time step at the order of the scheme.""",
  ["inputs"], "all velocity fields", "No convergence test.", [GRD], [("schemes", "advect, advect_rk4")],
  na="order of convergence is a limit of numerical results; weights, times and signs of the scheme are decided in C20")
p("X04", "Processing large series stays within bounded memory and time",
  """Memory used by tracking and identification does not grow with the number of dates beyond the results kept.""",
  ["inputs", "histories"], "all series", "Tests use small data.", [TRK, GRD, NET], [("loops", "track, build_dataset")],
  na="resource use of numpy and of the file libraries is a runtime quantity which no static bound in reach covers in Python")
