import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
      observe_at=observe,hook_needed=hook)))

p("C01","Grid maps never lose, move or alias a cell, however they grow",
"After any sequence of updates, resets and reads, at any coordinate of an unbounded map and any coordinate inside a fixed-size one, every map kind (fixed-size plain, unbounded plain, fixed-size tiled, unbounded tiled) reads back, for each cell coordinate, exactly what that coordinate's own history of updates produces, starting from the map's prototype cell for coordinates never written. Growing an unbounded map changes no cell's content, world position or coordinate, keeps every previously covered cell covered, and covers the coordinate that triggered it; reading never changes the map; all map kinds given the same history agree.",
["histories","inputs","configurations"],"All interleavings of update/reset/read over near, far and negative coordinates, all initial sizes (down to 1x1) and scales, all four map kinds.",
"Tests grow a map once or twice in each direction with a single marked cell; they never run long mixed histories against a model, nor compare map kinds.",
["src/core/maps/plain_grid_map.h","src/core/maps/lazy_tiled_grid_map.h","src/core/maps/regular_squares_grid.h","src/core/maps/grid_map.h"],
[("on-demand growth and re-centring of the plain map","plain_grid_map.h UnboundedPlainGridMap::ensure_inside/ensure_sizes_consistent"),("tile allocation and growth","lazy_tiled_grid_map.h UnboundedLazyTiledGridMap::ensure_inside"),("internal/external coordinate shift","regular_squares_grid.h external2internal/internal2external")],
["value returned by operator[] on every touched coordinate and its neighbours","width/height/origin/has_cell after every operation"])

p("C02","Copies of a map are isolated from each other",
"Once a tiled map has been copied (by copy construction or assignment, to any depth of copies of copies), an update or reset through one copy is never visible through any other, whatever the order of copying, updating, growing and destroying; every copy keeps the contents it had when copied plus its own updates. A cloned cell is independent of its original in the same way.",
["histories"],"All trees of map copies interleaved with updates, growth, assignment and destruction.",
"Tests copy no map at all; sharing of tiles is only visible over histories with several live copies.",
["src/core/maps/lazy_tiled_grid_map.h","src/core/maps/grid_cell.h"],
[("copy-on-write of shared tiles","lazy_tiled_grid_map.h LazyTiledGridMap::update / internal tile clone"),("cell cloning","grid_cell.h clone() and its overrides")],
["reads of every touched cell through every live copy after every operation"])

p("C03","Saved map state restores to an equivalent map",
"Saving a map of a kind that supports persistence (unbounded plain, and multi-resolution over it) and loading the bytes into another map object of the same kind yields the same size, scale, origin and the same occupancy in every cell, for every supported cell model and whatever the receiving object held before; afterwards both maps react identically to any further common sequence of updates, and saving again yields the same bytes. Reading the primitive stream back yields exactly the written values, and truncated bytes are refused with an exception rather than taken for a map, and neither they nor foreign bytes ever make loading read outside the buffer.",
["histories","inputs"],"All map histories, map kinds with persistence (unbounded plain, multi-resolution), all cell models, all save points, all truncations of the byte stream.",
"Tests round-trip a couple of hand-made maps with a mock cell and compare only immediate values; future behaviour and damaged streams are not reached.",
["src/core/serialization.h","src/core/maps/plain_grid_map.h","src/core/maps/rescalable_caching_grid_map.h","src/core/maps/naive_grid_cells.h","src/core/maps/tbm_grid_cells.h","src/slams/gmapping/gmapping_grid_cell.h"],
[("binary serializer/deserializer","serialization.h Serializer/Deserializer"),("map save/load","*_grid_map.h save_state/load_state"),("cell serialize/deserialize","cell classes serialize/deserialize")],
["bytes of save_state","values/geometry read after load_state","values after identical post-restore updates","sanitizer reports during load"])

p("C04","Every cell model keeps a valid, correctly directed occupancy estimate",
"For every cell model and any sequence of valid observations, the reported occupancy and its quality stay finite and in [0,1] (or the model's documented 'unknown' before the first observation), the discrepancy against any valid observation is finite and in [0,1], a model that accumulates evidence ignores invalid observations, an observation certain of occupancy never lowers and one certain of emptiness never raises the estimate, and the affine and belief-based models are left unchanged by an observation of zero quality. Each model defined by a formula (last value, affine merge, running mean, hit-ratio mean, conjunctive belief combination) reports that formula's value over its whole observation history, and its discrepancy follows the model's own definition.",
["histories","inputs","configurations"],"All sequences of observations with probabilities and qualities in [0,1] including 0, 1, zero quality, invalid ones, contradicting evidence and very long histories, for all seven cell models.",
"No test covers any real cell model (a mock cell is used throughout); drift, saturation and 0/0 situations need long or extreme histories.",
["src/core/maps/grid_cell.h","src/core/maps/naive_grid_cells.h","src/core/maps/tbm_grid_cells.h","src/slams/gmapping/gmapping_grid_cell.h","src/slams/credibilist/grid_cell.h"],
[("cell update rules","operator+= of each cell class"),("discrepancy","discrepancy() of each cell class")],
["occupancy() and discrepancy() after every observation"])

p("C05","Belief-function algebra stays a proper belief function",
"Combining belief functions conjunctively or disjunctively always yields non-negative masses that sum to one, equals the set-theoretic definition of the combination, is commutative and associative up to rounding, has total ignorance as neutral element of the conjunction, and redistributing the conflict mass leaves no conflict and a valid function whenever any non-conflicting mass exists. The belief kept in a cell is the conflict-free conjunction of all it was told. Conversion between occupancy probabilities and beliefs stays within [0,1] and reproduces certainty, impossibility and ignorance exactly.",
["inputs","histories"],"All mass assignments over the two-element frame (including degenerate ones) and all fold orders of long combination chains.",
"There is no test of this component.",
["src/core/maps/transferable_belief_model.h","src/slams/credibilist/TBM_prob_conversion.h","src/core/maps/tbm_grid_cells.h"],
[("combination rules","transferable_belief_model.h operator& / operator| helpers and normalize_conflict"),("probability to belief","TBM_prob_conversion.h / BaseTBM(Occupancy)")],
["masses before/after each combination"])

p("C06","A beam's cells are complete, connected and ordered",
"The list of grid cells for any segment starts at the cell holding its start, ends at the cell holding its end, moves by one neighbouring cell at a time without repeating a cell, and contains every cell whose interior the segment properly crosses and none the segment stays clearly away from, for any direction, length, scale and origin including axis-aligned, diagonal and degenerate segments. The purely discrete line between two cells likewise starts and ends at the given cells, is connected, and never deviates from the ideal line by more than half a cell.",
["inputs"],"All segments: every direction (including axis-parallel, diagonal, through cell corners), lengths from zero to thousands of cells, positions in all quadrants, all map scales.",
"Tests use a few dozen hand-picked short segments around one cell; completeness and connectivity for arbitrary directions are universal claims.",
["src/core/maps/regular_squares_grid.h","src/core/geometry_discrete_primitives.h"],
[("segment traversal","regular_squares_grid.h world_to_cells(Segment2D)"),("discrete line","geometry_discrete_primitives.h DiscreteSegment2D")],
["the returned cell sequence for each segment, against exact clipping of the segment by each cell"])

p("C07","Integrating a scan changes exactly the cells it observed",
"Adding a scan updates only cells crossed by the beams of usable points, each beam giving one update to each of its cells: the end cell of an obstacle point receives an occupied observation, all the other cells and the end cell of a max-range point receive free ones, and points beyond the usable range, the points dropped by the margin at both ends, and the cells outside a fixed-size map contribute nothing. Each observation carries the scan's quality, the beam end as the obstacle location, and the estimate computed for that cell and beam; with wall blurring (when the obstacle is farther than the blurring distance), exactly the beam's cells closer to the obstacle than that distance receive the attenuated obstacle estimate as occupied, and no cell is updated when the scan is empty.",
["inputs","configurations"],"All robot poses, scans (any number, range and bearing of points, occupied or not), margins, qualities, blur distances, range limits, estimator kinds, and map kinds.",
"Tests check only a few single-beam cases for blurring; multi-beam accounting, margins, range limits and quality are never observed.",
["src/core/maps/grid_map_scan_adders.h","src/core/maps/const_occupancy_estimator.h","src/core/maps/area_occupancy_estimator.h"],
[("scan to beams to cell updates","grid_map_scan_adders.h GridMapScanAdder::append_scan / WallDistanceBlurringScanAdder::handle_scan_point")],
["the sequence of (cell, observation) updates received by the map, through a recording map"])

p("C08","Area occupancy estimates reflect how the beam really crosses the cell",
"For any beam and any square axis-aligned area of any size and position, a beam that ends inside as an obstacle gives the base quality of occupied space and as probability the share of the area that lies behind the obstacle (at least the empty base); a beam that passes through free gives the empty base probability with the empty base quality scaled by the smaller share the beam cuts off; a free beam that starts or stops inside gives the empty base with the 'unknown' quality; a beam that misses the area, or an obstacle elsewhere, gives 'no information'. The result is always either a valid probability and quality or 'no information', and is invariant under moving, mirroring and quarter-turning beam and area together; the constant estimator gives its configured bases.",
["inputs"],"All beam/area placements: starts/ends inside, outside, on edges and corners, axis-parallel and near-parallel beams, all area sizes and positions.",
"Tests pin some tens of canonical placements on one unit-size cell.",
["src/core/maps/area_occupancy_estimator.h","src/core/geometry_primitives.h"],
[("chunk based estimate","area_occupancy_estimator.h estimate_occupancy / estimate_occupancy (chunk area, quality)")],
["estimate for the placement, for its transformed images, and for an independent geometric computation"])

p("C09","Scan probability is a side-effect free weighted mean of point probabilities",
"The probability of a scan at a pose equals the weighted mean of the observation probabilities of its usable points placed at that pose, for every weighting scheme, lies within the range of these point probabilities, is 'unknown' exactly when no usable point carries weight, and is the same on every repeated evaluation. Filtering keeps, in order, just the obstacle points that are within the usable range and inside the map, thinned by the configured rate; evaluating changes neither the scan, nor the pose, nor the map.",
["inputs","configurations","histories"],"All scans, poses, maps, weightings (even, viny, angle-histogram), skip rates, range limits, impact and area-combination policies, and repeated or interleaved evaluations.",
"The estimator has no direct test; matchers' smoke tests only see it through one scene.",
["src/core/scan_matchers/weighted_mean_point_probability_spe.h","src/core/scan_matchers/observation_impact_estimators.h","src/core/scan_matchers/grid_scan_matcher.h","src/core/features/angle_histogram.h"],
[("scan filtering and weighted mean","weighted_mean_point_probability_spe.h filter_scan/estimate_scan_probability"),("impact of one observation","observation_impact_estimators.h")],
["returned probability, returned filtered scan, inputs before/after"])

p("C10","Point observation probability follows its combination policy exactly",
"The probability of an observation over an area is: the impact at the obstacle's own cell (obstacle policy), the maximum impact over all cells intersecting the area (max policy), their arithmetic mean (mean policy), or their mean weighted by the overlap of each cell with the area (overlap policy); cells outside a fixed-size map do not count, unknown cells count with their reported value, and the result lies between the smallest and largest impact of the cells counted. A degenerate area that lies within one cell gives that cell's impact in each of these policies; GMapping's policy gives the best similarity to the observation among the sufficiently occupied cells of its window around the obstacle. The value depends only on the map's current content, never on earlier queries.",
["inputs","configurations","histories"],"All areas (degenerate, sub-cell, multi-cell, straddling the border), all map contents and scales, all policies and sequences of queries interleaved with map updates.",
"Tests use a fixed 3x3 style scene with a handful of areas for each policy.",
["src/core/scan_matchers/occupancy_observation_probability.h","src/slams/gmapping/gmapping_occupancy_observation_pe.h","src/core/maps/grid_rasterization.h"],
[("policies","occupancy_observation_probability.h Obstacle/Max/Mean/Overlap estimators"),("GMapping point probability","gmapping_occupancy_observation_pe.h")],
["returned probability for each query vs. a reference over the map's readable content"])

p("C11","Pose search never returns a worse pose and reports its true score",
"Every score-driven matcher (Monte-Carlo, hill-climbing, fixed hill-climbing, brute-force) terminates and returns a correction whose scan probability, re-evaluated at the corrected pose, equals the returned score and is at least the score of the initial pose, and modifies neither the scan, the initial pose nor the map. The pose-enumerating ones (all but the fixed hill-climbing line search) return the best of all poses they evaluated, and their observers are told the start, every tested pose with its true score, every improvement in strictly increasing order and the end exactly once per matching, in that order, and the final result equals the last improvement.",
["inputs","configurations","histories"],"All maps, scans, initial poses, matcher types and parameters, and consecutive matchings with one matcher object.",
"Smoke tests check convergence from hand-picked offsets in one scene; the monotonicity and reporting guarantees are never checked per evaluated pose.",
["src/core/scan_matchers/pose_enumeration_scan_matcher.h","src/core/scan_matchers/monte_carlo_scan_matcher.h","src/core/scan_matchers/hill_climbing_scan_matcher.h","src/core/scan_matchers/hcsm_fixed.h","src/core/scan_matchers/brute_force_scan_matcher.h","src/core/scan_matchers/grid_scan_matcher.h"],
[("best pose tracking","pose_enumeration_scan_matcher.h process_scan"),("observer notification","grid_scan_matcher.h do_for_each_observer"),("shrinking search","hcsm_fixed.h / hill_climbing_scan_matcher.h")],
["observer callbacks","process_scan return value and delta","re-evaluation of the score by the same estimator"])

p("C12","Brute-force search covers its whole window around the given pose, every time",
"Each brute-force matching evaluates the scan at the initial pose and then once at each point of the configured x, y, heading lattice (an axis may overshoot its end by at most one step) laid around that matching's own initial pose, in full, and returns the best of them (so it matches the maximum an independent exhaustive evaluation finds); the outcome for a given map, scan and initial pose is independent of earlier matchings done with the same object. The enumerator of directions and distances around a pose gives its whole lattice likewise, around the first pose it was asked with.",
["histories","inputs","configurations"],"All windows and steps (including single-valued axes), initial poses, and sequences of matchings reusing one matcher.",
"Smoke tests build a new matcher for each case and only look at convergence, so stale state between scans and holes in the lattice are unseen.",
["src/core/scan_matchers/brute_force_scan_matcher.h","src/core/scan_matchers/pose_enumerators.h","src/core/scan_matchers/pose_enumeration_scan_matcher.h"],
[("lattice enumeration and reset","brute_force_scan_matcher.h BruteForcePoseEnumerator")],
["set of tested poses, per matching"])

p("C13","Randomised search respects its budget and its seed",
"A Monte-Carlo matching with a given seed, configuration and input always tests the same poses and returns the same result; it stops after the configured number of rejected poses at one dispersion (the dispersion is halved and the count restarts when a pose is accepted after more than a third of that number failed) and never exceeds the configured total number of tested poses, restarting its count for each matching. Hill climbing tests the six axis neighbours, at the configured starting steps, of the pose that was best when the round started (axes turned to the scan's major direction when frame alignment is configured), halves the steps only after a full round without improvement and ends after the configured number of failed rounds.",
["inputs","configurations","histories"],"All seeds, budgets, dispersions, step sizes, scenes, and consecutive matchings.",
"No test counts attempts or replays seeds.",
["src/core/scan_matchers/monte_carlo_scan_matcher.h","src/core/scan_matchers/hill_climbing_scan_matcher.h","src/core/scan_matchers/pose_enumerators.h","src/core/random_utils.h"],
[("budget accounting","monte_carlo_scan_matcher.h GaussianPoseEnumerator"),("failed-round accounting","hill_climbing_scan_matcher.h FailedRoundsLimitedPoseEnumerator")],
["sequence of tested poses and scores per matching"])

p("C14","Multi-resolution matching finds what exhaustive search finds",
"Branch-and-bound multi-resolution matching returns a correction inside the configured translation and rotation limits whose score, re-evaluated at the finest resolution, is what it reports and is not below the initial pose's score; where all cells in reach are known and areas count by their maximum, no candidate of its finest lattice (corners and centres of the finest translation rectangles, at each configured rotation) scores higher, as no subtree that contains the best pose is discarded; the same holds for the best of several requests, with scans turned in advance or not. It terminates for every scan and map (a scan without usable points gets no correction and an unknown score), and it leaves the map's active resolution, the scan and the pose as they were.",
["inputs","configurations","histories"],"All fully or partially known maps, scans, initial poses, limits, accuracies and repeated matchings (thorough exploration bounded to windows that exhaustive evaluation can cover).",
"Smoke tests check convergence from some offsets in one scene and never compare with exhaustive search.",
["src/core/scan_matchers/bf_multi_res_scan_matcher.h","src/core/scan_matchers/m3rsm_engine.h","src/core/maps/rescalable_caching_grid_map.h"],
[("branch and bound","m3rsm_engine.h next_best_match/branch"),("matching loop","bf_multi_res_scan_matcher.h process_scan"),("scale switching","rescalable_caching_grid_map.h SafeRescalableMap")],
["returned score and delta, independent exhaustive scores, map scale before/after"])

p("C15","Coarse map levels always bound the finest one from above",
"After any history of updates and growth of a multi-resolution map, each coarse cell's occupancy is at least the occupancy of every updated finest cell it covers at the time of that cell's last update, the finest level behaves exactly like an ordinary map of the same kind, every coarse level covers the area the finest covers, the single-cell level covers everything, and choosing a resolution selects the finest level not finer than asked and never alters any cell. The map's own validation accepts every such map and refuses one with a coarse cell below a known cell it covers.",
["histories","inputs","configurations"],"All update histories incl. raising and lowering values and growth in all directions, all initial sizes, base map kinds and requested resolutions.",
"Tests check a couple of updates per scene without lowering values or several growth steps.",
["src/core/maps/rescalable_caching_grid_map.h"],
[("coarse level maintenance","rescalable_caching_grid_map.h update/ensure_map_cache_is_continuous"),("resolution selection","rescalable_caching_grid_map.h rescale")],
["reads of each level via rescale/operator[]","width/height/scale/origin of each level"])

p("C16","A SLAM step moves, corrects and maps consistently, and tells everyone once",
"Each processed scan moves the estimated pose by the odometry increment plus the correction the scan matcher returned, integrates the scan into the map exactly once, at the corrected pose, with the localised quality when a correction was made and the raw quality otherwise and with the configured margin, and then notifies every live pose and map observer exactly once in subscription order with the new pose and map, skipping expired ones; observers of the matching added to the SLAM are told of each matching until they are removed. Replaying the same scans with the same configuration and seed reproduces the same trajectory and map.",
["histories","configurations"],"All sequences of scans and odometry increments, matcher outcomes (correction, none, rejected), observer sets changing over time.",
"No test runs a whole SLAM step or observes notifications.",
["src/core/states/world.h","src/core/states/laser_scan_grid_world.h","src/core/states/single_state_hypothesis_laser_scan_grid_world.h","src/core/states/state_data.h"],
[("step orchestration","laser_scan_grid_world.h handle_sensor_data; single_state_hypothesis_laser_scan_grid_world.h handle_observation"),("observer lists","world.h WorldObservable")],
["arguments of matcher and map-update calls (recording doubles)","pose() and observer callbacks"])

p("C17","Particle filtering keeps a normalised, fairly resampled population",
"After every step the population has its configured size, finite non-negative weights that sum to one, and the reported estimate comes from the particle of greatest weight; resampling happens only when the effective sample size falls below half of the population, every survivor copies a former particle of non-zero weight, each particle's expected share of the new population equals its weight, and surviving copies are independent objects. Degenerate weights (all zero, one dominant, unequal by many orders of magnitude) never produce non-finite weights or drop the population.",
["histories","inputs"],"All weight vectors, population sizes (including one), and sequences of weight updates and resampling.",
"There is no test for this component.",
["src/core/particle_filter.h","src/slams/gmapping/gmapping_particle_filter.h"],
[("weight normalisation","particle_filter.h normalize_weights"),("universal resampling","particle_filter.h UniformResampling::resample / try_resample")],
["particle weights and identities before/after each operation"])

p("C18","GMapping particles follow odometry rigidly, stay independent and stay finite",
"In GMapping, each particle moves by the odometry increment expressed in that particle's own frame (a rigid composition, without noise when configured so), updates only its own map (with the quality of the scan), and gets its weight from its own scan match (a scan that cannot be judged at all leaves the weight as it was); the reported pose and map belong to the heaviest particle. Weights and poses remain finite for any scan and for any population size, including empty, unusable or completely contradictory scans, and copies of one particle draw their own noise afterwards, while exactly one particle, the master, is always matched from the undisturbed pose, and matches every scan; any other particle matches once it moved or turned by the configured way since its last matching and not before. A particle that has got all the weight while the robot moved on replaces the others.",
["histories","inputs","configurations"],"All odometry/scan sequences, population sizes, noise parameters and scan densities.",
"There is no test of GMapping.",
["src/slams/gmapping/gmapping_world.h","src/slams/gmapping/gmapping_particle_filter.h","src/slams/gmapping/gmapping_occupancy_observation_pe.h"],
[("pose propagation and scan handling","gmapping_world.h update_robot_pose/handle_observation"),("particle population","gmapping_particle_filter.h")],
["particle poses, weights and maps after every scan"])

p("C19","Configuration values are read faithfully and take effect",
"Reading a property yields the value given for it in the configuration (files, includes, later assignments) and the caller's default when it is absent; every documented setting changes the component it documents and no other, documented defaults apply when unset, and the shipped configurations load. An unknown component type is refused with an error exit instead of running with something else.",
["configurations","inputs"],"All property files (comments, blank lines, includes, repeated keys), all documented keys and values, all shipped configuration files.",
"There is no test of configuration handling.",
["src/utils/properties_providers.h","src/utils/init_scan_matching.h","src/utils/init_occupancy_mapping.h","src/utils/init_slam.h","src/slams/gmapping/init_gmapping.h","config","README.md"],
[("property parsing","properties_providers.h FilePropertiesProvider"),("component construction","init_scan_matching.h, init_occupancy_mapping.h, init_gmapping.h")],
["typed reads","behaviour of the objects built from each configuration","exit status of an unknown type"])

p("C20","The dumped map image shows the map as it is",
"The map image has one pixel for each map cell, in the map's orientation (rows from the largest to the smallest y, columns by increasing x), whose brightness decreases with the cell's occupancy from white for free to black for occupied with unknown in the middle, and its header states the map's true size; the dumped bytes have just the length the header implies for every map kind and size.",
["inputs","histories"],"All map sizes (after any growth), origins and contents including unknown and out-of-range values.",
"There is no test of the dumpers.",
["src/utils/map_dumpers.h"],
[("PGM writing","map_dumpers.h GridMapToPgmDumber::dump_map")],
["dumped bytes parsed back and compared with reads of the map"])

p("C21","Scans survive conversion: text, polar/cartesian and trigonometry agree",
"Writing a scan as text and reading it back yields the same points (range, bearing, occupied flag, to the precision written), and reading malformed or truncated text fails cleanly. Converting points between polar and cartesian forms and between frames is consistent and invertible, and the cached trigonometry gives the same sines and cosines as the direct one, for every bearing of its configured sector and every heading.",
["inputs","configurations"],"All scans and poses, all sectors and increments, all truncations and garbage in the text.",
"Tests round-trip a few points and a few angles.",
["src/core/states/sensor_data.h","src/core/trigonometry_utils.h","src/core/states/robot_pose.h"],
[("text I/O","sensor_data.h operator<< / operator>>"),("conversions","sensor_data.h ScanPoint2D"),("cached trigonometry","trigonometry_utils.h CachedTrigonometryProvider")],
["re-read scans","converted coordinates","sine/cosine of both providers"])

p("C22","Angle histogram and drift detection are total and conserve points",
"Building the orientation histogram of any scan, whatever its number of points, spacing or exactly aligned or coincident points, terminates without failure, counts each consecutive pair of points in exactly one bin, the bin of the direction of the line between them, and looks up the same bin for the same point; the direction it reports for a bin is the mean of those counted there; the histogram depends on the points only and starting over forgets the previous scan. The ambiguous-drift detector gives the same verdict for the same scan and never alters it, leaves the wrapped matcher's result alone when no direction prevails, and otherwise moves it along the prevailing direction to where the remaining points fit best.",
["inputs","histories"],"All scans including empty, single-point, coincident, axis-aligned and near-aligned points in both representations.",
"Tests cover three tiny scans.",
["src/core/features/angle_histogram.h","src/core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"],
[("binning","angle_histogram.h reset / hist_index / estimate_ox_based_angle"),("drift verdict","connect_the_dots_ambiguous_drift_detector.h")],
["bin values","sanitizer/abort reports"])

p("C23","Coordinates and geometry primitives agree with exact geometry",
"Every world point belongs to exactly one cell, the cell whose bounds contain it, the centre of each cell maps back to the cell and rescaling keeps this, for negative and large coordinates alike. Axis-aligned rectangles answer containment, intersection, overlap, area and halves/quarters consistently with real geometry, beam-rectangle intersections lie on both, and rasterising a rectangle yields each intersected cell exactly once. Points, cells, poses and changes of a pose are added, subtracted and compared component by component.",
["inputs"],"All points, rectangles, segments and scales, including degenerate and touching ones and all quadrants.",
"Tests use tens of hand-picked rectangles and one or two scales.",
["src/core/geometry_primitives.h","src/core/geometry_utils.h","src/core/maps/regular_squares_grid.h","src/core/maps/grid_rasterization.h","src/core/math_utils.h"],
[("coordinate mapping","regular_squares_grid.h world_to_cell/cell_to_world/world_cell_bounds"),("rectangle algebra","geometry_primitives.h LightWeightRectangle"),("rasterisation","grid_rasterization.h GridRasterizedRectangle")],
["results vs. an independent interval-arithmetic model"])

p("C24","Whole SLAM runs are memory-safe, defined and finite in every configuration",
"For every combination of SLAM kind, map kind, cell model, matcher, weighting, area policy and estimator that the configuration allows, processing any sequence of scans (including empty, all max-range, zero-range, very long and far-away ones) performs no invalid memory access, undefined operation, uncaught error or internal assertion failure, terminates, and keeps pose and map values finite.",
["configurations","inputs","histories"],"All configuration combinations and finite scan sequences (beams up to thousands of cells; jumps on growing maps limited by memory).",
"No test executes a complete SLAM, and none runs under sanitizers.",
["src/utils/init_slam.h","src/utils/init_scan_matching.h","src/utils/init_occupancy_mapping.h","src/slams"],
[("SLAM assembly","init_slam.h, init_gmapping.h, credibilist/init_slam.h")],
["sanitizer reports, signals, exit status","finiteness of pose and map"])

p("C25","Synthetic worlds and scans match their own geometry",
"A scan generated on a map by a scanner standing inside a free cell reports, for each beam of its sector in order and at its bearing, a reading in the first occupied cell the beam meets within range, and no reading where it meets none; the beams of a full circle do not repeat the first bearing at its end (cells merely grazed at a corner or edge may count either way; the reading may exceed the range by part of the met cell); drawn map primitives and pasted text rasters set exactly the cells of the described shape at the described place (centred ones to within a cell) and size and leave all the other cells alone.",
["inputs","configurations"],"All maps (beams staying inside bounded ones), poses, sectors, point counts and ranges; all rasters, offsets and scales; all primitive kinds and sizes.",
"Tests place the scanner at a few grid nodes with four beams.",
["src/utils/data_generation/laser_scan_generator.h","src/utils/data_generation/grid_map_patcher.h","src/utils/data_generation/map_primitives.h"],
[("ray casting","laser_scan_generator.h laser_scan_2D"),("raster patching","grid_map_patcher.h apply_text_raster"),("primitives","map_primitives.h")],
["generated scans vs. independent ray casting","map content after patching"])

p("C26","Sensor messages become scans and odometry increments without loss",
"Each incoming laser message becomes a scan with, in order, one point for each valid (not NaN) range that is not below the sensor minimum, at the beam's own bearing, marked as obstacle when below the sensor maximum and otherwise either clipped to the maximum as a non-obstacle or dropped as configured; the scan's odometry increment is the change of the odometry pose since the previous message and increments add up to the overall odometry change. Every received message that has a transform is delivered, with that transform, to each live observer exactly once in order, live or from a bag; transforms configured to be ignored have no effect.",
["inputs","histories","configurations"],"All laser messages whose sector agrees with their number of ranges (any number, NaN/inf/zero readings), odometry histories and settings; observers disappearing in between.",
"The message-handling code is neither compiled nor tested without ROS.",
["src/ros/laser_scan_observer.h","src/ros/topic_with_transform.h","src/ros/bag_topic_with_transform.h"],
[("message conversion","laser_scan_observer.h msg2scan/handle_transformed_msg"),("dispatch","topic_with_transform.h transformed_msg_cb; bag_topic_with_transform.h extract_next_msg")],
["scans received by a recording SLAM"])

p("C27","The published map, trajectory and frames mirror the SLAM state",
"A published occupancy grid has the map's size, resolution and world position, with each cell's value the percentage of its occupancy (or -1 for a cell whose occupancy is the no-value -1), is published no more often than configured; logged trajectory entries and published robot frames carry the reported pose and the observation's time, so that a reader recovers the pose and time that were reported.",
["inputs","histories"],"All maps after any growth, all poses and times (including sub-millisecond nanosecond parts), all publishing intervals.",
"The publishing code is neither compiled nor tested without ROS.",
["src/ros/occupancy_grid_publisher.h","src/ros/robot_pose_observers.h","src/ros/init_utils.h","src/ros/utils.h","src/ros/path_publisher.cpp","src/ros/wg_pr2_bag_adapter.cpp"],
[("grid message","occupancy_grid_publisher.h on_map_update"),("trajectory dump","robot_pose_observers.h RobotPoseTumTrajectoryDumper"),("robot frame","robot_pose_observers.h RobotPoseTfPublisher")],
["published messages captured by a stand-in publisher; dumped text"])

p("C28","The frame correction is consistent under concurrent publishing and shutdown",
"Each published map-to-odometry correction, composed with the odometry frame of the scan it was computed from, gives the SLAM pose reported for that scan; with asynchronous publishing, no data race, torn or mixed transform and no deadlock occurs under any interleaving of message handling (scans and pose updates, one at a time) and the publishing thread, published corrections never go back to an older one, and shutting down ends the publishing thread and the process cleanly.",
["schedules","histories"],"All interleavings of message handling, pose updates, background publishing and shutdown, all poses.",
"The publishing code is neither compiled nor tested without ROS; data races need race detection under load.",
["src/ros/pose_correction_tf_publisher.h"],
[("correction and its lock","pose_correction_tf_publisher.h on_pose_update/publish_map_to_odom/publishing_loop")],
["transforms captured by a stand-in broadcaster with timestamps and thread ids","race detector reports"])

p("C29","The command-line tools report what the configured matcher or SLAM computes",
"The scan matching runner prints the correction and probability its configured matcher computes for the pose, scan and map files it is given; the bag runner processes every deliverable scan of the bag once and in order, logs one trajectory line with that scan's time and the SLAM's pose for each when asked to, and writes the final map's image when asked to; the occupancy estimator evaluation completes and writes well-formed images; malformed or missing inputs and wrong arguments are refused with an error status and without a result, a crash or a hang.",
["inputs","configurations"],"All readable and malformed pose, scan, map and bag inputs, argument lists and configurations of the command-line tools.",
"The tools' main programs are not run by any test.",
["src/ros/lslam2D_bag_runner.cpp","src/utils/sm_runner.cpp","src/utils/pose2D_search_space_evaluator.cpp"],
[("bag runner","lslam2D_bag_runner.cpp main/run_slam"),("matching runner","sm_runner.cpp main"),("evaluator","pose2D_search_space_evaluator.cpp main")],
["standard output, written files and exit status of the programs"])

p("C30","SLAM runs are reproducible and instances are independent",
"The same configuration (including seeds), the same system entropy and the same scans give the same poses and the same map bit by bit, no matter which other SLAMs exist or run before, between or in other threads, whether observers are subscribed or the map is read in between, and what fresh memory contains; processing a scan does not change the scan's points, so several SLAMs can share one; a map that nobody writes to may be read by several threads at once.",
["histories","schedules","configurations"],"All configurations and scan sequences; any interleaving with other instances and any number of threads, one SLAM per thread.",
"No test runs two SLAMs, and state leaking between instances or from uninitialised memory shows only in such pairs.",
["src/slams","src/core","src/utils/init_slam.h"],
[("SLAM state","single_state_hypothesis_laser_scan_grid_world.h; gmapping_world.h; laser_scan_grid_world.h"),("random engines","monte_carlo_scan_matcher.h; gmapping_world.h; particle_filter.h")],
["poses and maps of paired runs","data race reports"])

p("C31","A SLAM tracks the robot and maps the room",
"With exact readings of a static room and a disturbed odometry, each shipped configuration (and each alternative matcher in place of the shipped one) keeps the reported pose near the true pose for the whole run - within a few centimetres and hundredths of a radian for grid-searching matchers, clearly better than the odometry for the stochastic ones, not off by more than the odometry for the particle filter - and its map shows the walls the robot saw as occupied and the space it saw as free.",
["inputs","histories","configurations"],"Rooms of 3.5 to 6 metres with obstacles, tens of scans, odometry errors of 1-3 cm and about 0.01 rad per step; judged by medians over series of runs.",
"No test runs a SLAM end to end; unit tests of parts cannot show that the composition converges.",
["src/slams","src/core/scan_matchers","config/slams"],
[("SLAM loop","single_state_hypothesis_laser_scan_grid_world.h handle_observation; gmapping_world.h"),("configurations","config/slams/*.properties")],
["pose errors against the simulated robot","map cells against the simulated room"])

p("C32","A running SLAM node publishes exactly what its configured SLAM computes",
"Each ROS node program (single-hypothesis, GMapping, credibilist) takes its configuration from the parameter server - values given as numbers, flags or text alike (text meaning the same as in a property file), a missing one replaced by its default - and, for the single-hypothesis node, from the property file the server names. For every laser message on the configured topic that has a transform it publishes, at that message's time, the pose its SLAM reports as the robot frame and a frame correction which composed with that message's odometry gives the same pose; the poses and maps published are those which the SLAM configured with the same values computes from the same messages, maps are not published more often than configured, all under the configured frame names; a message without a transform changes and publishes nothing.",
["inputs","histories","configurations"],"All configurations from parameters, files and mixtures of both; all sequences of laser messages with and without transforms.",
"Neither the node programs nor the parameter provider are compiled or tested without ROS.",
["src/ros/single_hypoth_slam_node.cpp","src/slams/gmapping/gmapping.cpp","src/slams/credibilist/slam.cpp","src/ros/launch_properties_provider.h","src/ros/init_utils.h"],
[("assembly of a node","main of the three programs"),("parameters","launch_properties_provider.h get_*; single_hypoth_slam_node.cpp init_properties_provider")],
["frames and maps captured by stand-in ROS while the program runs","values read back from the parameter provider"])

p("C33","Every random disturbance has the distribution it is configured with",
"The disturbance of a pose is drawn from three independent variables (normal with the given mean and deviation, or uniform over the given range), however the variable was copied or assigned before, and a copy gives what a newly made variable gives with the same engine. The Monte-Carlo matcher shifts the best pose so far by independent normal shifts of its current translation (x and y) and rotation dispersions, which start anew with each matching; each GMapping particle but the master is disturbed before each matching by its own noise of the configured mean and deviation in x, y and heading, independent of other components, steps and particles.",
["inputs","histories","configurations"],"All parameters of the distributions, seeds, copies, acceptance histories and population sizes.",
"A distribution shows only over thousands of draws; tests take a single sample if any and never look at deviations or correlations.",
["src/core/random_utils.h","src/core/states/robot_pose.h","src/core/scan_matchers/monte_carlo_scan_matcher.h","src/slams/gmapping/gmapping_world.h","src/slams/gmapping/init_gmapping.h"],
[("random variables","random_utils.h GaussianRV1D/UniformRV1D; robot_pose.h RobotPoseDeltaRV"),("matcher's shifts","monte_carlo_scan_matcher.h GaussianPoseEnumerator"),("particle noise","gmapping_world.h GmappingWorld::handle_observation, mark_master, sample")],
["samples of the variables","poses tested by the matcher","poses particles are matched from"])

p("C34","Memory follows the mapped area and is given back",
"When a SLAM, map, copy or matcher ends, all the memory it took is given back, whatever happened to it before (growth, copies, saved and refused states, expired observers). Repeating the same motion in the same place, or the same matching, does not take ever more memory, and reading a map takes none. An untouched tile of a tiled map and the tiles shared by its copies take no memory of their own until they are written, only the written tile is duplicated then, and growth of an unbounded map stays in proportion to the area it has to cover.",
["histories","configurations"],"All configurations, histories of updates, growth, copying, saving and destruction, and any number of repetitions.",
"Leaks, lost sharing and unbounded growth change no value that a test reads; they show only in the memory taken over histories.",
["src/core/maps/lazy_tiled_grid_map.h","src/core/maps/plain_grid_map.h","src/core/maps/rescalable_caching_grid_map.h","src/core/states/world.h","src/core/particle_filter.h","src/core/scan_matchers/m3rsm_engine.h"],
[("ownership of tiles and cells","lazy_tiled_grid_map.h ensure_sole_owning; plain_grid_map.h"),("growth","ensure_inside of the unbounded maps"),("ownership of components","world.h, particle_filter.h, init_*.h")],
["live blocks and bytes before and after each life, round, matching, read and copy"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
