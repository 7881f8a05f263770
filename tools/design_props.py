"""per-property text of DESIGN.md"""
D = {
'P01': ("normalizeLongitude, gpsToLocal and localToGps over the reals, with two lemmas over their contracts: each inverts the other (up to 360 degrees in longitude).", "cos is uninterpreted, positive inside (-90, 90); the reference point is off the poles.", ""),
'P02': ("All primitives of geometry.cpp: distances, areas (as folds over unbounded rings), determinant, projection, intersection (both directions: reported iff the segments meet), point on line.", "nonlinear real arithmetic by nlsat.", ""),
'P03': ("Constructors and look-ups of Radiomap, Level, LevelCollector: found iff put in, first one wins, order kept; loops and find_if over unbounded containers.", "ids of levels distinct.", ""),
'P04': ("Conversion of transmitters, reference points, boxes, graph and geometry to local frames, the Graph template (instances verified as instantiated), binding, addGeoLevel. 'Touching' is the disjunction over all barriers and allowed areas of an uninterpreted intersection relation.", "boost::geometry's relations are uninterpreted; gpsToLocal by its contract (P01).", ""),
'P05': ("Constructor, every predicate, the three handlers, update and extraction of MeasurementsPreprocessor: an entry is kept iff admissible, with the distance of the formula of its kind; members initialised.", "path-loss slopes non-zero; log10/pow uninterpreted.", ""),
'P06': ("Constructor, addMeasurement, extractMeasurements: window bounds, keep period, one average per transmitter (folds), nothing lost or doubled.", "std::sort by its contract (sorted permutation).", ""),
'P07': ("Averages, weights and both detectors: the level returned has the highest weight, ties to the first; loops are folds and arg-max invariants.", "calcRpWeightsKnn is here an unspecified function (its subject is P09).", "contents of the maps getLevelsRadiomaps builds (that every level has one is proved; contents by replay)."),
'P08': ("History and barometer: constructor, window updates, detection by counts, pressure change, and calculateLevel with any detector.", "detectCurrentLevel is virtual: any result.", ""),
'P09': ("Filtering, pairs, trust, weights, triangles, the average, and calculatePosition and triangulate over any number of levels.", "TriangulateVertices by an assumed contract (function of its arguments, corners from them).", "the constructor and getLevelsRadiomaps' contents by replay."),
'P10': ("calculatePosition: the first strongest measurement of a transmitter of the level decides; deviation by formula; constructor takes every level's parameter.", "exp positive; B not 0.", ""),
'P11': ("Sigma filter (folds over the window), extraction of a fix, constructor and calculatePosition with every reason for refusing, state across messages as pre/post.", "window >= 1; gpsToLocal by contract.", ""),
'P12': ("fillIndoorOutdoorPositionStates and fusePositions: ages, growth of deviations, choice and weights, every branch.", "deviations positive; times do not go back.", ""),
'P13': ("getProjection onto the graph (arg-min over edges, end points included, with a lemma on the nearest point of an edge) and getProcessedPosition: staleness, standing, clamp, projection, rounding down to centimetres.", "smoother and time smoother arbitrary (virtual).", ""),
'P14': ("Constructor and getTimeSmoothedPosition.", "", ""),
'P15': ("Constructor, reset, smoothPosition with its gains, speed bound and restarts.", "covered_by uninterpreted.", ""),
'P16': ("", "", ""),
'P17': ("Quaternion, vector, every sensor, update, angles; unit length as an invariant. Both the core and the standalone copy (two extractions, one specification).", "sin, cos, atan2, asin uninterpreted.", ""),
'P18': ("Filtered magnitudes (folds over windows), step scan (invariant relating the steps found to the crossings seen), length, update.", "sqrt, pow and quotients uninterpreted.", ""),
'P20': ("Constructor and calculateDisplacement against contracts of pedometer and filter that are consequences of those proved in P17/P18.", "", ""),
'P23': ("navigate for batches of any length: a loop invariant (latest accepted time and number of accepted messages as ghost folds over the batch, the position is on a level of the location) and, at the end of every iteration, an obligation per fact of the statement, stated over the recorded calls of the parts (which part was asked, with what, and what it gave back). Branches of the loop body are joined, so the proof is one pass over the body.", "The parts by thin contracts (consequences of P01, P05 - P15, P17 - P20); virtual estimators trusted.", "the choice of estimators by the constructor (replay only)"),
'P19': ("The contracts of P18 on the standalone copy; update with its loop over the batch (ghost count of the samples with a time, obligations at the end of every iteration).", "sqrt, pow and quotients uninterpreted.", ""),
'P25': ("The contracts of P06 on the standalone copy of the window (means over groups, drop by age), its constructors, update, and the choice of the five strongest (sorted permutation, nothing dropped is stronger than what is kept).", "Sums and quotients uninterpreted.", ""),
'P26': ("Constructor (loop invariant: the registry is the last of the transmitters seen with each id), filter by registration (ghost rank of every measurement that counts), choice of the strongest (ghost first arg-max), and the alpha-beta smoother.", "sqrt and exp uninterpreted.", ""),
}
