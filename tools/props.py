NA = {}
PROPS = []
def P(id, title, statement, qtext, why, files, mech, note, over=('inputs',), state=(), level='proof'):
    PROPS.append(dict(id=id, title=title, statement=statement, qtext=qtext, why=why, files=list(files), mech=list(mech), note=note,
                      over=list(over), state=list(state), level=level))

TRUST = ' Trusted: clang AST, the VC generator in cv/, SMT solvers, assumed contracts of std/libm; doubles are treated as exact reals.'

P('P01', 'Geographic and local metric coordinates are exact inverses',
  'Converting a geographic point to local metres about a reference away from the poles, and back, returns the same latitude and longitude; converting a local offset of less than half a parallel to geographic coordinates and back returns the same offset. '
  'North is +y at 40008000/360 m per degree, east is +x at 40075160*cos(reference latitude)/360 m per degree along the shorter way round the globe (so crossing the 180 degree meridian makes no jump), and the reference itself is (0,0). '
  'Every longitude returned lies in (-180, 180].',
  'all points and references with |latitude| < 90 and longitude in (-180,180], including pairs on different sides of the antimeridian',
  'no existing test converts coordinates at all; a sample of points would miss the antimeridian and sign cases, and the claim is for all points',
  ['src/point.cpp', 'include/navigine/navigation-core/point.h'],
  [('gpsToLocal', 'src/point.cpp'), ('localToGps', 'src/point.cpp'), ('normalizeLongitude', 'src/point.cpp')],
  'All obligations of the contracts and of the two round-trip lemmas discharged for every input.' + TRUST)

P('P02', 'Planar geometry primitives are geometrically correct',
  'The point-to-segment distance is the minimum over the segment; the projection is the foot of the perpendicular on the carrier line, with its parameter; the intersection routine returns a point common to both segments exactly when they meet (parallel ones give NaN) and leaves its outputs alone otherwise. '
  'The segment crossing test is true exactly for segments that properly cross, axis-parallel ones included; point-on-segment, oriented area, determinant and distance agree with their definitions. '
  'Points on different levels have no distance or area (NaN).',
  'all coordinates (segments shorter than the 1e-4 m resolution excepted), null output pointers included',
  'no existing test calls these functions; the claims are universally quantified over coordinates',
  ['src/geometry.cpp', 'src/geometry.h'],
  [('SegmentPointDist', 'src/geometry.cpp'), ('GetProjection', 'src/geometry.cpp'), ('GetIntersection', 'src/geometry.cpp'), ('CheckIntersection', 'src/geometry.cpp'), ('PointOnLine', 'src/geometry.cpp'), ('GetDist/GetArea/Determinant', 'src/geometry.cpp')],
  'Every function contract discharged for all real coordinates (nonlinear arithmetic, nlsat).' + TRUST)

P('P03', 'The location model finds exactly what was put into it',
  'Looking up a level, a transmitter or a reference point by id returns the object with that id if it was added and reports or throws otherwise; the level of a transmitter is the first added level that contains it; transmitters are filed under their own id and adding more never changes those already filed. '
  'Restricting a measurement list to a level keeps exactly the measurements of that level\'s transmitters, unchanged and in their order.',
  'all locations (any number of levels, transmitters, reference points) and all measurement lists',
  'tests never build a location; the claims quantify over all containers and loops of any length',
  ['src/level.cpp', 'src/radiomap.cpp', 'src/level_collector.cpp'],
  [('Radiomap', 'src/radiomap.cpp'), ('Level transmitters, getLevelRadioMeasurements', 'src/level.cpp'), ('LevelCollector look-ups', 'src/level_collector.cpp')],
  'Class invariants and loop invariants discharged for containers of any size; hash containers by assumed contract.' + TRUST)

P('P04', 'A level is a faithful local copy of its geographic level, with a well-formed graph',
  'Adding a geographic level appends exactly one level, leaves the earlier ones untouched and binds it to the corner of least latitude and longitude of its bounding box: every transmitter (height = level altitude + own height; id, type and path-loss model kept), reference point (id and fingerprints kept), graph vertex and the bounding box is the local image of its geographic counterpart about that corner. '
  'Graph edges always join existing vertices, are stored once in normalised order and are carried over unchanged; an edge to a missing vertex is refused with an exception. '
  'A path touches barriers exactly when it leaves the allowed area or meets an inner ring.',
  'all geographic levels with a well-formed graph, bounding boxes with swapped corners included',
  'tests never build a location; the claims quantify over lists and graphs of any size',
  ['src/level_collector.cpp', 'src/level_geometry.cpp', 'include/navigine/navigation-core/graph.h'],
  [('addGeoLevel and its conversion helpers', 'src/level_collector.cpp'), ('LevelGeometry', 'src/level_geometry.cpp'), ('Graph', 'include/navigine/navigation-core/graph.h')],
  'addGeoLevel, every conversion helper, Graph and LevelGeometry construction proved for all inputs; polygon contents (boost::geometry::correct) and the R-tree barrier query are checked by bounded replay only.' + TRUST)

P('P05', 'Only admissible measurements reach the algorithms, unaltered and with the right distance',
  'A radio measurement is accepted exactly if its transmitter is admissible (unknown ones are allowed, or the first level that knows it lists it as a locator in tracking mode and as anything else otherwise), its strength lies strictly between the cut-off and 0 in signal-strength mode or it is a Wi-Fi round-trip-time measurement in the distance modes, and its technology is switched on. '
  'An accepted measurement is buffered unaltered and its time becomes the last signal time; a refused one changes nothing but the clock; sensor and NMEA messages only replace the latest sensor value or sentence. A new preprocessor has seen no signal, sensor value or sentence. '
  'Extraction keeps, with the closest-access-point option, the configured number of strongest measurements in descending order; distances come from the path-loss model of the first level that knows the transmitter, round-trip-time distances are corrected by the offset, others are untouched.',
  'all measurements, settings, locations with distinct level ids and message histories',
  'no test feeds a measurement; the rule has a combinatorial number of cases and must hold for every message',
  ['src/measurements/measurement_preprocessor.cpp', 'src/measurements/measurement_preprocessor.h'],
  [('getValidSignalEntry and its helpers', 'src/measurements/measurement_preprocessor.cpp'), ('updateMeasurements and its visitors', 'src/measurements/measurement_preprocessor.cpp'), ('extractRadioMeasurements', 'src/measurements/measurement_preprocessor.cpp')],
  'All functions of the preprocessor proved for every input; only the list handed over by the buffer is left open there (P06).' + TRUST, over=('inputs', 'histories'))

P('P06', 'Radio windows hold exactly the measurements of the window, averaged per transmitter',
  'An extraction before the window shift has passed since the previous one returns nothing and changes no measurement; otherwise it returns exactly one entry per transmitter buffered, whose signal strength and distance are the means over all buffered measurements of that transmitter, other fields coming from one of them. '
  'Afterwards exactly the measurements of the keep period (averaging time minus shift; a shift of 0 or longer than the averaging time means the averaging time) stay buffered, and all stay while the user stands still (stops used, last step older than the stop time). The first measurement starts the first window.',
  'all histories of additions and extractions, all window settings',
  'windows depend on the whole history of calls, which no test builds',
  ['src/measurements/measurement_preprocessor.cpp', 'src/measurements/measurement_preprocessor.h'],
  [('RadioMeasurementBuffer::extractMeasurements', 'src/measurements/measurement_preprocessor.cpp'), ('RadioMeasurementBuffer::addMeasurement', 'src/measurements/measurement_preprocessor.cpp'), ('createRadioMeasurementBuffer', 'src/measurements/measurement_preprocessor.cpp')],
  'Proved for buffers of any size: group means by prefix-sum ghost functions over the sorted buffer, retention over both reorderings.' + TRUST, over=('histories', 'inputs'))

P('P07', 'The detected level is the one the radio evidence favours',
  'With transmitter-based detection the level is the one with the highest cost: the mean signal strength of the measurements of its own transmitters (plus the mean reference power A of those transmitters if transmit power is used), divided by 1 + 0.1 times the fraction of all measurements that belong to it; levels with no measurement of their own, or with a cost of -1000 or less, do not count. '
  'With radio-map detection it is the level of the highest positive weight: the sum over the measurements of the mean of 1/(||rssi|-|mean||+0.1) over the level\'s fingerprints of that transmitter, times the number of measurements whose transmitter is in its radio map; or, with the best-reference-point option, the highest weight of any of its reference points. '
  'On ties the level added first wins; if no level qualifies the answer is empty.',
  'all locations, radio maps and measurement lists of any size',
  'no test detects a level; the maximum is over arbitrary lists',
  ['src/level_estimator/level_estimator_transmitters.cpp', 'src/level_estimator/level_estimator_radiomap.cpp', 'src/level.cpp', 'src/knn/knn_utils.cpp'],
  [('detectCurrentLevel (transmitters), getAverageRssi, getAverageA', 'src/level_estimator/level_estimator_transmitters.cpp'), ('detectCurrentLevel (radio map), calcWeight, calcWeightBestRp', 'src/level_estimator/level_estimator_radiomap.cpp'), ('getLevelRadioMeasurements', 'src/level.cpp'), ('getLevelsRadiomaps', 'src/knn/knn_utils.cpp')],
  'Maximum, sums and means proved with ghost sums for lists of any length; the contents of the per-level radio maps are checked by bounded replay only.' + TRUST)

P('P08', 'The reported level changes only with enough evidence',
  'Detections are counted per level (0 to 4); the first detection sets the level, and afterwards the reported level changes to another level exactly when that level is detected for the fifth time since its count was last reset; then all counts restart, the new level at 4. An empty detection changes nothing and repeats the last level. '
  'Without the barometer that level is the answer. With it, the first call only repeats it; afterwards the last 101 pressure samples and up to 101 older ones are kept (other sensors change nothing), and the level is passed on unchanged until more than 100 new and at least 100 older samples are held; from then on the answer changes only if the mean pressures, both positive, differ by more than 2 m of height.',
  'all histories of detections and sensor messages',
  'no test runs a level estimator; the claim is about histories of any length',
  ['src/level_estimator/level_history.cpp', 'src/level_estimator/barometer.cpp', 'src/level_estimator/level_estimator.cpp'],
  [('detectLevelUsingHistory', 'src/level_estimator/level_history.cpp'), ('checkLevelChange, updateBuffers, updateLevel, calcMean', 'src/level_estimator/barometer.cpp'), ('calculateLevel', 'src/level_estimator/level_estimator.cpp')],
  'Every step function proved against its transition relation with the class invariants, so the claim holds for every history.' + TRUST, over=('histories',), state=[('mFloorCnt', 'detections per level since the last reset', 'src/level_estimator/level_history.h'), ('mNewMeasurements/mStoredMeasurements', 'pressure samples kept by the barometer', 'src/level_estimator/barometer.h')])

P('P09', 'The fingerprint position is the weighted mean of the best matching reference points',
  'Only measurements whose transmitter occurs in a fingerprint of the level count. A reference point has a weight exactly if at least three of its fingerprint values match them; the weight is n / sqrt(S), n being the number of matches and S the weighted mean (product of transmitter trusts over pairs in difference mode, trust over single values otherwise) of the deviations |map - measured| (in plain mode |map mean + measured strength|), each weighted deviation being at least 1e-6; trust falls with the distance the signal strength stands for and is divided by its sum over all measurements. '
  'The position is the weighted mean of the k heaviest reference points, or of the corners of the heaviest triangle of the level\'s triangulation (the first one on ties); the origin if nothing has weight. It is reported with the level asked for, the given time, as an indoor position of deviation 1, and remembered. '
  'With no measurement, or fewer than the minimum, the status is NO_SOLUTION and the remembered position is repeated; without triangles of the level the status is NAVIGATION_ERROR. Every level with more than three reference points and a triangulation has triangles.',
  'all radio maps, measurement lists, settings and call sequences',
  'the tests never compute a fingerprint position; sums and maxima are over lists of any size',
  ['src/knn/knn_utils.cpp', 'src/position_estimator/position_estimator_knn.cpp', 'src/radiomap.cpp'],
  [('calcRpWeightsKnn, calcTransmittersWeights, calculateTransmitterTrustworthiness', 'src/knn/knn_utils.cpp'), ('calcPositionInTriangle, calcKHeaviestRefPointsAverage, getWhitelistedMeasurements', 'src/knn/knn_utils.cpp'), ('triangulate, getLevelReferenceTransmittersMap', 'src/knn/knn_utils.cpp'), ('PositionEstimatorKnn::calculatePosition', 'src/position_estimator/position_estimator_knn.cpp')],
  'Every function proved with ghost counts and sums for lists of any length; getLevelsRadiomaps and the constructor by bounded replay; TriangulateVertices by its contract (P22).' + TRUST, over=('inputs', 'histories'), state=[('mPosition', 'last position', 'src/position_estimator/position_estimator.h')])

P('P10', 'The zone position is the place of the strongest transmitter of the level',
  'With zone positioning the position is that of the transmitter of the level heard with the greatest signal strength (the first such measurement on ties; transmitters of other levels do not count), reported for that level and time as an indoor position with deviation sqrt(exp((A - strength)/B)) + 1 for the A and B of the level\'s settings, which is never below 1 m. '
  'Without a measurement of the level the status is NO_SOLUTION and there is no position. The estimator keeps no state between calls.',
  'all levels, settings with B other than 0, and measurement lists',
  'no test calculates a zone position; the maximum is over lists of any size',
  ['src/position_estimator/position_estimator_zone.cpp', 'src/level.cpp'],
  [('PositionEstimatorZone::calculatePosition and constructor', 'src/position_estimator/position_estimator_zone.cpp'), ('getLevelRadioMeasurements', 'src/level.cpp')],
  'Proved for lists of any length with the first strongest measurement of the level as ghost.' + TRUST)

P('P11', 'A GNSS position is a fresh, plausible fix placed on the first level that covers it',
  'A location message gives a position exactly if a level\'s bounding box contains its local image (the first such level in order of addition; the first level anyway if fixes outside the map are allowed), the first NMEA sentence does not report a nonzero number of satellites below the minimum, and the sigma filter, if in use and the time is new, accepts it. The position is that local image, with the time of the call, the sent deviation raised to the minimum, and the level\'s id, and is remembered. '
  'The sigma filter accepts exactly when its window is full and the point lies, per axis, within 3 standard deviations plus the delta of the window\'s mean; every point asked about enters the window and the oldest leaves a full one; an indoor position or a deviation above the maximum empties it. '
  'Without a location message the remembered position is repeated while it is not older than the validity window, otherwise there is none.',
  'all levels, settings with a sigma window of at least 1, and message histories',
  'the outcome depends on a history of fixes; no test feeds a GNSS fix',
  ['src/position_estimator/position_estimator_outdoor.cpp', 'src/position_estimator/position_estimator_outdoor.h'],
  [('calculatePosition', 'src/position_estimator/position_estimator_outdoor.cpp'), ('SigmaFilter::add/clear', 'src/position_estimator/position_estimator_outdoor.cpp'), ('extractGpsPosition, extractNumberOfSatellites', 'src/position_estimator/position_estimator_outdoor.cpp')],
  'Every function proved for windows and locations of any size (sums as ghost functions); boost\'s point-in-box test by assumed contract.' + TRUST, over=('inputs', 'histories'), state=[('mGNSSbuffer', 'last points asked about', 'src/position_estimator/position_estimator_outdoor.h'), ('mLastGpsPosition', 'last accepted fix', 'src/position_estimator/position_estimator_outdoor.h')])
P('P12', 'Indoor and GNSS positions are combined by what is known of their uncertainty',
  'Of each source the last position given and an uncertainty are kept: a new position averages its deviation with the prior one, which is the prior deviation at first and never exceeds it, and otherwise the uncertainty kept plus average speed times the time between the two positions. '
  'The outcome is the GNSS position just given, if instant GNSS is set; the indoor position just given, if the indoor solution is preferred and its status is OK; without GNSS (disabled or never seen) the last indoor position; without an indoor position the last GNSS one; the other one when the last indoor, or else the last GNSS, position is too old to fuse. '
  'Otherwise, if fusing is enabled and the two are closer than the sum of both deviations and the border, it is the mean of the two weighted inversely to their uncertainties grown by speed times age (hence between the two), with the smaller of these as deviation, the later time, the indoor level and provider FUSED; if not, it is the more certain of the two.',
  'all settings, all histories of positions with positive deviations whose times do not go back per source',
  'the outcome depends on a history of both sources; no test covers fusing',
  ['src/position_postprocessor/position_postprocessor.cpp', 'src/position_postprocessor/position_postprocessor.h'],
  [('fusePositions, fillIndoorOutdoorPositionStates', 'src/position_postprocessor/position_postprocessor.cpp')],
  'Both functions proved against a contract that gives the whole outcome.' + TRUST, over=('inputs', 'histories'), state=[('mIndoorPos, mOutdoorPos', 'last position of each source', 'src/position_postprocessor/position_postprocessor.h'), ('mIndoorDev, mOutdoorDev', 'uncertainty of each source', 'src/position_postprocessor/position_postprocessor.h')])
P('P13', 'The position put out is fresh, on the map, held while standing, on the graph and in centimetres',
  'There is no position if none was fused, if it lies outside the closed bounding box of its level (unless that is allowed) or if it is as old as the dead reckoning time. Otherwise the position has the time of the call and coordinates that are whole centimetres, at most the maximum and more than the minimum of the level\'s box minus a centimetre. '
  'It is the fused one, smoothed and then smoothed in time as far as these are in use (the smoother is restarted exactly when the level differs from that of the last output), with the deviation of the last indoor position. If stops are in use and the last known step is at least the stop detection time ago, the last output stays instead, except that it is replaced if more than the stop update time has passed since the last such replacement and the new position is closer than the threshold. '
  'With graph projection, a position closer than the projection distance to the graph of the level moves to the nearest point of the first nearest edge. Then it is clamped to the box and rounded down.',
  'all levels whose box is not inverted and whose graph is well formed, settings, positions, times, step histories, whatever the smoother answers',
  'the outcome depends on a history of steps and positions and on the whole geometry of graph and level; no test covers the postprocessor',
  ['src/position_postprocessor/position_postprocessor.cpp', 'src/geometry.cpp'],
  [('getProcessedPosition, isInsideMap, getProjection', 'src/position_postprocessor/position_postprocessor.cpp'), ('GetProjection, GetDist', 'src/geometry.cpp')],
  'All functions proved, for graphs of any size; the smoother is called through a contract that allows any result.' + TRUST, over=('inputs', 'histories'), state=[('mLastOutPosition', 'last output', 'src/position_postprocessor/position_postprocessor.h'), ('mLastStepTs, mLastExtractionTs', 'last step, last replacement while standing', 'src/position_postprocessor/position_postprocessor.h')])
P('P14', 'Smoothing in time moves between the last two positions and never beyond',
  'Of a level the last two positions are remembered: a position newer than the last one remembered replaces the older of the two, a position of another level restarts the memory, an empty position shifts through it, and a position from the future of the clock is passed through and not remembered. '
  'When both have different times, and no more time has gone since the last than between the two, the outcome is the point that walks from the older to the newer at the speed between them, as long after the newer as is the time gone: on the segment between them whenever the clock is not behind the newer, with the time of the call and everything else of the newer. Otherwise it is the position given (with equal times: the newer remembered). The level is always that of the position given.',
  'all histories of positions and clock values', 'the outcome depends on a history of positions and calls; no test covers it',
  ['src/position_postprocessor/navigation_time_smoother.cpp', 'src/position_postprocessor/navigation_time_smoother.h'],
  [('NavigationTimeSmoother::getTimeSmoothedPosition', 'src/position_postprocessor/navigation_time_smoother.cpp')],
  'The class is proved in full.' + TRUST, over=('inputs', 'histories'), state=[('mPrevPosition, mNextPosition', 'last two positions', 'src/position_postprocessor/navigation_time_smoother.h')])
P('P15', 'The alpha-beta smoother follows the positions between prediction and measurement and starts anew when it cannot',
  'A position newer than the last by t gives the point prediction + a (position - prediction), where the prediction is the last point plus speed times t and a, between 0.1 and 0.9, is 0.9 - 0.8 times the smoothing clamped to [0,1] or, if accuracy is used, the last deviation over the sum of both and 0.5, clamped to [0.1,0.9]; the speed changes by a^2 / (2 - a) / t times (position - prediction), per axis; with accuracy the deviation grows by (1 - a) times t times the new speed. '
  'Instead the position is taken as it is, at speed 0, on the first call, after more than 10 s, if the new speed would exceed 4 m/s while the speed is constrained, and if the point would leave the allowed area while barriers are in use. So a constrained speed never exceeds 4 m/s. A position that is not newer gives the last outcome again and changes nothing; a reset rests at its position.',
  'all settings, areas, positions with non-negative deviations and histories of calls and resets',
  'a filter with memory and real arithmetic; no test covers it',
  ['src/position_postprocessor/position_smoother_ab.cpp', 'src/position_postprocessor/position_smoother_ab.h'],
  [('PositionSmootherAB', 'src/position_postprocessor/position_smoother_ab.cpp')],
  'Constructor, smoothPosition and reset proved; the area test is an unspecified relation.' + TRUST, over=('inputs', 'histories'), state=[('mPosition, mSpeedX, mSpeedY', 'state of the filter', 'src/position_postprocessor/position_smoother_ab.h'), ('mWasCalled', 'first call', 'src/position_postprocessor/position_smoother_ab.h')])
P('P18', 'The pedometer reports every crossing of the threshold as one step, never two within 300 ms',
  'Each acceleration gives the mean magnitude of the samples younger than 200 ms, less (the sum of the magnitudes of the samples younger than 2.5 s plus that mean) over their number. Once more than three of these filtered magnitudes are held, a step is reported exactly when a magnitude not seen before lies above 0.05 * 9.80665, the one before it below, and its time is more than 300 ms after the last reported step (ever). '
  'The step has the time of that magnitude and the length 0.52 times the fourth root of the range of the magnitudes before it, back to and including the first that is more than 700 ms older, among those held. So steps come in order, more than 300 ms apart, with lengths that are not negative. Held are the accelerations of the last 5 s, the filtered magnitudes of the last 1.4 s and at most 50 step times; other sensors change none of this.',
  'all settings, histories of sensor messages and finite accelerations, steps being asked for after every message',
  'loops over windows of unbounded history; only the standalone copy has a test',
  ['src/sensor_fusion/pedometer.cpp', 'src/sensor_fusion/pedometer.h', 'src/vector3d.cpp'],
  [('Pedometer::update', 'src/sensor_fusion/pedometer.cpp'), ('Pedometer::calculateSteps', 'src/sensor_fusion/pedometer.cpp')],
  'Filter, update, step length and scan proved over unbounded windows; sums and roots uninterpreted.' + TRUST, over=('inputs', 'histories'), state=[('mAccelMeasurements', 'window of accelerations', 'src/sensor_fusion/pedometer.h'), ('mFilteredAccMagnitudes, mMagnitudeSize', 'window of filtered magnitudes and the first unseen one', 'src/sensor_fusion/pedometer.h'), ('mPossibleStepTs', 'time of the last step', 'src/sensor_fusion/pedometer.h')])
P('P17', 'The orientation stays a rotation and turns only with the sensors, as stated',
  'Under any history of finite measurements the orientation quaternion keeps length 1 and the three angles stay in [-pi,pi], [-pi/2,pi/2] and [-pi,pi]. Turning q by v means q + q v / 2, scaled to length 1. A rate turns it by (rate + summed error) times the time since the last rate (nothing on the first one); an acceleration by its gain times the cross product of its direction and the vertical as the orientation sees it; a magnetic field, but only before the first rate and only if it has a direction, by its gain times the cross product of that direction and the direction it would have pointing north. '
  'The errors are summed with the integral gain if that exceeds 1e-8. The fused azimuth is minus the yaw; the magnetic azimuth is the direction of the last field in the horizontal plane, in [-pi,pi); the azimuth of the device is the last one given and is outdated exactly when none was given or it is older than its lifetime. Other sensors change only the clock. An angle is brought to [-pi,pi) by whole turns. This holds for the core filter and for the standalone one.',
  'all gains, histories of messages and finite measurements',
  'nonlinear arithmetic over unbounded histories; only the standalone copy has a test, on a pendulum',
  ['src/sensor_fusion/complementary_filter.cpp', 'src/sensor_fusion/complementary_filter.h', 'src/sensor_fusion/quaternion.cpp', 'src/vector3d.cpp', 'standalone_algorithms/complementary_filter/src/complementary_filter.cpp', 'standalone_algorithms/complementary_filter/src/quaternion.cpp', 'standalone_algorithms/complementary_filter/src/vector3d.cpp'],
  [('ComplementaryFilter', 'src/sensor_fusion/complementary_filter.cpp'), ('Quaternion', 'src/sensor_fusion/quaternion.cpp'), ('ComplementaryFilter (standalone)', 'standalone_algorithms/complementary_filter/src/complementary_filter.cpp')],
  'Scaling, turning, angles, every sensor and update proved in both copies, including length 1 as an invariant.' + TRUST, over=('inputs', 'histories'), state=[('mQ', 'orientation', 'src/sensor_fusion/complementary_filter.h'), ('mIntergalError', 'summed error', 'src/sensor_fusion/complementary_filter.h'), ('mLastGyroTs, mLastDeviceAzimuthTs, mCurrentTs', 'times', 'src/sensor_fusion/complementary_filter.h')])

P('P20', 'Every step counts once in the motion, and the azimuth given is the one asked for',
  'Sensor fusion passes every measurement to the pedometer and to the orientation filter and reports: a step exactly when the pedometer found one with this measurement; the distance as the sum of their lengths times the step multiplier; the running number of steps counted since construction; the time handed in as the time of the last motion; the heading as minus the fused azimuth; the turn since the last report with a step (0 before any). Without a step the distance, the counter, the time and the turn are 0. '
  'The azimuth is that of the magnetic field if the settings ask for it (always valid), else that of the device as long as it is not outdated, else 0 and not valid.',
  'all settings and histories of sensor measurements',
  'depends on what two stateful filters hold after any history; no test touches sensor fusion',
  ['src/sensor_fusion/sensor_fusion.cpp', 'src/sensor_fusion/sensor_fusion.h'],
  [('SensorFusion::calculateDisplacement', 'src/sensor_fusion/sensor_fusion.cpp')],
  'Constructor and calculateDisplacement proved against the contracts of the pedometer (P18) and the filter (P17).' + TRUST, over=('inputs', 'histories'), state=[('mStepCounter, mPrevHeading', 'steps counted, heading of the last one', 'src/sensor_fusion/sensor_fusion.h')])
P('P23', 'navigate answers every message in order, with the position asked for on a known level',
  'Of a batch every message that is not older than one before it in the batch gives exactly one output and one state (with the step counter and the distance of its motion), in order, and the others change nothing; an empty batch gives nothing. '
  'For each message, the level is estimated from the signals up to the last step and the motion from its sensor value. Signals are lost when there has been none for the time without signal, or none and no step (of a known one) for the time without action: then, and only then, estimation starts anew. '
  'While they are not lost and the level is one of the location, the position is that of the indoor estimator on this level, fused with the GNSS position and processed; otherwise it is the GNSS position if there is one, and else it stays. '
  'The output has status OK exactly if there is a position, then with its level, radius, origin and, if it is on a level, the latitude and longitude of its point in the frame of that level; the altitude is given only if it is asked for. Its orientation is the stated azimuth in [-pi,pi): while the level is known, the direction of travel when the heading of the fused position changes or the azimuth is not valid, else the last heading turned by the rates since; east-north-up if asked for. A level that is output belongs to the location.',
  'all locations, settings, batches of messages and histories of batches, whatever the parts answer within their contracts',
  'the outcome depends on a history of batches with messages of many kinds, out of order and with gaps; the tests never call navigate',
  ['src/navigation_client_impl.cpp', 'src/navigation_client_impl.h', 'src/measurements/measurement_preprocessor.cpp', 'src/sensor_fusion/sensor_fusion.cpp'],
  [('NavigationClientImpl::navigate', 'src/navigation_client_impl.cpp')],
  'navigate proved for batches of any length by obligations at the end of every iteration of its loop; its parts by contracts (P01, P05 - P15, P17 - P20), partly as stated there.' + TRUST, over=('inputs', 'histories'), state=[('mPosition', 'position put out', 'src/navigation_client_impl.h'), ('mPrevFusedPosHeading, mPrevGyroHeading', 'last heading, and turn at its last change', 'src/navigation_client_impl.h'), ('mFlagIndoorPos', 'there was an indoor position', 'src/navigation_client_impl.h'), ('mNavigationStates', 'states of the last batch', 'src/navigation_client_impl.h')])
P('P19', 'The standalone pedometer reports every crossing of the threshold once, however its samples are batched',
  'The standalone pedometer takes accelerations in batches. Each of them, also within a batch, gives the mean magnitude of the samples younger than 200 ms, less (the sum of the magnitudes of the samples younger than 2.5 s plus that mean) over their number, unless its time is 0. Of the filtered magnitudes added by the last batch, once more than three are held, a step is reported exactly when the magnitude lies above 0.05 * 9.80665, the one before it below, and its time is more than 300 ms after the last reported step (ever). '
  'The step has the time of that magnitude and the length 0.52 times the fourth root of the range of the magnitudes before it, back to and including the first that is more than 700 ms older, among those held. So steps come in order, more than 300 ms apart, with lengths that are not negative. Held are the accelerations of the last 5 s, the filtered magnitudes of the last 1.4 s and at most 50 step times. An empty batch adds nothing.',
  'all histories of batches of finite accelerations, steps being asked for after every batch',
  'loops over windows of unbounded history and batches of any length; the tests need logs that are not there',
  ['standalone_algorithms/pedometer/src/pedometer.cpp', 'standalone_algorithms/pedometer/include/pedometer.h', 'standalone_algorithms/pedometer/src/vector3d.cpp'],
  [('Pedometer::update (standalone)', 'standalone_algorithms/pedometer/src/pedometer.cpp'), ('Pedometer::calculateSteps (standalone)', 'standalone_algorithms/pedometer/src/pedometer.cpp')],
  'Filter, update (with obligations at the end of every iteration over the batch), step length and scan proved over unbounded windows; sums and roots uninterpreted.' + TRUST, over=('inputs', 'histories'), state=[('mAccelMeasurements', 'window of accelerations', 'standalone_algorithms/pedometer/include/pedometer.h'), ('mFilteredAccMagnitudes, mMagnitudeSize', 'window of filtered magnitudes and the first unseen one', 'standalone_algorithms/pedometer/include/pedometer.h'), ('mPossibleStepTs', 'time of the last step', 'standalone_algorithms/pedometer/include/pedometer.h')])

P('P25', 'The standalone signal window averages what was heard in it and gives the five strongest transmitters',
  'The standalone preprocessor takes in a measurement, once and unaltered, exactly when its technology is used and its strength is above -100 and below 0; its clock is the newest time of all measurements, taken in or not. The first one taken in starts the window and is not itself averaged; a later one is buffered when it is newer than the last extraction, and the clock of the window never goes back. '
  'The window shift is the set one or, if that is 0 or more than the averaging time, the averaging time, and the keep period is what the averaging time has left. Asked before the shift has passed on the clock of the window, there is nothing and nothing changes. Afterwards the window restarts at its clock, and there is exactly one entry per buffered transmitter, with the mean strength and the mean distance over all its buffered measurements and the rest from one of them; of these averages those given are the strongest, at most five, strongest first. '
  'Then the measurements older than the keep period are dropped, exactly (all, if it is 0).',
  'all histories of measurements, in any order, and of extractions',
  'the outcome depends on the history of the buffer; no test reaches this copy of the code',
  ['standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp', 'standalone_algorithms/position_estimation/include/measurement_preprocessor.h'],
  [('RadioMeasurementBuffer::extractMeasurements (standalone)', 'standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp'), ('MeasurementsPreprocessor::update (standalone)', 'standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp')],
  'All functions of the window proved over unbounded buffers; sums and quotients uninterpreted.' + TRUST, over=('inputs', 'histories'), state=[('mMeasurements', 'buffered measurements', 'standalone_algorithms/position_estimation/include/measurement_preprocessor.h'), ('mLastExtractionTs, mCurrentTs', 'window and clocks', 'standalone_algorithms/position_estimation/include/measurement_preprocessor.h')])
P('P26', 'The standalone position is the place of the strongest registered transmitter, smoothed',
  'Of the measurements of a message those of registered transmitters count; of transmitters registered with the same id the last. If there are none, the position is empty and nothing changes. Otherwise the position is the place of the transmitter heard strongest (the first of these on ties), with the precision 1 + sqrt(exp((-82 - strength) / 3)) and the time of the last measurement that counts. '
  'It is smoothed by an alpha-beta filter of smoothing 0.9: the first position, and one more than 10 s newer than the one before, comes out as it is and stops the motion; any other newer one comes out between prediction and measurement by the weight alpha, with the speed following by alpha^2 / (2 - alpha) over the time passed; one that is not newer than the last gives the last one again. Registered transmitters never change.',
  'all registries, messages and histories with times of -1 or more',
  'the outcome depends on the history of messages and on ties and unknown ids; no test reaches this code',
  ['standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp', 'standalone_algorithms/position_estimation/src/position_smoother.cpp'],
  [('NearestTransmitterPositionEstimator::calculatePosition', 'standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp'), ('PositionSmoother::smoothPosition (standalone)', 'standalone_algorithms/position_estimation/src/position_smoother.cpp')],
  'Constructor, filter by registration, choice and smoother proved for registries and messages of any length.' + TRUST, over=('inputs', 'histories'), state=[('m_smoother', 'last position and its speed', 'standalone_algorithms/position_estimation/include/position_smoother.h'), ('m_transmitters', 'registered transmitters', 'standalone_algorithms/position_estimation/include/nearest_transmitter_estimator.h')])
