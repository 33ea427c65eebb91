"""Source of properties.jsonl: (id, title, statement, over, quantifier text, why tests cannot, files, mechanisms)."""
O, T, S, I = ("src/tatc/schemas/orbit.py", "src/tatc/utils.py", "src/tatc/schemas/satellite.py",
              "src/tatc/schemas/instrument.py")
COV, LAT, TRK, RO, DOP = ("src/tatc/analysis/coverage.py", "src/tatc/analysis/latency.py",
                          "src/tatc/analysis/track.py", "src/tatc/analysis/ro_coverage.py",
                          "src/tatc/analysis/dop.py")
PTS, CEL = "src/tatc/generation/points.py", "src/tatc/generation/cells.py"
CFG, CON = "src/tatc/config.py", "src/tatc/constants.py"

PROPERTIES = [
 ("C01", "Two-line elements are decoded field by field, for every TLE in a list",
  "Every quantity read from a two-line element set (catalog number, classification, designator, epoch, drag terms, inclination, node, eccentricity, perigee argument, mean anomaly, mean motion, period, semimajor axis, altitude, true anomaly, revolution number, ...) equals the value encoded in the standard columns of the requested TLE, including sign, implied decimal point, exponent and two-digit-year rules. Index k always refers to the k-th pair of lines.",
  ["inputs"], "all valid TLE texts and all indices",
  "The tests read a handful of recent near-zero-drag TLEs, mostly at index 0.",
  [O], [("TLE accessors of the two-line-elements model", O)]),
 ("C02", "Only well-formed, chronological TLE lists are accepted",
  "A two-line-elements orbit can be constructed if and only if the list has an even, non-zero number of lines, each line matches the fixed-column format with its line number and a correct modulo-10 checksum over its first 68 characters, and epochs of successive pairs do not decrease. Anything else is rejected as a validation error and never altered.",
  ["inputs"], "all lists of strings", "The tests try one or two malformed lines.",
  [T, O], [("TLE validators", T), ("validators attached to the field", O)]),
 ("C03", "The TLE whose epoch is closest in time is the one used",
  "When an orbit holds several TLEs, every position, event or derived quantity at an instant is computed from the TLE whose epoch is nearest to that instant (ties to the later one), for single instants, for lists of instants and for windows partitioned at the midpoints between epochs. Results keep the order of the requested instants.",
  ["inputs", "histories"], "all multi-TLE orbits, all time lists and windows",
  "The tests use at most a few TLEs and instants away from the midpoints.",
  [O], [("closest-TLE selection and window partition", O)]),
 ("C04", "Parametric orbits convert to TLEs that carry their own elements",
  "Converting a circular, sun-synchronous, Keplerian, Molniya or Tundra orbit to a TLE preserves epoch, inclination, node, eccentricity, perigee argument, mean anomaly and mean motion, each in the unit the format requires; mean motion, period and semimajor axis satisfy Kepler's third law for the orbit's altitude or stated period. Sun-synchronous inclination and node follow from altitude, epoch and equator-crossing time.",
  ["inputs"], "all orbits the models accept", "The tests compare a few low, near-circular orbits with loose tolerances.",
  [O, T, CON], [("orbit-to-TLE conversion, period and anomaly functions", O)]),
 ("C05", "A derived orbit differs only by the requested anomaly and node offsets",
  "Deriving an orbit with offsets in mean anomaly and right ascension yields an orbit whose mean anomaly and node are advanced by exactly those offsets modulo 360 degrees and whose other orbital elements (altitude or period, epoch, inclination, eccentricity, perigee argument, drag terms) are unchanged. The result has the same kind, except that a sun-synchronous orbit gives a circular orbit with its inclination and shifted node, and every TLE of a list is derived.",
  ["inputs"], "all orbits and all offsets, negative and larger than a revolution included",
  "The tests use one offset per orbit type.", [O, T], [("derived-orbit methods", O)]),
 ("C06", "Lazily loaded results equal freshly computed ones",
  "A result kept for later calls (a converted TLE, the TLE epochs, a repeat cycle) is returned only when lazy loading is enabled, and equals what would be computed afresh from the object's current fields and the call's arguments. Disabling lazy loading always recomputes.",
  ["histories", "configurations"], "all sequences of construction, use, copy, modification and reconfiguration",
  "The tests call each method once on a fresh object.", [O, CFG], [("values kept in the instance dictionary", O)]),
 ("C07", "Repeat ground-track cycles are found and applied consistently",
  "The repeat cycle is the interval from the TLE epoch to the first revisit of the initial sub-satellite point whose position and velocity differences in the Earth-fixed frame are below the tolerances, searched within the configured duration, or none. When tracks use the repeat cycle, each instant is evaluated at its offset from the epoch modulo the cycle, keeping the offset's sign; when observation events use it, the events of the first cycle of the window are repeated every cycle and only those inside the window are reported.",
  ["inputs", "configurations"], "all TLEs, tolerances, search limits, time lists and windows",
  "One repeating orbit is tested, for one window.", [O, CFG], [("repeat-cycle search and its use", O)]),
 ("C08", "Walker constellations place every satellite in its plane and slot",
  "A Walker constellation has exactly the requested number of satellites, ceil(T/P) per plane, planes spread uniformly over 360 degrees (delta) or 180 degrees (star) of node, slots uniformly within a plane, and successive planes phased by F*360/T. Member k is named with its one-based zero-padded number and carries its own copy of the instruments; P > T or F >= P is rejected.",
  ["inputs"], "all T, P, F, configurations and lead orbits", "The tests check two or three T/P/F triples.",
  [S, T], [("Walker geometry and member generation", S)]),
 ("C09", "Train members follow the lead at the stated interval",
  "Member k of a train trails the lead by k times the interval in mean anomaly and, when the ground track is to be repeated, is displaced by the Earth's rotation during that time in right ascension (otherwise not at all). Members are numbered from one, zero-padded to the constellation size, and own copies of the instruments.",
  ["inputs"], "all intervals, sizes and lead orbits", "One interval and one orbit are tested.",
  [S, O], [("train geometry and member generation", S)]),
 ("C10", "Mutual orbiting groups and streets of coverage follow their geometry",
  "Members of a mutual orbiting group are equally spaced around the relative ellipse with the stated parallel and transverse axes and direction of motion, at the lead's altitude and epoch. A streets-of-coverage constellation is a Walker constellation with enough satellites per plane and planes for footprints of the stated swath width and packing to overlap.",
  ["inputs"], "all axes, directions, group sizes, swath widths and packing distances",
  "One configuration each is tested.", [S, T], [("group and street-of-coverage generation", S)]),
 ("C11", "Visible intervals pair each rise with its set inside the window",
  "The periods during which a satellite is above the minimum elevation at a point are disjoint, ordered, lie inside the requested window, start at the window start or at a rise and end at the window end or at the matching set; a window with only a culmination gives the whole window, and a pass already in progress at either edge of the window is kept up to that edge. No rise is paired with the set of another pass.",
  ["inputs", "histories"], "all points, satellites, elevation limits, windows and sequences of rise/culminate/set events",
  "The tests look at a few windows that contain whole passes.", [COV, O], [("pairing of rise and set events", COV)]),
 ("C12", "Observations are exactly the visible periods that meet every constraint",
  "Collected observations are the visible periods that last at least the minimum access time, satisfy the sunlight requirements at mid-period and, for pointed instruments, have the target inside the footprint at mid-period, and no others. Start, epoch (middle), end, look angles and solar columns describe that period, point, satellite and selected instrument; a fixed access time is centred on the middle.",
  ["inputs"], "all points, satellites, instruments, windows and option combinations",
  "The tests count observations for one point and instrument.", [COV, I, T], [("observation collection and validity", COV)]),
 ("C13", "Multi-satellite collection covers every member and instrument",
  "Collecting observations for several satellites or constellations returns the union, sorted by start with a fresh index, of what each member satellite and each of its instruments observes alone over the same window and options. Nothing is dropped, duplicated or attributed to the wrong satellite or instrument.",
  ["inputs"], "all mixtures of satellites, constellations and instruments", "One constellation is tested.",
  [COV, S], [("loop over members and instruments", COV)]),
 ("C14", "Aggregation merges overlapping observations per point and nothing else",
  "Aggregated observations of a point are the connected groups of time-overlapping observations of that point: start is the earliest start, end the latest end, access their difference, epoch the mean, names joined, and revisit the gap since the end of the previous group. Observations of different points never mix and a nested or chained overlap stays one group.",
  ["inputs"], "all observation tables: overlapping, nested, chained, touching, unsorted, multi-point",
  "The tests aggregate a few disjoint or pairwise-overlapping rows.", [COV], [("grouping by running maximum of end times", COV)]),
 ("C15", "Reduced and gridded metrics are sample-weighted means",
  "Reduction gives per point the mean access, mean revisit over defined values and the number of samples; gridding gives per cell the sample-weighted mean over the points it contains and the total number of samples. Durations are durations, undefined revisit stays undefined, and cells are kept unchanged when there is nothing to grid.",
  ["inputs"], "all aggregated tables and all cell tables", "The tests use a few equal-weight points.",
  [COV], [("reduction and spatial join", COV)]),
 ("C16", "Latency runs from an observation to the next downlink of its satellite",
  "Downlinks are the visible periods at the stations that respect each station's own elevation limit and minimum access time. Each observation's latency is the time from its epoch to the epoch of the first downlink of the same satellite that starts no earlier than the observation ends, undefined if there is none; reduced and gridded latencies are (sample-weighted) means.",
  ["inputs"], "all station, satellite, observation and downlink tables", "The tests use one station and one satellite.",
  [LAT, COV], [("as-of join of observations and downlinks", LAT)]),
 ("C17", "Result tables have the same columns whether or not they are empty",
  "Every analysis returns a geographic table in longitude/latitude (EPSG:4326) with the documented columns for the requested options; an empty result has the same column names and compatible types as a non-empty one. Consumers can concatenate or aggregate results without special cases.",
  ["inputs", "configurations"], "all inputs that lead to empty results, for every combination of options",
  "Empty results are hardly tested, and never compared with the columns of non-empty ones.",
  [COV, LAT, TRK, RO, DOP], [("empty-frame constructors and the record layouts beside them", COV)]),
 ("C18", "Analyses leave their inputs and shared state unchanged",
  "No public function modifies an object passed to it (points, satellites, instruments, time lists, data frames, masks, geometries) or module-level state; repeated calls with the same inputs see the same inputs. Values remembered inside an orbit are not visible as field changes.",
  ["inputs", "histories"], "all public functions, arguments and sequences of calls",
  "Tests rarely look at an argument again after the call.", [T, COV, LAT, TRK, RO, DOP, S, O, PTS, CEL],
  [("copies taken before assignment", T)]),
 ("C19", "Spherical-geometry conversions obey the viewing triangle",
  "Conversions among altitude, swath width, field of regard, field of view, look angle, minimum elevation angle, access time, ground velocity and along-track distance satisfy the spherical-Earth viewing relations in consistent units (degrees, metres, seconds), at any target elevation, with limits at the horizon; conversions that invert each other are exact inverses. The physical constants have their published WGS84 values.",
  ["inputs"], "all altitudes, angles, widths and elevations", "The tests check single values, mostly at zero elevation.",
  [T, CON], [("viewing-geometry functions", T), ("constants", CON)]),
 ("C20", "Instruments apply their own geometry and sunlight requirements",
  "An instrument's swath, minimum elevation, footprint, footprint centre and pixel grid follow from its own fields of view or regard, roll, pitch, shape and pixel layout: pixel offsets are measured from the centre of the array and rows run in cross-track then along-track order. An observation is valid exactly when every stated sunlight requirement (satellite, target) is met, one answer per instant.",
  ["inputs"], "all instruments, tracks, pixel indices and requirements", "The tests use symmetric single-pixel instruments.",
  [I, T], [("instrument methods", I)]),
 ("C21", "Projected rays and footprints meet the ellipsoid at the given elevation",
  "A projected ray starts at the satellite, points in the direction given by cone, clock, roll and pitch in the local orbital frame, and ends at the near intersection with the ellipsoid raised to the requested elevation, or at the limb if it misses. Footprints sample that projection around the field of view with the configured number of points and carry the requested elevation.",
  ["inputs", "configurations"], "all orbit tracks, view angles, shapes, elevations and point counts",
  "The tests check nadir and mild off-nadir views at zero elevation.", [T], [("ray projection, limb and footprint functions", T)]),
 ("C22", "Polygons are split and wrapped without losing or moving area",
  "Splitting a polygon that crosses the antimeridian or contains a pole yields valid geometry within longitudes -180..180 and latitudes -90..90 that covers the same region, including interior rings; polygons that need no splitting come back unchanged. Normalising accepts polygons, multipolygons, series and frames alike, and projecting to an elevation changes only heights.",
  ["inputs"], "all polygons, on either side of the antimeridian or over either pole, with and without holes",
  "The tests use convex polygons without holes, mainly over the north pole.", [T], [("polygon wrapping and splitting", T)]),
 ("C23", "Orbit tracks report the satellite's state at the requested times",
  "An orbit track has one row per requested instant inside the mask, in order, giving position (geodetic, Earth-fixed or inertial), velocity in the same frame, swath width and validity of the selected instrument, and requested solar columns for that instant. Masks select by sub-satellite point whatever geometry type they have.",
  ["inputs", "configurations"], "all time lists, coordinate and output options, masks",
  "The tests check row counts and a few columns.", [TRK, O], [("orbit-track collection", TRK)]),
 ("C24", "Ground tracks and pixels show the footprint clipped to the mask",
  "Ground tracks and ground pixels have one footprint or pixel set per requested instant whose footprint touches the mask, computed with the selected instrument, projection and elevation, clipped to the mask, with validity and look angles taken at the footprint centre or pixel. Coarse filtering by a buffered mask never removes an instant whose footprint touches the mask, within the buffer's assumptions.",
  ["inputs", "configurations"], "all time lists, instruments, projections and masks",
  "The tests use one mask and default options.", [TRK, T, I], [("ground-track and pixel collection", TRK)]),
 ("C25", "Aggregated ground tracks dissolve valid observations by orbit",
  "The aggregated ground track is the union of the footprints of valid instants, per orbit revolution counted from the first time or overall, by points or by swath-buffered lines; line tracks are cut where validity changes or an orbit ends and at the antimeridian, each piece buffered by its mean swath. Unsupported methods or projections are rejected.",
  ["inputs", "configurations"], "all time lists, masks, methods, projections and dissolve options",
  "The tests check that the result is not empty.", [TRK, T], [("aggregation of ground tracks", TRK)]),
 ("C26", "Radio occultations are the contiguous tangent-point arcs in range",
  "A radio-occultation observation is a maximal run of instants at which the tangent point lies between receiver and transmitter, the yaw is within limits and the tangent height is within range; position, pitch, yaw and azimuth are those of the sample nearest to the requested height, and start and end are the run's first and last instants. Every transmitter contributes, and rows are ordered by time.",
  ["inputs"], "all receivers, transmitters, time lists, limits and ranges", "One receiver/transmitter pair is tested.",
  [RO, O], [("occultation arcs", RO)]),
 ("C27", "Dilution of precision follows from the visible geometry",
  "For every instant, dilution of precision is the square root of the matching diagonal sum of the inverse normal matrix of unit line-of-sight vectors (with clock column) of the satellites at or above the minimum elevation, and undefined when too few are visible or the matrix is singular. Results are indexed by time and located at the point.",
  ["inputs"], "all satellites, points, instants, methods and limits", "One geometry is tested.",
  [DOP, O], [("dilution-of-precision computation", DOP)]),
 ("C28", "Fibonacci lattice points are complete, unique and inside the mask",
  "The lattice for a distance has as many points as caps of that diameter fit on the sphere; point k has the k-th lattice latitude and longitude in degrees, the requested elevation and identifier k. With a mask, exactly the lattice points inside it remain, with the same identifiers and coordinates (unwrapped east of 180 degrees when the mask extends there).",
  ["inputs"], "all distances, elevations and masks", "The tests count points for one distance and check a mask's bounds.",
  [PTS, T], [("lattice generation", PTS)]),
 ("C29", "Equally spaced points and cells tile the grid with matching identifiers",
  "Grid points and cells are spaced by the angle that the distance subtends, start at -180/-90 degrees, are centred on (points) or bounded by (cells) the same index grid, and carry identifiers that are unique over the globe, independent of the mask, and equal for a point and the cell containing it. Strips span the mask in the other direction; masked results are the parts inside the mask.",
  ["inputs"], "all distances, elevations, masks and strip options", "The tests count points and cells for one spacing.",
  [PTS, CEL], [("index grid, identifiers, points and cells", PTS)]),
 ("C30", "Runtime settings are validated, documented and read when used",
  "After import the settings have their documented defaults; a settings file is either loaded completely and within limits or rejected with a configuration error. Changing or replacing the runtime settings affects every later call that does not override the setting by an argument, and only through the setting named.",
  ["configurations", "histories"], "all settings files and all sequences of reconfiguration and use",
  "No test changes a setting or loads a malformed file.", [CFG, "src/tatc/resources/defaults.yml", O, T],
  [("configuration loading", CFG), ("settings read inside functions", O)]),
 ("C31", "Models accept exactly the documented fields, types and ranges",
  "Points, stations, instruments, orbits, satellites, constellations and architectures accept exactly the documented field types and ranges (latitude, longitude, angles, counts, positive durations and distances, alternatives of orbits, satellites and instruments), apply the documented defaults, and reject everything else. Every documented kind of orbit, instrument and constellation survives where it can be nested.",
  ["inputs"], "all field values and nestings", "The tests try a few invalid values per model.",
  [O, S, I, "src/tatc/schemas/point.py", "src/tatc/schemas/architecture.py"], [("field declarations and validators", S)]),
 ("C32", "Propagated positions agree with the SGP4 theory and its frames",
  "Positions and velocities computed from a TLE agree with the reference SGP4 implementation and with the Earth-orientation models to their stated accuracy at every instant.",
  ["inputs"], "all TLEs and instants", "Tests compare a few instants.", [O], [("third-party propagation library", O)]),
 ("C33", "Anomaly series expansions stay within their error bounds",
  "The conversions between mean and true anomaly differ from the exact solution of Kepler's equation by no more than the truncation error of the series for every eccentricity an orbit accepts.",
  ["inputs"], "all anomalies and eccentricities", "Tests use small eccentricities.", [T], [("anomaly series", T)]),
 ("C34", "No pass is missed by the event search",
  "Every period during which a satellite is above the minimum elevation appears among the events found, however short, and coarse filtering by buffered masks never removes a contributing instant.",
  ["inputs"], "all orbits, points, limits and windows", "Tests cannot enumerate passes.", [O, COV], [("event finder of the propagation library", O)]),
]

NOT_APPLICABLE = {
 "C32": "The agreement is a numerical property of the third-party sgp4/skyfield code and of floating-point propagation; the source in scope only calls it. Static analysis decides which TLE, time and frame are passed (C03, C04, C23), not the accuracy of the result.",
 "C33": "A bound on the truncation error over real intervals needs interval arithmetic or a solver on the series, not an analysis of the source; static analysis decides that the coefficients are those of the published expansions (C04).",
 "C34": "Completeness depends on the numerical root finding inside skyfield and on curvature of real passes; no sound static argument in reach bounds it. How found events become periods is decided by C11, how filters are applied by C24.",
}
