"""Titles, statements, quantifiers and anchors of the properties; gen.py writes properties.jsonl and MANIFEST.json from them."""
D = []


def P(id, title, statement, over, quant, why, files, mech, level_note='', observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': state, 'where': files[0]}]
    D.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant},
              'why_tests_cant': why, 'anchors': a, 'note': level_note})


UF = ['celest/units/core.py', 'celest/units/quantity.py', 'celest/units/unit_initialization.py', 'celest/units/display.py']

P('U01', 'Unit conversion scales by exactly the ratio of the two unit sizes',
  'For any two units of equal dimension (named or compound), converting a quantity with to()/convert_to() multiplies every element of its data '
  'by size(old unit)/size(new unit) and nothing else: the result is independent of the array shape and of whether the data are integers, scalars or arrays, '
  'and convert_to() returns a quantity tagged with the new unit.',
  ['inputs'], 'all real data values; every ordered pair of named units of equal dimension and a family of compound-unit pairs (products, quotients, powers, scaled units)',
  'Tests convert a handful of values between a few pairs; the scale must be right for every pair and for every value and shape.',
  UF, [('Quantity.convert_to', 'celest/units/quantity.py'), ('_total_scale', 'celest/units/core.py')])
P('U02', 'Named units have their accepted sizes and dimensions',
  'Each unit exported by celest.units (m, mm, cm, km, inch, ft, yd, mi, s, min, hr, dy, jd2000, deg, rad, arcsec, arcmin, hourangle) has the accepted size relative to the '
  'base unit of its dimension (e.g. 1 inch = 0.0254 m, 1 mi = 1609.344 m, 1 rad = 180/pi deg, 1 hourangle = 15 deg), its own name, and the right dimension.',
  ['programs'], 'every named unit of the library', 'The tests repeat the table of the source instead of the accepted values, and cover only some of the units.',
  UF, [('setup_unit calls', 'celest/units/unit_initialization.py'), ('UNIT_TO_DIMENSION_DICTIONARY', 'celest/units/display.py')])
P('U03', 'Unit and quantity operations never modify or alias their operands',
  'Converting, negating, comparing, adding, subtracting, multiplying or dividing quantities, and multiplying, dividing or raising units, leaves the data and units of every operand '
  'exactly as they were, and array results do not share storage with an operand, so later writes to a result cannot change an input.',
  ['inputs', 'histories'], 'all data values; every operation; same-unit, same-dimension and cross-dimension operands; all sequences of unit operations of the analysed forms',
  'Mutation shows only when an operand is reused later and with particular units (for example equal units, where a conversion could return the original array).',
  UF, [('Quantity operators', 'celest/units/quantity.py'), ('CompoundUnit._expand_and_collect', 'celest/units/core.py')])
P('U04', 'Operations on quantities of different dimension are rejected',
  'to()/convert_to() to a unit of another dimension, and +, -, ==, !=, <, <=, >, >= between quantities of different dimension, always raise an exception and never return a value; '
  'with equal dimensions they never raise for that reason.',
  ['inputs'], 'all data values; all ordered pairs drawn from a family of named and compound units including powers, reciprocals, cancelled and reordered products',
  'The pairs of dimensions are unbounded; tests check two or three.',
  UF, [('dimension check in Quantity', 'celest/units/quantity.py'), ('get_dimension_string', 'celest/units/display.py')])
P('U05', 'Quantity arithmetic and comparison are physical and element-wise',
  'Sums, differences, products, quotients and comparisons of quantities equal the same operation on the physical magnitudes (data times unit size), element by element, whatever units the '
  'operands are expressed in; a plain number multiplies or divides the data, and adds in the unit of the quantity; negation and reflected operands follow the same rules.',
  ['inputs'], 'all data values, scalar and array operands mixed in every way; unit pairs of equal and of different dimension',
  'Operator methods have per-branch code for operand kinds and unit relations; each branch has to be right for all values.',
  UF, [('Quantity.__add__ ... __ge__', 'celest/units/quantity.py')])
P('U06', 'Unit algebra is a homomorphism on sizes',
  'For any expression built from units with *, /, ** and numeric factors, the size of the resulting unit is the same expression of the sizes of its parts: repeated bases are merged, '
  'cancelled or raised without losing a factor or an exponent.',
  ['programs', 'inputs'], 'every product, quotient and power of named units and nested expressions up to depth 4',
  'The collect-and-cancel code behaves differently for each pattern of repeated, nested and cancelling bases; tests pin a few of them.',
  UF, [('CompoundUnit._expand_and_collect', 'celest/units/core.py'), ('BaseUnit operators', 'celest/units/core.py')])
P('U07', 'Dimensions of units are equal exactly when their exponent vectors are equal',
  'The dimension reported for a unit or quantity depends only on the total exponent of length, time, angle and Julian date in it, never on the order in which its factors were written, '
  'and different exponent vectors give different dimensions.',
  ['programs'], 'all pairs from a family of unit expressions, including every permutation of a four-factor product and of a four-step product/quotient chain',
  'Order dependence shows only for particular orders of particular factors.',
  UF, [('get_dimension_string', 'celest/units/display.py'), ('get_dimensions_from_unit', 'celest/units/display.py')])

AF = ['celest/coordinates/astronomical_quantities.py', 'celest/coordinates/nutation_precession_matrices.py', 'celest/constants.py']
P('U08', "A unit's string denotes exactly that unit",
  'str() of a unit shows its full numeric factor, then every named unit of the numerator and, after a slash, of the denominator, each name once with its total exponent in absolute value '
  '(left out when it is 1; an empty numerator is 1), so that the string read back denotes exactly the unit and different factors or exponents never share a string; str() of a quantity is its data followed by that string.',
  ['programs'], 'every named unit, all products, quotients and powers of pairs, integer, fractional and negative exponents, numeric factors, and nested expressions to depth 4',
  'Tests print two or three units. The string also decides whether two units are the same one (conversion compares it) and labels the columns of every saved file, for unboundedly many unit expressions.',
  UF, [('_to_string', 'celest/units/display.py'), ('CompoundUnit._expand_and_collect', 'celest/units/core.py')])
P('A01', 'Astronomical quantities equal their published series',
  'The Earth rotation angle, nutation arguments and components, precession angles, mean and apparent obliquity, equation of time, equation of the equinoxes, solar right ascension, '
  'prime-vertical radius of curvature, and the bias, precession and nutation matrices equal the published series they are named after (mean lunar/solar arguments, IAU 1980 '
  'main terms, IAU 2006 precession polynomials, WGS84), for every date from 1900 to 2100, scalar or array, in the unit they are tagged with.',
  ['inputs'], 'all Julian dates 1900-2100 (all latitudes for the radius of curvature), scalar and array inputs',
  'A wrong coefficient, sign or missing reduction shows only away from the dates a test samples, and the tests take their values from the code.',
  AF, [('astronomical quantity functions', AF[0]), ('bias, precession and nutation matrices', AF[1])])
P('A02', 'Angles reported as reduced lie in one revolution',
  'The Earth rotation angle, the nutation arguments and the solar right ascension lie in [0, 360) degrees (or [0, 2 pi)) for every Julian date, including dates far before and after J2000.',
  ['inputs'], 'all Julian dates in 0 .. 5,000,000', 'Sign conventions of remainders fail only for particular epochs.', AF, [('reductions', AF[0])])

TF = ['celest/time.py', 'celest/coordinates/astronomical_quantities.py']
P('T01', 'Solar time, hour angle and UT follow their definitions',
  'Mean/true solar time, mean/true hour angle and UT1 at every date and longitude equal their definitions (fraction of the day plus longitude/15, plus the equation of time for true time, '
  'minus 12 h for hour angles), lie in [0, 24), and are returned in hour angle with one value per date; longitude may be a scalar, list or array.',
  ['inputs'], 'all Julian dates 1900-2100 and all longitudes from -180 to 360, scalar and array', 'Wrap-around and sign errors show only on parts of the date-longitude plane.',
  TF, [('Time solar methods', TF[0])])
P('T02', 'Sidereal times are consistent and lie within a day',
  'GMST follows the IAU polynomial to within 2e-4 h, GAST equals GMST plus the equation of the equinoxes, local sidereal times equal the hour angle plus solar right ascension '
  '(plus longitude and the equation of the equinoxes for the apparent one), all reduced into [0, 24) hours, for every date and longitude.',
  ['inputs'], 'all Julian dates 1900-2100, all longitudes from -180 to 360, scalar and array', 'Reductions near 0/24 h and the size of the equation of the equinoxes are not visible at sampled points.',
  TF, [('Time sidereal methods', TF[0])])
P('T03', 'Julian dates convert to the correct calendar date and day of year',
  'from_julian() gives the Julian-calendar date before 15 October 1582 and the Gregorian date from then on, day_of_year() counts the days of that year with its leap rule, and '
  'Time.datetime() denotes exactly the instant of the Julian date, for every date, also in batches that span the reform.',
  ['inputs'], 'all Julian dates 0 .. 5,373,484 on a 1/8-day grid with the reform, month, leap and century boundaries included', 'Calendar rules fail only around century years, the reform and month ends.',
  TF, [('from_julian, day_of_year', TF[1]), ('Time.datetime', TF[0])])
P('T04', 'Batches of dates give what each date gives alone',
  'For every time and astronomical function, entry i of the result of an array of dates (and longitudes) equals the result for date i alone and does not depend on the other dates of the batch.',
  ['inputs'], 'all triples of dates, modern dates and dates around the calendar reform', 'Cross-talk between entries needs particular mixtures in one batch.', TF, [('vectorised functions', TF[1]), ('Time methods', TF[0])])
P('T05', 'Time computations never modify or alias their inputs',
  'No method of Time and no astronomical function changes the Julian dates or longitudes it was given, or returns an array that shares storage with them; calling a method twice gives the same result.',
  ['inputs', 'histories'], 'all dates and longitudes, every method', 'In-place modification shows only in later uses of the same array.', TF, [('Time methods', TF[0]), ('astronomical functions', TF[1])])
P('T06', 'Time stores the given dates plus offset, one value per date',
  'Time(julian, offset) holds julian+offset for scalars, lists, tuples, 0-d and 1-d arrays and integer dates, reports their number as its length, rejects arrays of more than one dimension, '
  'and every method returns exactly one hour-angle value per date.',
  ['inputs'], 'all dates and offsets, every accepted form of the argument', 'The forms of the argument multiply with the methods.', TF, [('Time.__init__', TF[0])])

CF = ['celest/coordinates/transforms.py', 'celest/coordinates/coordinate.py']
FF = ['celest/coordinates/frames/%s.py' % f for f in ('base_positions', 'gcrs', 'itrs', 'wgs84', 'azel', 'lvlh', 'attitude')]
P('C01', 'GCRS to ITRS is the Earth rotation at each date',
  'Converting a GCRS position to the ITRS applies, at each date, the rotation R3(GAST)*N*P*B built from the apparent sidereal time, nutation, precession and frame bias, in the unit of the input, keeping the time.',
  ['inputs'], 'all dates 1900-2100, all positions, several length units, batches of one to three', 'Per-entry matrices and unit handling must be right for all dates and positions together.',
  CF + AF[:2], [('_gcrs_to_itrs', CF[0])])
P('C02', 'ITRS to GCRS is the inverse rotation',
  'Converting an ITRS position to the GCRS applies the transpose of the GCRS-to-ITRS rotation of the same date, so a round trip in either order returns the original position and lengths are preserved.',
  ['inputs'], 'all dates 1900-2100, all positions, several length units, batches', 'The inverse must match at every date, not at a sampled one.', CF + AF[:2], [('_itrs_to_gcrs', CF[0])])
P('C03', 'Geographic and ITRS coordinates convert exactly both ways',
  'WGS84 to ITRS follows the ellipsoid formula for every latitude, longitude and height, ITRS to WGS84 recovers them (poles, equator and both hemispheres included), and the result does not depend on the batch or the units used.',
  ['inputs'], 'all latitudes, longitudes and heights from -100 m-scale below the surface to high orbit, several units, batches', 'Quadrants, poles and convergence of the inverse fail on regions of the sphere only.',
  CF, [('_wgs84_to_itrs, _itrs_to_wgs84, _altitude', CF[0])])
P('C04', 'A ground location is its ellipsoid point, and invalid ones are rejected',
  'GroundLocation accepts exactly latitudes in [-90, 90] and longitudes in [-180, 180] degrees, whatever angle unit they are given in, raises otherwise, and its ITRS coordinates are those of the WGS84 point.',
  ['inputs'], 'all latitudes, longitudes and heights in every angle and length unit, limits included', 'The limits depend on the unit of the argument.', ['celest/coordinates/ground_location.py'] + CF[:1],
  [('GroundLocation', 'celest/coordinates/ground_location.py')])
P('C05', 'Azimuth and elevation are the local horizontal angles of the satellite',
  'Converting a position to AzEl gives the elevation above the local geocentric horizon and the azimuth clockwise from north within 0 to 360 degrees (north itself may be given as either), for every site and direction, in both hemispheres.',
  ['inputs'], 'all sites, all satellite positions, several units, batches; the cardinal directions', 'A hemisphere or quadrant error is invisible at most sampled geometries.', CF, [('_itrs_to_azel', CF[0])])
P('C06', 'Aligned geometry gives finite, exact limits',
  'A satellite exactly overhead (or on the opposite side) has elevation +90 (-90) degrees and the right look angle and distance, never NaN, whatever rounding does, and conversions are finite on the axes.',
  ['inputs'], 'all sites with the satellite on the site radius; positions on coordinate planes and axes', 'Rounding pushes an inverse cosine argument beyond one only for particular sites.', CF + ['celest/satellite.py'],
  [('_get_ang', CF[0])])
P('C07', 'Frame conversion is consistent on every route and rejects invalid requests',
  'For every source and target among GCRS, ITRS, WGS84 and (as a target) AzEl, convert_to returns an object of the target class with the same times, equal to going through the ITRS; a frame converted to itself '
  'is returned as is; AzEl without a location and unsupported source objects raise ValueError.',
  ['inputs', 'programs'], 'all positions and dates; every ordered pair of frames', 'Routing is one branch per pair; tests do not cover all pairs and check numbers at one date.', CF, [('Coordinate', CF[1])])
P('C08', 'Coordinate frames store each component under its own name and unit',
  'Every frame returns exactly the given components under their own names, in the given units, with one time per entry; to_numpy(unit) stacks them in order in the requested unit; '
  'arrays of unequal length, of a length different from the time, or of more than one dimension raise.',
  ['inputs'], 'all component values, several units, batches, every combination of unequal lengths', 'Each frame repeats the constructor with its own fields.', FF, [('frame constructors, to_numpy', FF[0])])
P('C09', 'Coordinate conversions never modify or alias their operands',
  'Converting a position, computing look angle, distance, altitude or attitude, or saving it leaves the time, components, units and location of every operand as they were, and the components of the results do not share storage with them.',
  ['inputs', 'histories'], 'all positions and dates; every conversion and satellite method', 'Mutation shows only when an operand is used again.', CF + FF + ['celest/satellite.py'], [('transforms', CF[0])])
P('C10', 'The LVLH frame is right-handed, orthonormal and built from position and velocity',
  'Converting to the LVLH frame expresses position and velocity in the orthonormal right-handed triad with z towards the Earth, y along the negative orbit normal and x completing it, at every date; inputs outside the GCRS raise.',
  ['inputs'], 'all positions and velocities, batches of one to three, several units', 'Axis signs and per-entry matrices need all directions at once.', CF[:1] + FF, [('_gcrs_to_lvlh', CF[0])])

SF = ['celest/satellite.py'] + CF[:1]
P('S01', 'Altitude, distance and look angle are geometric',
  'Satellite.distance is the Euclidean distance to the site in km, look_angle the angle at the satellite between nadir and the site, altitude the geodetic height, one value per entry, whatever units the position has.',
  ['inputs'], 'all positions and sites, several units, batches', 'Unit mixes and batch axes are not sampled by tests.', SF, [('Satellite', SF[0])])
P('S02', 'Attitude angles point the nadir axis at the ground location',
  'Rotating the LVLH nadir axis by the returned roll, pitch and yaw points it at the ground location at each date (the shortest rotation), with the times and location of the request.',
  ['inputs'], 'all orbits, sites and dates 1900-2100, km and m, batches', 'A sign or unit error in one term changes the pointing only for general geometry.', SF, [('Satellite.attitude', SF[0])])
P('S03', 'A satellite holds the ITRS form of the given position and velocity',
  'Satellite(position, velocity) stores ITRS position and velocity equal to the given ones, converted when given in the GCRS, in every combination, rejects other frames, and refuses attitude without velocity.',
  ['inputs', 'programs'], 'all dates, positions and velocities; all frame combinations', 'The combinations of optional velocity and frames.', SF, [('Satellite.__init__', SF[0])])

XF = ['celest/file_save.py']
P('F01', 'A text file contains every header, layer, column and row, aligned',
  'TextFileWriter writes one UTF-8 file whose name ends in .txt, containing the header, then every layer in order with its subheading, every parameter as "label: value", and a table with every column under its '
  'label (with the unit for quantities) and every row, each number in the requested format and each cell exactly as wide as its column; saving again writes the same text and changes no input.',
  ['inputs'], 'all numeric values; every combination of optional header, subheading, parameters and data; quantity, real, integer and text columns; one to three rows and layers',
  'Row, column and width handling depend on the combination of layers and on the widths of the values.', XF, [('TextFileWriter', XF[0])])
P('F02', 'Saved frames and satellites list each component under its own label',
  'save_text_file of every coordinate frame and of Satellite writes the times and every component under its own label and unit, in the order of the entries, with the location of topocentric frames; a satellite file '
  'holds ITRS and GCRS positions (and velocities exactly when it has one) that agree with the frame conversion.',
  ['inputs', 'programs'], 'all component values; every frame class; units; one to three entries; satellites with and without velocity', 'Each frame repeats its own label table.',
  XF + FF + ['celest/satellite.py'], [('save_text_file of each frame', FF[1]), ('Satellite.save_text_file', 'celest/satellite.py')])
P('F03', 'Location strings denote the location to a hundredth of an arc second',
  'str() of a ground location is latitude, longitude and height in degrees, minutes and seconds with minutes and seconds below 60, the right hemisphere letters, within half of the last digit of the angles, whatever the units.',
  ['inputs'], 'all latitudes, longitudes and heights; angle and length units; values next to full minutes and degrees', 'Carries occur only for values just below a full minute or degree.',
  ['celest/angle_strings.py', 'celest/coordinates/ground_location.py'], [('_ISO6709_representation', 'celest/angle_strings.py')])
P('F04', 'Files and ephemerides are closed on every path',
  'Every text file and ephemeris kernel the library opens is closed before the operation ends, also when any single write or ephemeris computation fails, files are opened for UTF-8 writing, and nothing is written after closing.',
  ['fault_sequences'], 'every point at which a write or an ephemeris computation can fail, in every saving operation and in the lighting filter', 'Tests do not inject failures.',
  XF + ['celest/encounter/window_generator.py'], [('TextFileWriter.save', XF[0]), ('_get_sun_gcrs', 'celest/encounter/window_generator.py')])
D[-1]['tech'] = 'static analysis: typestate (open / closed) over all traces of the abstract interpreter, with a failure edge at every write and every ephemeris computation'

EF = ['celest/encounter/window_generator.py', 'celest/encounter/window_handling.py']
P('E01', 'Windows are exactly the maximal visible runs of the samples',
  'generate_vtws returns one visible time window per maximal run of consecutive samples at which the satellite elevation is above the threshold, in time order, each rising at the sample before the run (or at the first '
  'sample when the run starts there) and setting at the last sample of the run; none when the satellite is never visible; thresholds outside 0 to 90 degrees, a missing velocity and an unknown lighting raise.',
  ['inputs'], 'all sites, all satellite positions, thresholds 0-60 degrees, increasing times; every visibility pattern of up to four samples (five in the thorough tier)',
  'Runs touching the ends, single-sample runs and empty results depend on the visibility pattern, and the tests use one orbit.', EF[:1], [('generate_vtws', EF[0]), ('_root_find', EF[0])])
P('E02', 'The lighting filter keeps exactly the samples with the requested light',
  'With DAYTIME (NIGHTTIME) lighting the windows are the maximal runs of samples that are visible and at which the Sun, taken from the ephemeris relative to the Earth, is above (below) the horizon of the site at that sample.',
  ['inputs'], 'all sites, Sun and satellite positions and dates; every pattern of two or three samples (four in the thorough tier)',
  'The ephemeris is absent from the test environment; sign, frame and origin errors of the Sun vector need all geometries.', EF[:1] + CF[:1], [('_get_sun_gcrs and the lighting filter', EF[0])])
P('E03', 'Every window carries the attitude towards its location',
  'Each window returned by generate_vtws has the attitude Satellite.attitude(location) gives: the same angles at all times of the satellite, and the requested location.',
  ['inputs'], 'all sites and satellite positions and velocities; one and three samples', 'Windows are shared by the scheduler, which trusts their attitude.', EF + ['celest/satellite.py'], [('generate_vtws', EF[0])])
P('E04', 'A window collection holds one kind of window in order of addition',
  'WindowCollection keeps windows of one kind in the order added, reports their number, can be iterated repeatedly and in nested loops, and indexed; adding anything that is not a window, or a window of the other kind, '
  'raises TypeError and leaves it unchanged; windows report the times, durations, locations and attitudes they were created with.',
  ['programs', 'histories'], 'empty to four windows of either kind followed by every kind of invalid addition; interleaved iterations', 'Iteration state and the effect of a rejected addition show only in sequences of operations.',
  EF[1:], [('WindowCollection', EF[1])], state='WindowCollection._window_data')
P('E05', 'Saved windows list every window under the right labels',
  'WindowCollection.save_text_file writes one row per window in order: rise and set times of visible windows; start time, duration in seconds, location and the roll, pitch and yaw of observation windows, each under its '
  'label and unit whatever the units given; an empty collection raises.',
  ['inputs'], 'all times, durations and angles; one to three windows; angle and time units', 'No test writes more than one kind of window or units other than the default.', EF[1:] + XF, [('WindowCollection.save_text_file', EF[1])])

KI, KR, KH, KA, KS, KU = ['celest/schedule/%s.py' % x for x in ('insertion_operators', 'removal_operators', 'request_handler', 'alns', 'scheduler', 'scheduling_utils')]
P('K01', 'Insertion schedules exactly the feasible requests, in order, up to the limit',
  'Each insertion operator considers the unscheduled requests in its order (decreasing priority; increasing number of windows; the given order with the windows of each request by increasing conflict) and schedules a request '
  'into the first of its windows where the observation, started half its duration after the middle of the window, lies strictly inside the window, ends before the deadline, has at least the minimum image quality and overlaps no '
  'scheduled observation; it stops after the requested number, and leaves everything else, scheduled requests included, unchanged.',
  ['inputs', 'histories'], 'all windows, durations (days, hours, minutes, seconds), deadlines, qualities and scheduled starts, boundaries included; up to three requests and windows; limits 0-2',
  'Each guard is one comparison, and an error shows only where exactly that guard decides.', [KI, KH], [('insert_first_n_requests', KI), ('greedy, minimum opportunity and minimum conflict insertion', KI)])
P('K02', 'The request handler keeps requests, schedules and counters in step',
  'After every sequence of adding, scheduling, rescheduling and unscheduling requests, the handler lists exactly the added requests in order, each with exactly its latest schedule or none, the number of requests and of '
  'scheduled requests is right, every accessor agrees with the stored request, and iterations are complete, repeatable and independent of each other.',
  ['histories'], 'every history of up to three operations (four in the thorough tier) on two requests, with any starts and durations', 'Counters drift only over particular sequences.', [KH], [('RequestHandler', KH)],
  state='RequestHandler.requests and its counters')
P('K03', 'Removal operators remove exactly the requested number, in their order',
  'Each removal operator unschedules exactly the requested number of scheduled requests (all when fewer are scheduled) - those of highest priority, most windows or greatest conflict first, or any for random removal, where every '
  'scheduled request can be chosen - terminates, returns the handler and leaves every other request and schedule unchanged.',
  ['inputs', 'schedules', 'histories'], 'every combination of three scheduled or unscheduled requests, removal of 0 to 5, every sequence of random choices; any windows for conflicts', 'Random choices hide unreachable requests and endless loops.',
  [KR, KH], [('removal operators', KR)])
P('K04', 'Sorting orders requests or windows and loses nothing',
  'Every sort of the handler leaves the same requests with the same windows, orders them by its key (priority or conflict degree decreasing, number of windows either way; windows by rise time or conflict degree increasing), accepts '
  'ties, and keeps every schedule attached to the window it was made for. The conflict degree of a window is the mean overlap with the windows it meets.',
  ['inputs', 'histories'], 'all priorities and windows; up to three requests or windows, every combination of window counts; equal, identical, touching and nested windows; handlers sorted, scheduled and unscheduled before their last request was added', 'A schedule refers to a window by index, which sorting invalidates.',
  [KH], [('sort_* methods, _conflict_degree', KH)])
P('K05', 'Image quality, bounds, deadline and conflict tests decide what they name',
  'image_quality is the integer floor of a scale falling linearly from 10 at the middle of the window to 1 at its ends; the bounds test holds exactly strictly inside the window; the deadline test exactly when the observation ends '
  'before it; a conflict exists exactly when the observation overlaps a scheduled one in more than a point, whatever units durations have.',
  ['inputs'], 'all times and durations, boundaries included; up to two scheduled requests', 'Tests sample one arrangement of intervals per test.', [KI], [('image_quality, is_window_within_vtw_bounds, does_window_meet_deadline, does_conflict_exist', KI)])
P('K06', 'A requested look angle is met at its crossing or the window is not used',
  'For a request with a look angle the observation starts at the last sample before the pitch of the window attitude crosses that angle inside the window (whatever angle unit), subject to the guards of insertion, and the window is '
  'skipped when the angle is not crossed.',
  ['inputs'], 'all sample times, monotone and arbitrary pitch sequences of four to six samples (eight in the thorough tier), any look angle, several windows', 'A bisection is wrong only for particular crossing positions.', [KI], [('_look_angle_time', KI)])
P('K07', 'The search returns the best solution found and never touches the initial one',
  'ALNS.solve starts each iteration from a copy of the current solution; accepts a solution that is not worse, and a worse one with probability exp(100 (new - current) / (T current)), T starting at 0.05 cost / ln(1/2) and multiplied '
  'by p each iteration; returns, as its own copy, the first solution of least cost seen; stops when that is complete or after max_iter; moves the weights of the operators used to (1-l) w + l score / 6 with score 3 (new best), 2 '
  '(better), 1 (accepted), 0; draws operators in proportion to the weights (uniformly when all are zero); and never divides by zero.',
  ['inputs', 'schedules', 'histories'], 'any costs each iteration may produce, every sequence of operator choices and random draws, up to three iterations (four in the thorough tier), first and after earlier searches with the same object', 'The tests cannot enumerate random choices; aliasing shows only after a rejected iteration.',
  [KA], [('ALNS.solve', KA)], state='current, temporary and best solution; operator weights')
P('K08', 'A generated plan is feasible, free of overlaps and no worse than the initial one',
  'Scheduler.generate returns observation windows, at most one per request, each with the requested duration and location, inside a window of its request, ended before the deadline, not overlapping any other, and with the attitude '
  '(and location) of the sample nearest its start; without iterations it is the initial solution, and iterations never lower the total priority; a request that names a look angle starts where it is crossed; '
  'generating again, also after adding requests, gives such a plan of all requests and changes none returned before; without requests it raises.',
  ['inputs', 'schedules', 'histories'], 'all windows, durations, sample times and angles; up to two requests and three windows; no iteration and one (two in the thorough tier) with every random choice; plans generated again', 'The plan is the composition of all operators; the tests of the scheduler need data that is not shipped.',
  [KS, KA, KI, KR, KH, KU], [('Scheduler.generate', KS)])
P('K09', 'A scheduler request records its inputs in the documented units with its windows',
  'Scheduler.add_request records the location, the deadline (JD2000), the duration (seconds), priority, quality and look angle (degrees, or none), unscheduled, with exactly the windows generate_vtws gives for the scheduler threshold and the '
  'requested lighting (daytime by default); a scheduler for anything but a satellite or a non-numeric threshold raises TypeError.',
  ['inputs'], 'all values; all lighting choices, with and without look angle', 'Needs the ephemeris, which tests do not have.', [KS, KH], [('Scheduler.add_request', KS)])
P('K10', 'Cost, completeness and the initial solution reflect the schedule',
  'cost is minus the summed priority of the scheduled requests, is_complete holds exactly when all are scheduled, neither changes the handler; the initial solution inserts requests by decreasing priority, each into its earliest feasible window.',
  ['inputs'], 'all priorities; every combination of up to three scheduled and unscheduled requests; all windows, deadlines, durations and qualities', 'Iteration over the handler skipped requests unnoticed.', [KU, KH], [('cost, is_complete, initialize_solution', KU)])


def _na(id, title, statement, over, quant, why, files, mech, reason):
    P(id, title, statement, over, quant, why, files, mech)
    d = D.pop()
    d.pop('note')
    NA.append((d, reason))


P('H01', 'Results depend on the arguments, never on earlier calls',
  'Every astronomical function, method of Time, frame conversion, ground location, satellite geometry method and unit or quantity operation gives the same result whether it is called first or after any other calls - '
  'with the same dates and other positions, longitudes or locations, with dates that share an entry or the number of entries, on the same object or on another - and a result already returned is not changed by later calls.',
  ['histories', 'inputs'], 'all argument values; earlier calls of the same function with arguments that agree in part, of the other functions, and of the other methods of the same object, before and after the call',
  'A cache, a reused buffer or a field filled by one call and read by the next goes wrong only for particular sequences of calls; tests start from fresh objects and look at one call.',
  ['celest/coordinates/astronomical_quantities.py', 'celest/coordinates/transforms.py', 'celest/time.py', 'celest/satellite.py', 'celest/units/quantity.py'],
  [('functions of dates', 'celest/coordinates/astronomical_quantities.py'), ('frame conversions', 'celest/coordinates/transforms.py'), ('Time', 'celest/time.py'), ('Satellite', 'celest/satellite.py')])
P('H02', 'The windows of a site do not depend on windows found before',
  'generate_vtws gives the same windows for a satellite, location, threshold and lighting whether or not windows for another location, threshold, lighting or satellite were generated before, and windows already returned do not change.',
  ['histories', 'inputs'], 'all satellite positions, sites, dates and Sun positions of 1 or 2 samples; earlier calls that agree with the call in all but one argument',
  'Planning many sites for one satellite is the normal use, and a value kept from one site to the next (the Sun of other dates, the elevations of another site) gives plausible windows; tests generate windows once.',
  ['celest/encounter/window_generator.py', 'celest/satellite.py', 'celest/coordinates/transforms.py'],
  [('generate_vtws', 'celest/encounter/window_generator.py'), ('lighting constraint', 'celest/encounter/window_generator.py')])
P('H03', 'Objects share no state with other objects of their kind',
  'Request handlers, window collections, text file writers, schedulers and searches show exactly what was added to and done with them: making, filling, sorting, saving, solving or planning another object of the kind, before or in between, '
  'changes nothing, and a new object starts empty.',
  ['histories'], 'objects made before, between and after the use of others, with all combinations of the use patterns analysed; all times and costs',
  'State shared through a class attribute, a default argument or a module shows only when a program holds two objects; tests hold one.',
  ['celest/schedule/request_handler.py', 'celest/encounter/window_handling.py', 'celest/file_save.py', 'celest/schedule/scheduler.py', 'celest/schedule/alns.py'],
  [('RequestHandler', 'celest/schedule/request_handler.py'), ('WindowCollection', 'celest/encounter/window_handling.py'), ('TextFileWriter', 'celest/file_save.py'), ('Scheduler', 'celest/schedule/scheduler.py')])

NA = []
_na('N01', 'The search converges to high-value plans',
    'Given enough iterations the adaptive search finds plans close to the best achievable total priority.', ['histories'], 'all request sets and random histories', 'Quality is statistical over many random histories.',
    [KA, KS], [('ALNS.solve', KA)],
    'The value of a plan after many iterations is a distribution over run-time random histories; no static argument in reach bounds it. What is decidable (acceptance rule, best-so-far, feasibility) is claimed as K07 and K08.')
_na('N02', 'Positions agree with external ephemerides and observation data',
    'Converted positions, sidereal times and Sun positions agree with published reference data to the accuracy of the truncated series used.', ['inputs'], 'all dates', 'Needs reference data for every date.',
    CF + ['celest/encounter/window_generator.py'], [('transforms and astronomical series', CF[0])],
    'Agreement with external measurements is not a property of the source; the formulas are compared with their published definitions instead (A01, A02, T01-T06, C01-C03), and de421.bsp is not shipped in this tree.')
_na('N03', 'Results are accurate to a stated number of floating-point digits',
    'Rounding errors accumulated through a conversion stay below a stated bound.', ['inputs'], 'all doubles', 'Error bounds hold per operation sequence.',
    CF, [('transforms', CF[0])],
    'The analysis works over real-valued graphs evaluated in double precision with tolerances; a sound bound on accumulated rounding through trigonometric series needs an error analysis beyond this family here. Discrete effects of rounding (arccos beyond 1, sexagesimal carry, column width) are claimed in C06, F01 and F03.')
_na('N04', 'Window rise and set times equal the true rise and set of the satellite',
    'The rise and set times of windows are those of the continuous orbit, not of its samples.', ['inputs'], 'all orbits between samples', 'Samples do not determine the orbit between them.',
    ['celest/encounter/window_generator.py'], [('generate_vtws', 'celest/encounter/window_generator.py')],
    'The input is a sampled trajectory; what happens between samples is not determined by the source. The exact relation to the samples is claimed in E01.')
_na('N05', 'Scheduling finishes within a time budget',
    'Scheduler.generate finishes within a time proportional to requests, windows and iterations.', ['inputs'], 'all request sets', 'Run time depends on sizes and the machine.',
    [KS, KA], [('Scheduler.generate', KS)],
    'Wall-clock time is a run-time quantity; the analysis only decides termination of the loops it interprets (reported as a violation in any property when a loop cannot end).')
