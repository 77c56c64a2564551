"""Writes /verif/properties.jsonl (kept as code so the statements stay readable and diffable)."""
import json, os
IO, NAV, GRAV, UT, DB = ("shipgrav/io.py", "shipgrav/nav.py", "shipgrav/grav.py", "shipgrav/utils.py", "shipgrav/database.toml")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Every navigation fix carries the UTC instant its record encodes",
     "For every supported vessel's navigation format, each position fix that is returned is stamped with exactly the UTC instant its record encodes (calendar date or day-of-year, time of day, decimal seconds of any number of digits), to the microsecond, or to the whole second for Thompson. "
     "Where the date comes from the logger and the time of day from the fix, and the two clocks sit on opposite sides of midnight, the instant is the one nearest the logger's own time. "
     "The two time columns (seconds since 1970 and aware UTC stamps) always denote the same instant.",
     ["inputs"], "all calendar days incl. leap days and year ends, all times of day, all 0-6 digit decimal seconds, logger/fix clock offsets around midnight, all orders of dated, wanted, unwanted and blank lines",
     "Seven tests each look at the first row of one file per vessel; none of them has a date, hour, fraction or clock offset at a boundary.",
     [IO], [("clock parsing from the talker sentence", "shipgrav/io.py:_clock_time"), ("per-vessel date parsing", "shipgrav/io.py:_navdate_*"), ("stamps column", "shipgrav/io.py:read_nav")],
     observe=["read_nav(...).time_sec", "read_nav(...).stamps"])

prop("C02", "Positions are decoded to signed decimal degrees; dropouts stay missing",
     "Every returned fix has latitude and longitude equal to the degrees-and-minutes and hemisphere of its own record (south and west negative). "
     "A record whose latitude or longitude is empty yields a missing position at its own time, never an invented one, and leaves every other fix untouched. "
     "Records of other talkers never contribute a fix, wherever they stand in the file.",
     ["inputs"], "all degrees 0-90/0-180 with boundary minutes and any number of minute decimals, all hemispheres, all dropout patterns and all interleavings of wanted/unwanted lines up to the depth bound, for every vessel format",
     "The tests compare one longitude per vessel with a one-sided inequality; no southern latitude, no dropout, no eastern/western pair is checked.",
     [IO], [("coordinate decoding", "shipgrav/io.py:_navcoords"), ("interpolation at the fix epochs", "shipgrav/io.py:read_nav")],
     observe=["read_nav(...).lon", "read_nav(...).lat"])

prop("C03", "Navigation tables are time-ordered, duplicate-free and lose nothing",
     "Reading any list of navigation files returns exactly one row per distinct fix instant, in strictly increasing time order, holding the first position recorded for that instant (first in the file, then first in the list of files). "
     "With decimation k, exactly every k-th record of each file (starting with its first) takes part, and decimation 0 or 1 keeps everything. "
     "Splitting the records over more files, or naming one file by its bare path instead of a list, does not change the result when nothing is decimated.",
     ["histories", "inputs"], "all record sequences (with repeats and disorder) up to the depth bound, all ways to split them into consecutive files, all decimations up to 4",
     "Tests read one clean file per vessel and look at row 0; duplicates, disorder, several files and decimation are never exercised.",
     [IO], [("per-file unique + interpolation", "shipgrav/io.py:read_nav"), ("final de-duplication", "shipgrav/io.py:read_nav"), ("decimation", "shipgrav/io.py:read_nav")],
     observe=["read_nav DataFrame"])

prop("C04", "Navigation is returned at the requested sampling interval",
     "Navigation that is recorded at a constant interval equal to the requested sampling interval is returned at exactly that interval, one row per record and with the recorded positions. "
     "For any other requested interval the returned rows are spaced by the requested interval with linearly interpolated positions.",
     ["inputs", "configurations"], "native intervals x requested intervals x record counts",
     "No test passes a sampling interval.",
     [IO], [("resampling grid", "shipgrav/io.py:read_nav samp_time")], observe=["read_nav(..., sampling=s)"])

prop("C05", "Tracks across the 180 degree meridian come back continuous and true",
     "Whatever track is read, each returned longitude equals the recorded one up to a whole turn, except that a single fix jumping more than a degree out and straight back may be replaced by the mean of its neighbours. "
     "On a track that crosses the 180 degree meridian (possibly several times, with gaps or dropouts) and stays within one half turn of it, consecutive present fixes never differ by more than half a turn. "
     "Apart from such an excursion, a track that does not cross it is returned with exactly the recorded longitudes.",
     ["inputs", "histories"], "all tracks up to the depth bound over small steps, >1 degree gaps, dropouts and meridian crossings, started near 180E, 180W, Greenwich and mid-ocean, in one file or several",
     "No test file crosses the meridian or has a gap of more than a degree.",
     [IO], [("jump detection", "shipgrav/io.py:read_nav ilocs"), ("wrapping", "shipgrav/io.py:_clean_180cross")], observe=["read_nav(...).lon"])

prop("C06", "Readers dispatch by vessel; overrides win; unsupported vessels are refused",
     "Every reader accepts exactly the vessels it documents and returns the refusal value -999, not data, for any other vessel unless the caller supplies what is missing (own parsing function, talker or scale). "
     "An explicitly given talker, scale factor or parsing function always takes precedence over the built-in one and is used for every file, in order. "
     "A file without any record of the requested talker is refused with -999.",
     ["configurations"], "the full product reader x vessel (all listed, partly listed, unknown) x talker/scale (absent, equal to default, different) x parsing function (absent, given) x path shape (bare, list of 1, list of 2)",
     "Tests cover one unknown vessel per reader and the default of each supported one; combinations with overrides are never run.",
     [IO, DB], [("ship/talker checks", "shipgrav/io.py:read_nav"), ("scale lookup", "shipgrav/io.py:read_bgm_raw"), ("ship dispatch chains", "shipgrav/io.py:read_*"), ("vessel tables", "shipgrav/database.toml")],
     observe=["return values of read_nav, read_bgm_rgs, read_bgm_raw, read_dgs_laptop, read_dgs_raw"])

prop("C07", "BGM3 reads keep every record, its UTC time and scale its counts",
     "Reading BGM3 serial or RGS files of any supported vessel returns one row per record, in file order and then in list order, each with the recorded UTC instant and the recorded counts (serial) or gravity and coordinates (RGS). "
     "Raw gravity in serial reads is the scale factor times the counts of the same row, for the vessel's listed or the caller's own factor. "
     "The result for several files is the concatenation, freshly numbered from 0, of the results for each. A file without records adds nothing, or the list is refused.",
     ["inputs", "histories"], "all count values of a boundary alphabet and all record sequences/splits up to the depth bound, file lengths around internal sniffing windows, time boundaries, all vessels",
     "Tests check the first row of one file per vessel.",
     [IO, DB], [("RGS column selection", "shipgrav/io.py:read_bgm_rgs"), ("serial parsers", "shipgrav/io.py:_bgmserial_*"), ("scaling", "shipgrav/io.py:read_bgm_raw")],
     observe=["DataFrame columns date_time, counts, rgrav, grav, lat, lon"])

prop("C08", "DGS laptop reads map every field and time, and drop only malformed lines",
     "Reading DGS laptop files of any supported vessel returns, for each well-formed record in order, the recorded value of each documented channel under its own name and the recorded UTC instant. "
     "For Langseth, lines that do not have 26 fields are left out, with or without the logger prefix, and have no effect on any other record; a garbled number becomes missing in that field only. "
     "The result for several files is the freshly numbered concatenation of the results for each. A file without valid records adds nothing (in other formats than Langseth's the list may be refused).",
     ["inputs", "fault_sequences"], "each channel carrying a distinct value in every position and sign; all sequences of well-formed and malformed lines up to the depth bound; all splits into files; time boundaries",
     "Tests check three values of the first row for four vessels and no malformed line.",
     [IO], [("column selection", "shipgrav/io.py:_dgs_laptop_*"), ("Langseth cleaning", "shipgrav/io.py:_dgs_laptop_Langseth")],
     observe=["read_dgs_laptop DataFrame"])

prop("C09", "DGS serial reads map every channel, scale cross-coupling, find the time",
     "Reading DGS serial files returns one row per record in order with the recorded value of each documented channel under its own name; the four cross-coupling monitors are multiplied by 1e-5 exactly when scaling is requested (the default) and nothing else is ever scaled. "
     "The time column is the synchronised meter timestamp when there is one, otherwise the logger's own stamp in front of the record, in UTC. "
     "The result for several files is the freshly numbered concatenation of the results for each. A file without records adds nothing, or the list is refused.",
     ["inputs", "configurations"], "each channel carrying a distinct value in every position, synced/unsynced clock, scaling on/off, all vessels, all splits into files up to the depth bound",
     "Tests check the first row of three files with default scaling, one-sided.",
     [IO], [("column selection", "shipgrav/io.py:_dgs_raw_*"), ("scaling", "shipgrav/io.py:read_dgs_raw"), ("timestamp choice", "shipgrav/io.py:_dgs_raw_general")],
     observe=["read_dgs_raw DataFrame"])

prop("C10", "Feed extraction returns every record of the feed and nothing else",
     "Extracting a named feed from a log of mixed feeds returns exactly one row per line of that feed, in file order, wherever it stands - including the first and the last line of the file, with or without a final newline. "
     "Each field appears under the name the description file gives its position, numbers as numbers, and whatever precedes the feed tag is kept apart; naming the feed with or without the leading $ is the same. "
     "A feed that is missing from the description or from the log is refused.",
     ["inputs"], "all sequences of lines (wanted feed, other feeds, blanks, with/without logger prefix, CRLF/LF, final newline or not) up to the depth bound, several feed layouts, both spellings of the tag",
     "One test reads one file and looks at row 0; the wanted feed is never last in it.",
     [IO], [("line scan", "shipgrav/io.py:read_other_stuff while loop"), ("field naming", "shipgrav/io.py:read_other_stuff colnames")],
     observe=["read_other_stuff DataFrame and column info"])

prop("C11", "A file cut off in its last record never corrupts the records before it",
     "If a data file ends at an arbitrary byte inside its last record (logger crash or copy in progress), reading it either fails loudly or returns every complete record before the cut with exactly the values it has in the uncut file. "
     "A cut that removes only the final newline loses nothing.",
     ["crash_points"], "every byte position of the last record of files of every reader and vessel format, with 1-3 complete records before it",
     "No test reads a truncated file.",
     [IO], [("line/field parsers of all readers", "shipgrav/io.py")], observe=["all reader DataFrames"])

prop("C12", "Meter status words decode to their 16 flags, for one word or a table",
     "Decoding a meter status word gives, for each of the 16 documented flags, the binary digit at that flag's position from the most significant bit down. "
     "Decoding a table adds one column per flag right after its first column, in the documented order, each row holding the flags of its own status word, for any row labels and any name of the status column, and leaves existing columns as they were.",
     ["inputs"], "all 65536 status words; all table shapes up to the bound",
     "One word is decoded and four flags looked at; the table form is not tested.",
     [UT], [("bit formatting and flag order", "shipgrav/utils.py:decode_dgs_status_bits")], observe=["decode_dgs_status_bits"])

prop("C13", "Meter .ini files convert to valid TOML with the same keys and values",
     "Converting a meter .ini file writes, next to it, a TOML file of the same base name that any TOML parser reads back with the same sections, keys and values: numbers as numbers, TRUE/FALSE as booleans, everything else as the text that stood right of the first equals sign, quoted (without backslashes) or not. "
     "Comments (// or #), tabs (two spaces), blank lines and the $ that marks talker entries carry over without changing any value, and the .ini file itself is left as it was.",
     ["inputs"], "all documents up to the depth bound over an alphabet of line kinds x value kinds x comment styles",
     "No test calls the converter.",
     [UT], [("regex clean-up and quoting", "shipgrav/utils.py:clean_ini_to_toml")], observe=["output file parsed by tomli"])

prop("C14", "The gaussian smoother is a causal, fixed, unit-gain weighted average",
     "Each output sample of the gaussian smoother is the same fixed, symmetric, positive weighting of the current and the 2*floor(L/2) preceding input samples (samples before the start count as zero), with weights that sum to one and follow the documented 6/L-scaled gaussian; so constants pass unchanged once the filter is full and a pulse appears delayed by floor(L/2). "
     "The output has the input's length, does not depend on later samples or on the container or labels of the input, and a series no longer than the filter is refused.",
     ["inputs", "histories"], "all filter lengths up to the bound x all pulse positions, and all sample sequences over a small alphabet up to the depth bound",
     "One pulse through one filter length, one-sided bound on one sample.",
     [UT], [("ring buffer", "shipgrav/utils.py:gaussian_filter"), ("weights", "shipgrav/utils.py:_gaussian_coeffs")],
     state=[("ring_buffer", "last filt_len samples", "shipgrav/utils.py:gaussian_filter")], observe=["gaussian_filter"])

prop("C15", "Velocities, course and cross/long rotation agree with the track",
     "North and east velocities derived from positions equal the WGS84 meridian and parallel arc rates of the track times the sampling frequency, exactly for tracks polynomial in time up to tenth order, with exactly the first and last five values missing, and each value depends only on the eleven fixes around it. "
     "Course is degrees clockwise from north and, with speed, reproduces both velocities. "
     "Rotation into cross/long components keeps the magnitude, takes the component along the course as long and the one to starboard as cross.",
     ["inputs"], "all positions of a latitude/longitude grid, polynomial tracks of all orders to 10, all windows over a small step alphabet, all headings x accelerations of a grid",
     "Tests use one northward track and one-sided comparisons, one of them satisfied by any negative number.",
     [NAV], [("differentiator taps", "shipgrav/nav.py:tay10"), ("arc scaling", "shipgrav/nav.py:latlon_to_EN"), ("course", "shipgrav/nav.py:ENvel_to_course_heading"), ("rotation", "shipgrav/nav.py:rotate_acceleration_EN_to_cl")],
     observe=["latlon_to_EN, ENvel_to_course_heading, rotate_acceleration_EN_to_cl"])

prop("C16", "The Eotvos correction is the full Harlan correction at every sample",
     "At each interior sample the Eotvos correction equals the vertical acceleration of the platform minus the Earth's centrifugal term computed from central differences of its own and its two neighbouring positions and heights, for any ellipsoid and sampling rate; the first and last value repeat their neighbour and the length is kept. "
     "A platform at rest has zero correction, eastward motion a positive and westward a (smaller) negative one, and for steady level motion the classical formula is met within its accuracy; for any smooth motion it is what the acceleration in space of the platform leaves of that of a point at rest, to the first order in the flattening. "
     "Numerical first and second derivatives are exact for tracks quadratic in time, whatever container or labels the data has.",
     ["inputs"], "all three-sample windows over a grid of latitude, speed, acceleration, height and height rates (including poles and equator), several rates and ellipsoids",
     "One value of one track, one-sided bound.",
     [GRAV], [("finite differences", "shipgrav/grav.py:center_diff"), ("Harlan terms", "shipgrav/grav.py:eotvos_full")], observe=["eotvos_full", "center_diff"])

prop("C17", "Latitude and free-air corrections follow WGS84 everywhere",
     "Theoretical gravity equals the closed-form WGS84 normal gravity at every latitude, is symmetric about the equator and grows from equator to pole. "
     "The second-order free-air correction is zero at zero height and equals the documented quadratic in height with its latitude term, in air or in free water, so it falls with height over the marine range. "
     "Both work sample by sample, for any container.",
     ["inputs"], "all latitudes -90..90 on a fine grid x heights x both media x containers",
     "The only test checks that the correction is 0 at zero height; normal gravity is not compared at all.",
     [GRAV], [("normal gravity", "shipgrav/grav.py:wgs_grav"), ("free air", "shipgrav/grav.py:free_air_second_order")], observe=["wgs_grav", "free_air_second_order"])

prop("C18", "Tide prediction is Longman's formula at the given instant and place",
     "The predicted tidal effect equals Longman's (1959) closed formulas for moon and sun at the given place, height and instant, sample by sample, and the total is the sum of the returned lunar and solar parts. "
     "It depends on the instant only, not on the time zone in which it is expressed, is the same for longitudes a whole turn apart, and inputs of different lengths are refused. It is, within the accuracy of the formulas, the attraction of moon and sun where an independent ephemeris has them.",
     ["inputs"], "grid of longitudes (-180..360) x latitudes x heights x instants (1950-2050, every hour of day, year/leap/midnight boundaries) x time zones",
     "One value at one place and time, one-sided bound.",
     [GRAV], [("time arguments", "shipgrav/grav.py:_convert_datetime_tidetime"), ("Longman formulas", "shipgrav/grav.py:longman_tide_prediction")], observe=["longman_tide_prediction"])

prop("C19", "Platform up-vectors are unit vectors from the causal tilt filter",
     "For any acceleration history the platform up-vectors have unit length, each depends only on accelerations up to its own sample, and they equal the documented second-order tilt filter (given period and damping per axis, damped by default) of acceleration over gravity turned into cross and long tilts. "
     "Missing or flagged-bad accelerations count as zero, zero acceleration keeps the platform vertical, and the two axes use their own period, damping and acceleration.",
     ["inputs", "histories"], "all two-axis acceleration sequences over a small alphabet incl. missing values and bad-data flags up to the depth bound x periods x dampings x sampling intervals",
     "The test looks at sample 0, which is always (0,0,1).",
     [GRAV], [("tilt filter", "shipgrav/grav.py:_tilt_filter"), ("driving terms", "shipgrav/grav.py:up_vecs"), ("rotations", "shipgrav/grav.py:_calc_up_vecs")],
     state=[("lfilter state", "two delayed samples per axis", "shipgrav/grav.py:up_vecs")], observe=["up_vecs"])

prop("C20", "Cross-coupling fit uses all continuous data and recovers true coefficients",
     "If the anomaly is minus a fixed combination of the monitors, the fit returns that combination's coefficients, each under its own monitor's name. "
     "Given timestamps, the data are cut exactly where the time step exceeds five sampling intervals, every continuous stretch of at least 1000 samples takes part - including the one after the last gap - without mixing samples across a gap, and shorter stretches take no part.",
     ["inputs", "configurations"], "all coefficient vectors over a small alphabet; all compositions of stretch lengths around the 1000-sample limit up to the depth bound; gap sizes around the limit",
     "The only test has no gaps, a rank-deficient design and one-sided bounds.",
     [GRAV], [("segmentation", "shipgrav/grav.py:calc_cross_coupling_coefficients end_inds"), ("regression", "shipgrav/grav.py:calc_cross_coupling_coefficients OLS")], observe=["returned df and model.params"])

prop("C21", "Parker gravity of relief and layers equals the Fourier series it cites",
     "The gravity of relief along a line (padded) and over a grid (folded or not), and of a layer of laterally varying density, equals the truncated Parker series / layer transfer function evaluated with the true wavenumbers of the (padded or folded) grid, for every grid size, odd or even, square or not. "
     "Flat relief and uniform layers give zero, and mirroring the input mirrors the output. "
     "The relief is expanded about its mean level and continued from there, so what counts is its distance from the observer: raising both by the same height changes nothing, and for gentle relief the anomaly is the attraction of its masses.",
     ["inputs"], "all reliefs over a small height alphabet on all small 1-D and 2-D grids, all unit-impulse grids of larger sizes, several spacings, depths, contrasts and series orders",
     "Each function is run once on one square or even-sized grid and one value is bounded from one side.",
     [GRAV], [("1-D wavenumbers", "shipgrav/grav.py:grav1d_padded"), ("2-D wavenumbers and folding", "shipgrav/grav.py:grav2d_folding"), ("layer wavenumbers", "shipgrav/grav.py:_kvalue")],
     observe=["grav1d_padded, grav2d_folding, grav2d_layer_variable_density"])

prop("C22", "Cooling models agree with their formulas, inverses and each other",
     "Half-space and plate temperatures and subsidence equal the cited closed formulas at every depth and age, stay at mantle temperature below the plate, and give the same result whether age is given directly or as distance over spreading rate, on either side of the axis. "
     "The depth of an isotherm is the inverse of the temperature: exact for the half-space, the nearest grid depth for the plate.",
     ["inputs", "configurations"], "grid of ages/distances x depths x spreading rates x plate thicknesses x temperatures x material constants",
     "Each function is evaluated at one point with one-sided bounds.",
     [GRAV], [("half-space", "shipgrav/grav.py:therm_halfspace, therm_Z_halfspace"), ("plate", "shipgrav/grav.py:therm_plate, therm_Z_plate")], observe=["therm_* functions"])

prop("C23", "Crustal thickness is the band-limited downward continuation of the residual",
     "Crustal thickness variation equals the residual anomaly (mean removed, sign reversed) continued down to the given depth, divided by 2 pi G times the density contrast, passing wavelengths above the long limit, removing those below the short one and cosine-tapering between, in the order of the input points. "
     "The recovered gravity equals the residual restricted to the passed wavelengths plus the mean, aligned with it; a short limit not below the long one is refused. However closely the points are spaced, wavelengths that are removed contribute nothing.",
     ["inputs"], "all unit impulses and all sequences over a small alphabet on all small line and grid sizes, odd and even, several spacings, depths, contrasts and limits",
     "One line, one value bounded from one side, and one equality between two outputs.",
     [GRAV], [("wavenumbers and taper", "shipgrav/grav.py:crustal_thickness_2D")], observe=["crustal_thickness_2D"])

prop("C24", "The line picker's selection always mirrors the clicks that made it",
     "After any sequence of mouse moves and clicks, the picked points are exactly the left clicks in the time-series panel that were not taken back by a later right click, in order, each the data sample nearest in time to its click, with longitude, latitude and index lists and the drawn markers in step. "
     "The cross-hair and the map dot sit on the sample nearest the pointer whenever the pointer is in that panel and the cross-hair is hidden otherwise. "
     "Clicks outside the panel and right clicks with nothing picked change nothing.",
     ["histories"], "all sequences of move/leave/left/right-click events up to the depth bound over pointer positions on, between and beyond the samples",
     "The interactive cursor has no test.",
     [UT], [("event handlers", "shipgrav/utils.py:_SnappingCursor")],
     state=[("x_seg,y_seg,i_seg", "picked points", "shipgrav/utils.py:_SnappingCursor"), ("_last_index", "last snapped sample", "shipgrav/utils.py:_SnappingCursor")],
     observe=["i_seg/x_seg/y_seg, line and dot updates"])

prop("C25", "Results depend only on the arguments, never on earlier calls or on labels",
     "Every reading and processing function returns the same result for the same arguments and files whatever calls were made before it, whatever callers did to earlier results, in any local time zone and working directory, and again when a file at the same path has been rewritten in between. "
     "Apart from the platform-tilt cleaning of the accelerations it is given and the flag columns added to a status table, no function alters an array, list, table or input file the caller passed in, or leaves a process-wide setting (working directory, environment, random state, numpy error handling and the like) changed. "
     "Functions give the same numbers for arrays and for table columns with any row labels.",
     ["histories"], "all call sequences up to the depth bound over one representative call per public function and calls differing from it in one argument, and every function x container x label choice",
     "Each test makes calls on fresh data once; nothing is called twice or looked at for side effects.",
     [IO, NAV, GRAV, UT], [("no module-level mutable state", "all modules"), ("copies of inputs", "shipgrav/grav.py, shipgrav/nav.py")], observe=["return values and arguments after the call"])

prop("C26", "Concurrent calls from several threads do not disturb each other",
     "Two calls of processing or reading functions running in different threads, on different data or reading the same arrays and files, each return exactly what they return alone, under every interleaving.",
     ["schedules"], "all interleavings of two calls at source-line granularity up to a preemption bound, for every pair of representative calls that share code",
     "Tests are single-threaded.",
     [IO, NAV, GRAV, UT], [("no shared scratch state", "all modules")], observe=["return values per thread"])

prop("C27", "A survey taken from its files to the free-air anomaly comes out true",
     "Navigation files and meter files of one survey, read with the readers for their vessel and combined as the documentation shows (meter reading or calibrated serial counts plus tie, positions taken from the navigation at the meter's instants, latitude, free-air, Eotvos and tide corrections), give at every sample the free-air anomaly that the files encode. "
     "This holds for every supported vessel and meter format, anywhere on Earth including across the equator, the 0 and the 180 degree meridians, on any course, at rest or turning, across midnight, leap days, year ends and clock changes of the local time zone, and however the files are divided and listed. "
     "Course, speed, accelerations and levelling error derived from that survey describe its track, and the cross-coupling fit of its monitors gives back the coefficients that were put in.",
     ["inputs", "configurations"], "all vessel formats x meters x places x motions x nights x divisions into files",
     "Each test calls one function on its own data; units, signs, time bases, row order and column names between the steps are never put together.",
     [IO, NAV, GRAV, UT, DB], [("readers", "shipgrav/io.py"), ("corrections", "shipgrav/grav.py"), ("meter configuration", "shipgrav/utils.py:clean_ini_to_toml"), ("documented workflow", "example-scripts/")],
     observe=["free-air anomaly, levelling error and coefficients at the end of the workflow"])

prop("C28", "Input that cannot be right is refused, never turned into numbers",
     "A call whose input cannot be right is refused, with an exception or the -999 that the readers use, and never answered with numbers. That is so for: positions, times or heights of different lengths in velocities, Eotvos correction and tides; two or more components, accelerations, tilt inputs or heights given in different lengths above one; fewer than 11 positions for velocities or 3 for the Eotvos correction; single numbers where velocities need series; a series no longer than the smoother; a derivative order other than 1 or 2; a short wavelength limit not below the long one; grid sizes or coordinates that do not match the grid; monitors shorter than the anomaly, or no stretch of 1000 samples to fit; a status word that is neither an integer nor a table with the named column; a missing file or a directory anywhere in a list of files; a feed that is not specified or not in the log. "
     "Input that just meets those limits is served, and a refused call has no effect on later ones.",
     ["inputs", "histories"], "all combinations of lengths up to a bound around every limit, all orders, limits, sizes and file positions on a grid, all orders of refused and served calls up to a depth",
     "Two refusals of the vessel name are tested; lengths, limits and files never are.",
     [IO, NAV, GRAV, UT], [("length checks", "shipgrav/nav.py:latlon_to_EN; shipgrav/grav.py:longman_tide_prediction, eotvos_full; shipgrav/utils.py:gaussian_filter"), ("order, limits, types", "shipgrav/grav.py:center_diff, crustal_thickness_2D; shipgrav/utils.py:decode_dgs_status_bits"), ("feeds", "shipgrav/io.py:read_other_stuff")],
     observe=["exception or -999 instead of a result"])

prop("C29", "The mantle Bouguer workflow keeps exactly what it does not model",
     "The residual mantle Bouguer anomaly calculated as the documentation shows - free-air anomaly less the gravity of the water, sediment and crust interfaces and of the isotherms of a cooling half-space or plate, at the depths that the thermal functions give for the age or the distance from the axis - leaves of an anomaly made of those masses nothing, and of anything added to it exactly what was added, on profiles and on grids, folded or not, with the ridge axis anywhere, also at age zero. "
     "A variation of crustal thickness whose gravity is in that residual comes back from it with its amplitude, sign and place: whole where its wavelength is longer than the long limit, cosine-tapered between the limits, and not at all below the short one; an even change of thickness is not seen; and the recovered anomaly is the residual restricted to the same band.",
     ["inputs", "configurations"], "profiles and grids of several sizes x sea floors x sediment covers x places of the axis x cooling models, with every harmonic of crustal thickness",
     "Each test calls one function at one point; units (m, km, Myr, g/cm3, kg/m3), signs and depth conventions between the steps are never put together.",
     [GRAV], [("interfaces", "shipgrav/grav.py:grav1d_padded, grav2d_folding"), ("isotherms", "shipgrav/grav.py:therm_Z_halfspace, therm_Z_plate"), ("thickness", "shipgrav/grav.py:crustal_thickness_2D"), ("documented workflow", "example-scripts/RMBA_calc.py")],
     observe=["residual anomaly and crustal thickness at the end of the workflow"])

prop("C30", "An argument means the same however the call spells it",
     "Every documented argument of the library's functions and readers means the same however it is given: by position in the documented order or by keyword, any number of them either way; left out, or given explicitly with its documented default value, in every combination of options left out and given; as a whole number or as a decimal number of the same value, Python's or numpy's, and as an array of whole numbers (32 or 64 bits) or of decimals.\n"
     "An option left at its default has no influence on what another option does, and every option that is given takes effect together with the others.\n"
     "A reader gives the same records with its progress bar on, off or left to default, and with its file or files named as text (one file), in a list or in a tuple; a feed is found by its tag with or without a dollar sign.",
     ["inputs", "configurations"], "all subsets of options x all numbers of positional arguments for every function; all combinations of number types of up to five arguments; all readers x bar x path forms",
     "Each test spells its call one way; options are nearly always left at their defaults.",
     [IO, NAV, GRAV, UT], [("signatures and defaults", "shipgrav/grav.py, shipgrav/nav.py, shipgrav/utils.py"), ("readers' arguments", "shipgrav/io.py:read_nav, read_bgm_raw, read_bgm_rgs, read_dgs_laptop, read_dgs_raw, read_other_stuff")],
     observe=["results of calls that differ only in spelling"])

prop("C31", "Records mean the same whatever line ends and empty lines surround them",
     "Every reader gives the same table for files that hold the same records: with Unix or Windows line ends or both in one file, with the last line ended or not, and with or without empty lines in front of the first record, between records and after the last one (after any header).\n"
     "In a list of files each may be written its own way; this changes nothing either. No record is lost, doubled or cut, and no empty record appears.",
     ["inputs"], "all assignments of line ends to the lines of a file up to the bound x last line ended or not x empty lines in every place, for every reader and vessel format; all combinations over lists of three files",
     "The test files have one kind of line end each and nothing between their records.",
     [IO], [("line splitting of navigation and feeds", "shipgrav/io.py:read_nav, read_other_stuff"), ("table readers", "shipgrav/io.py:_bgmserial_*, read_bgm_rgs, _dgs_laptop_*, _dgs_raw_*")],
     observe=["returned DataFrame"])

prop("C32", "A read that fails part-way fails as a whole",
     "If an input or output error or an interrupt strikes while a reader (or the .ini conversion) is opening, reading, mapping or writing a file, at whatever operation, the call raises or refuses; it never returns a table that lacks what it had not read. The same holds if any file in a list is missing or is a directory; a file with undecodable bytes never costs the other files' records silently.\n"
     "After such a failure no file is left open by the call and the next call returns everything, as if nothing had happened. Files handed over by the system in pieces of any size (short reads and writes) are read and written whole.",
     ["faults", "histories"], "a fault at every single input/output operation of every reader and vessel format; every piece size; every pattern of unreadable files in lists; pairs of failing calls",
     "All tests read small intact files from a local disk that never fails.",
     [IO, UT, DB], [("opening and reading files", "shipgrav/io.py:read_*"), ("mapping", "shipgrav/io.py:read_other_stuff"), ("conversion", "shipgrav/utils.py:clean_ini_to_toml")],
     observe=["exception, -999 or whole DataFrame", "open files"])

prop("C33", "What a file is called and where it lies has no influence on its contents",
     "Every reader gives the same table for a file whatever its name (any characters, any extension that does not announce a compressed file) and directory, and however its path is written: absolute or relative, with . or .. or doubled separators, through symbolic or hard links, bare or in a list.\n"
     "A list of files is read in the order of the list, never in the order of names, and a file that is mentioned several times counts as that many files. The same holds for feed descriptions and for .ini files, which are converted into the file next to them of the same base name. No other file than the named ones is read, and nothing but the converted file is written.",
     ["inputs", "configurations"], "all names and directories of an alphabet that covers what shells, globbing, formatting, pandas and the readers treat specially; all ways to write a path; all orders and repetitions of files up to the bound; every reader and vessel format",
     "The test files have one fixed name each in one directory.",
     [IO, UT], [("opening paths", "shipgrav/io.py:read_*"), ("output path", "shipgrav/utils.py:clean_ini_to_toml")],
     observe=["returned DataFrame", "files opened during the call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
