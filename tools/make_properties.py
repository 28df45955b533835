"""Writes /verif/properties.jsonl (kept as code so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

ALL = ["pysolar/solar.py", "pysolar/solartime.py", "pysolar/util.py", "pysolar/radiation.py", "pysolar/elevation.py",
       "pysolar/simulate.py", "pysolar/rest.py", "pysolar/constants.py", "pysolar/numeric.py", "pysolar/tzinfo_check.py"]
CACHE = ("aberration_coeffs", "lazily built table of nutation polynomials, shared by all threads", "pysolar/constants.py get_aberration_coeffs")
BACK = ("numeric globals", "the names cos, sin, where, tm_yday, ... every formula goes through; rebound by a backend switch", "pysolar/numeric.py")

p("C01", "Concurrent calls do not disturb each other",
  "When several threads call pysolar's calculation functions (sun position, time scales, irradiance, atmosphere, sunrise/sunset, span simulation) at the same time, in any interleaving and including the very first calls after import, every call returns exactly the value, or raises exactly the exception, that the same call gives when made alone. No such call blocks forever.",
  ["schedules", "inputs"], "every interleaving, at any bytecode, of any set of calls by any number of threads, from any state including just after import",
  "The suite is single-threaded and runs each call once; it explores exactly one schedule.",
  ALL, [("all intermediate values are locals; no scratch state is shared", "pysolar/solar.py"), ("the lazily built table is published in one assignment after it is complete", "pysolar/constants.py get_aberration_coeffs")],
  [CACHE, BACK], ["return value or exception of each call"])
p("C02", "A result never depends on earlier calls",
  "The outcome of a calculation is determined by its arguments and the selected numeric backend: whatever calls came before it in the same process (successful or failing, repeated, with arguments that compare equal but mean something else such as another time zone or the other DST fold, or half-consumed span iterators) it gives the same value or exception as in a freshly started interpreter.",
  ["histories", "inputs"], "every finite sequence of preceding public calls and every argument list",
  "Tests call each function a handful of times with fixed arguments and never compare against a fresh interpreter, so state carried from call to call (a memo with too small a key, a mutated table or default) is invisible.",
  ALL, [("constant tables are only read", "pysolar/constants.py, pysolar/solartime.py"), ("fresh lists and dicts per call", "pysolar/solar.py get_nutation")],
  [CACHE], ["return value or exception of each call"])
p("C03", "An interrupted call leaves no trace",
  "If a calculation is cut short at any point by an asynchronous exception (Ctrl-C, memory exhaustion) or by an exception out of a caller-supplied object such as a time zone or horizon profile, or if an interrupt handler makes other pysolar calls in the middle of it and lets it continue, then every later call, and the call that was only paused, still gives exactly the outcome it has in a fresh interpreter. None of them hangs.",
  ["crash_points", "fault_sequences"], "every interruption point inside any calculation, every later sequence of calls",
  "No test interrupts a call; interruption points are far too many to enumerate by hand and the first call after import, which builds the lazy table, happens once per process.",
  ALL, [("no state is modified before a result is complete", "pysolar/constants.py get_aberration_coeffs"), ("generators keep their state in their own frame", "pysolar/simulate.py")],
  [CACHE], ["outcome of every later call"])
p("C04", "The last successful backend switch governs every calculation",
  "After any history of use_numpy() and use_math() calls, with numpy missing, appearing or disappearing along the way, every calculation behaves (values, scalar result types, acceptance or refusal of arrays) exactly as in an interpreter where only the last successfully selected backend was ever selected. A use_numpy() that cannot import numpy raises ImportError and leaves the previous backend fully in effect; without numpy the library still imports and computes with the math backend.",
  ["histories", "fault_sequences", "configurations"], "every sequence of switches, of numpy import failures and recoveries, and of calculations in between",
  "The suite always has numpy, switches a few times in one fixed order and looks only at whether calls raise.",
  ["pysolar/numeric.py", "pysolar/__init__.py"], [("use_numpy / use_math rebind every name", "pysolar/numeric.py"), ("import fallback", "pysolar/numeric.py bottom")],
  [BACK], ["values and types of results", "numeric.current_mod"])
p("C05", "Backend switches are safe while other threads compute",
  "While some threads call use_numpy() and use_math() at arbitrary moments, scalar calculations in other threads complete and return, to rounding, what they return undisturbed; array calculations are undisturbed by redundant use_numpy() calls. After overlapping or interrupted switches, one further undisturbed switch restores that backend completely.",
  ["schedules", "crash_points"], "every interleaving of switches with calculations and every interruption point inside a switch",
  "Needs the switch to stop half-way while another thread computes; no test uses threads.",
  ["pysolar/numeric.py", "pysolar/solar.py", "pysolar/util.py"], [("each name is rebound directly from one valid function to the other, never through an invalid state", "pysolar/numeric.py use_numpy/use_math")],
  [BACK], ["return values of concurrent scalar calls", "behaviour after a final switch"])
p("C06", "Caller's arrays are never modified and results are never shared",
  "Arrays passed to a vectorised calculation stay bit-for-bit unchanged at every moment, including while the call is still running and other threads use the same arrays. Results share no memory with arguments, with later results or with the library, so a caller may overwrite an argument after the call, or any returned array or nutation mapping, without changing any other result.",
  ["schedules", "histories"], "every interleaving of vectorised calls sharing arrays, and every history of callers overwriting arguments and results between calls",
  "The numpy tests print results of a few calls and never look at the inputs afterwards or call again after overwriting a result.",
  ["pysolar/solar.py", "pysolar/radiation.py", "pysolar/util.py", "pysolar/numeric.py"], [("formulas are written as expressions that allocate, never as in-place updates", "pysolar/solar.py")],
  [], ["argument bytes during and after calls", "results after scribbling over earlier results"])
p("C07", "Observers in different time zones agree on the sun",
  "For one instant, every time-dependent calculation other than the local-day sunrise/sunset/transit family gives the identical result whatever time zone the aware datetime is expressed in: any UTC offset including sub-minute ones, either side of a DST change or fold, across date, month and year lines, before and after a zone changes its rules. The agreement does not depend on which clock readings came before.",
  ["histories", "inputs", "configurations"], "every set of observers with their own civil clocks, every sequence of readings of one shared timeline including clock jumps, DST transitions and zone-rule changes",
  "Tests use UTC or one fixed offset, never the same instant twice in two representations.",
  ["pysolar/solar.py", "pysolar/solartime.py", "pysolar/util.py", "pysolar/radiation.py", "pysolar/numeric.py"],
  [("utctimetuple() and timestamp()", "pysolar/solartime.py"), ("tm_yday / tm_hour / tm_min", "pysolar/numeric.py")], [], ["results of the same calculation by different observers"])
p("C08", "Results do not depend on the process environment",
  "Given the same arguments and backend, a calculation gives the same outcome whatever the machine's wall clock shows and however it jumps, and whatever the TZ setting, working directory, locale, warning filters (short of turning warnings into errors), random state, numpy error settings (short of raising) and state of the standard streams (missing or failing to write) are, also when these change between or during calls.",
  ["configurations", "fault_sequences"], "every sequence of environment changes placed before, between and inside calls",
  "The suite runs with TZ=UTC in one fixed environment on today's clock.",
  ALL, [("calculations read only their arguments", "pysolar/solar.py, pysolar/solartime.py, pysolar/util.py")], [], ["return value or exception of each call"])
p("C09", "Time scales track the atomic clock",
  "For every clock reading from 1972 on, the leap-second count equals the IERS TAI-UTC in force at that UTC instant (the last published value afterwards), the ephemeris Julian day is TAI + 32.184 s, and the UT Julian day lags it by the published monthly Delta-T of that UTC month, with the nearest table entry before and after the table. When the clock advances the ephemeris day advances.",
  ["histories", "inputs"], "every sequence of readings, in any zone, of a clock that runs through leap seconds, month and year ends, jumps and stalls",
  "Tests check one date against one published example; leap-second, month and table edges in non-UTC zones are never visited.",
  ["pysolar/solartime.py"], [("leap_seconds_adjustments walk", "pysolar/solartime.py get_leap_seconds"), ("delta_t lookup and clamping", "pysolar/solartime.py get_delta_t")],
  [("leap_seconds_adjustments, delta_t", "published tables", "pysolar/solartime.py")], ["get_leap_seconds, get_delta_t, get_julian_*"])
p("C10", "Span simulations yield every step exactly once, however they are driven",
  "A span simulation or datetime range with a positive step (whole or fractional minutes) yields one entry per whole step that fits before the end, evenly spaced in elapsed time from the start and read in the zone of the start, also across DST changes; each simulation entry carries the altitude and azimuth a direct call gives, the horizon value in that direction, and a finite non-negative radiation that equals the direct call when the sun is clear of the profile and is zero when it is behind the profile or not above the horizon. This holds however several streams, direct calls and backend switches interleave, and when streams are abandoned, or fail and are restarted from where they stopped.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of stream steps, direct calls and switches; every abandonment, failure and restart point; every start, end, step and zone",
  "simulate.py has no tests at all.",
  ["pysolar/simulate.py", "pysolar/radiation.py", "pysolar/solar.py"], [("generator arithmetic from the start time", "pysolar/simulate.py datetime_range"), ("per-step recomputation", "pysolar/simulate.py simulate_span")],
  [("generator frame", "position of each stream", "pysolar/simulate.py")], ["sequence of yielded tuples"])
p("C11", "Sunrise and sunset alarms ring with the sun on the horizon",
  "For any place and day where the sun rises and sets, and any moment of that local day including days with a DST change, sunrise, transit and sunset are returned in the caller's zone, in that order, transit midway and on that local day, as the same instants whichever moment of that day is asked and whichever of the functions is used. At those instants the library's own sun position is on the horizon (centre at -0.833 degrees within 1 degree) respectively on the meridian (within 0.5 degree); where the sun does not rise or set that day they raise ValueError at every moment of it.",
  ["histories", "inputs"], "every place below polar latitude limits, zone with any DST rule, day and sequence of queries and alarms over that day",
  "Tests only check that the functions do not raise at 1N 1E in UTC.",
  ["pysolar/util.py", "pysolar/solar.py"], [("hour-angle formula anchored at local midnight", "pysolar/util.py get_sunrise_sunset_transit")], [], ["returned datetimes", "sun position when the simulated alarm fires"])
p("C12", "Naive clock readings are always refused, aware ones never",
  "Every function of the solar-position, time-scale and utility (sunrise, irradiance) modules that takes a datetime, and the span simulation (on its first step, for a start and end without time zone), raises NoTimeZoneInfoError when given a datetime without time zone, whether passed by position or by keyword, in every backend, and whatever calls, threads or interruptions came before, including an accepted call with the same wall-clock reading. An aware datetime of any datetime subclass is never refused.",
  ["histories", "schedules", "inputs"], "every history of calls mixing aware and naive readings of the same wall clock, in either backend, on any number of threads",
  "Tests call each function once with one naive value passed positionally, in one state of the process.",
  ["pysolar/tzinfo_check.py", "pysolar/solar.py", "pysolar/solartime.py", "pysolar/util.py"], [("check_aware_dt looks at the actual argument on every call", "pysolar/tzinfo_check.py")], [], ["exception type"])
p("C13", "The Delta-T table generator emits a faithful table or fails",
  "Whenever util/get_delta_t ends successfully, its output is a Python fragment that, put into the time-scale module, makes the library return every received monthly value (to 4 decimals) for its month; received data with a missing, repeated or out-of-order month, a day other than the 1st, or a malformed number never ends successfully. This holds for whatever sequence of short reads, read errors, connection failures, corrupted bytes, short writes and write errors the input and the output meet: an error reading or writing always surfaces as failure; well-formed data that arrives without error always yields a table.",
  ["fault_sequences", "inputs"], "every input table, every chunking of reads and writes and every failure position on input (file or network) and output",
  "The script is not tested at all; faults on its streams cannot be provoked by example tests.",
  ["util/get_delta_t", "pysolar/solartime.py"], [("consistency assertions per record", "util/get_delta_t"), ("errors propagate", "util/get_delta_t")], [], ["exit status", "bytes written to standard output", "get_delta_t after installing the table"])
p("C14", "Using data beyond its validity warns every time and changes nothing",
  "Every call that needs leap seconds for a UTC date after the published data (from July 2026) and every pressure calculation above 11 km issues a warning, no call on covered dates or altitudes does, and the warning never alters the value: it is the one computed from the last published leap second or the plain formula. This holds on any thread, whatever warned before and whatever becomes of the warning text (suppressed, recorded, written to a broken stream), and a warning turned into an error leaves later calls unaffected.",
  ["histories", "fault_sequences"], "every history of covered and uncovered calls on any threads, every warning filter and sink failure",
  "Tests never use a date past the table or look at warnings.",
  ["pysolar/solartime.py", "pysolar/elevation.py"], [("warnings.warn on each call", "pysolar/solartime.py get_leap_seconds, pysolar/elevation.py")], [], ["warnings recorded per call", "returned values"])
p("C15", "The built-in day report follows one reading of the clock",
  "The demonstration report (solar.solar_test) describes the 48 half-hours following one single reading of the current time: it prints, in order, exactly those at which the sun is up, each with the altitude, azimuth and direct radiation direct calls give for that moment, even when the wall clock jumps while it runs. If the output stream fails or the report is interrupted, the error surfaces and what was written is a prefix of that report.",
  ["fault_sequences", "schedules"], "every wall-clock value and jump pattern while the report runs, every output failure position",
  "Not tested; depends on the wall clock.",
  ["pysolar/solar.py"], [("single now() then fixed increments", "pysolar/solar.py solar_test")], [], ["standard output"])
p("C16", "The sun's track has no jumps as the clock advances",
  "Over any two clock readings up to an hour apart, the refraction-free sky position moves by no more than the diurnal rate (15.05 degrees per hour plus 0.02 degrees), in particular across midnights, month and year ends, leap seconds and zone changes, at every place on earth and any time from 1900 to 2100. The local hour angle advances with the clock at 15 degrees per hour within 0.1 degrees per hour plus 0.01 degrees, repeated readings of a stalled clock give the identical position and readings after a backward clock step retrace the same track.",
  ["histories", "inputs"], "every sequence of readings of a clock that ticks, stalls, jumps back and is read in changing zones",
  "Tests look at single moments; a discontinuity at a boundary needs two readings straddling it.",
  ["pysolar/solar.py", "pysolar/solartime.py", "pysolar/constants.py"], [("mod 360 reductions and time-scale tables that must join up", "pysolar/solar.py, pysolar/solartime.py")], [], ["get_position, get_topocentric_position along the clock"])
p("C17", "Calls leave the process and their arguments as they found them",
  "Importing the library and calling its functions, successfully, failing, interrupted or on several threads at once, leaves everything the application shares with it as it was: its arguments (lists, mappings, arrays), warning filters and hooks, numpy error and print settings, decimal context, random states, locale, logging configuration, environment variables and time zone, working directory, standard streams, signal handlers, interpreter limits and hooks, module search path, other modules' names, running threads. No calculation writes to standard output, nor to standard error except through a warning.",
  ["schedules", "crash_points", "histories"], "every interleaving, interruption point and failure of calls and backend switches, from every state of the process",
  "Tests look at return values only; a setting changed and put back goes wrong only when a call fails, is interrupted or overlaps another in between.",
  ALL, [("pure computations: no global setting is touched, nothing printed", "pysolar/*.py")], [BACK], ["process-wide settings, standard streams and arguments before and after"])
p("C18", "A long-running process neither grows nor slows",
  "In a process that keeps using the library with ever new arguments (moments advancing with the clock, failing calls, warnings, abandoned and long-running span streams, calls from short-lived threads, callers' short-lived time zone objects, repeated backend switches), the memory, threads, descriptors and warning records held on the library's behalf stay bounded (a cache of a fixed size of up to some thousand entries is fine), and neither the cost of a call nor of one more step of an open stream grows with the number of calls or steps before.",
  ["histories", "fault_sequences"], "every unbounded history of calls, failures, streams, threads and switches",
  "A test makes a few dozen calls; growth shows after thousands, and often only on failing calls, warnings or new threads.",
  ALL, [("no per-call state is kept", "pysolar/*.py"), ("warning texts come from a bounded set", "pysolar/solartime.py, pysolar/elevation.py")], [CACHE], ["objects and bytes reachable from the modules", "allocated blocks", "bytecodes executed by fixed probe calls and stream steps"])
p("C19", "Sun events keep a 24-hour rhythm from day to day",
  "For any place within 60 degrees of the equator, asked about successive local days, in one zone or in a different one each time, across year ends, leap days, DST and zone-rule changes, transit keeps a 24-hour rhythm with a drift of at most 40 seconds per day, and sunrise and sunset with a drift of at most 4 minutes per day; for the same local date the answers in different zones are the same instants up to whole days. Asking again later, after other days, zones or backends, gives the same instants.",
  ["histories", "inputs"], "every place, every sequence of local days and zones asked about, along a clock that advances, skips days and steps back",
  "Tests look at single days in UTC; a slip between neighbouring days or zones needs at least two answers to be seen.",
  ["pysolar/util.py"], [("day-of-year series joined at the year end; clock noon reduced modulo 24 hours", "pysolar/util.py get_sunrise_sunset_transit")], [], ["returned datetimes of consecutive days"])
def na(id, title, statement, text, why, files):
    p(id, title, statement, ["inputs"], text, why, files, [("closed formula", files[0])])
p("C20", "Trackers that follow the library stay on the sun",
  "A tracker that keeps asking for the sun's position with a running, jumping or restarted clock, at any place, from 1900 to 2099, gets at every reading the direction in which the sun really stands: within 0.007 degrees of an independent ephemeris (0.015 before 1972, when time was not yet tied to TAI), refraction included as documented for the given pressure and temperature. This holds for single calls and calls over a whole fleet of places, in either backend, in any zone, and after calls that failed midway; the documented intermediate quantities (declination, hour angle, nutation, obliquity, sidereal time, sun distance) are those of the ephemeris within 0.002 degrees, given the library's own preceding results.",
  ["histories", "inputs", "fault_sequences"], "every trajectory of the clock, fleet of places, sequence of single and vectorised readings, switches, restarts and failing calls",
  "One published example and four API values are compared; a wrong periodic term, sign or unit shows at other places and times only.",
  ["pysolar/solar.py", "pysolar/constants.py", "pysolar/solartime.py", "pysolar/numeric.py"],
  [("series of periodic terms", "pysolar/constants.py, pysolar/solar.py get_heliocentric_*, get_nutation"), ("chain from heliocentric to topocentric coordinates", "pysolar/solar.py get_position, get_topocentric_position")], [CACHE, BACK], ["positions along the trajectory, intermediate quantities"])
p("C21", "A mount that follows the library always gets a valid command",
  "At every place on earth (poles, equator, date line, the subsolar point and its antipode included) and every moment from 1900 to 2099, however the mount travels, restarts and switches backends, position calls, precise and fast, succeed and give finite commands: azimuth within 0 to 360 degrees, altitude within -90 to 91. get_position, get_azimuth, get_altitude and the zenith angle agree with each other, the sun is overhead where it is in the zenith, and the incidence angle of any panel (slope, orientation measured from south) is the angle between its normal and the commanded direction: zero for a panel facing the sun, the zenith angle for a horizontal one.",
  ["inputs", "histories"], "every journey of a mount, including to the places where the geometry degenerates, through restarts and failing calls, single or vectorised",
  "A handful of ordinary values is tested; rounding at the degenerate places makes inverse sines and cosines fail for single moments only.",
  ["pysolar/solar.py"], [("sines and cosines are clamped before the inverse function", "pysolar/solar.py get_altitude_fast, get_azimuth_fast, get_incidence_angle, get_topocentric_elevation_angle"), ("two-argument arctangent", "pysolar/solar.py get_topocentric_azimuth_angle")], [], ["commands along the journey"])
p("C22", "A tracker that falls back on the fast functions stays close to the sun",
  "get_altitude_fast and get_azimuth_fast never fail and stay within 1.6 degrees (as directions) of the sun at every place and moment from 1950 to 2099: also when called right after a precise calculation was cut off at any point by a timeout, Ctrl-C or allocation failure, while other threads calculate, after restarts and backend switches, in any zone, and vectorised over places or over times. Precise calculations that do complete are within 0.02 degrees (altitude 0.7 with refraction).",
  ["schedules", "crash_points", "inputs"], "every cut-off point of the precise calculation, every interleaving, place and moment",
  "Twelve hours of one day at one place, undisturbed.",
  ["pysolar/solar.py", "pysolar/numeric.py"], [("declination, equation of time and hour angle from the day and UTC minute", "pysolar/solar.py get_altitude_fast, get_azimuth_fast")], [CACHE, BACK], ["fast positions after fallback"])
# ---- C23-C25, C27: stated, but outside this technique
na("C23", "Irradiance correlations are physical",
   "Clear-sky, overcast and extraterrestrial irradiance estimates are non-negative, vanish at night and are bounded by the solar constant scaled by distance.", "every place and time",
   "Only absence of exceptions is tested.", ["pysolar/util.py", "pysolar/radiation.py"])
na("C24", "Standard-atmosphere profile is monotone",
   "Pressure and temperature fall monotonically with elevation up to 11 km and agree with the standard atmosphere.", "every elevation",
   "One elevation is tested.", ["pysolar/elevation.py"])
na("C25", "REST2 transmittances are fractions",
   "Each REST2 transmittance lies in [0, 1] and broadband irradiance is the sum of its bands.", "every altitude and atmosphere",
   "No tests.", ["pysolar/rest.py"])
p("C26", "How samples are batched does not matter",
  "Samples that a station evaluates one at a time may be sent on and evaluated elsewhere in vectorised calls, grouped into arrays in whatever way they happen to arrive (lost and resent, duplicated, reordered, batches of any length, plain, strided, reversed, read-only or multi-dimensional in any memory order, of floating-point numbers or of whole numbers in an integer type where numpy can compute with it, places, angles, environment values or instants varying): each element of each result is what the live scalar evaluation of that sample gives in either backend (to 1e-9 relative). This holds after worker restarts, backend switches and batches that had to be refused, and when a batch is processed again.",
  ["histories", "inputs", "fault_sequences"], "every partition of every set of samples into batches, every arrival order, duplication, layout, restart and refusal",
  "Results of a few arrays are printed, not compared with scalar calls; a branch taken for the whole array instead of each element shows only when samples of different kinds share a batch.",
  ["pysolar/solar.py", "pysolar/util.py", "pysolar/radiation.py", "pysolar/rest.py", "pysolar/numeric.py"],
  [("element-wise selection with where()", "pysolar/numeric.py, pysolar/solar.py, pysolar/util.py")], [BACK], ["elements of vectorised results"])
na("C27", "Geometry identities hold",
   "Incidence angle on a horizontal surface is the zenith angle; azimuth and altitude are consistent with declination, hour angle and latitude.", "every input",
   "One example per function.", ["pysolar/solar.py"])
p("C28", "Importing can be interrupted, retried and repeated",
  "Whatever order the library's modules are imported in, however often an import is cut short at any point (Ctrl-C, memory exhaustion, numpy missing or failing while it is imported) and retried in the same process, and whatever modules are reloaded afterwards, also interrupted and reloaded again: once the imports have succeeded every calculation, through functions obtained before or after, gives exactly the value, type or exception it has in a freshly started interpreter with the same backend (after reloading the numeric module: with the backend selected next). No retried import fails or hangs.",
  ["crash_points", "histories", "fault_sequences"], "every import order, every interruption point inside module-level code, every sequence of retries and reloads",
  "The test process imports everything once, in one order, undisturbed.",
  ["pysolar/__init__.py", "pysolar/numeric.py", "pysolar/constants.py", "pysolar/solar.py", "pysolar/solartime.py", "pysolar/util.py"],
  [("modules only define names; no module changes another one at import", "pysolar/*.py"), ("import fallback catches ImportError only", "pysolar/numeric.py bottom")], [CACHE, BACK], ["success of imports", "outcome of later calls"])
p("C29", "Work handed to other processes comes back unharmed",
  "Public functions can be sent to other processes by pickling, and every result and every exception of the library survives the way back with its type, message, attributes and value. A worker process forked at any moment, also while other threads of the parent are in the middle of calculations or backend switches, answers every task exactly as a fresh interpreter does (after selecting its backend, if a switch was under way); none hangs, and tasks sent twice, in another order, or again after a worker died in the middle of one get the same answer. The parent's own calls are not disturbed.",
  ["schedules", "crash_points", "histories"], "every moment of forking relative to the bytecodes of the parent's other threads, every assignment, duplication and order of tasks, every point of a worker's death",
  "The suite runs in one process and pickles nothing; a lock or half-built table inherited through fork shows only when another thread is at that very point.",
  ALL, [("no locks, no half-built shared state visible to others", "pysolar/constants.py get_aberration_coeffs"), ("wrapped functions keep their names", "pysolar/tzinfo_check.py"), ("NoTimeZoneInfoError can be rebuilt from its arguments", "pysolar/tzinfo_check.py")],
  [CACHE, BACK], ["answers of worker processes"])
p("C30", "The energy account of a plant that follows the library adds up",
  "The energy meters of a plant that follow the library with a running, jumping or restarted clock, at any place, in any zone and backend, from 1900 to 2099, account for the sunlight that arrives: extraterrestrial irradiance is proportional to the given solar constant, never negative, zero when the sun is more than 1.6 degrees below the horizon, within 3.5 % of the solar constant of what reaches a horizontal surface there, and its mean over any UTC day is the theoretical one to 1.5 W/m2, in whatever order and however often the samples are taken and across restarts. Direct radiation is that of the cited clear-sky model for the UTC day of the year and the altitude given, zero unless the sun is up, singly or in arrays; distance factor, declination, air mass and the two solar elevation functions follow their cited formulas at the library's altitude; under a clear sky direct irradiance is 1367 K exp(-0.8662 AM TL declination) sin(altitude), diffuse irradiance (also overcast) is K (-21.657 + 41.752 TL + 0.51905 TL^2) altitude with distance factor K and the bracket the diffuse transmittance, and global irradiance is their sum under the same conditions; overcast global irradiance is 572 altitude; diffuse ratio and clear index are the quotients they are named for. Readings taken again after failing midway give the same.",
  ["histories", "inputs", "fault_sequences"], "every trajectory of the meters' clocks, order and repetition of samples, restarts, switches and failing zones",
  "The suite only checks that these functions refuse naive datetimes; a term frozen to one value or a parameter that is ignored shows only when readings over a year, a day or several conditions are compared.",
  ["pysolar/radiation.py", "pysolar/util.py", "pysolar/solar.py", "pysolar/solartime.py"],
  [("day of the year is that of UTC", "pysolar/numeric.py tm_yday, pysolar/util.py"), ("irradiance is cut off at night", "pysolar/radiation.py, pysolar/util.py")], [BACK], ["irradiance readings and their sum over a day"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
