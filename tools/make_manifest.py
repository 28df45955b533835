"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = "deterministic simulation with fault injection: seeded search over "
CLAIMED = {
 "C01": ("interleavings of real caller threads at bytecode granularity (one baton, sys.monitoring), first-import races included",
         "Oracle: the same call alone on a fresh package instance, bit for bit. Sampled schedules; switches happen between bytecodes of pysolar code only."),
 "C02": ("call histories of one interpreter life (repeats, near-equal arguments, failures, open streams) against a restarted process per call",
         "Oracle: the same call as the only call of a fresh package instance. Histories up to about 700 calls."),
 "C03": ("points at which an interrupt, allocation failure, failing or re-entering caller object strikes inside a call, then the calls that follow",
         "Oracle: fresh package instance. Interrupts at the bytecodes where CPython delivers them, allocation failures at allocating bytecodes."),
 "C04": ("histories of backend switches with numpy vanishing and returning (faulty import system) and restarts",
         "Oracle: a process in which only the last successful backend was ever selected; values and result types."),
 "C05": ("interleavings and interruptions of backend switches against computing threads at bytecode granularity",
         "Oracle: undisturbed result up to rounding; exact behaviour after a final undisturbed switch."),
 "C06": ("interleavings of vectorised calls on shared buffers with an invariant check of every buffer at each baton move, and callers that scribble over arguments and results",
         "Invariant during the run plus fresh-instance oracle for results."),
 "C07": ("histories of one timeline read by observers on simulated civil clocks (DST, folds, date-line and rule changes, sub-minute offsets), ticking and jumping",
         "Oracle: the UTC observer in a fresh instance, bit for bit; independent model for the day-of-year and clock fields."),
 "C08": ("process-environment faults (clock jumps, TZ, locale, cwd, warnings, random state, broken streams) between and inside calls",
         "Oracle: the same call in a quiet environment, bit for bit; additionally the library must not read clocks it was not asked to read."),
 "C09": ("trajectories of a simulated clock through leap seconds, month ends and table ends, read by observers in simulated zones",
         "Oracle: independent tables of the published data; monotonicity along the clock."),
 "C10": ("driver schedules of several span streams with failing and re-entering caller objects, abandonment, restarts and backend switches",
         "Oracle: small executable model of a stream plus direct calls."),
 "C11": ("alarm clients living on simulated zone clocks whose alarms fire on the simulated wall clock",
         "Oracle: the library's own sun position when the alarm fires, agreement over the day, model of the local day."),
 "C12": ("interleavings and interruptions mixing naive and aware readings of the same clocks",
         "Oracle: refusal exactly for tzinfo None; values from a fresh instance."),
 "C13": ("I/O schedules and faults (short reads and writes, errors, resets, truncation, corruption) around the real table generator, with retries",
         "Oracle: independent parser of the received bytes; table installed in the real time-scale module."),
 "C14": ("schedules in which the fate of warnings changes between and inside calls, on several threads, with broken sinks",
         "Invariant per call (warned iff uncovered) plus fresh-instance and formula oracles for values."),
 "C15": ("wall-clock jumps at every reading and output faults at every character of the report",
         "Oracle: report recomputed from direct calls for the first clock reading."),
 "C16": ("trajectories of a simulated clock (ticks, stalls, backward steps) across calendar edges, read in changing zones and through changing functions",
         "Rate invariant between all pairs of readings within an hour; exact retrace."),
 "C17": ("process-wide settings, interleavings, interruptions and failing caller objects around imports, calls and backend switches",
         "Invariant: about 25 items of process-wide state, other modules' names, arguments and streams are the same afterwards."),
 "C18": ("long process lives under an advancing simulated clock with failing calls, warnings, abandoned and long-lived streams, short-lived threads and zones, and backend switches",
         "Growth of any resource or of the cost of fixed probe calls in every phase is pursued until it stops or exceeds any plausible bounded cache (about 20000 entries or 60000 operations)."),
 "C19": ("trajectories of a simulated clock over local days in one or changing zones, with skipped and repeated days and backend switches",
         "Invariant between all answers up to ten days apart, modulo 24 hours."),
 "C20": ("trajectories of simulated clocks and fleets of trackers with single and vectorised readings, restarts with and without numpy, backend switches and calls failing midway",
         "Oracle: an ephemeris written independently (mean elements, vector algebra), good to 0.005 degrees."),
 "C21": ("journeys of mounts to ordinary and degenerate places (the subsolar point as the library itself gives it) under simulated clocks, with restarts, backend switches and failing zones",
         "Invariants of every command: range, mutual consistency, panel geometry by vectors."),
 "C22": ("cut-off points (deadline, interrupt, allocation failure) of precise calculations at bytecode granularity on interleaved tracker threads, followed by fast readings under simulated clocks",
         "Oracle: the independent ephemeris, 1.6 degrees."),
 "C26": ("message loss, duplication, delay and reordering between a station and a batch worker, array layouts, worker restarts and refused batches",
         "Oracle: the live scalar evaluation of each sample."),
 "C28": ("import orders, interruption points of module-level code, numpy failing during the import, retries and (interrupted) reloads in one process",
         "Oracle: the same call in a fresh interpreter, values and types."),
 "C30": ("trajectories of the simulated clocks of energy meters, orders, repetitions and restarts while a day is accounted, backend switches and failing zones",
         "Oracle: the cited models written independently, the independent ephemeris of C20, and the closed integral over a day."),
 "C29": ("moments of forking worker processes while other threads are parked inside calls, task duplication and reordering, and points of worker death",
         "Real fork and real pickling; oracle: the same call alone on a fresh package instance. A hang is judged by a 20 s limit in the worker."),
}
NA = "Pure function of its input: no schedule, clock, fault, history or second party appears in the property, so a simulator decides nothing about it (input generation would only be dressed up as simulation)."
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         checks=[dict(property=k, quick_cmd="./check %s" % k, thorough_cmd="./check %s --tier thorough" % k, evidence_file="evidence/%s.json" % k,
                      technique=TECH + t, level="exploration", level_note=n) for k, (t, n) in sorted(CLAIMED.items())],
         not_applicable=[dict(property=p["id"], reason=NA if p["id"] in ("C23", "C24", "C25", "C27") else "Check under construction.") for p in props if p["id"] not in CLAIMED],
         notes="No hooks in /repo: every seam is reachable from outside. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
