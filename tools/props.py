"""The properties and how each is decided (source of properties.jsonl and MANIFEST.json)."""
SIM = "deterministic simulation: seeded schedules, "
def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], state=state or [], hook_needed=None),
                technique=technique, note=note)
def N(id, title, statement, over, qtext, why, files, mech, reason):
    d = P(id, title, statement, over, qtext, why, files, mech, "", "")
    d["reason"] = reason
    return d

PROPS = [
P("P01", "A seeded Monte Carlo gives the same runs whatever the thread schedule",
  "A seeded Monte Carlo of N runs (until an epoch, or until the n-th event) reports exactly N runs, at positions 0 to N-1 in index order, whatever the number of worker threads and however they interleave. Run i starts from the i-th sample that the generator draws from that seed, and its end state, trajectory or error is bit for bit what propagating that sample alone gives.",
  ["schedules", "inputs", "configurations"],
  "all thread counts and interleavings of the worker pool, result channel and trajectory threads; all seeds, dispersions, dynamics, integrators, run counts and failing runs",
  "The existing Monte Carlo tests run one seed on whatever schedule the machine gives and check statistics; they cannot see a reordering, lost, duplicated or cross-contaminated run that needs a particular interleaving, and they need kernels that are not available here.",
  ["nyx-core/src/mc/montecarlo.rs", "nyx-core/src/mc/multivariate.rs", "nyx-core/src/propagators/instance.rs"],
  [("states drawn before the parallel section", "nyx-core/src/mc/montecarlo.rs generate_states"), ("channel and sort by run index", "nyx-core/src/mc/montecarlo.rs resume_run_until_epoch"), ("per-run propagator instance", "nyx-core/src/propagators/propagator.rs with")],
  SIM + "failing dynamics, refinement against isolated propagation",
  "Sampled schedules and scenarios on the real code; preemption at allocations, synchronisation, clock and declared points."),
P("P02", "Failed Monte Carlo runs are isolated and reports follow run order",
  "When some runs of a Monte Carlo fail, the others are unaffected, and the first, last, every-step and bounded reports list the values of the successful runs' trajectories in run order, with the fallback value exactly once in place of each failed run (or nothing when there is no fallback). The reported dispersions of each run, added to the template, give that run's initial state, and state components that were not dispersed keep the template's value.",
  ["schedules", "inputs", "fault_sequences"],
  "all subsets of failing runs, thread schedules, report parameters, steps and bounds, with and without a fallback value",
  "The tests never make a run fail and only print averages of the reports.",
  ["nyx-core/src/mc/results.rs", "nyx-core/src/mc/multivariate.rs", "nyx-core/src/mc/montecarlo.rs"],
  [("per-run Result", "nyx-core/src/mc/results.rs Run"), ("report functions", "nyx-core/src/mc/results.rs every_value_of_between"), ("actual_dispersions", "nyx-core/src/mc/multivariate.rs sample")],
  SIM + "injected run failures, reports recomputed from the recorded runs",
  "Sampled schedules and failure sets; interpolated values are taken from the run's own trajectory."),
P("P03", "A resumed Monte Carlo continues exactly where it stopped",
  "Resuming a seeded Monte Carlo after skipping k runs gives, run for run and bit for bit, the runs k, k+1, ... of the uninterrupted campaign, whatever the schedules of both. It reports exactly the number of runs asked for, indexed from 0, also when k is 0 or at least the size of the first campaign.",
  ["schedules", "crash_points", "inputs"],
  "all stop points k, seeds, dispersions, schedules of the first and the resumed campaign",
  "No existing test resumes a campaign.",
  ["nyx-core/src/mc/montecarlo.rs"],
  [("skip on the sample iterator", "nyx-core/src/mc/montecarlo.rs generate_states")],
  SIM + "stop at a drawn run and resume, compared with the uninterrupted campaign",
  "Sampled stop points and schedules on the real code."),
P("P04", "A trajectory holds every propagated step once, in order, in the given frame",
  "Propagating for a duration or until an epoch, forward or backward, in one leg or several on the same instance, ends exactly at the requested epoch and in the frame of the initial state, with every adaptive step's error estimate within the tolerance (unless the minimum step or the attempt limit is reached). The trajectory built on the way holds the start state and each accepted step exactly once, in strictly increasing time, bit for bit the states that plain stepping gives, whatever threads collect them, and asking it for a stored epoch returns the stored state while asking outside its bounds fails.",
  ["schedules", "histories", "inputs"],
  "all interleavings of the collecting threads, clock stalls, histories of legs (forward, backward, zero length), integrators, step controls, integration frames and dynamics failing at a drawn date",
  "The trajectory tests need kernels that are absent here, run one forward leg on one schedule, and compare a handful of epochs with tolerances.",
  ["nyx-core/src/propagators/instance.rs", "nyx-core/src/md/trajectory/traj.rs"],
  [("propagation loop, last shortened step", "nyx-core/src/propagators/instance.rs propagate"), ("adaptive step", "nyx-core/src/propagators/instance.rs derive"), ("parallel collection", "nyx-core/src/propagators/instance.rs for_duration_with_traj"), ("sorting", "nyx-core/src/md/trajectory/traj.rs finalize, at")],
  SIM + "histories of legs, refinement against single stepping",
  "Sampled histories and schedules on the real code; the round trip there and back is compared with a tolerance."),
P("P05", "Streamed states are complete and in order, whatever the consumers do",
  "Every state streamed on a channel during a propagation arrives exactly once, in propagation order, the last one being the returned end state. A consumer that is slow or hangs up, and other spacecraft propagated at the same time from the same propagator, do not change any state nor make the propagation fail, hang or panic.",
  ["schedules", "fault_sequences"],
  "all interleavings of 1 to 4 producers and consumers, consumers hanging up after any number of states, slow consumers, shared propagator and almanac",
  "No existing test drops the receiving end or shares a propagator between threads.",
  ["nyx-core/src/propagators/instance.rs", "nyx-core/src/propagators/propagator.rs"],
  [("publishing on the channel", "nyx-core/src/propagators/instance.rs propagate"), ("instances borrow a shared propagator", "nyx-core/src/propagators/propagator.rs with")],
  SIM + "slow and vanishing consumers, refinement against an isolated propagation",
  "Sampled schedules and hang-ups on the real code."),
P("P06", "The n-th event is found where it first happens n times, and only there",
  "Propagating until the n-th occurrence of an event, forward or backward, in the propagation frame or another, returns the state at the n-th sign change of the event along the propagated steps, within the event's epoch precision, and the chronological trajectory up to the step that brackets it. It returns the not-found error, with the count, exactly when fewer than n crossings exist before the last step, and the instance can then propagate further, forward or backward.",
  ["schedules", "inputs", "histories"],
  "all interleavings of the collecting threads, events, thresholds, trigger counts, frames, durations of both signs, integrators and follow-up legs",
  "The event tests look for one forward occurrence on one orbit.",
  ["nyx-core/src/propagators/event.rs", "nyx-core/src/propagators/instance.rs"],
  [("crossing counter", "nyx-core/src/propagators/event.rs until_nth_event"), ("stop condition", "nyx-core/src/propagators/instance.rs propagate")],
  SIM + "searches compared with a scan of the whole propagation",
  "Sampled searches; the root is checked on the returned trajectory's own interpolation."),
P("P07", "A trajectory export that reports success leaves a complete file",
  "Exporting a trajectory (parquet with the default or chosen fields, ground track, RIC difference, CCSDS OEM) returns the path of a file holding one row per selected state, in order, with the right dates and values; the interruptions and short writes an operating system may produce do not change it, and neither does a longer file already in the way. When the disk refuses a write or the file cannot be created, the export returns an error instead of success, never panics, and leaves the trajectory and later exports unaffected.",
  ["crash_points", "fault_sequences", "inputs", "configurations"],
  "all write errors, full disks, short, interrupted and torn writes at any operation; all trajectories, windows, steps, field choices and time-stamped names",
  "The tests export to a healthy disk and seldom read the file back.",
  ["nyx-core/src/md/trajectory/traj.rs", "nyx-core/src/md/trajectory/sc_traj.rs", "nyx-core/src/io/mod.rs"],
  [("parquet writer", "nyx-core/src/md/trajectory/traj.rs to_parquet"), ("OEM export", "nyx-core/src/md/trajectory/sc_traj.rs to_oem_file"), ("window, step, stamp", "nyx-core/src/io/mod.rs ExportCfg")],
  SIM.replace("seeded schedules, ", "") + "injected disk faults at drawn system calls, files read back independently",
  "Sampled fault sequences at system-call level on the real writers; parquet is read back by the arrow reader, not by nyx."),
P("P08", "A trajectory import returns the exported states or an error",
  "Importing a trajectory file that nyx exported (parquet, OEM) returns every exported state, in order, with the exported values, also when reads are short or interrupted. When a read fails or the file was cut short, zero-filled or lost its tail, the import returns an error (or, for the text format without an end mark, the states before the cut), never panics, never returns altered states, and a later import of the intact file succeeds.",
  ["crash_points", "fault_sequences", "inputs"],
  "all read errors, short and interrupted reads at any operation; truncation and zero-fill at any byte; all trajectories",
  "The tests import intact files from a healthy disk.",
  ["nyx-core/src/md/trajectory/sc_traj.rs"],
  [("parquet reader", "nyx-core/src/md/trajectory/sc_traj.rs from_parquet"), ("OEM reader", "nyx-core/src/md/trajectory/sc_traj.rs from_oem_file")],
  SIM.replace("seeded schedules, ", "") + "injected read faults and torn files, compared with the exported states",
  "Sampled faults and cut points on the real readers."),
P("P09", "A tracking arc export that reports success leaves a complete file",
  "Exporting a tracking data arc to parquet or CCSDS TDM writes every selected observation exactly once, under its tracker (or alias), at its date whatever its time scale, and with its value; an observable that a measurement does not have is not written as a value. When the disk refuses a write or the file cannot be created, the export returns an error instead of success and never panics, while short or interrupted writes change nothing.",
  ["crash_points", "fault_sequences", "inputs", "configurations"],
  "all write errors, full disks, short, interrupted and torn writes at any operation; all arcs of mixed trackers, observables and time scales; all start and end epochs",
  "The tests export one arc of one time scale with all observables on a healthy disk.",
  ["nyx-core/src/od/msr/trackingdata/io_parquet.rs", "nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs"],
  [("parquet writer", "nyx-core/src/od/msr/trackingdata/io_parquet.rs to_parquet"), ("TDM writer", "nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs to_tdm_file")],
  SIM.replace("seeded schedules, ", "") + "injected disk faults at drawn system calls, files read back",
  "Sampled fault sequences at system-call level on the real writers; TDM values are drawn with eight decimals and compared exactly."),
P("P10", "A tracking arc import returns the exported measurements or an error",
  "Importing a tracking arc that nyx exported (parquet, CCSDS TDM) returns exactly the exported observations in time order, also when reads are short or interrupted. When a read fails or the file was cut short, zero-filled or lost its tail, the import returns an error or (TDM) only whole observations of the intact file, never an altered value, never panics, and a later import of the intact file succeeds.",
  ["crash_points", "fault_sequences", "inputs"],
  "all read errors, short and interrupted reads at any operation; truncation and zero-fill at any byte; all arcs",
  "The tests import intact files from a healthy disk.",
  ["nyx-core/src/od/msr/trackingdata/io_parquet.rs", "nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs"],
  [("parquet reader", "nyx-core/src/od/msr/trackingdata/io_parquet.rs from_parquet"), ("TDM parser", "nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs from_tdm")],
  SIM.replace("seeded schedules, ", "") + "injected read faults and torn files, compared with the exported measurements",
  "Sampled faults and cut points on the real readers."),
P("P11", "A sequential filter's solution is the Kalman recursion over the tracking arc",
  "Processing a tracking arc (classical or reference-updating, range, Doppler and angles processed together or one by one) gives one entry per usable measurement and predictions at most the maximum step apart, in time order, each with the propagated reference, the covariance Phi P Phi' + Q, the computed observation of the geometry, and an innovation, ratio and update that follow from them; every covariance is symmetric and positive. A measurement flagged or above the sigma limit changes nothing but its own entry, an observable that a measurement lacks has no influence, and a failing propagation or a value that is not a number ends in an error, never in a solution.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "all measurement histories with lost, duplicated, delayed, corrupted and flagged observations; all step sizes, process noises, rejection limits and filter variants; all failure points of the dynamics",
  "The tests compare a few full solutions with a truth within loose bounds, need kernels that are not in the repository, and never see a wrong single step that the next measurements repair.",
  ["nyx-core/src/od/process/mod.rs", "nyx-core/src/od/kalman/filtering.rs", "nyx-core/src/od/snc.rs", "nyx-core/src/od/msr/sensitivity.rs", "nyx-core/src/od/ground_station/trk_device.rs"],
  [("measurement loop", "nyx-core/src/od/process/mod.rs process_arc"), ("updates", "nyx-core/src/od/kalman/filtering.rs time_update, measurement_update"), ("process noise", "nyx-core/src/od/snc.rs to_matrix, propagate")],
  "deterministic simulation: seeded measurement faults, every entry of the history recomputed by a reference filter",
  "Sampled histories; the reference filter takes each step from the previous entry of the history, propagating with the real (separately checked) propagator."),
P("P12", "Unusable measurements do not move the estimate",
  "Adding measurements that the filter must not use (of an unknown tracker, below the horizon of their tracker, without a usable observable, flagged as rejected, or rejected as outliers) to a tracking arc leaves the set of accepted measurements, and the estimate and covariance at the last good measurement, as they are without them.",
  ["histories", "fault_sequences", "configurations"],
  "all mixtures of good and unusable measurements, at any position and with equal epochs, all filter variants without process noise",
  "The tests have no arcs with measurements to be ignored next to good ones.",
  ["nyx-core/src/od/process/mod.rs", "nyx-core/src/od/kalman/filtering.rs"],
  [("measurement loop", "nyx-core/src/od/process/mod.rs process_arc"), ("residual rejection", "nyx-core/src/od/kalman/filtering.rs measurement_update")],
  "deterministic simulation: injected junk measurements, compared with the run without them",
  "Sampled junk; the two runs differ in step splitting, so they agree to a hundredth of a sigma."),
P("P13", "A filter resumed or predicted from an estimate continues as if never stopped",
  "A filter that stops after any entry of its solution and is started again from that estimate with the remaining measurements gives the estimates, residual decisions and covariances of the uninterrupted filter. Predicting for a duration or until an epoch from any estimate starts with it, steps at most the configured step, ends at the requested epoch and follows the covariance propagation with process noise.",
  ["crash_points", "histories", "configurations"],
  "all interruption points, also inside gaps between measurements, repeated; all filter variants; all prediction spans",
  "The tests process each arc in one go.",
  ["nyx-core/src/od/process/mod.rs", "nyx-core/src/od/kalman/initializers.rs", "nyx-core/src/od/kalman/filtering.rs"],
  [("process and predict", "nyx-core/src/od/process/mod.rs process_arc, predict_until, predict_for")],
  "deterministic simulation: crashes at drawn points with only the last estimate surviving, compared with the uninterrupted run",
  "Sampled crash points; process noise only where both runs take the same steps."),
P("P14", "The state transition matrix is the derivative of the propagation",
  "Propagating with the state transition matrix, over any sequence of legs forward and backward, with or without resetting the matrix between legs and with or without collecting a trajectory, gives the same states as propagating without it, and the composed matrix is the derivative of the final state with respect to the initial one (and to Cr when solar pressure is estimated), with the trajectory ending in the same matrix.",
  ["histories", "schedules", "inputs", "configurations"],
  "all sequences of legs and resets, all point-mass, J2 and solar pressure dynamics, all integrators and thread schedules",
  "The tests check the matrix of one leg of one orbit within loose bounds, or not at all without kernels.",
  ["nyx-core/src/dynamics/spacecraft.rs", "nyx-core/src/dynamics/orbital.rs", "nyx-core/src/dynamics/gravity_field.rs", "nyx-core/src/dynamics/solarpressure.rs", "nyx-core/src/propagators/instance.rs", "nyx-core/src/cosmic/spacecraft.rs"],
  [("equations of motion", "nyx-core/src/dynamics/spacecraft.rs eom"), ("gradients", "nyx-core/src/dynamics/orbital.rs dual_eom; solarpressure.rs gradient"), ("packing", "nyx-core/src/cosmic/spacecraft.rs to_vector, set")],
  SIM + "leg histories with stalls, compared with central differences of the real propagation",
  "Sampled histories; derivatives to 2e-4 of the largest entry, Cr to 3 percent."),
P("P15", "Simulated measurements are the schedule's visible samples of the geometry",
  "Simulating tracking over any set of strands gives, in time order, one measurement per device and sampling epoch of a strand at which the vehicle is above the terrain mask (at both ends of the integration interval in two-way mode) and within the trajectory, and none at any other time or from any other device. Each holds exactly the configured observables, within the configured noise of the geometric value (azimuths averaged across north correctly). The same seed repeats it bit for bit, and generating again continues the noise instead of repeating it.",
  ["histories", "inputs", "configurations"],
  "all strands, samplings, device positions, terrain masks, observables, noises, integration times, trajectories and seeds",
  "The simulator tests check a count of measurements of one schedule and need kernels that are not available here.",
  ["nyx-core/src/od/simulator/arc.rs", "nyx-core/src/od/simulator/trkconfig.rs", "nyx-core/src/od/ground_station/mod.rs", "nyx-core/src/od/ground_station/trk_device.rs", "nyx-core/src/od/noise/mod.rs", "nyx-core/src/od/noise/white.rs", "nyx-core/src/od/msr/types.rs"],
  [("generation", "nyx-core/src/od/simulator/arc.rs generate_measurements"), ("measurement models", "nyx-core/src/od/ground_station/trk_device.rs measure, measure_instantaneous"), ("observables", "nyx-core/src/od/msr/types.rs compute_one_way, compute_two_way")],
  SIM + "device outages (strand gaps, masks, time stamp noise), refinement against an independent geometry model",
  "Sampled schedules; the noise is checked within 8 sigma and by its variance; biases are not configured."),
P("P16", "Tracking schedules respect visibility, cadence and hand-offs",
  "Building a schedule gives each device chronological, disjoint strands within the trajectory and within its visibility, covering every pass that is long enough (and none shorter than the requested number of samples), aligned as asked, no longer than the cadence's on period and separated by its off period; generating it again gives the same one. Where two devices overlap, an eager device ends one sample before the next starts, a greedy one delays the next, and only devices set to overlap track simultaneously; a hand-off loses no pass that nobody else tracks.",
  ["histories", "inputs", "configurations"],
  "all trajectories, device positions, masks, cadences, hand-off kinds, alignments and minimum sample counts",
  "The scheduler tests check the strand count of single configurations; overlaps of three or more passes need particular geometries.",
  ["nyx-core/src/od/simulator/arc.rs", "nyx-core/src/od/simulator/scheduler.rs", "nyx-core/src/od/simulator/trkconfig.rs", "nyx-core/src/od/ground_station/event.rs"],
  [("schedule", "nyx-core/src/od/simulator/arc.rs generate_schedule, build_schedule"), ("visibility arcs", "nyx-core/src/od/ground_station/event.rs")],
  SIM + "competing devices, refinement against sampled visibility and the schedule without hand-offs",
  "Sampled configurations; visibility sampled every few seconds with a tolerance of 0.05 degree."),
P("P17", "An exported filter solution is complete or the export reports the error",
  "Exporting an orbit determination solution writes one row per estimate of the requested window, holding the chosen state parameters, covariance, sigmas in the integration and RIC frames, residuals of every observable, rejection flags, gains and smoother ratios of that same estimate. If any system call on the way fails, the export reports an error; a success means the file is complete, and a crash leaves a file which is rejected at import.",
  ["crash_points", "histories", "inputs", "configurations"],
  "all failing, short, interrupted or torn writes and full disks at any point; all solutions, smoothed or not, with rejected and incomplete measurements; all windows and field choices",
  "The tests export to a healthy disk, read back only summaries, and never use a window.",
  ["nyx-core/src/od/process/solution/export.rs", "nyx-core/src/io/mod.rs"],
  [("export", "nyx-core/src/od/process/solution/export.rs to_parquet"), ("RIC rotation", "nyx-core/src/od/process/solution/export.rs")],
  SIM + "disk faults at the system calls, columns compared with the solution by an independent reader",
  "Sampled fault positions; RIC sigmas to 0.1 percent."),
P("P18", "An imported filter solution is the exported one or an error",
  "Importing an exported orbit determination solution gives back, in order, each state, covariance, residual with its observables, whitened residual, ratio, rejection flag and tracker, gain and smoother ratio that was exported, through any short or interrupted reads. A failing read, a missing file, or a truncated or zero-filled file is an error, never a shorter or different solution and never a panic.",
  ["crash_points", "inputs", "histories"],
  "all read faults at any point, truncations and zero-filled tails, solutions and measurement types",
  "The one import test reads back a healthy file and needs kernels that are not available here.",
  ["nyx-core/src/od/process/solution/import.rs", "nyx-core/src/od/process/solution/export.rs"],
  [("import", "nyx-core/src/od/process/solution/import.rs from_parquet")],
  SIM + "read faults and crash images, round trip against the solution",
  "Sampled fault positions; epochs to the microsecond of the file format."),
P("P19", "Views of a filter solution keep its entries together and in time order",
  "After any sequence of filtering by tracker or observable, excluding trackers, dropping predictions, splitting, merging and smoothing, every estimate still carries its own residual, gain and smoother ratio, in time order: filters keep exactly the matching entries, splitting gives one part per tracker and observable holding each entry once, merging disjoint parts gives back the whole, lookups and the trajectory of a solution return its own estimates, and accepted and rejected residuals add up. The residual of a smoothed entry is what was observed minus what is computed from its smoothed state.",
  ["histories", "inputs"],
  "all operation sequences and partitions of solutions of arcs with losses, duplicates, reordering and outliers",
  "The tests call each operation once on one solution, if at all; an inverted permutation needs a cycle of three entries.",
  ["nyx-core/src/od/process/solution/filter_data.rs", "nyx-core/src/od/process/solution/smooth.rs", "nyx-core/src/od/process/solution/mod.rs", "nyx-core/src/od/process/solution/stats.rs"],
  [("filters, split, merge, at", "nyx-core/src/od/process/solution/filter_data.rs"), ("smoother alignment", "nyx-core/src/od/process/solution/smooth.rs smooth")],
  SIM + "operation histories on solutions of faulty arcs, refinement against a list of entries",
  "Sampled histories; the smoothed states themselves are not claimed."),
P("P20", "Thrust is applied and propellant used exactly as the guidance law commands",
  "In guided flight a spacecraft thrusts exactly in the steps the guidance law commands (a finite burn within its window, a closed loop law while its objectives are not met and the eclipse limit allows it), in the commanded direction of the chosen local frame, at the commanded throttle. Propellant decreases only while thrusting and by the rate of throttle and specific impulse, dry and extra mass never change, each recorded state shows its mode and direction, and a flight which runs out of propellant, has no thruster or an invalid throttle or direction reports an error.",
  ["histories", "inputs", "configurations", "schedules"],
  "all sequences of flight legs forward and backward over and across burn windows, all laws, frames, throttles, integrators, propellant loads and eclipse limits",
  "The tests fly single burns fully inside one propagation and closed loop laws for their final orbit only.",
  ["nyx-core/src/dynamics/spacecraft.rs", "nyx-core/src/dynamics/guidance/mnvr.rs", "nyx-core/src/dynamics/guidance/ruggiero.rs", "nyx-core/src/dynamics/guidance/kluever.rs", "nyx-core/src/dynamics/guidance/replay.rs", "nyx-core/src/propagators/instance.rs"],
  [("thrust and mass flow", "nyx-core/src/dynamics/spacecraft.rs eom, finally"), ("finite burn", "nyx-core/src/dynamics/guidance/mnvr.rs"), ("closed loop laws", "nyx-core/src/dynamics/guidance/ruggiero.rs, kluever.rs"), ("replay of a profile", "nyx-core/src/dynamics/guidance/replay.rs")],
  SIM + "histories of guided legs with injected propulsion faults, each step compared with an independent integration",
  "Sampled histories; a burn starts and ends at the integration step following its window's edges; no claim on when a closed loop law reaches its objectives."),
P("P21", "A mission sequence flies each phase in order with its own setup and events",
  "Propagating a spacecraft sequence gives one trajectory per enabled phase, named and in order, each starting from the end of the phase before after applying that phase's entry event (staging, docking, impulsive maneuver in its local frame) exactly once, flown with that phase's propagator, dynamics and guidance, and ending at the start of the next phase. Stopping the sequence at any epochs and resuming from the last state gives the same trajectories, a disabled phase leaves no trajectory and no event, and an incomplete or misused sequence reports an error.",
  ["histories", "inputs", "configurations", "crash_points"],
  "all sequences of phases, events, propagators and disabled phases, and all stop and resume points at phase boundaries",
  "The tests set up a single fixed sequence and propagate it once.",
  ["nyx-core/src/dynamics/sequence/mod.rs", "nyx-core/src/dynamics/sequence/config.rs", "nyx-core/src/dynamics/sequence/discrete_event.rs", "nyx-core/src/dynamics/guidance/mnvr.rs"],
  [("setup and propagation of phases", "nyx-core/src/dynamics/sequence/mod.rs"), ("events", "nyx-core/src/dynamics/sequence/discrete_event.rs"), ("impulsive maneuver", "nyx-core/src/dynamics/guidance/mnvr.rs ImpulsiveManeuver")],
  SIM + "generated sequences stopped and resumed at seeded points, refinement against phases flown one by one",
  "Sampled sequences; the duration of a phase following a disabled one is not claimed."),
P("P22", "Editing a tracking arc keeps exactly the selected data in order",
  "However tracking data is delivered in pieces, with duplicates, partial records, reordering and conflicting values, merging the pieces gives one record per epoch and tracker, in time order, with the last value of each observable and every rejection and modulus kept. Any history of filtering, excluding or rejecting by epoch or offset bounds, tracker or observable, splitting into chunks, downsampling each tracker and applying moduli keeps exactly the selected records unchanged and in order; equality of arcs is symmetric and covers every observable.",
  ["histories", "inputs", "schedules"],
  "all deliveries (duplication, loss, reordering, conflicts, partial records) and all operation histories with any kind of bound",
  "The tests call few of these operations, once each, on one arc of one tracker.",
  ["nyx-core/src/od/msr/trackingdata/mod.rs", "nyx-core/src/od/msr/measurement.rs", "nyx-core/src/md/trajectory/traj.rs"],
  [("sort, merge, filters, chunk, downsample", "nyx-core/src/od/msr/trackingdata/mod.rs"), ("equality", "nyx-core/src/od/msr/measurement.rs"), ("trajectory windows", "nyx-core/src/md/trajectory/traj.rs filter_by_offset")],
  SIM + "delivery faults and operation histories, refinement against a list of rows",
  "Sampled histories; averaging ambiguous ranges across a wrap is not claimed."),
P("P23", "A batch estimate is the best fit of exactly the usable measurements",
  "A converged batch least squares estimate and its covariance are the solution of the normal equations of exactly the usable measurements: those not flagged, of observables modelled by a known tracker which sees the spacecraft, at or after the epoch of the initial guess, including simultaneous measurements and those of the initial epoch. Evaluating a state gives their weighted RMS, the Levenberg-Marquardt solver never returns a worse fit than the initial guess, and measurements which are not numbers, fewer than two measurements or failing dynamics give an error, whatever was lost, flagged or repeated in the tracking data.",
  ["histories", "inputs", "configurations"],
  "all tracking histories with lost, partial, flagged, unknown, simultaneous and unusable measurements, both solvers, all propagators and step settings",
  "The tests run one arc without faults and compare the estimate with the truth within a generous bound.",
  ["nyx-core/src/od/blse/mod.rs", "nyx-core/src/od/blse/solution.rs"],
  [("accumulation, solvers, evaluation", "nyx-core/src/od/blse/mod.rs"), ("solution", "nyx-core/src/od/blse/solution.rs")],
  SIM + "measurement faults, refinement against independently accumulated normal equations",
  "Sampled histories; no claim on convergence itself, on the RMS with unknown trackers, nor on covariances of poorly observed velocities."),
P("P24", "A targeter solution achieves its objectives when flown, or an error is given",
  "Flying the corrected state of an impulsive targeter solution to the achievement epoch meets every objective within its tolerance, in the objective frame. The corrected state is the initial state, propagated to the correction epoch, with exactly the reported correction in the correction frame; the correction stays within the bounds and the steps of its variables; applying the solution accepts it and gives that trajectory; and the same problem gives the same solution in any thread schedule. A guess which meets the objectives is kept, small well-posed transfers are solved, and a problem which is ill-defined, unsupported or whose dynamics fail in any of the parallel runs gives an error.",
  ["inputs", "configurations", "schedules"],
  "all schedules of the parallel perturbed runs, all variables, objectives, frames, bounds, guesses, propagators and epochs of failing dynamics",
  "The tests solve fixed problems with real ephemerides, mostly skipped without them, and compare the correction with another tool.",
  ["nyx-core/src/md/opti/raphson_finite_diff.rs", "nyx-core/src/md/opti/raphson_hyperdual.rs", "nyx-core/src/md/opti/targeter.rs", "nyx-core/src/md/opti/target_variable.rs", "nyx-core/src/md/objective.rs"],
  [("finite differences", "nyx-core/src/md/opti/raphson_finite_diff.rs"), ("hyperdual", "nyx-core/src/md/opti/raphson_hyperdual.rs"), ("applying a solution", "nyx-core/src/md/opti/targeter.rs apply_with_traj"), ("bounds", "nyx-core/src/md/opti/target_variable.rs")],
  SIM + "targeting problems made from known corrections, dynamics failing between the parallel runs, every solution flown independently",
  "Sampled problems; finite burn variables and B-plane objectives are not claimed."),
P("P25", "An imported CCSDS TDM gives each record the meaning of its own segment",
  "Reading a CCSDS tracking data message gives, for every tracker, epoch and observable, the value which its own segment defines: the trackers and aliases of its participants and path, its time system, its halving of two-way ranges and Doppler but not of angles, its corrections, its turn-around ratio and the transmit frequency in force at that epoch, whatever segments precede, follow or interleave with it, however many there are, and however the file is spaced, commented or cut. A file cut or damaged in the middle, or unreadable, gives an error or the records before it, and never a panic or an altered value.",
  ["histories", "inputs", "crash_points"],
  "all sequences of segments with any metadata, record order and cut points",
  "The tests read few files made by this library or one example of the standard, with a single kind of segment each.",
  ["nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs"],
  [("import", "nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs from_tdm"), ("metadata", "nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs parse_metadata")],
  SIM + "generated message histories with cut, damaged and unreadable files, refinement against an independent reading",
  "Sampled messages; corrections within two-way segments, one-way frequencies, different range moduli in a file and frequencies split over segments are not claimed."),
P("P26", "A propagation follows the motion of its dynamics within its tolerance",
  "For every integrator, fixed or adaptive with any error control, tolerance and step bounds, forward or backward, split into any legs, each step of a propagation ends within a small multiple of its tolerance (fixed steps: of the method's own error) of the motion under the configured forces: central gravity, other bodies as point masses, a gravity field, solid tides and solar radiation pressure with eclipses, around the Earth or the Moon and from inertial or rotating frames. A whole leg, including its last shortened step, is no further away than the errors of its steps can grow, and a state interpolated from the recorded trajectory follows the same motion, with the epoch and frame asked for and the mass and coefficients of the spacecraft.",
  ["inputs", "configurations", "schedules"],
  "all orbits, force models, integrators, error controls, step settings, leg histories and query epochs",
  "The tests compare a few propagations with reference values from other tools, for fixed orbits and settings, and the ones which need real ephemerides are skipped without them.",
  ["nyx-core/src/propagators/instance.rs", "nyx-core/src/propagators/error_ctrl.rs", "nyx-core/src/propagators/rk_methods", "nyx-core/src/dynamics/orbital.rs", "nyx-core/src/dynamics/gravity_field.rs", "nyx-core/src/dynamics/solarpressure.rs", "nyx-core/src/md/trajectory/traj.rs", "nyx-core/src/md/trajectory/interpolatable.rs"],
  [("steps and error control", "nyx-core/src/propagators/instance.rs derive"), ("forces", "nyx-core/src/dynamics"), ("interpolation", "nyx-core/src/md/trajectory/traj.rs at")],
  SIM + "generated propagation histories flown again in small steps with independent force formulas",
  "Sampled orbits and settings; drag is not claimed, gravity fields up to degree 12."),
P("P27", "A gravity field file gives exactly its coefficients, or an error",
  "Loading a spherical harmonics file in the SHADR or COF format, compressed or not, directly or through a configuration, gives exactly the coefficients written in it up to the degree and order asked for and none beyond; the resulting acceleration and its gradient are those of these coefficients everywhere, above the poles too. Short and interrupted reads change nothing; a read error, a truncated compressed file or a damaged number gives an error; a truncated text loses only what was cut off; nothing panics, and the same process then loads the whole file.",
  ["inputs", "crash_points", "fault_sequences"],
  "all fields, degrees, orders and formats, all read faults, truncations and damaged numbers",
  "The tests load intact files only, and compare single accelerations with reference values.",
  ["nyx-core/src/io/gravity.rs", "nyx-core/src/dynamics/gravity_field.rs"],
  [("loading", "nyx-core/src/io/gravity.rs"), ("acceleration and gradient", "nyx-core/src/dynamics/gravity_field.rs")],
  SIM + "read faults, truncation and damage at seeded points, refinement against the written text and an independent recursion",
  "Sampled fields of degree up to 8; the coefficient of the line where a plain text was cut is not claimed."),
P("P28", "Random draws have the distribution which was asked for",
  "Every random draw of the library has the mean and covariance which was asked for: multivariate spacecraft from dispersions of any parameters (orbital elements, mass, coefficients), from a covariance in an inertial or local frame (diagonal, correlated or singular), with or without means; Monte Carlo initial states; estimates from dispersions and from spacecraft uncertainties, randomized or not; and white noise on measurements. The uncertainty of an orbital element, of an estimate or of dispersions, is that of first order in the state covariance. A draw leaves everything else of the spacecraft unchanged, reports the dispersions it really applied, and depends only on the seed. Parameters which cannot be dispersed and negative covariances or uncertainties give an error, never a silently different distribution or a panic.",
  ["inputs", "configurations"],
  "all templates, dispersions, covariances, frames and seeds",
  "The tests draw from a few fixed dispersions and compare counts within one and three sigmas, for fixed seeds.",
  ["nyx-core/src/mc/multivariate.rs", "nyx-core/src/mc/dispersion.rs", "nyx-core/src/mc/montecarlo.rs", "nyx-core/src/od/estimate/kfestimate.rs", "nyx-core/src/od/estimate/sc_uncertainty.rs", "nyx-core/src/od/noise/white.rs"],
  [("multivariate draws", "nyx-core/src/mc/multivariate.rs"), ("estimates", "nyx-core/src/od/estimate"), ("white noise", "nyx-core/src/od/noise/white.rs")],
  SIM + "seeded generators behind the randomness seam, moments of the draws against independent formulas within stated bounds of chance",
  "Sampled distributions with bounds of many standard errors; Gauss-Markov samples are not claimed; one known finding on local frame uncertainties."),
P("P29", "Links, ground asset tracking and position fixes follow their geometry",
  "Simulating links from any number of transmitter spacecraft to a receiver spacecraft or to a ground asset, or position fixes on board, gives one measurement per sampling epoch of a strand at which both ends are known and the body does not block the line of sight (at both ends of an integration interval), and none otherwise, holding exactly the configured observables with the range, range rate or component of the relative position and velocity, in whatever frames the trajectories are, within the configured noise; the same seed repeats it. A ground asset moves by its rates, in its trajectory too, and its velocity is that of its rates. A filter using these measurements has entries exactly for them, with the residual, ratio, gain, estimate and covariance of the Kalman equations with the partial derivatives of that geometry, whatever was lost, repeated, flagged or incomplete; a measurement which is not a number, or a transmitter without a position at that time, gives an error and never a panic. The exported estimates of a ground asset are those of the requested window, each with its own covariance, residual and gain.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all orbits, frames, assets, devices, strands, filter settings and losses of measurements or ephemerides",
  "The tests fly one link and one ground asset with real ephemerides, with both observables in one order, and only look at the final error.",
  ["nyx-core/src/od/interlink", "nyx-core/src/od/groundpnt", "nyx-core/src/od/position", "nyx-core/src/od/simulator/arc.rs"],
  [("links", "nyx-core/src/od/interlink/trk_device.rs"), ("ground assets", "nyx-core/src/od/groundpnt"), ("position fixes", "nyx-core/src/od/position")],
  SIM + "generated link histories with lost, repeated and damaged measurements, refinement against independent geometry and a reference filter",
  "Sampled scenarios; one transmitter per ground asset (its measurements carry a fixed tracker name), integrated observables in the filter and biases are not claimed."),
P("P30", "Quality statistics of a solution count exactly its residuals and errors",
  "For any solution of a filter, whatever time updates, rejections, losses or views it went through: the root mean square of the prefit and postfit residuals and of the residual ratios is over exactly the entries with a residual, time updates counting neither in the sum nor in the number; the share within a threshold is that of the ratios at or below it; the normalized innovation squared sums the ratios of the accepted residuals only and is judged against the chi-squared bounds of their number of observations; the normality statistic is the distance of the whitened accepted residuals from the normal distribution with their mean and deviation; the normalized estimation error squared is that of the estimates against the given truth with each covariance. Where there is no residual to judge, or the truth does not cover an estimate, the share, the normality and the consistency checks return an error, never a verdict or a panic.",
  ["histories", "inputs", "fault_sequences"],
  "all solutions of arcs with losses, outliers and time updates, all thresholds and truth trajectories",
  "The tests call each statistic once on one healthy solution, if at all, and only compare it with a limit.",
  ["nyx-core/src/od/process/solution/stats.rs"],
  [("statistics", "nyx-core/src/od/process/solution/stats.rs")],
  SIM + "statistics of solutions of faulty arcs, refinement against direct sums over the entries",
  "Sampled solutions; the one-sided definition of the normality distance and the number of degrees of freedom are taken as the code documents them."),
]
NA = []
