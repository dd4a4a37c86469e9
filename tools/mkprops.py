#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
SC = "pySC/core/simulated_commissioning.py"
BEAM = "pySC/core/beam.py"
OT = "pySC/correction/orbit_trajectory.py"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


p("C01", "The user's lattice and the design lattice are never touched",
  "Building a simulated machine from a lattice and then performing any sequence of registrations, error applications, setpoint changes, "
  "switching, measurements and corrections leaves both the user's lattice object and the stored design lattice exactly as they were at "
  "construction. Elements that share one object in the user's lattice are independent elements of the machine, so changing one never changes another.",
  ["histories"], "every operation sequence, every lattice (including lattices that reuse element objects)",
  "Tests look at two element fields right after construction; aliasing appears only after particular sequences (copy, model lattice, register, set).",
  [SC, "pySC/lattice_properties/response_model.py", "pySC/utils/at_wrapper.py"],
  [("per-element deep copies at construction", SC + ":SimulatedCommissioning.__init__")],
  [("RING", "machine with errors", SC), ("IDEALRING", "design lattice", SC)], ["element attributes of the three lattices after every public call"])
p("C02", "A copied machine is fully independent of the original",
  "A full copy of a simulated machine equals the original at the time of copying, and from then on no operation on either one "
  "(registering, setting, applying errors, correcting, changing injection settings, editing its lattices, uncertainties or injection settings in place) changes anything observable of the other.",
  ["histories"], "every interleaving of operations on an original and its copies",
  "No test performs operations on both a machine and its copy; sharing is only visible for particular fields and orders.",
  [SC, "pySC/core/classes.py"], [("deep copy of lattices element by element", SC + ":very_deep_copy")],
  [("copy", "second instance", SC)], ["full projected state of both instances after every call"])
p("C03", "Calls never modify the arguments the caller passes",
  "No call modifies the index lists, setpoint values, multipole tables, response matrices, reference trajectories or other arrays and lists "
  "handed to it by the caller, whatever the mode of the call and whether it succeeds or fails; what a call keeps of them is not modified by later "
  "calls either.",
  ["inputs", "histories"], "all public calls, argument shapes and types, including calls that raise",
  "Three tests check this for one method of one call each.",
  [SC, "pySC/utils/classdef_tools.py", OT], [("copying of arguments before in-place arithmetic", "pySC/utils/classdef_tools.py:check_input_and_setpoints")],
  (), ["deep copy of the arguments before the call compared with the arguments after it"])
p("C04", "Registration builds an exact, cumulative registry",
  "After any sequence of registrations the index lists of BPMs, cavities, magnets, horizontal and vertical correctors, skew quadrupoles and support "
  "structures hold exactly the registered elements, sorted and without duplicates; uncertainties registered earlier are kept unless given again, in which case the later value wins. "
  "Registering initialises exactly the listed elements (setpoints and nominal values equal to the present fields, calibration and alignment errors zero) and leaves every other element and every other registry entry alone.",
  ["histories", "inputs"], "all sequences of register calls with overlapping, repeated and unsorted index lists and all keyword subsets",
  "Each register test uses one or two calls of one kind; overlaps between kinds and orders are not sampled.",
  [SC, "pySC/core/classes.py", "pySC/utils/classdef_tools.py"],
  [("union with np.unique and dict update", SC + ":register_*"), ("pair merge", "pySC/utils/classdef_tools.py:update_double_ordinates")],
  [("ORD", "registry of indices", "pySC/core/classes.py"), ("SIG", "registered uncertainties", "pySC/core/classes.py")], ["ORD, SIG and element fields after each call"])
p("C05", "Rejected calls raise and leave no trace",
  "A call with an unknown keyword, unknown support type, unknown setting method, unknown tracking mode, unknown switching mode, unknown cavity parameter, wrongly shaped multipole table, repeated split magnet or "
  "setpoints whose number matches neither one nor the number of elements raises an error, and the machine is exactly as it was before the call.",
  ["inputs", "histories"], "all states and all ill-formed calls mixed with well-formed keywords and arguments",
  "Tests check that some bad keywords raise; no test checks that the state is untouched.",
  [SC, "pySC/core/classes.py", "pySC/core/lattice_setting.py", "pySC/utils/classdef_tools.py"],
  [("validation before mutation", SC + ":_check_kwargs"), ("argument check", "pySC/utils/classdef_tools.py:check_input_and_setpoints")],
  (), ["full projected state before and after the failing call"])
p("C06", "Magnet fields are exactly determined by setpoints and errors",
  "After every setting or update call the normal and skew field components of each addressed magnet equal setpoint times (1 + calibration error) per component, plus the static field offsets, "
  "plus the systematic multipoles scaled with the actual excitation, plus the dipole term of a bending angle error or of a combined-function strength deviation; nothing accumulates when an update is repeated. "
  "The declared field order always matches the number of components, and orbit-corrector kicks equal the dipole components.",
  ["histories", "configurations"], "all magnet types, error combinations and update orders",
  "Tests evaluate one magnet without errors at a handful of setpoints.",
  [SC, "pySC/utils/classdef_tools.py"], [("field evaluation", SC + ":_update_magnets")],
  [("Polynom/SetPoint/CalError/Offset/SysPol", "field, setpoint and error vectors", SC)], ["element fields after each call"])
p("C07", "Setting a magnet changes exactly the addressed component",
  "Setting magnet strengths assigns the given value (absolute), the given multiple of the nominal value (relative) or the present value plus the given value (additive) to the addressed order and plane of the "
  "addressed magnets and to nothing else; a single value applies to all listed magnets and integer and floating values are equivalent. "
  "Skew quadrupole settings beyond the registered limit are clipped to that limit with their sign kept.",
  ["histories", "inputs"], "all methods, orders, planes, index lists and value shapes from any reachable state",
  "One test sets two quadrupoles with two methods.",
  [SC, "pySC/utils/classdef_tools.py"], [("setpoint arithmetic and clipping", SC + ":set_magnet_setpoints")],
  [("SetPointA/B", "setpoints", SC)], ["setpoints and fields of all elements after each call"])
p("C08", "Corrector setpoints are kicks with the right sign, and never exceed limits",
  "Setting a corrector to a kick makes the beam receive that kick in the positive direction of the plane (times 1 + calibration error), for thin correctors and for corrector coils inside longer magnets alike; reading a corrector back returns the value in force. "
  "After any call the addressed corrector is within its registered limit of that plane, clipped with its sign kept, and relative and additive settings start from the present kick; the other plane and other components are unchanged.",
  ["histories", "inputs"], "all corrector types, planes, methods, limits and sequences of settings",
  "One test checks three settings of one magnet length with one limit; thin correctors and calibration errors are not exercised.",
  [SC], [("normalisation and clipping", SC + ":set_cm_setpoints"), ("read back", SC + ":get_cm_setpoints")],
  [("CMlimit", "limits per plane", SC)], ["setpoints, fields, returned values, tracked particle angle"])
p("C09", "Combined-function compensation keeps the dipole kick",
  "When a combined-function bend's quadrupole setpoint changes with dipole compensation requested, and the magnet is a registered horizontal corrector, the corrector setpoint changes so that the total dipole field is the same as before unless the corrector limit is hit. "
  "Without the request, or for magnets without bending angle or corrector, no corrector setpoint changes.",
  ["histories", "configurations"], "all sequences of quadrupole settings, methods, limits, with and without compensation",
  "Only exercised inside one long example whose assertion is about final transmission.",
  [SC], [("compensation", SC + ":_dipole_compensation"), ("combined function dipole term", SC + ":_update_magnets")],
  (), ["dipole components before/after"])
p("C10", "Split magnets follow their master",
  "Every field component of a child of a split magnet is computed from the master's setpoints and errors (with the child's own bending angle, length and static offsets), and is refreshed by every call that updates the master; its alignment transformation equals the master's. "
  "Children never follow any other magnet, and updates of other magnets leave them alone.",
  ["histories", "configurations"], "all master/child layouts and operation sequences",
  "No test registers a split magnet.",
  [SC], [("child update", SC + ":update_magnets"), ("child alignment", SC + ":update_supports")], (), ["fields and transformations of children"])
p("C11", "Multipole errors are stored per magnet and scale with excitation",
  "Systematic multipoles registered for a source component add, to both planes, the tabulated coefficients of the respective plane times the present excitation of that component, with the source component itself removed; tables for several source components coexist. "
  "Random multipoles are bounded by twice the tabulated value, are independent between magnets, accumulate as static offsets and do not scale with excitation.",
  ["histories", "inputs"], "all tables, orders, planes, magnets and sequences of further setpoint changes",
  "No test calls either function.",
  [SC], [("systematic", SC + ":set_systematic_multipole_errors"), ("random", SC + ":set_random_multipole_errors")], (), ["PolynomA/B after updates"])
p("C12", "Cavity parameters are exactly determined by setpoints and errors",
  "After every setting or update call each addressed cavity's voltage, frequency and phase lag equal setpoint times (1 + calibration error) plus offset. "
  "Absolute, relative (to the present setpoint) and additive settings change only the addressed parameter of the addressed cavities.",
  ["histories", "inputs"], "all parameters, methods, cavities, error values and sequences",
  "Tests check only that arguments are not modified.",
  [SC], [("cavity update", SC + ":update_cavities"), ("cavity setpoints", SC + ":set_cavity_setpoints")], (), ["cavity fields after each call"])
p("C13", "Switching cavities and radiation is exact, idempotent and off-dominant",
  "Switching radiation or cavities on or off changes only the tracking method of the elements concerned (cavities, resp. bending and multipole magnets with a radiation counterpart) and nothing else in the lattice. "
  "Off takes priority when on and off are both requested, repeated switching has no further effect, and on followed by off (or the reverse) restores the original tracking methods of those elements (a cavity that is switched on always tracks as an RF cavity).",
  ["histories", "inputs"], "all mode subsets and orders on all lattices",
  "Only used inside a long example.",
  ["pySC/core/lattice_setting.py"], [("pass-method rewriting", "pySC/core/lattice_setting.py:switch_cavity_and_radiation")], (), ["pass methods of all elements"])
p("C14", "Applied errors respect registered uncertainties and cutoffs",
  "Applying errors gives every registered uncertainty of every registered element its own independent random value within the cutoff (the one registered with it, otherwise the one of the call) times that uncertainty, copies noise levels unchanged, and changes no error that has no uncertainty. "
  "Injection offsets, support errors and the circumference obey the same bounds, and the fields of all registered magnets, cavities and aligned elements afterwards correspond to the drawn errors.",
  ["inputs", "configurations"], "all registered uncertainties, cutoffs and random streams",
  "One test compares a fixed seed with stored numbers without cutoffs; bounds and independence are statements about every draw.",
  [SC, "pySC/utils/classdef_tools.py", "pySC/utils/sc_tools.py"],
  [("error application", SC + ":apply_errors"), ("truncated normal", "pySC/utils/sc_tools.py:randnc")], (), ["error fields after apply_errors"])
p("C15", "Applying errors again draws a fresh machine",
  "Applying errors repeatedly replaces all previously applied random errors - magnet, BPM, cavity, support, injection and circumference - instead of accumulating on them, and succeeds whenever the first application succeeds. "
  "With all uncertainties zero, applying errors reproduces the error-free machine.",
  ["histories"], "any number of applications between other operations",
  "Every test applies errors exactly once.",
  [SC, "pySC/utils/sc_tools.py"], [("overwriting of error fields", SC + ":apply_errors"), ("support errors", SC + ":_apply_support_alignment_error")], (), ["error fields and lengths after 1..n applications"])
p("C16", "Support misalignments move exactly the elements they carry",
  "The support-induced offset of every registered magnet and BPM is the straight-line interpolation between the total offsets of its girder's end points, which in turn sit on their plinth and section; its support roll is the sum of the rolls of the structures carrying it, and pitch and yaw are the slopes of the innermost structure. "
  "Structures that span the injection point are handled like any other, and elements not carried by any structure have no support offset or roll.",
  ["configurations", "inputs"], "all section/plinth/girder layouts, nestings and end-point errors",
  "One test uses a single section with equal end-point offsets.",
  [SC, "pySC/utils/classdef_tools.py"], [("interpolation", "pySC/utils/classdef_tools.py:s_interpolation"), ("support evaluation", SC + ":support_offset_and_roll")], (), ["SupportOffset / SupportRoll of elements"])
p("C17", "Alignment transformations are physically consistent",
  "The entrance and exit transformations of a displaced and rotated element depend only on its total offset and roll, entering and leaving a field-free element displaced in any way has no net effect on a particle, and a transversely displaced element acts on a particle exactly as the undisplaced element acts on the oppositely displaced particle. "
  "Without misalignment the transformations are the identity, and recomputing them does not accumulate.",
  ["inputs", "configurations"], "all offsets, small and right-angle rolls, lengths and bending angles",
  "Tests compare four fixed parameter sets with stored matrices.",
  ["pySC/utils/sc_tools.py", SC], [("transformation", "pySC/utils/sc_tools.py:update_transformation")], (), ["T1, T2, R1, R2 and tracked particles"])
p("C18", "BPM readings are the true beam position seen through the BPM's errors",
  "A BPM reading is the mean position of the surviving particles at that BPM, rotated by the BPM's own plus support roll, minus its own plus support offset, times (1 + calibration error), plus noise of at most twice the noise level (turn-by-turn or orbit level depending on the mode) divided by the transmission and drawn anew for every plane, BPM, turn and shot. "
  "Readings come in arrival order - all BPMs of turn one in lattice order, then turn two - for all registered BPMs or exactly the registered ones among those requested.",
  ["inputs", "configurations"], "all beams, BPM errors, subsets, turn numbers and modes",
  "Tests check shapes and that two noisy readings differ.",
  [BEAM], [("reading model", BEAM + ":_real_bpm_reading"), ("subset", BEAM + ":_only_registered_bpms")], (), ["returned arrays"])
p("C19", "Beam loss is reported consistently",
  "A BPM reads nothing (not-a-number) exactly when the fraction of particles arriving there in that turn is zero or below the tolerated loss; the sum signal is the arriving fraction (zero where the beam is declared lost), and without sum-signal errors never increases along the path. "
  "The transmission calculation returns the surviving fraction per turn and counts exactly the turns whose surviving fraction exceeds the tolerated minimum, in agreement with the BPM signals.",
  ["inputs", "configurations"], "all loss patterns over particles, elements, turns, shots and thresholds",
  "Tests only use beams without any loss.",
  [BEAM], [("loss criterion", BEAM + ":_real_bpm_reading"), ("turn counting", BEAM + ":beam_transmission")], (), ["readings, sums, fractions"])
p("C20", "Averaging over shots and turns is weighted by beam intensity",
  "With several shots a reading is the average over the shots that have one, weighted with their sum signals, and the sum signal is the average over all shots counting lost ones as zero. "
  "In pseudo-orbit mode the turns are averaged the same way into one reading per BPM; the error estimate returned on request is the equally weighted spread of the shots, for readings present in every shot. Choosing orbit mode forces one turn and one particle, other modes leave these settings alone.",
  ["inputs", "configurations"], "all shot numbers, turn numbers, per-shot losses and modes",
  "Tests only check output shapes.",
  [BEAM, "pySC/core/classes.py"], [("averages", BEAM + ":bpm_reading"), ("mode setter", "pySC/core/classes.py:Injection.trackMode")], (), ["returned arrays, INJ settings"])
p("C21", "Injected bunches match the configured injection",
  "A generated bunch has the requested number of particles centred on the injected trajectory plus a jitter of at most twice the configured sigma common to the whole bunch; a single particle sits at the centroid, several are spread according to the configured beam matrix within three sigmas along its principal axes. "
  "The user's post-processing function is applied exactly once to each generated bunch and its result is what is tracked.",
  ["inputs"], "all injection settings and random streams",
  "Tests use a zero beam size and check zeros.",
  [BEAM], [("bunch generation", BEAM + ":generate_bunches")], (), ["returned coordinates, calls of the post-processing function"])
p("C22", "Observing the machine does not change it",
  "Reading BPMs, calculating transmission, bunches or positions at all elements, reading setpoints, evaluating supports, and computing model lattices, model response matrices or model dispersion leave every property of the machine (both lattices, injection settings, registry, uncertainties) unchanged. "
  "Two identical observations without noise give identical results.",
  ["histories", "configurations"], "all observations in all reachable states",
  "No test compares the machine before and after an observation.",
  [BEAM, "pySC/lattice_properties/response_model.py", "pySC/utils/at_wrapper.py"], [("copies handed to the tracking code", "pySC/utils/at_wrapper.py")], (), ["full state digest before/after"])
p("C23", "The model lattice is the design lattice at the present setpoints",
  "The model lattice has the machine's present magnet setpoints (without dipole components) and cavity setpoints, contains no errors or misalignments, takes apertures from the machine only if asked, and equals the design lattice everywhere else. "
  "It is a new lattice: changing it, or computing it, changes neither the machine nor the design.",
  ["histories", "configurations"], "all setpoint and error histories",
  "No test calls it.",
  ["pySC/lattice_properties/response_model.py"], [("model lattice", "pySC/lattice_properties/response_model.py:SCgetModelRING")], (), ["model lattice elements"])
p("C24", "Model responses predict what correctors and cavities do to the beam",
  "Each column of the model response matrix is the change of the BPM positions per unit kick of that corrector, in the registered sign convention and in reading order, so that on an error-free linear machine changing any corrector setpoint by a kick changes the readings by that column times the kick; the model dispersion likewise predicts the effect of a frequency change. "
  "Turns, planes, BPM subsets, corrector types and strengths are all covered, and an untrackable model or unknown mode raises an error.",
  ["inputs", "configurations"], "all lattices, BPM/corrector subsets, turns, modes",
  "Tests only use the matrices inside long correction chains.",
  ["pySC/lattice_properties/response_model.py", SC, BEAM], [("model RM", "pySC/lattice_properties/response_model.py:SCgetModelRM"), ("dispersion", "pySC/lattice_properties/response_model.py:SCgetModelDispersion")], (), ["matrix entries vs. readings"])
p("C25", "First-turn threading succeeds only with a reproducible full turn",
  "First-turn threading returns only after the last five readings all reached every requested BPM; otherwise it raises an error: immediately if there is no signal at all, and in any case after the maximum number of steps. "
  "Along the way it changes nothing but setpoints of the allowed correctors, moves correctors against the measured deviation from the reference, only those upstream of the last BPM reached, and never beyond their limits.",
  ["histories", "configurations", "fault_sequences"], "all machines, obstacles, BPM/corrector subsets, references, limits",
  "One seeded example runs it once on one lattice and asserts nothing about it.",
  [OT], [("threading loop", OT + ":first_turn"), ("wiggling", OT + ":_wiggling")], (), ["injections (public post-processing callback), setpoints, outcome"])
p("C26", "Two-turn stitching and balancing deliver what they promise or raise",
  "Both refuse to start unless two turns are configured and the required transmission exists; stitching returns only after the last five readings show full two-turn transmission, balancing only with full two-turn transmission and a trajectory whose variation over the last five readings is below the tolerance; otherwise they raise an error within their step limit. "
  "They change nothing but setpoints of the allowed correctors within their limits, and steer the second turn towards the first.",
  ["histories", "configurations", "fault_sequences"], "all machines, subsets, references, step limits and loss patterns",
  "One seeded example runs them on one lattice and asserts only the final transmission.",
  [OT], [("stitching", OT + ":stitch"), ("balancing", OT + ":balance")], (), ["injections, setpoints, outcome"])
p("C27", "Orbit correction converges to the reference or raises",
  "With an exact response matrix of a linear machine one correction step brings the readings to the reference (as far as limits allow), whichever BPM and corrector subsets are used; the frequency takes part exactly when dispersion is included. "
  "The correction returns only when the readings are stable within the tolerance (or a single step was requested), raises when transmission is lost or the readings stay unstable, and changes nothing but the allowed correctors and, with dispersion, the cavity frequency.",
  ["histories", "configurations", "fault_sequences"], "all machines, references, subsets, tolerances, step limits",
  "One seeded example runs it inside a loop that swallows errors.",
  [OT, "pySC/utils/sc_tools.py"], [("correction loop", OT + ":correct"), ("convergence test", OT + ":_is_stable_or_converged")], (), ["injections, setpoints, outcome"])
p("C28", "Measurements restore what they vary",
  "Measuring a response matrix, a dispersion or optics-fit response data on the machine excites only the correctors, cavities or quadrupoles it is asked to use, and afterwards every setpoint, field and injection setting is what it was before. "
  "On a linear machine the measured response equals the true response - also where the requested kick first has to be reduced because the beam gets lost or the corrector is at its limit -, the reported corrector steps are those used, and amplitudes that do not match the correctors are refused.",
  ["histories", "configurations"], "all start states, subsets, step sizes",
  "No test compares machine states before and after a measurement.",
  ["pySC/correction/loco.py", "pySC/lattice_properties/response_measurement.py"],
  [("orbit response measurement", "pySC/correction/loco.py:measure_closed_orbit_response_matrix"), ("dispersion measurement", "pySC/lattice_properties/response_measurement.py:dispersion")], (), ["state before/after, returned arrays"])
p("C29", "A tune scan leaves the best tried setting, and only that",
  "A two-family quadrupole scan tries grid points in spiral order, stops at the first point reaching the target unless a full scan is asked for, and returns with both families at the nominal strengths times the returned factors, which are those of the point with the best transmission (turns, if nothing survives). "
  "Nothing else changes; if no point gives any transmission it raises an error with the quadrupoles back at nominal strength.",
  ["configurations", "inputs"], "all grids, families, targets and transmission maps",
  "One seeded example runs it and checks the final transmission.",
  ["pySC/correction/tune.py"], [("scan", "pySC/correction/tune.py:tune_scan")], (), ["setpoints at every injection, outcome"])
p("C30", "RF corrections move only the RF parameter they correct",
  "Correcting the RF phase or frequency scans exactly the requested parameter of the requested cavities around its present value, restores it after each step and finally adds one common correction (of a phase at most half a period) that removes the measured turn-by-turn energy drift, or leaves the parameter as it was when the measurement is too imprecise. "
  "It refuses to run with too few turns, too few steps, a wrong mode or a switched-off cavity, raises when too few scan points are usable, and in these cases leaves the machine unchanged. The static errors reported are the distances of injected and closed orbit, the phase within half a period.",
  ["configurations", "fault_sequences", "inputs"], "all start values, cavities, scan ranges, losses during the scan",
  "One seeded example runs both once and asserts nothing about them.",
  ["pySC/correction/rf.py"], [("phase scan", "pySC/correction/rf.py:correct_rf_phase"), ("frequency scan", "pySC/correction/rf.py:correct_rf_frequency")], (), ["cavity setpoints at every injection, outcome"])
p("C31", "Beam-based alignment finds the magnet centre and restores the machine",
  "Trajectory-based alignment restores injection, number of turns and all magnet setpoints, and changes nothing but offsets of the given BPMs in the given planes. "
  "On a linear noise-free machine the resulting BPM offset makes the BPM read zero when the beam passes the centre of its magnet; a BPM whose centre cannot be determined gets no number and keeps its offset; it refuses wrong modes, turn numbers, mismatched inputs and too high fit orders.",
  ["configurations", "inputs", "fault_sequences"], "all BPM/magnet pairs, offsets, strengths, apertures",
  "One seeded example checks that the spread of offsets halves.",
  ["pySC/correction/bba.py"], [("scan and evaluation", "pySC/correction/bba.py:trajectory_bba"), ("injection scaling", "pySC/correction/bba.py:_scale_injection_to_reach_bpms")], (), ["state before/after, offsets"])
p("C32", "Only trustworthy alignment results are applied",
  "A measured offset is added to its BPM exactly when it is a number, does not exceed the outlier limit and is significant with respect to its error; all other BPMs keep their offsets. "
  "Simulated alignment sets flagged BPMs to the offset of their magnet plus a bounded random remainder, in the flagged plane only, and leaves unflagged ones alone.",
  ["inputs"], "all result arrays, flags and alignment states",
  "One example runs the code without looking at individual BPMs.",
  ["pySC/correction/bba.py"], [("application", "pySC/correction/bba.py:apply_bpm_offsets"), ("failure flag", "pySC/correction/bba.py:is_bba_errored"), ("simulated", "pySC/correction/bba.py:fake_bba")], (), ["BPM offsets before/after"])
p("C33", "Chromaticity fitting changes only the sextupole families, and reaches the target",
  "After a chromaticity fit the chromaticity is within tolerance of the target and the sextupole setpoints of each family have changed by one common amount from wherever they were, with everything else unchanged. "
  "An invalid target leaves the machine as it was.",
  ["configurations", "inputs"], "all start setpoints, families and reachable targets",
  "One test fits two fixed targets from one start point with integer-truncation-insensitive values.",
  ["pySC/correction/chroma.py"], [("fit", "pySC/correction/chroma.py:fit_chroma")], (), ["sextupole setpoints, chromaticity"])
p("C34", "Injection fits recover the injection error",
  "On a field-free or linear machine with perfect BPMs, fitting the injected trajectory yields the negative of the actual deviation of the injected beam from the design trajectory at the BPMs, and after applying it the readings vanish; the fit across the injection drift returns its result without changing the machine. "
  "If BPMs used for the fit have no reading, an error is raised rather than a wrong injection applied.",
  ["inputs"], "all injection offsets and angles, BPM subsets",
  "One test only checks that the calls run.",
  ["pySC/correction/injection_fit.py"], [("trajectory fit", "pySC/correction/injection_fit.py:fit_injection_trajectory"), ("drift fit", "pySC/correction/injection_fit.py:fit_injection_drift")], (), ["Z0, returned deltas, readings"])
p("C35", "Optics-fit building blocks are exact",
  "The optics-fit Jacobian has, per quadrupole, the change of the response matrix per unit strength of that quadrupole, per corrector its column and per BPM its row of the model matrix, leaves the machine unchanged, and applying a fit result subtracts it from the setpoints of exactly the given magnets or families. "
  "Parameter masks select exactly the requested parameter groups, and both solvers recover parameters used to construct a linear problem when enough singular values are kept; the requested number of singular values is kept. The reported beta beating is, per plane, the rms relative deviation from the given optics.",
  ["inputs", "configurations"], "all parameter groups, magnet lists, problem sizes",
  "Tests run one fixed problem with loose assertions.",
  ["pySC/correction/loco.py"], [("Jacobian", "pySC/correction/loco.py:calculate_jacobian"), ("application", "pySC/correction/loco.py:set_correction")], (), ["Jacobian blocks, setpoints, parameters"])
p("C36", "Circumference scaling stretches drifts only, to the exact length",
  "Scaling the circumference changes only the lengths of drift spaces, all by the same factor, such that the total length becomes the requested one (absolute) or the requested multiple (relative); unknown modes raise and change nothing.",
  ["inputs", "configurations"], "all lattices and scale factors",
  "No test calls it directly.",
  ["pySC/utils/sc_tools.py"], [("scaling", "pySC/utils/sc_tools.py:scale_circumference")], (), ["element lengths"])
p("C37", "The regularised pseudo-inverse inverts exactly the retained modes",
  "The pseudo-inverse used by all corrections inverts the response on the retained singular modes (the requested number of weakest ones and all zero ones removed), with the requested damping factor and Tikhonov regularisation, and maps everything else to zero.",
  ["inputs"], "all matrix shapes, ranks and parameter combinations",
  "One test compares with numpy for one random matrix without options.",
  ["pySC/utils/sc_tools.py"], [("pseudo-inverse", "pySC/utils/sc_tools.py:pinv")], (), ["returned matrix"])
p("C38", "Structure verification accepts consistent and rejects inconsistent machines",
  "Verifying the structure never changes the machine, raises for machines whose supports, field vectors, combined-function data or injection settings are inconsistent, and does not raise for any consistent machine built by successful registrations and error applications.",
  ["histories", "configurations"], "all reachable machines and all single inconsistencies",
  "One example calls it once.",
  [SC], [("verification", SC + ":verify_structure")], (), ["outcome, state digest"])
p("C39", "Weighted averages count every given value by its error and nothing else",
  "Weighted means, root mean squares and their errors weigh every value by the inverse square of its error along exactly the requested axis and treat all values alike if any given error is zero or missing; the variants that handle missing values give what they give without those values; effective sample sizes lie between two and the number of values; circular means and errors agree with the linear ones for values close together, do not change when values move by whole periods and find the centre of values mirrored about it.",
  ["inputs"], "all tables of values, errors, missing values, axes and periods",
  "Tests compare single vectors, mostly with equal errors; missing values, axes and error-free values are combined once.",
  ["pySC/utils/stats.py"], [("weighted statistics", "pySC/utils/stats.py:weighted_error"), ("circular statistics", "pySC/utils/stats.py:circular_error"), ("sample size", "pySC/utils/stats.py:effective_sample_size")],
  (), ["returned statistics"])
p("C40", "Tune fitting changes only the quadrupole families, and reaches the target",
  "After a tune fit the tunes - fractional or with their integer parts, those of the design lattice unless a target is given - are within tolerance of the target, and the quadrupole setpoints of each family have changed by one common amount from wherever they were, with everything else unchanged.",
  ["inputs", "configurations"], "all machines, starting setpoints, family sizes and reachable targets",
  "No test calls the fit.",
  ["pySC/correction/tune.py"], [("fit", "pySC/correction/tune.py:fit_tune"), ("tunes", "pySC/correction/tune.py:tune")], (), ["setpoints", "tunes", "state digest"])
p("C41", "A new machine is the given lattice, without errors, and shares nothing",
  "A newly created machine, whatever was done before to other machines made from the same lattice, has working and design lattices equal to the given one, nothing registered, no uncertainties and the documented injection settings (one particle on axis without beam size or jitter, one shot of one turn, tracked turn by turn, no reading changed afterwards), each setting independent of the others; applying errors to it changes nothing, and later changes of the given lattice or of another machine do not reach it.",
  ["histories"], "every interleaving of creating machines, working on them and editing the given lattice",
  "Each test creates one machine and starts working on it.",
  [SC, "pySC/core/classes.py"], [("creation", SC + ":__init__"), ("defaults", "pySC/core/classes.py:Injection")], (), ["full projected state of every machine after every call"])
p("N01", "Numerical optics results are accurate",
  "Tunes, closed orbits, beta beating and apertures computed by the package agree with the physics they approximate to the stated accuracy.",
  ["inputs"], "all lattices",
  "Accuracy against physics is a numerical question; tests sample single lattices.",
  ["pySC/correction/tune.py", "pySC/lattice_properties/apertures.py"], [("calls into the tracking library", "pySC/utils/at_wrapper.py")])
p("N02", "Plots show the data they are given",
  "Every plotting function draws the current machine data in the right panel and units without modifying the machine.",
  ["inputs"], "all machines", "Tests only run the plotting functions.",
  ["pySC/plotting/plot_support.py", "pySC/plotting/plot_lattice.py"], [("matplotlib calls", "pySC/plotting")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P))
