"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
S="src/qutip_qtrl/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech],
       "observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

p("C01","Computed evolution is the ordered product of the true slot propagators",
 "For every system handed to a pulse optimiser (Hamiltonian, general-matrix or symplectic dynamics; drift and controls constant or given per timeslot; equal or unequal slot durations; operator or state initial/target) and every amplitude array, the generator reported for slot k is drift plus the sum of amplitude times control for that slot, and the reported propagator of slot k is the matrix exponential of that generator (with the prefactor of the dynamics type) times that slot's duration. The forward evolution up to slot k is the time-ordered product of those propagators applied to the initial operator or state, the onward evolution from slot k is the product of the remaining propagators, the onto-target evolution is the inverse (adjoint) target times the onward one, and the full evolution is the last forward one.",
 ["inputs","configurations"],"all systems, time grids and amplitude arrays, all dynamics types and propagator computers",
 "Tests only check the final fidelity reached on five fixed systems; they never compare slot generators, propagators or the forward/onward/onto lists with an independent computation, nor unequal slots.",
 ["dynamics.py","tslotcomp.py","propcomp.py","symplectic.py"],
 [("generator combination","dynamics.py:_combine_dyn_gen"),("propagators","propcomp.py:_compute_propagator"),("evolution chain","tslotcomp.py:recompute_evolution"),("external accessors","dynamics.py:prop,fwd_evo,onwd_evo,onto_evo,full_evo")],
 ["Dynamics.dyn_gen / prop / fwd_evo / onwd_evo / onto_evo / full_evo after compute_evolution"])

p("C02","Representation, caching and propagator choices never change the numbers",
 "For a fixed problem and amplitudes, the generators, propagators, evolutions, fidelity error and fidelity-error gradient agree to numerical precision across every supported way of computing them: internal operator type (dense arrays or quantum objects), memory-optimisation level, each cache switch, sparse or dense eigendecomposition, the prefactor applied before or after the generator where these are equivalent, every propagator method valid for the dynamics type, and a constant system given per timeslot. A supported configuration either works and agrees, or is refused with an explicit error.",
 ["configurations","inputs"],"all pairs of supported configurations of the same problem",
 "Tests run three operator types on two systems and check only that the optimiser reaches its target; combinations with memory levels, cache switches and the other propagator methods are never compared.",
 ["dynamics.py","propcomp.py","fidcomp.py","tslotcomp.py"],
 [("operator type / memory options","dynamics.py:_set_memory_optimizations,_choose_oper_dtype,_init_evo"),("propagator computers","propcomp.py")],
 ["the same accessors on twin Dynamics objects built with different dyn_params / prop_type"])

p("C03","Fidelity error equals its documented definition",
 "For every evolution, the reported fidelity error is the documented function of target and evolved operator/state: |1 - |overlap|/N| with global phase ignored, |1 - Re(overlap)/N| with global phase respected (N being the self-overlap of the target), and scale * trace of the squared difference for trace-difference, where the scale is the given factor or one over twice the dimension. It is real, finite and non-negative, at most 1 (phase ignored) or 2 (phase respected) for unitary dynamics with a matching norm, zero when the evolution hits the target, unchanged by a global phase of the target when phase is ignored and changed by it when phase is respected, and the fidelity and un-normalised overlap the object exposes are consistent with it.",
 ["inputs","configurations"],"all systems, targets, amplitudes, phase options and scale factors",
 "Tests only see fidelity errors at optimised optima, where wrong normalisations or a wrong phase convention still go to zero.",
 ["fidcomp.py"],
 [("PSU/SU normalisation","fidcomp.py:FidCompUnitary"),("trace difference","fidcomp.py:FidCompTraceDiff")],
 ["fid_computer.get_fid_err / get_fidelity / get_fidelity_prenorm"])

p("C04","The gradient handed to the optimiser is the derivative of the fidelity error",
 "At every amplitude array the fidelity-error gradient has one entry per (timeslot, control) and each entry equals the partial derivative of the fidelity error with respect to that amplitude: to numerical precision for the exact methods and to first order in the finite-difference step for the approximate one. The reported gradient norm is the Euclidean norm of that array. This holds for every combination of dynamics type, fidelity measure, phase option, propagator method, operator type, caching, time dependence and unequal slots.",
 ["inputs","configurations"],"all amplitude points (not only extrema) and all method combinations",
 "The tests compare gradients with finite differences only for the default method of four systems, on converged (near-zero-gradient) pulses and without time-dependent controls or unequal slots.",
 ["fidcomp.py","propcomp.py","dynamics.py"],
 [("gradient assembly","fidcomp.py:compute_fid_grad,compute_fid_err_grad"),("factor matrix","dynamics.py:_spectral_decomp")],
 ["fid_computer.get_fid_err_gradient, grad_norm"])

p("C05","Propagator gradients are the directional derivatives of the propagators",
 "For every exact propagator method, the propagator gradient for slot k and control j equals the derivative of that slot's propagator with respect to that control's amplitude, including at degenerate or nearly degenerate spectra, zero amplitudes and non-commuting or time-dependent controls, whether it is computed eagerly and cached or on demand. The finite-step propagator of the approximate method equals the propagator at the shifted amplitude.",
 ["inputs","configurations"],"all generators (in particular degenerate ones), slots and controls",
 "No test looks at propagator gradients; degeneracy of the combined generator is not exercised.",
 ["propcomp.py","dynamics.py"],
 [("Diag / Frechet / AugMat gradients","propcomp.py:_compute_prop_grad"),("degeneracy mask","dynamics.py:_spectral_decomp")],
 ["Dynamics.prop_grad; prop_computer.compute_prop_grad / compute_diff_prop"])

p("C06","No stale values: every query reflects the latest amplitudes and settings",
 "After any history of amplitude updates (new, repeated, back to earlier values, single-entry or all-entry changes), evolution/fidelity/gradient/accessor queries in any order, phase-option changes and re-initialisations with a new target, initial state, controls, timeslot grid or amplitudes, each queried value equals what a freshly built object with the same current settings returns. The same holds after an evaluation that was interrupted part-way by an exception. Re-submitting unchanged amplitudes triggers no recomputation, and repeating a query without changes returns the same value.",
 ["histories"],"all interleavings of update, query and re-initialisation operations",
 "Tests drive a single straight-line optimisation per object, so invalidation flags are only exercised in the one order the optimiser uses.",
 ["dynamics.py","fidcomp.py","tslotcomp.py"],
 [("change detection","tslotcomp.py:compare_amps"),("invalidations","dynamics.py:flag_system_changed; fidcomp.py:flag_system_changed"),("accessor caches","tslotcomp.py:recompute_evolution")],
 ["Dynamics/fid_computer public queries after each operation"],
 [("evolution-current flag","evolution lists match the amplitudes","dynamics.py:evo_current"),("fidelity/gradient-current flags","cached values match the evolution","fidcomp.py:FidelityComputer")])

p("C07","Evolution preserves the structure of its dynamics and checks report breaches",
 "With Hermitian generators every propagator and evolution of Hamiltonian dynamics is unitary; symplectic dynamics with symmetric generators yields propagators that preserve the symplectic form, whose matrix is antisymmetric and squares to minus the identity; trace-preserving open-system generators yield trace-preserving, positivity-preserving evolutions. This stays true over long pulses and extreme amplitudes. When the unitarity check is enabled it warns about a timeslot exactly when that slot's propagator is not unitary within tolerance, for every dynamics type.",
 ["inputs","configurations"],"all generators of the respective class, amplitudes and pulse lengths",
 "One test computes unitarity deviations for a single Ising system; symplectic form, trace preservation and the warning behaviour are never checked.",
 ["dynamics.py","symplectic.py","propcomp.py","tslotcomp.py"],
 [("unitarity check","dynamics.py:check_unitarity,unitarity_check"),("symplectic form","symplectic.py:calc_omega")],
 ["Dynamics.prop / full_evo; symplectic.calc_omega; log records of the check"])

p("C08","Timeslot durations, cumulative times, total time and slot count always agree",
 "However the grid is specified (slot count and total time, explicit durations in any sequence type, defaults, or changed later in any order), the number of slots equals the number of durations, the cumulative time array starts at 0, has one more entry than slots and increments by exactly those durations, and the total time is their sum; equal slots are used when durations are not given. Amplitude start times, the time array of results and generated pulses use that same grid, and missing or inconsistent specifications are refused.",
 ["inputs","histories"],"all specifications and sequences of changes of the grid",
 "Tests use equal slots from one specification path only.",
 ["dynamics.py","pulseoptim.py","pulsegen.py"],
 [("grid generation","dynamics.py:init_timeslots, num_tslots/evo_time/tau setters")],
 ["Dynamics.tau/time/evo_time/num_tslots, get_amp_times, OptimResult.time, PulseGen.tau"])

p("C09","An optimisation result tells the truth about the run that produced it",
 "For every optimisation run, however it ends, the result is self-consistent and reproducible from its own data: evolving the system independently under the final (initial) amplitudes gives the reported final (initial) evolution and fidelity error, the reported final gradient norm is the norm at a point the run evaluated (when it evaluated any gradient), the time array is the grid used, the initial amplitudes are the pulse the run started from and the counts of iterations and fidelity calls are those actually made. The optimiser's own state afterwards agrees with the result, and later runs do not alter a result already returned.",
 ["inputs","configurations","histories"],"all problems, algorithms, optimisation methods and ways of ending",
 "Tests check the final fidelity error is below target and amplitudes within bounds; they never re-derive the result independently nor look at runs ended by limits.",
 ["optimizer.py","optimresult.py","pulseoptim.py"],
 [("result assembly","optimizer.py:_create_result,_add_common_result_attribs,_interpret_term_exception")],
 ["OptimResult attributes; recorded calls of the fidelity function"])

p("C10","Runs stop at the limits set, and report why they stopped",
 "An optimisation stops no later than the first evaluation whose error is at or below the target, never makes more than one fidelity evaluation beyond the allowed number, never completes more iterations than allowed, and stops at the first completed iteration after the wall-time limit has passed or at the first gradient below the minimum norm. The result says goal achieved exactly when its final error is at or below the target, flags exactly the limit that ended the run, and always gives a termination reason.",
 ["inputs","configurations","fault_sequences"],"all target/limit settings, clock behaviours and algorithms",
 "Tests never make a limit bind: every optimisation in the suite ends by reaching its goal.",
 ["optimizer.py","errors.py","termcond.py","optimresult.py"],
 [("termination checks","optimizer.py:fid_err_func_wrapper,fid_err_grad_wrapper,iter_step_callback_func"),("reason mapping","optimizer.py:_interpret_term_exception,run_optimization")],
 ["sequence of fidelity/gradient/iteration events with a controlled clock; OptimResult flags"])

p("C11","Amplitude bounds are never violated",
 "When lower and/or upper amplitude bounds are given (scalar or one per control, finite or infinite, including zero), the starting pulse, every amplitude array at which the system is evaluated, and the final pulse of a bounded optimisation lie within them, for the bounded gradient method and for CRAB. Bounds given for one control are applied to that control only, and without bounds amplitudes are not restricted.",
 ["inputs","configurations","histories"],"all bound specifications and every evaluation of every run",
 "Tests only check final amplitudes against one symmetric scalar pair; per-control lists, one-sided, zero or infinite bounds and intermediate evaluations are not covered.",
 ["optimizer.py","pulseoptim.py","pulsegen.py"],
 [("bounds list","optimizer.py:_build_bounds_list"),("pulse bounding","pulsegen.py:_apply_bounds_and_offset,_apply_bounds"),("per-control CRAB bounds","pulseoptim.py:create_pulse_optimizer")],
 ["amplitudes passed to Dynamics at each evaluation; result initial_amps/final_amps"])

p("C12","Optimisation makes progress: the final pulse is never worse than the start",
 "When an optimisation ends by itself (goal reached, convergence of the method or iteration limit), the final fidelity error is not larger than the initial one and, for the converged result, is the smallest among the accepted iterates. For small well-posed controllable problems the default gradient method started from random pulses reaches the target error within its limits.",
 ["inputs","configurations"],"all problems and starting pulses",
 "Tests check success only on the five fixed systems.",
 ["optimizer.py","fidcomp.py","pulseoptim.py"],
 [("minimiser wiring","optimizer.py:run_optimization of each optimizer class")],
 ["OptimResult.initial_fid_err / fid_err and the recorded error sequence"])

p("C13","Statistics count exactly what happened",
 "When statistics are collected, every count (fidelity-function calls, gradient calls, iterations, fidelity and gradient computations, evolution recomputations, amplitude updates, changed amplitudes and changed timeslots) equals the number of such events that actually took place in that run, and every reported average is the corresponding total divided by the corresponding count. Times are non-negative, the optimisation wall time equals the difference of its start and end, component times do not exceed the total, and a new run starts from zero.",
 ["histories","inputs"],"all runs, including runs ended by limits and repeated runs of one optimiser",
 "Only one test turns statistics on and it never reads them.",
 ["stats.py","tslotcomp.py","fidcomp.py","optimizer.py"],
 [("counter updates","tslotcomp.py:compare_amps,recompute_evolution; fidcomp.py; optimizer.py"),("derived values","stats.py:calculate")],
 ["OptimResult.stats versus events recorded at the public call boundary"])

p("C14","Dumped history is a faithful, complete, ordered record of the run",
 "When dumping is on, the optimiser dump holds one fidelity-error entry per fidelity evaluation, one gradient(-norm) entry per gradient evaluation and one summary per iteration, in order and with the values of that moment; the dynamics dump holds one item and one summary per evolution recomputation whose stored amplitudes, generators, propagators and evolutions are those of that moment and are not changed by later computation. Each level (none, summary, full, custom) records exactly the categories it promises, and switching level or clearing resets them accordingly.",
 ["histories","configurations"],"all runs and dump levels",
 "Tests check that logs are non-empty and count files for one run; contents, order and isolation from later updates are not looked at.",
 ["dump.py","optimizer.py","tslotcomp.py"],
 [("optimiser logs","dump.py:OptimDump"),("evolution items","dump.py:DynamicsDump,EvoCompDumpItem"),("dump points","tslotcomp.py:dump_current; optimizer.py wrappers")],
 ["OptimDump / DynamicsDump attributes versus recorded events"])

p("C15","Dump files contain the recorded data and stay inside the dump directory",
 "Every file written for a dump parses back to the values held in memory to the written precision: the right operator for the right item and timeslot under the right name, every timeslot present, logs and summaries row for row. All files go below the chosen dump directory and nowhere else, a dump directory that cannot be created disables or reports the dump without spoiling the optimisation, and the number and names of files follow from the categories enabled.",
 ["configurations","histories","fault_sequences"],"all dump levels, operator types, directories and name settings",
 "Tests count the number of files for two systems and never open one.",
 ["dump.py","io.py"],
 [("file writers","dump.py:writeout of EvoCompDumpItem, DynamicsDump, OptimDump"),("directory creation","io.py:create_dir; dump.py:create_dump_dir")],
 ["files under a scratch dump_dir"])

p("C16","Pulse generators produce the documented waveform on the slot grid",
 "Each pulse generator returns one finite value per timeslot with the documented shape sampled at the slot start times: constant, straight line through the given start, end or gradient, sine, square, saw and triangle of the given number of waves, wavelength or frequency and start phase, Gaussian of given mean and variance, Gaussian-edged ramp, and random pulses with the documented range, step or band limits. Scaling multiplies and offset adds, the derived attributes (frequency, wavelength, number of waves, gradient) are mutually consistent, regenerating a deterministic pulse repeats it, and random pulses are reproducible under the same random seed.",
 ["inputs","configurations"],"all generator parameters, grids and parameter-passing styles",
 "Tests only exercise two periodic-pulse parameters and otherwise use generators as unexamined starting points.",
 ["pulsegen.py"],
 [("waveforms","pulsegen.py:gen_pulse of each class"),("parameter derivation","pulsegen.py:init_pulse of PulseGenLinear/PulseGenPeriodic")],
 ["PulseGen.gen_pulse output and attributes"])

p("C17","Generated pulses obey their bounds while keeping their shape",
 "If bounds are set on a non-CRAB pulse generator, every generated value lies within them whatever the scaling and offset, with either bound possibly absent or infinite; the pulse is an increasing affine image of the unbounded one, it equals the unbounded one when that already fits, it is only shifted when a shift suffices and otherwise scaled just enough to fit, and a lower bound above the upper bound is refused. No finite bounds ever produce an infinite or undefined amplitude.",
 ["inputs","configurations"],"all bounds, scalings, offsets, generator types",
 "Tests only use bounds that the pulse already satisfies.",
 ["pulsegen.py"],
 [("bounding","pulsegen.py:_apply_bounds_and_offset,init_pulse")],
 ["PulseGen.gen_pulse output"])

p("C18","CRAB pulses are the documented function of their parameters",
 "For every parameter vector the optimiser tries, each control's pulse is the sum of sine and cosine components with exactly that control's coefficients (and frequencies, when these are optimised), combined with the guess pulse by the chosen action (add or modulate), multiplied by the ramping pulse and finally squeezed into the bounds. The parameter vector is split among controls in order, one block each; setting and getting parameters round-trips; unset sizes are estimated from the system dimension; frequencies are the harmonics of the pulse with a bounded random offset (none when randomisation is off); and the amplitudes evaluated by the run are those pulses.",
 ["inputs","configurations","histories"],"all parameter vectors, numbers of coefficients, guess/ramp/bound combinations",
 "Tests run CRAB to a goal on one system and check attributes of the generator, not the pulse values.",
 ["pulsegen.py","optimizer.py","pulseoptim.py"],
 [("expansion","pulsegen.py:PulseGenCrabFourier.gen_pulse"),("parameter split","optimizer.py:OptimizerCrab._get_ctrl_amps,_get_optim_var_vals")],
 ["PulseGenCrabFourier public methods; amplitudes evaluated during a CRAB run"])

p("C19","The stand-alone GRAPE functions follow the gradient and report consistently",
 "For every target, Hamiltonian, iteration count, time grid and options (step size, start pulses, limits, penalties, interpolation, phase sensitivity), each row of the returned control history is the previous row plus step times the first-order gradient of the overlap (minus penalties), clipped to the limits, with the last column repeating the one before, on an evenly spaced time grid; the two fixed-step implementations agree with each other. The returned time-dependent Hamiltonian uses the final controls, the returned unitary is the one those final controls generate, the given arguments are not modified, and small steps increase the overlap. The adaptive function returns the best controls it tried, whose overlap is the one it logged and never below that of the start.",
 ["inputs","configurations"],"all problems, options and iteration counts",
 "Tests run the three functions with default options on one gate and check only the final overlap of a returned unitary.",
 ["grape.py","cy_grape.py"],
 [("update rule","grape.py:grape_unitary; cy_grape.py:cy_grape_inner"),("adaptive steps","grape.py:grape_unitary_adaptive")],
 ["GRAPEResult u / H_t / U_f (and eps/overlap logs)"])

p("C20","Configuration files set exactly the named attributes with the right types",
 "Loading parameters from a configuration file sets each attribute named in a recognised section on the corresponding object, with the value converted to the type the attribute already has (integer, float, boolean, text) or otherwise to the value the text denotes, and touches nothing else. A file that does not exist is refused with an error, a value that cannot be converted to the attribute's type is reported and leaves that attribute as it was (the rest of its section may then be skipped), a name the object does not have is skipped with a warning, and loading the same file twice is the same as once.",
 ["inputs","configurations"],"all files, sections, keys and value spellings",
 "Two fixed files are loaded in the tests and a handful of attributes compared.",
 ["loadparams.py","optimconfig.py"],
 [("parameter parsing","loadparams.py:load_parameters,set_param")],
 ["attributes of OptimConfig, Dynamics, Optimizer, TerminationConditions, PulseGen objects"])

p("C21","Saved amplitude files reproduce the pulses",
 "Saving control amplitudes writes one row per timeslot holding the slot start time followed by every control's amplitude (or amplitudes only, when times are excluded, or the times and amplitudes passed in), readable back to the written precision. The initial and final amplitude files requested from an optimisation hold the result's initial and final amplitudes, and a failed save is reported without disturbing the optimisation.",
 ["inputs","configurations","fault_sequences"],"all amplitude arrays, options and file-system failures",
 "No test reads a saved amplitude file.",
 ["dynamics.py","pulseoptim.py"],
 [("writer","dynamics.py:save_amps"),("output files","pulseoptim.py:optimize_pulse out_file_ext")],
 ["files written in a scratch directory"])

p("C22","Diagnostics are passive",
 "Turning on any log level, statistics, dumping (in memory or to file), unitarity checks or iteration recording never changes the pulses, fidelities, gradients, termination or call sequence of a run and never makes a run fail that succeeds without it.",
 ["configurations"],"all diagnostic settings on all dynamics, fidelity and algorithm types",
 "Tests use the default quiet level apart from dumping; results with and without diagnostics are never compared.",
 ["dynamics.py","optimizer.py","fidcomp.py","tslotcomp.py","propcomp.py","dump.py","logging_utils.py"],
 [("log-level branches","all modules: if self.log_level <= ..."),("dump/stat hooks","tslotcomp.py, optimizer.py")],
 ["OptimResult and evaluation sequence of twin runs"])

p("C23","Runs leave their inputs alone and are repeatable and independent",
 "No entry point modifies the operators, lists, arrays or option dictionaries handed to it, and returned arrays do not change when the inputs are changed later. With the same random seed the same call gives the same result, regardless of which other optimisations ran before or are set up alongside it.",
 ["histories","inputs"],"all sequences of calls sharing arguments or running interleaved",
 "Each test builds its own inputs and never re-uses or compares them afterwards.",
 ["pulseoptim.py","dynamics.py","optimizer.py","pulsegen.py","grape.py"],
 [("argument handling","pulseoptim.py:optimize_pulse,opt_pulse_crab,create_pulse_optimizer"),("attribute setting","dynamics.py:apply_params; optimizer.py:apply_method_params")],
 ["deep snapshots of arguments before/after; twin runs"])

p("C24","All entry points and option spellings mean the same thing",
 "The convenience functions for unitary systems and for CRAB, the step-by-step route (create optimiser, initialise controls, run) and the general function produce the same result for the same settings and seed. Every documented option is honoured: default markers select the documented defaults, algorithm, method and type names select the documented implementation, pulse scaling and offset, method parameters, fidelity, dynamics, propagator, timeslot and pulse parameters reach the objects they configure with explicit parameters taking precedence, and deprecated spellings act as their replacements.",
 ["configurations"],"all documented options and combinations",
 "Tests exercise one or two options per entry point and never compare entry points with each other.",
 ["pulseoptim.py","optimizer.py"],
 [("forwarding","pulseoptim.py:optimize_pulse_unitary,opt_pulse_crab,opt_pulse_crab_unitary"),("dispatch","pulseoptim.py:create_pulse_optimizer")],
 ["OptimResult of equivalent calls; attributes of the created objects"])

p("C25","Unusable configurations are refused up front with a clear error",
 "Unknown algorithm, method, dynamics, propagator, fidelity, phase or pulse-type names, controls/drift/initial/target of the wrong kind or shape, missing time specifications, a missing fidelity goal, mismatched CRAB generators and use of objects before initialisation raise an error whose text can be displayed, before the optimiser makes any evaluation. Valid configurations are never refused.",
 ["inputs","configurations"],"all invalid values at each validated parameter",
 "Tests cover three invalid inputs.",
 ["pulseoptim.py","dynamics.py","fidcomp.py","optimizer.py","pulsegen.py","errors.py"],
 [("validation","pulseoptim.py:create_pulse_optimizer; dynamics.py:_check_ctrls_container,_check_drift_dyn_gen,_init_evo"),("errors","errors.py")],
 ["exceptions raised by public entry points"])

p("C26","Output directories are created exactly as asked",
 "Creating an output directory returns success exactly when the path exists as a directory afterwards, creates missing directories only along the requested path (relative paths below the working directory, a leading ~ expanded), leaves existing directories and their contents untouched, and reports failure with a message instead of raising when the path is blocked by a file or cannot be created.",
 ["inputs","fault_sequences"],"all path forms, pre-existing file-system states and failures",
 "Tests create one directory under a temporary folder.",
 ["io.py","dump.py","optimconfig.py"],
 [("directory creation","io.py:create_dir"),("users","dump.py:create_dump_dir; optimconfig.py:check_create_output_dir")],
 ["return value of create_dir and the scratch directory tree"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P)); assert all(len(x["title"])<=80 for x in P), [x["title"] for x in P if len(x["title"])>80]
