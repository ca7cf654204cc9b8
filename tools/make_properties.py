"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, pathlib

S = "src/mqt/qudits/"
SIM = S + "simulation/"
BK = SIM + "backends/"
QC = S + "quantum_circuit/"
VAR = S + "compiler/twodit/variational_twodit_compilation/"

P = []


def p(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **kw},
    })


p("C01", "Noisy runs return exactly the requested shots, all valid, and save the same",
  "A noisy simulation run asked for N shots returns exactly N results: basis-state indices that the circuit under its noise model can produce or, when full states are requested, normalised state vectors of the circuit's size. This holds on both simulators for every number of worker processes and every assignment, delay, stall and completion order of the work across them. Results saved by the same run are exactly the returned ones, in the same order, numbered from 0.",
  ["schedules", "configurations", "inputs"],
  "all worker counts, task-to-worker assignments and completion orders, shot counts (not only multiples of anything), circuits, noise models and option combinations",
  "The tests run two or three circuits with one shot count on whatever number of cores the machine has; they never control the worker count or the schedule, so a lost remainder, a reordered save or an off-by-one at the end of the range passes.",
  [BK + "stochastic_sim.py", BK + "tnsim.py", BK + "misim.py", SIM + "save_info.py"],
  [("process pool over per-shot arguments", BK + "stochastic_sim.py"), ("measurement of one shot", BK + "stochastic_sim.py"), ("saving of results", SIM + "save_info.py")],
  observe_at=["job.result().get_counts()", "the saved HDF5 file"])

p("C02", "Shots are statistically independent of each other",
  "The shots of a noisy run are independent random samples, and so are the shots of different runs: neither measurement outcomes nor noise realisations are shared, repeated or correlated between shots. It makes no difference which worker process or work batch the shots ran in, whether they ran at the same clock reading, whether the clock stalled or stepped back, or whether process ids are reused.",
  ["schedules", "histories", "configurations"],
  "all assignments of shots to workers and batches, clock behaviours (coarse, stalled, stepping back), process-id reuse and sequences of runs",
  "Sampling a distribution a few times cannot show correlations that depend on which shots share a worker or a millisecond; the tests only look at averages with loose bounds, on a real clock they do not control.",
  [BK + "stochastic_sim.py", SIM + "noise_tools/noisy_circuit_factory.py", "src/python/bindings.cpp"],
  [("seeding of the measurement generator", BK + "stochastic_sim.py"), ("seeding of the noise generator", SIM + "noise_tools/noisy_circuit_factory.py"), ("seeding of the native noise generator", "src/python/bindings.cpp generateCircuit")],
  observe_at=["the sequence of outcomes of one run and of consecutive runs"])

p("C03", "Outcome frequencies follow the circuit and the declared noise",
  "Over the shots of a noisy run the frequency of every outcome agrees, within sampling error, with the probability obtained by applying the circuit and its declared noise to the all-zero state and measuring every qudit. The noise-free state vector returned along with the shots is the state the circuit prepares without noise. Both hold whatever the worker count, the schedule and the clock.",
  ["inputs", "schedules", "configurations"],
  "circuits, noise models (mathematical noise on both simulators, physical sub-space noise on the tensor-network one), worker counts, schedules and random draws",
  "The tests compare a handful of noisy runs with broad tolerances; the claim is about the law of the outcomes for every circuit, noise model and schedule, which needs controlled randomness, an exact reference law and many shots.",
  [BK + "stochastic_sim.py", BK + "tnsim.py", BK + "misim.py", SIM + "noise_tools/noisy_circuit_factory.py", "src/python/bindings.cpp"],
  [("noise insertion", SIM + "noise_tools/noisy_circuit_factory.py and src/python/bindings.cpp generateCircuit"), ("Born-rule sampling", BK + "stochastic_sim.py")],
  observe_at=["job.result().get_counts()", "job.result().get_state_vector()"])

p("C04", "A failing shot surfaces as an error, never as a partial result",
  "If executing any shot of a noisy run fails in a worker (an error in the simulation, memory exhaustion, an operating-system error), the run raises an error to its caller in bounded time. It then returns no partial result and writes no results file. The same backend object executes the next run correctly.",
  ["fault_sequences", "schedules"],
  "which shot fails, how (exception type, or the worker process dying), in which worker, at which point of the schedule, and what runs come before and after",
  "No test makes a worker fail; the failing shot, its worker and the moment are a fault schedule that has to be injected.",
  [BK + "stochastic_sim.py", BK + "tnsim.py", BK + "misim.py"],
  [("propagation of worker exceptions by the pool", BK + "stochastic_sim.py"), ("results are saved only after every shot", BK + "stochastic_sim.py")],
  observe_at=["exception or return of run()", "presence of the results file", "the next run"])

p("C05", "Options of one run never leak into another run or another backend",
  "Options passed to one run apply to that run only: a later run on the same backend uses the options it was constructed with, plus those set explicitly since, whatever runs came before and whether they succeeded, failed or were interrupted. Setting a recognised option takes effect for all later runs; setting an unrecognised one is refused and changes nothing. Nothing done to one backend object affects another one.",
  ["histories", "fault_sequences"],
  "all sequences of constructions, runs with arbitrary options, option changes and failed or interrupted runs on several backend objects",
  "Each test uses a fresh backend for one run, so state that survives a run is never seen; the property is about histories.",
  [BK + "backendv2.py", BK + "tnsim.py", BK + "misim.py", BK + "innsbruck_01.py", SIM + "qudit_provider.py"],
  [("merging of per-run options", BK + "tnsim.py, misim.py, innsbruck_01.py run()"), ("explicit options", BK + "backendv2.py set_options")],
  observe_at=["number and kind of results of each run", "files written by each run", "the backend's options"])

p("C06", "A run that reports success has saved its results completely",
  "When a run that was asked to save its results returns normally, the file at the requested place is readable and holds exactly the returned results, even if the disk misbehaved meanwhile. If the results could not be written completely (disk full, I/O error, missing or read-only directory), the run raises an error instead.",
  ["fault_sequences", "inputs"],
  "every write, open, close or rename of the save failing with every kind of disk error, for every kind and number of results",
  "The tests write to a healthy disk and mostly do not read the file back; the property quantifies over every point at which the disk can fail.",
  [SIM + "save_info.py", BK + "stochastic_sim.py"],
  [("writing of shots and of full states", SIM + "save_info.py"), ("choice of what is saved", BK + "stochastic_sim.py save_results")],
  observe_at=["return or exception of run()", "contents of the file"])

p("C07", "A failed or killed save never leaves a half-written file in place",
  "When saving results or a circuit to a file fails, or the process is killed at any moment of it, the file at that place is afterwards either what it was before the save (or still absent) or the complete new contents. It is never a truncated or mixed file.",
  ["crash_points", "fault_sequences"],
  "every file-system operation of a save as crash point (before, after and in the middle of a write) or as failing operation; with and without a previous file at that place",
  "No test kills a save or makes it fail; crash points must be injected.",
  [SIM + "save_info.py", QC + "circuit.py", QC + "gate.py"],
  [("results file replaced as a whole", SIM + "save_info.py"), ("circuit file replaced as a whole", QC + "circuit.py save_to_file")],
  observe_at=["the file after a restart"])

p("C08", "A saved circuit loads back as the same circuit after a restart",
  "A circuit saved to a file and loaded in a fresh process has the same quantum registers, dimensions, gates, parameters, custom matrices and controls, and prepares the same state. This holds for any number of circuits saved to the same directory in any order, whatever random numbers the process draws in between.",
  ["histories", "inputs", "configurations"],
  "all circuits over the supported gates (except the random-unitary gate), sequences of saves into one directory, restarts and states of the random number generator",
  "The tests round-trip a couple of fixed programs through one file; name collisions between saves, controls and parameter kinds depend on histories and inputs they do not reach.",
  [QC + "circuit.py", QC + "gate.py", QC + "qasm.py"],
  [("export of one gate", QC + "gate.py __qasm__"), ("files of custom matrices", QC + "gate.py return_custom_data"), ("parser", QC + "qasm.py"), ("load", QC + "circuit.py from_qasm, load_from_file")],
  observe_at=["the loaded circuit's gates and state"])

p("C09", "A failed circuit save harms neither the circuit nor earlier files",
  "Saving a circuit that cannot be written completely raises an error. The circuit in memory then exports, simulates and saves exactly as if the failed save had never been tried. Every circuit saved earlier in the same directory still loads as it was saved.",
  ["fault_sequences", "histories"],
  "every operation of a save failing with every kind of disk error, in every sequence of saves of several circuits",
  "No test makes a save fail.",
  [QC + "circuit.py", QC + "gate.py"],
  [("save path kept only during a save", QC + "circuit.py save_to_file"), ("unique names for custom matrices", QC + "gate.py return_custom_data")],
  observe_at=["exception of save_to_file", "to_qasm() afterwards", "loading of earlier files"])

p("C10", "Variational compilation always ends and leaves nothing running",
  "Compiling a two-qudit gate variationally ends, with a circuit or an error, no later than the time allowances of the layer counts it tries add up to, whether the optimiser converges, does not converge, is arbitrarily slow or raises an error. When it has ended, no thread or timer that it started is still alive.",
  ["schedules", "fault_sequences", "configurations"],
  "optimiser behaviours (converging at any evaluation, giving up, slow, failing), thread schedules, timer delays and clock steps, ansatz kinds and layer counts",
  "The only test of the search has its body commented out because the real optimiser takes minutes and the time limit is an hour; simulated time reaches both.",
  [VAR + "ansatz/ansatz_solve_n_search.py", VAR + "opt/optimizer.py", VAR + "layered_compilation.py"],
  [("search thread and time-limit timer", VAR + "ansatz/ansatz_solve_n_search.py run"), ("result queue", VAR + "opt/optimizer.py solve_anneal")],
  observe_at=["simulated time until return", "threads alive afterwards"])

p("C11", "Variational compilation returns a circuit within tolerance, or an error",
  "The circuit returned by the variational compilation of a gate on the two qudits of a circuit implements that gate with an infidelity of at most the requested tolerance; if none was found, an error is raised. This does not depend on earlier compilations in the process, including ones that timed out or failed, nor on when their time limits would have expired.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences of compilations with different targets, tolerances, ansatz kinds and layer limits, with converging, failing and timing-out optimisers and arbitrary time between them",
  "No test checks a circuit that the variational compiler returned.",
  [VAR + "layered_compilation.py", VAR + "opt/optimizer.py", VAR + "ansatz/instantiate.py", VAR + "ansatz/ansatz_solve_n_search.py"],
  [("binary search over layer counts", VAR + "ansatz/ansatz_solve_n_search.py"), ("circuit built from the best parameters", VAR + "ansatz/instantiate.py")],
  observe_at=["unitary of the returned circuit"])

p("C12", "Concurrent variational compilations do not disturb each other",
  "When several threads compile different gates variationally at the same time, each returned circuit implements the gate that its own caller asked for, within its own tolerance, or that caller gets an error because its own search failed.",
  ["schedules"],
  "all interleavings of the callers' threads and of the search threads, for different targets, dimensions, ansatz kinds and tolerances",
  "No test compiles from two threads, and the interleavings that matter are rare.",
  [VAR + "layered_compilation.py", VAR + "opt/optimizer.py", VAR + "ansatz/ansatz_gen_utils.py"],
  [("search state shared by the process", VAR + "opt/optimizer.py, ansatz/ansatz_gen_utils.py")],
  observe_at=["unitary of each returned circuit"])

p("C13", "Waiting for a job ends exactly at its final state or its timeout",
  "Waiting for a job returns at the first poll that finds it done, failed or cancelled, and a job in one of these states is reported as being in a final state. With a timeout it raises a timeout error at the first poll at which the timeout has really elapsed, and never earlier, whatever steps the system clock makes. The callback is called exactly once for every poll that finds the job unfinished and not timed out.",
  ["schedules", "fault_sequences", "histories"],
  "all status trajectories, poll intervals, timeouts, durations of status queries, clock steps forward and backward, and status queries that raise",
  "The tests do not wait for jobs at all; trajectories and clock steps need a simulated clock.",
  [SIM + "jobs/job.py", SIM + "jobs/jobstatus.py"],
  [("polling loop", SIM + "jobs/job.py wait_for_final_state"), ("set of final states", SIM + "jobs/jobstatus.py")],
  observe_at=["return, exception and callback calls with their simulated times"])

p("C14", "Every job gets an id of its own",
  "The automatically assigned ids of any two jobs differ, whether the jobs were created in one process, in several threads, in forked or restarted processes, at the same clock reading, after the clock stepped back or under a reused process id. A job's id never changes and an id given explicitly is kept.",
  ["schedules", "histories", "configurations"],
  "all sequences of job creations in processes and threads, with arbitrary clock behaviour and process-id reuse",
  "A test creates one or two jobs on a real clock; collisions need equal clock readings or process-id reuse.",
  [SIM + "jobs/job.py"],
  [("automatic id", SIM + "jobs/job.py __init__")],
  observe_at=["job.job_id()"])

p("C15", "O0 and O1 compilation is right whatever happened to the backend before",
  "Compiling a circuit of single-qudit and controlled-exchange gates that uses all levels of the backend's qudits at level O0 or O1 gives a circuit that, up to a global phase and the reported mapping of logical to physical levels, implements the source circuit. This holds on a fresh backend and after or during any other compilations with the same backend or other backends, at any level, from other threads, failed or interrupted at any point. Compilation never changes the backend's level mappings.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences and interleavings of compilations (O0, O1, O2, pass lists) on shared backends, interruptions at every executed line, and circuits filling the backend's levels",
  "Every test compiles once on a fresh backend; the level graphs of a backend are built lazily, shared and rewritten by some passes, so only histories and interleavings show whether they leak.",
  [S + "compiler/dit_compiler.py", S + "compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py", S + "compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py", S + "compiler/naive_local_resynth/local_resynth.py", S + "core/level_graph.py", BK + "fake_backends"],
  [("level graphs of a backend", BK + "fake_backends and innsbruck_01.py"), ("phase bookkeeping in the graphs", S + "core/level_graph.py"), ("pass pipeline", S + "compiler/dit_compiler.py")],
  observe_at=["unitary of the compiled circuit against the source's", "level mappings of the backend"])

p("C16", "Simulating, compiling and saving leave the caller's objects unchanged",
  "Running, compiling (O0, O1 or O2), exporting or saving a circuit, and generating noisy versions of it, changes neither the circuit nor the noise model that was passed in: gates, parameters, controls, dimensions, registers and the state it prepares stay the same. This also holds when the operation fails or is interrupted half-way, and when the circuit or the noise model is used by several threads at once.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences and interleavings of operations on one circuit and one noise model, with errors and interruptions injected at every executed line",
  "Tests look at the result of one operation and not at its arguments afterwards, and never interrupt it.",
  [QC + "circuit.py", QC + "gate.py", SIM + "noise_tools/noisy_circuit_factory.py", S + "compiler/dit_compiler.py", BK + "tnsim.py", BK + "misim.py"],
  [("copies of gates", SIM + "noise_tools/noisy_circuit_factory.py"), ("copies of circuits", S + "compiler/dit_compiler.py")],
  observe_at=["a full dump of the circuit and noise model before and after"])

p("C17", "Noise is inserted exactly where and how the noise model says",
  "A noisy version of a circuit generated for the tensor-network simulator consists of the circuit's own gates, unchanged and in order, with noise operations only directly after gates that the model names and only on the qudits and levels that its mode (local, all, nonlocal, control, target) selects. Noise of probability zero is never inserted, and the frequencies of the inserted operations agree with the declared probabilities: mathematical depolarising noise p on dimension d inserts each non-trivial shift-and-phase combination with probability p/d², sub-space noise p inserts X, Y or Z type noise on its levels with probability p/4 each, and sub-space dephasing q flips the phase of every other level with probability q.",
  ["inputs", "schedules", "configurations"],
  "circuits, noise models and modes, and all random draws, under any clock and entropy behaviour",
  "Tests generate a few noisy circuits and only check that something was inserted; the claim is about every draw.",
  [SIM + "noise_tools/noisy_circuit_factory.py", SIM + "noise_tools/noise.py"],
  [("selection of affected qudits", SIM + "noise_tools/noisy_circuit_factory.py"), ("random choice of the operation", SIM + "noise_tools/noisy_circuit_factory.py"), ("collection of errors in a model", SIM + "noise_tools/noise.py")],
  observe_at=["instructions of the generated circuit"])

p("C18", "Noise-free simulation gives the circuit's state after any history and in threads",
  "A noise-free run returns the state that the circuit's gates, inverses and controls define when applied in order to the all-zero state, with qudit 0 as the most significant digit; the two simulators agree on every gate both support. The answer is the same whenever it is repeated: after any earlier runs, successful or failed, noisy or noise-free, and while other threads simulate other circuits on backends of their own.",
  ["histories", "schedules", "inputs"],
  "sequences and interleavings of runs of mixed-dimensional circuits (all orders and distances of targets and controls) on one or several backends, with failing and noisy runs in between",
  "Tests run fixed circuits once each in one thread; global state in the tensor-network library and in the native package, and operand orders, are only reached by histories, interleavings and generated circuits.",
  [BK + "tnsim.py", BK + "misim.py", "src/python/bindings.cpp", "include/dd/MDDPackage.hpp", QC + "components/extensions/matrix_factory.py"],
  [("tensor-network contraction", BK + "tnsim.py"), ("decision-diagram simulation", "src/python/bindings.cpp"), ("gate matrices with controls", QC + "components/extensions/matrix_factory.py")],
  observe_at=["job.result().get_state_vector()", "circuit.simulate()"])

p("C19", "Native simulation survives memory exhaustion cleanly",
  "If a memory allocation of the native decision-diagram simulator fails at any point, the run raises a memory error; the process neither crashes nor returns a wrong state. The next run, on the same or another backend, gives the right state.",
  ["fault_sequences"],
  "every allocation of a native simulation failing, once or persistently, for circuits of different sizes, followed by further runs",
  "No test makes an allocation fail.",
  ["src/python/bindings.cpp", "include/dd/MDDPackage.hpp"],
  [("ownership of native objects", "src/python/bindings.cpp ddsimulator"), ("translation of native exceptions", "src/python/bindings.cpp")],
  observe_at=["exception or state of run()"])

p("C20", "A random-unitary gate denotes one fixed unitary",
  "Once created, a random-unitary gate is one fixed unitary: every matrix query, simulation, compilation and copy of the circuit sees the same one, whatever other random numbers are drawn, in whatever process or thread. Two such gates created one after the other are different.",
  ["histories", "schedules", "configurations"],
  "all sequences of matrix queries, simulations, compilations, copies, transfers to other processes and reseedings of random generators",
  "The test only checks that one matrix is unitary.",
  [QC + "gates/randu.py"],
  [("sampling of the unitary", QC + "gates/randu.py")],
  observe_at=["to_matrix()", "simulated state", "compiled circuit"])

# ---- properties that this technique cannot decide (pure functions of their input)
PURE = "A pure function of its input, with no schedule, clock, fault or history in it: tests sample it, but simulation adds nothing to plain input generation."
p("N01", "State preparation prepares the requested state",
  "Replacing a circuit's gates by the preparation of a normalised state vector yields a circuit that maps the all-zero state to that vector, up to a global phase and the requested approximation.",
  ["inputs"], "all mixed-dimensional state vectors", PURE,
  [S + "compiler/state_compilation/state_preparation.py", S + "core/micro_dd.py"], [("state decision diagram", S + "core/micro_dd.py")])
p("N02", "Single-qudit decompositions are exact on a fresh level graph",
  "Decomposing a single-qudit unitary with any of the local passes gives rotations whose product is that unitary up to the level mapping and a global phase.",
  ["inputs"], "all unitaries and connected level graphs", PURE,
  [S + "compiler/onedit"], [("QR and adaptive decompositions", S + "compiler/onedit")])
p("N03", "Entangling decomposition is exact",
  "Decomposing a two-qudit unitary into controlled exchanges and rotations gives a sequence whose product is that unitary up to a global phase.",
  ["inputs"], "all two-qudit unitaries and dimensions", PURE,
  [S + "compiler/twodit/entanglement_qr", S + "compiler/twodit/blocks"], [("two-qudit QR decomposition", S + "compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py")])
p("N04", "Phase propagation and removal preserve the measured distribution",
  "Propagating virtual phase rotations through a circuit, or removing the trailing ones, does not change the distribution of measurement outcomes.",
  ["inputs"], "all circuits", PURE,
  [S + "compiler/onedit/local_phases_transpilation"], [("phase propagation", S + "compiler/onedit/local_phases_transpilation/propagate_virtrz.py")])
p("N05", "Every gate's matrix is unitary and embeds on the right lines",
  "The matrix of every gate is unitary, its inverse is the conjugate transpose, and embedding it into a circuit acts on its own lines only.",
  ["inputs"], "all gates, parameters and line orders", PURE,
  [QC + "gates", QC + "components/extensions/matrix_factory.py"], [("matrix factory", QC + "components/extensions/matrix_factory.py")])
p("N06", "Adaptive decomposition is never costlier than the QR one",
  "The adaptive local decomposition never returns a sequence with a higher cost than the QR decomposition of the same unitary on the same level graph.",
  ["inputs"], "all unitaries and level graphs", PURE,
  [S + "compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py", S + "core/dfs_tree.py"], [("cost-bounded search", S + "core/dfs_tree.py")])
p("N07", "Sparsification never makes a gate denser",
  "Sparsifying a two-qudit gate returns the gate surrounded by local unitaries, with a sparsity measure no worse than at the randomly drawn starting point.",
  ["inputs"], "all gates and starting points", PURE + " (The starting point is the only random draw and is itself just one more input.)",
  [VAR + "sparsifier.py"], [("local minimisation", VAR + "sparsifier.py")])
p("N08", "Partial traces, plots and remaps describe the given state",
  "Partial traces, level remappings and histogram data computed for a state or a list of counts describe exactly that state or list.",
  ["inputs"], "all states and counts", PURE,
  [S + "visualisation"], [("visualisation helpers", S + "visualisation")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
