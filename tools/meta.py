"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
S = "src/mqt/qudits/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(
        id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
        technique=technique, note=note, state=state, observe=observe,
    ))


prop(
    "C01", "Every gate is the unitary its definition names",
    "For every gate kind, dimension, level choice and parameter, the matrix of the gate is unitary and equals the textbook definition of that gate. "
    "Gates on disjoint levels of a qudit leave the other levels alone, and the same parameters always give the same matrix.",
    ["inputs"], "every gate kind, every dimension from 2, every pair of levels, every angle, every target order",
    "The tests compare a few matrices at dimensions 2 to 4 with fixed angles; the formulas hold for every dimension, level pair and angle.",
    [S + "quantum_circuit/gates/*.py", S + "quantum_circuit/gate.py"],
    [("matrix construction per gate", S + "quantum_circuit/gates"), ("parameter checks", S + "quantum_circuit/gates")],
    "runtime monitor: differential oracle over constructed gates (independent numpy definitions)",
    "random and special parameters, dimensions 2..9, hundreds of thousands of matrix entries per run; not exhaustive over angles",
)
prop(
    "C02", "dag() is the adjoint and undoes the gate",
    "Daggering any gate gives exactly the conjugate transpose of its action, whatever controls and target order it has, and daggering again restores it. "
    "A circuit followed by its daggered reverse is the identity.",
    ["inputs", "programs", "histories"], "every gate kind with every controls and target order; daggers before and after other uses; every circuit",
    "The tests dagger a handful of gates once, without controls and repeated toggling.",
    [S + "quantum_circuit/gate.py", S + "quantum_circuit/gates/*.py"],
    [("dagger flag and matrix", S + "quantum_circuit/gate.py"), ("dagger per gate", S + "quantum_circuit/gates")],
    "runtime monitor: matrix identities on observed gates and circuits",
    "random gates, controls, dimensions and circuits up to 5 qudits",
)
prop(
    "C03", "Gates act on exactly the lines and control levels they name",
    "The operator of a gate on the whole register equals its local matrix on its target lines, applied only where every control line is at its control level, and the identity everywhere else. "
    "This holds for every order of lines, every distance between them, controls added at any time, and lines named through registers.",
    ["inputs", "configurations"], "every register of mixed dimensions, every choice and order of target and control lines, every control level",
    "The tests embed few gates on small fixed registers; wrong strides or orders show only for particular mixed dimensions and orders.",
    [S + "quantum_circuit/components/extensions/matrix_factory.py", S + "quantum_circuit/gate.py", S + "quantum_circuit/circuit.py", S + "quantum_circuit/components/quantum_register.py"],
    [("embedding of local matrices", S + "quantum_circuit/components/extensions/matrix_factory.py"), ("controls", S + "quantum_circuit/gate.py"), ("registers to lines", S + "quantum_circuit/circuit.py")],
    "runtime monitor: differential oracle (index-by-index embedding computed independently)",
    "random registers up to 5 qudits and total dimension about 300",
)
prop(
    "C04", "Tensor-network simulation returns the exact state",
    "The tensor-network simulator returns, for every noiseless circuit, the state vector obtained by applying the circuit's gates in order to the all-zero state, in the circuit's index order. "
    "The returned state has norm one.",
    ["programs", "inputs"], "every circuit over every gate kind, with controls, mixed dimensions and any order of lines",
    "The tests simulate circuits of one to three gates; the order of lines, dimensions, controls and daggers combine without bound.",
    [S + "simulation/backends/tnsim.py", S + "quantum_circuit/gate.py"],
    [("contraction of the network", S + "simulation/backends/tnsim.py")],
    "runtime monitor: differential oracle (state-vector evolution computed independently)",
    "random circuits up to 25 gates on 6 qudits, dimensions 2..7",
)
prop(
    "C05", "Decision-diagram simulation returns the exact state",
    "The decision-diagram simulator returns, for every circuit of gates it supports, the state obtained by applying the gates in order to the all-zero state, up to numerical tolerance, and refuses the gates it does not support instead of dropping or changing them. "
    "The result does not depend on what was simulated before.",
    ["programs", "histories", "inputs"], "every circuit of supported gates on mixed dimensions, of any length and in any sequence of runs",
    "The tests run few circuits; tables, node sharing and garbage collection depend on long and repeated histories.",
    ["include/dd/MDDPackage.hpp", "include/dd/GateMatrixDefinitions.hpp", "src/python/bindings.cpp", S + "simulation/backends/misim.py"],
    [("gate diagrams", "include/dd/MDDPackage.hpp"), ("gate definitions", "include/dd/GateMatrixDefinitions.hpp"), ("property list read from the circuit", "src/python/bindings.cpp")],
    "runtime monitor: differential oracle on the freshly compiled bindings",
    "random circuits up to 60 gates on 6 qudits, dimensions 2..7; the binding is rebuilt from the working tree; controls of single-qudit gates are a known finding",
)
prop(
    "C06", "All ways to evaluate a circuit agree and gates compose",
    "The tensor-network state, the decision-diagram state and the product of the gate matrices agree for every circuit all of them accept. "
    "Undoing a circuit, exchanging gates on disjoint lines, adding idle lines and splitting a circuit change the state exactly as quantum mechanics says.",
    ["programs", "histories", "configurations"], "every circuit and every rewriting by these laws",
    "No test compares the routes on generated circuits, nor two circuits that must agree with each other.",
    [S + "simulation/backends/tnsim.py", S + "simulation/backends/misim.py", S + "quantum_circuit/circuit.py", "src/python/bindings.cpp", "include/dd/MDDPackage.hpp"],
    [("simulators", S + "simulation/backends"), ("instruction list", S + "quantum_circuit/circuit.py")],
    "runtime monitor: metamorphic relations between observed runs",
    "random circuits; laws checked: routes agree, undo, commuting gates, idle lines, growing circuits, repeated runs",
)
prop(
    "C07", "Circuits survive export to and import from QASM",
    "Writing a circuit to QASM and reading it back gives a circuit with the same registers, dimensions, gates, parameters, controls and unitary, and writing that circuit again gives the same text. "
    "A gate that cannot be written or read is refused, never dropped or altered.",
    ["programs", "inputs", "histories"], "every circuit over every gate kind with controls, registers and custom matrices; text and files",
    "The tests round-trip one or two fixed programs; each gate kind, control and register layout has its own way through writer and reader.",
    [S + "quantum_circuit/circuit.py", S + "quantum_circuit/qasm.py", S + "quantum_circuit/gate.py"],
    [("writer", S + "quantum_circuit/gate.py"), ("reader", S + "quantum_circuit/qasm.py"), ("rebuilding gates", S + "quantum_circuit/circuit.py")],
    "runtime monitor: round-trip oracle against an independent unitary",
    "random circuits, registers and files; the missing dagger in the format is a known finding",
)
prop(
    "C08", "QASM programs mean what they say and faulty ones are refused",
    "A QASM program yields the registers, gates, parameters and controls it spells out, whatever its spacing, comments, line breaks, order of registers or earlier programs read by the same circuit. "
    "A program with a syntax error, unknown gate, register or index is refused with an error instead of being read as something else.",
    ["inputs", "programs"], "every program text, well-formed or corrupted",
    "The tests read four fixed programs; texts differ in layout without bound.",
    [S + "quantum_circuit/qasm.py", S + "quantum_circuit/circuit.py"],
    [("line parser", S + "quantum_circuit/qasm.py"), ("gate table", S + "quantum_circuit/circuit.py")],
    "runtime monitor: meaning known by construction of the generated text; fault injection into texts",
    "generated texts and single faults from a list of fault kinds",
)
prop(
    "C09", "Local compilation keeps each gate's meaning on every device",
    "Compiling single-qudit gates gives pulses whose product is the original gate up to a global phase and the recorded level placements, for every unitary, level structure and starting placement. "
    "Physical passes only drive level pairs the device couples, and placements stay permutations.",
    ["programs", "configurations", "inputs"], "every single-qudit unitary, every connected level graph, every placement, every sequence of gates",
    "The tests decompose a few random unitaries on fixed graphs without checking placements along sequences.",
    [S + "compiler/onedit/mapping_aware_transpilation/*.py", S + "compiler/onedit/mapping_un_aware_transpilation/*.py", S + "compiler/onedit/local_operation_swap/swap_routine.py", S + "core/level_graph.py"],
    [("elimination and routing", S + "compiler/onedit"), ("placements", S + "core/level_graph.py")],
    "runtime monitor: unitary oracle plus a monitor over every emitted pulse",
    "random connected graphs up to 6 levels and the fake devices; cases whose search exceeds a time limit are left out",
)
prop(
    "C10", "Entangling compilation keeps two-qudit gates' meaning",
    "Compiling two-qudit gates by the entangling passes gives circuits whose unitary equals the original up to a global phase and, for the physical pass, the level placement of the device. "
    "Gates on other lines and single-qudit gates pass through unchanged.",
    ["programs", "configurations", "inputs"], "every two-qudit unitary, both orders of lines, every pair of dimensions and every placement",
    "The tests decompose a few gates on equal dimensions and ascending lines.",
    [S + "compiler/twodit/entanglement_qr/*.py", S + "compiler/twodit/blocks/*.py"],
    [("elimination by controlled rotations", S + "compiler/twodit/entanglement_qr"), ("pulse blocks", S + "compiler/twodit/blocks")],
    "runtime monitor: unitary oracle on the compiled circuits",
    "random two-qudit gates on dimensions 2..4, fake and random devices",
)
prop(
    "C11", "Compiling whole circuits keeps the computation",
    "Compiling a circuit at any optimisation level or by any list of passes gives a circuit with the same unitary, up to a global phase and the level placements it records. "
    "The outcome distribution mapped back by those placements equals the original one, and the original circuit, the backend and earlier results stay as they were.",
    ["programs", "configurations", "histories"], "every circuit, every backend and its level graphs, every optimisation level, every sequence of compilations",
    "The tests compile few circuits on one fixed backend and look at single gates; errors appear when gates of several kinds meet on moved levels.",
    [S + "compiler/dit_compiler.py", S + "compiler/onedit/*", S + "compiler/twodit/*", S + "visualisation/mini_quantum_information.py", S + "visualisation/plot_information.py"],
    [("choice and order of passes", S + "compiler/dit_compiler.py"), ("recorded mappings", S + "compiler/dit_compiler.py"), ("mapping results back", S + "visualisation/plot_information.py")],
    "runtime monitor: unitary and distribution oracle on compiled circuits",
    "random circuits up to 3 qudits on the fake and random devices; gates on three and more qudits are a known finding",
)
prop(
    "C12", "Moving and removing phase rotations keeps the outcomes",
    "Propagating phase rotations through a circuit in either direction keeps its unitary, and removing leading and trailing ones keeps the outcome distribution from the all-zero state. "
    "This holds for circuits with daggered, controlled and entangling gates, and the input circuit is not changed.",
    ["programs", "inputs"], "every circuit, both directions, both passes in either order",
    "The tests run one pulse sequence on one qudit; the commutation rules differ per level pair, dagger and neighbour.",
    [S + "compiler/onedit/local_phases_transpilation/*.py"],
    [("propagation", S + "compiler/onedit/local_phases_transpilation/propagate_virtrz.py"), ("removal", S + "compiler/onedit/local_phases_transpilation/remove_phase_rotations.py")],
    "runtime monitor: metamorphic oracle on transformed circuits",
    "random circuits up to 4 qudits and 15 gates, compiled pulse sequences",
)
prop(
    "C13", "Merging single-qudit gates keeps the circuit",
    "Merging runs of single-qudit gates keeps the unitary of the circuit and leaves no two neighbouring gates to merge. "
    "The line-by-line view of a circuit holds every gate on each of its lines in order, and the circuit read back from it has the same unitary.",
    ["programs", "histories"], "every circuit of single-, two- and many-qudit gates, with controls, repeated gate objects and any order of lines",
    "The tests merge two fixed circuits; dependencies across lines matter only for particular interleavings.",
    [S + "core/lanes.py", S + "core/lanes.py", S + "compiler/compilation_minitools/*.py", S + "compiler/naive_local_resynth/*.py"],
    [("lanes", S + "core/lanes.py"), ("resynthesis", S + "compiler/naive_local_resynth")],
    "runtime monitor: unitary oracle and order monitor per line",
    "random circuits up to 5 qudits and 14 gates",
)
prop(
    "C14", "State preparation prepares the requested state",
    "The circuit made for a target state maps the all-zero state to that state, for every register of mixed dimensions and every amplitude vector, and to a state of the promised fidelity when approximation is asked for. "
    "Setting the initial state of a circuit makes the rest of it act on that state.",
    ["inputs", "configurations"], "every normalised amplitude vector: dense, sparse, with equal, empty or tiny branches, on every register",
    "The tests prepare few states on fixed dimensions; rotations and controls depend on the pattern of zeros and shared branches.",
    [S + "compiler/state_compilation/state_preparation.py", S + "core/micro_dd.py", S + "quantum_circuit/circuit.py"],
    [("rotations per node", S + "compiler/state_compilation/state_preparation.py"), ("shared tree", S + "core/micro_dd.py"), ("initial state", S + "quantum_circuit/circuit.py")],
    "runtime monitor: amplitude oracle on the prepared state",
    "twelve families of random states, up to 5 qudits",
)
prop(
    "C15", "A state's decision tree represents exactly that state",
    "The decision diagram built for a state vector yields back every amplitude along its paths, has normalised nodes, and shares nodes exactly when they represent the same subvector. "
    "Approximation removes no more than the contribution allowed and counting, aggregation and normalisation keep the state.",
    ["inputs", "programs"], "every state vector on every register",
    "The tests look at one or two trees of fixed vectors.",
    [S + "core/micro_dd.py"],
    [("building", S + "core/micro_dd.py"), ("sharing", S + "core/micro_dd.py"), ("cutting", S + "core/micro_dd.py")],
    "runtime monitor: walks every path of observed diagrams",
    "random vectors in twelve families, up to 5 qudits",
)
prop(
    "C16", "Simulated noise adds exactly the errors the noise model names",
    "After each gate a noise model names, and after no other, errors of the named kind occur on the qudits its mode designates, with the named probabilities and independently of each other. "
    "The circuit handed in, its gates and the noise model are left as they were.",
    ["inputs", "histories"], "every circuit, noise model, mode, gate and run of the generator",
    "The tests look at single samples of small fixed models; whether rates, places and independence are right shows only over many samples.",
    [S + "simulation/noise_tools/noisy_circuit_factory.py", S + "simulation/noise_tools/noise.py", "include/dd/MDDPackage.hpp", S + "simulation/backends/misim.py"],
    [("error generation", S + "simulation/noise_tools/noisy_circuit_factory.py"), ("noise model", S + "simulation/noise_tools/noise.py"), ("errors in the diagram simulator", "src/python/bindings.cpp")],
    "runtime monitor: every generated error observed, rates tested statistically",
    "random noise models and circuits up to 4 qudits; a rate that is off by less than the statistical error is not seen",
)
prop(
    "C17", "Noisy runs give independent shots of the noise channel and save them",
    "A run with a noise model returns one outcome per shot, independent of the others and distributed as the noise channel prescribes, whatever the number of processes. "
    "The states and outcomes it writes to files are the ones it returns.",
    ["histories", "schedules", "configurations"], "every circuit, noise model, backend, number of shots, worker process and way of saving",
    "The tests run a few noisy circuits and check that something comes back; distribution and independence across worker processes need many runs and an oracle.",
    [S + "simulation/backends/stochastic_sim.py", S + "simulation/backends/tnsim.py", S + "simulation/backends/misim.py", S + "simulation/save_info.py"],
    [("parallel shots", S + "simulation/backends/stochastic_sim.py"), ("saving", S + "simulation/save_info.py")],
    "runtime monitor: statistical oracle (density matrix of the channel) on observed shots and files",
    "random models and circuits up to 3 qudits; a deviation below the statistical error is not seen",
)
prop(
    "C18", "Level graphs keep describing the device and routing does what it says",
    "Whatever sequence of swaps, routings and queries a level graph goes through, it describes the same device with its levels placed as recorded, and placements, phases and costs follow from the moves made. "
    "Routing makes two levels adjacent with pulses that perform exactly the recorded move, at the least cost offered.",
    ["histories", "inputs"], "every connected level graph, placement, set of stored phases and sequence of operations",
    "The tests use a few small graphs and single calls; wrong states arise from sequences of swaps on graphs of particular shape.",
    [S + "core/level_graph.py", S + "compiler/onedit/local_operation_swap/swap_routine.py", S + "core/dfs_tree.py"],
    [("swaps", S + "core/level_graph.py"), ("routing", "src/mqt/qudits/compiler/onedit/local_operation_swap/swap_routine.py"), ("search tree", S + "core/dfs_tree.py")],
    "runtime monitor: model-based checker of observed histories",
    "random graphs up to 7 levels, random histories of operations",
)
prop(
    "C19", "A circuit is what was done to it and nothing else changes it",
    "After any sequence of appended registers and gates, replacements, copies, resets and reading of programs, a circuit's gates, lines, registers, counts and mappings are exactly those the sequence prescribes. "
    "Operations on other circuits, on copies, or on the lists and arrays handed in never change it.",
    ["histories", "programs"], "every sequence of operations on any number of circuits",
    "The tests look at single operations on new circuits; shared state between circuits shows only in histories with several of them.",
    [S + "quantum_circuit/circuit.py", S + "quantum_circuit/gate.py", S + "quantum_circuit/components/quantum_register.py", S + "quantum_circuit/components/classic_register.py"],
    [("gates and registers", S + "quantum_circuit/circuit.py"), ("lines of registers", S + "quantum_circuit/components/quantum_register.py")],
    "runtime monitor: model-based checker of observed histories",
    "random histories of up to 26 steps over up to 5 circuits",
)
prop(
    "C23", "Variational compilation reaches the fidelity it promises, or says it failed",
    "A circuit returned by the variational compiler reaches the target within the tolerance, on the target's lines, with no more layers than allowed and the entangling gate asked for; sparsification returns the gate between local rotations that are the optimum found. "
    "A search that cannot succeed is reported, and no search hangs, outlives its result or affects the next one.",
    ["inputs", "schedules", "configurations"], "every two-qudit target, ansatz, primitive, number of layers and tolerance",
    "The repository's test of this compiler is commented out, since the search is random and slow; no expected circuit can be written down.",
    [S + "compiler/twodit/variational_twodit_compilation/layered_compilation.py", S + "compiler/twodit/variational_twodit_compilation/sparsifier.py", S + "compiler/twodit/variational_twodit_compilation/parametrize.py", S + "compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py"],
    [("search", S + "compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py"), ("objective", S + "compiler/twodit/variational_twodit_compilation/opt/optimizer.py"), ("circuit", S + "compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py")],
    "runtime monitor: fidelity oracle on returned circuits, threads watched",
    "random targets on qubits and qutrits, searches cut short",
)
prop(
    "C20", "The compiled parts use memory correctly, whatever they are given",
    "No circuit, noise model or sequence of package operations makes the bindings or the decision-diagram package read or write out of bounds, use freed or unset memory, overflow, crash or hang; what they cannot do is reported as an exception. "
    "Memory and references taken are given back.",
    ["inputs", "histories"], "every circuit, noise model, spoiled instruction and history of package operations",
    "Wrong accesses usually return plausible numbers, so the tests pass; only instrumented executions of many inputs and histories show them.",
    ["src/python/bindings.cpp", "include/dd/MDDPackage.hpp", "include/dd/ComplexTable.hpp", "include/dd/ComplexCache.hpp", "include/dd/UniqueTable.hpp", "include/dd/ComputeTable.hpp"],
    [("reading circuits and noise", "src/python/bindings.cpp"), ("nodes and tables", "include/dd/UniqueTable.hpp"), ("numbers", "include/dd/ComplexCache.hpp")],
    "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and memcheck on the real code",
    "circuits up to 5 qudits of dimension 7 with random noise, histories of up to 200 operations (600 in the thorough tier)",
)
prop(
    "C21", "The decision-diagram package computes linear algebra on canonical diagrams",
    "Every sequence of the package's operations (states, gates with controls, products, sums, transposes, tensor products, inner products, single amplitudes) yields what dense linear algebra yields, on mixed dimensions and in any order. "
    "Diagrams stay normalised, share equal parts, never change once built, and temporary numbers are given back.",
    ["histories", "inputs"], "every history of operations on any number of lines of dimension 2 to 7",
    "The C++ tests run a few fixed circuits on new packages; cached results and shared nodes go wrong only in longer histories, and transposing failed on every input unnoticed.",
    ["include/dd/MDDPackage.hpp", "include/dd/GateMatrixDefinitions.hpp", "include/dd/ComplexNumbers.hpp", "include/dd/ComplexTable.hpp", "include/dd/UniqueTable.hpp", "include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp"],
    [("operations", "include/dd/MDDPackage.hpp"), ("number table", "include/dd/ComplexTable.hpp"), ("unique table", "include/dd/UniqueTable.hpp"), ("memory of results", "include/dd/ComputeTable.hpp")],
    "runtime monitor: dense oracle and walk over the diagrams after every operation",
    "up to 5 lines with dense comparison after every operation, up to 120 lines amplitude by amplitude",
)
prop(
    "C22", "The tools that check, replay, plot and save results tell the truth",
    "The verifier accepts a sequence of gates exactly if it implements its target up to the level maps, replaying and relabelling yield the state the circuit describes, and drawings, plots, density matrices and saved files show exactly what they were given. "
    "None of them changes its input.",
    ["inputs", "configurations"], "every circuit, decomposition, level map, distribution and density matrix",
    "A verifier that accepts too much makes every other test meaningless, and that never shows on the right sequences the tests give it.",
    [S + "compiler/compilation_minitools/numerical_ansatz_utils.py", S + "compiler/compilation_minitools/naive_unitary_verifier.py", S + "visualisation/plot_information.py", S + "visualisation/mini_quantum_information.py", S + "visualisation/drawing_routines.py", S + "simulation/save_info.py", S + "quantum_circuit/components/extensions/matrix_factory.py"],
    [("verifier", S + "compiler/compilation_minitools/naive_unitary_verifier.py"), ("plots", S + "visualisation/plot_information.py"), ("traces", S + "visualisation/mini_quantum_information.py"), ("saved files", S + "simulation/save_info.py")],
    "runtime monitor: observed answers against independent oracles on right and slightly wrong inputs",
    "random circuits, decompositions, maps and distributions on up to 4 qudits",
)
prop(
    "C24", "Calls that make no sense are refused and leave everything as it was",
    "A call that asks for lines, levels, parameters, matrices, controls, registers, positions, states or targets that do not exist or do not fit raises an exception, at the latest when the gate is used. "
    "The circuit, the backend and later calls are as if it had not been made.",
    ["inputs", "histories"], "every circuit and every faulty call on it",
    "The tests build correct circuits; a faulty call that is silently turned into another gate, or half done, gives wrong results later and elsewhere.",
    [S + "quantum_circuit/circuit.py", S + "quantum_circuit/gate.py", S + "quantum_circuit/gates", S + "quantum_circuit/components/quantum_register.py", S + "compiler/dit_compiler.py", S + "compiler/state_compilation/state_preparation.py"],
    [("gates", S + "quantum_circuit/gate.py"), ("circuit", S + "quantum_circuit/circuit.py"), ("validation of parameters", S + "quantum_circuit/gates")],
    "runtime monitor: fault injection with before/after pictures of the state",
    "some 150 kinds of faulty calls on random circuits",
)
prop(
    "C25", "Backends, options, devices and jobs follow one model",
    "The provider returns exactly the backends a pattern names, options set on one backend or run apply there and nowhere else, and the devices' level graphs, noise and restrictions are what they declare. "
    "Jobs have identities of their own, move through their states as reported, and waiting ends exactly when the job does or the time is over.",
    ["histories", "schedules", "configurations"], "every pattern, history of configuring and running backends, and script of job states",
    "The tests fetch one backend by its name and run once; shared defaults and waiting show only with several backends, runs, threads and states.",
    [S + "simulation/qudit_provider.py", S + "simulation/backends/backendv2.py", S + "simulation/backends/misim.py", S + "simulation/backends/tnsim.py", S + "simulation/jobs/job.py", S + "simulation/jobs/jobstatus.py", S + "simulation/backends/fake_backends"],
    [("selection", S + "simulation/qudit_provider.py"), ("options", S + "simulation/backends/backendv2.py"), ("waiting", S + "simulation/jobs/job.py")],
    "runtime monitor: model-based checker of histories, scripted job states, many threads and processes",
    "random patterns, histories over up to several backends, scripts of job states with short waits",
)
# ---- further properties are appended here


def write():
    lines, checks = [], []
    for p in P:
        if not (ROOT / "checks" / f"{p['id'].lower()}.py").exists():
            continue
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a,
        }))
        checks.append({
            "property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick",
            "thorough_cmd": f"./check {p['id']} --tier thorough", "technique": p["technique"],
            "level": "exploration", "level_note": p["note"],
        })
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash tools/setup.sh",
        "hooks": {
            "guard": "MQT_QUDITS_VERIF",
            "enable": "no hooks were needed in the source: monitors attach from /verif at run time (MQT_QUDITS_VERIF is unused)",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": [],
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


if __name__ == "__main__":
    write()
