"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
C, F, T = "qtcodes/circuits/", "qtcodes/fitters/", "qtcodes/tools/"
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})
DOM = "all code families (XXZZ, XZZX, repetition, phase-flip repetition) and all odd heights and widths, square, rectangular and one-dimensional"

p("C01", "A stabilization round is an ideal measurement of exactly the code's plaquettes",
  "For every code family and odd lattice size, one stabilization round acts on the data qubits exactly as an ideal projective measurement of every plaquette of that code and of nothing else, each outcome recorded at its documented position in the syndrome string X_N..X_0Z_N..Z_0. Every round leaves its ancilla qubits reset, so further error-free rounds repeat the same syndrome, and a state prepared by a logical reset gives 0 for all plaquettes of the reset basis. Building only the X or only the Z part entangles exactly the plaquettes of that type.",
  ["configurations", "inputs", "histories"],
  "for " + DOM + ", every state of the data qubits (including entangled with anything else), every outcome branch and every number of rounds",
  "The tests run two rounds on two or three small lattices from product states and look only at hits of single errors; on 5x5 they cannot even simulate. They never look at the post-measurement state, at superpositions or at ancilla residue.",
  [C + "rotated_surface.py", C + "xxzz.py", C + "xzzx.py", C + "base.py", C + "repetition.py"],
  [("plaquette geometry", C + "rotated_surface.py:_set_geometry"), ("plaquette circuits", C + "xxzz.py:_XXXX/_ZZZZ, " + C + "xzzx.py:_XZZX"), ("measure and reset", C + "rotated_surface.py:RotatedQubit.stabilize")])
p("C02", "No data error lighter than the code distance goes undetected",
  "For every code family and size, a Pauli error on fewer than d data qubits between two rounds that changes the logical readout of a basis also changes the syndrome of that basis, where d is the lattice height for Z readout and the width for X readout. This holds for logical readout through the ancilla and for lattice readout alike, and some error on exactly d data qubits does reach the readout undetected.",
  ["configurations", "fault_sequences"],
  "for " + DOM + ", every set of Pauli errors on data qubits, both readout bases and both kinds of readout",
  "The tests only apply single-qubit errors, so a code of distance 3 with a 5x5 label passes; the number of error sets grows exponentially.",
  [C + "rotated_surface.py", C + "xxzz.py", C + "xzzx.py"],
  [("lattice layout", C + "rotated_surface.py:_set_geometry"), ("logical operators on left column / top row", C + "xxzz.py, " + C + "xzzx.py")])
p("C03", "One logical qubit behaves as an ideal qubit under every history of operations",
  "For every code family and size, any sequence of logical resets (X/Z), logical X and Z, classically conditioned logical X and Z, stabilization rounds, identities and logical readouts (X/Z, into a new or a given register), ended or not by a lattice readout, gives readout values with exactly the statistics of the same operations on one ideal qubit. Between resets the syndromes stay constant throughout such a history.",
  ["histories", "configurations"],
  "for " + DOM + " and every sequence of logical operations, with repeated and interleaved readouts, both values of every classical condition",
  "The tests only ever do reset, two rounds, one readout; logical X/Z, conditions, repeated readouts and lattice readouts have no test at all.",
  [C + "xxzz.py", C + "xzzx.py", C + "rotated_surface.py", C + "repetition.py", C + "base.py"],
  [("logical operators and readouts", C + "xxzz.py:_XXZZLattice, " + C + "xzzx.py:_XZZXLattice")])
p("C04", "The logical CX of a topological circuit is a CNOT on every state",
  "For any mix of code families and sizes, the logical CX between two qubits of a topological circuit acts as an ideal CNOT on the two logical qubits for every input state, including superpositions and states entangled with others, whatever the random outcomes of its intermediate measurements. It leaves both qubits in their code spaces, leaves every other logical qubit undisturbed, and can be applied any number of times in any order and direction, with default or explicit ancilla, also where several registers or topological circuits share one quantum circuit.",
  ["programs", "configurations", "histories"],
  "for every pair of code families and sizes, every input state of all logical qubits, every measurement branch and every sequence of logical CX, X, Z and rounds",
  "There is no test of the logical CX at all; a basis-state test would not see dephasing, wrong phase corrections or a leftover entangled ancilla.",
  [C + "circ.py", C + "xxzz.py", C + "xzzx.py"],
  [("lattice-surgery style CX with three conditioned corrections", C + "circ.py:TopologicalCircuit.cx"), ("physical-logical CX", C + "xxzz.py:cx, " + C + "xzzx.py:cx"), ("conditioned logical X/Z", C + "xxzz.py:x_c_if/z_c_if")])
p("C05", "Operations on one logical qubit touch nothing else and never collide",
  "In a circuit shared by several logical qubits, an operation on one of them acts only on its own qubits and classical bits (a CX on those of control, target and its helpers), and adds exactly the instructions it would add to that qubit alone. The parameter dictionaries passed in are neither modified nor shared, so qubits built from one dictionary are independent, and no sequence of operations on differently named qubits fails or overwrites earlier results through clashing register names, also when other topological circuits, or the user with registers named like those of a CX, have added to the circuit. Addressing a qubit by index or by object is the same thing.",
  ["histories", "configurations"],
  "for every number and mix of logical qubits in one circuit, shared or separate parameter dictionaries, and every interleaving of operations on them",
  "All tests build a single logical qubit in its own circuit.",
  [C + "base.py", C + "circ.py", C + "rotated_surface.py", C + "xxzz.py", C + "xzzx.py", C + "repetition.py"],
  [("per-qubit registers and counters", C + "base.py:_TopologicalLattice.__init__, " + C + "rotated_surface.py:_gen_registers"), ("index lookup", C + "circ.py:TopologicalCircuit._get_index")])
p("C06", "Parsing a readout string reports exactly the changed plaquettes and the readout",
  "For every lattice size, number of rounds and readout string, parsing returns the logical value that the string encodes and exactly one hit (round, row, column) for every plaquette whose value changed between consecutive rounds, under its own type, and no other. A lattice readout counts as one more round for the plaquettes of its basis and carries the logical value of that basis. Logical qubit, decoder and topological circuit parse alike.",
  ["inputs", "configurations"],
  "for " + DOM + ", every number of rounds and every bit pattern, logical and lattice readouts in X and Z",
  "Tests see only strings with one error, two rounds and a one-bit readout on a few lattices; they check hits are a subset of the expected ones, so missing hits pass.",
  [C + "rotated_surface.py", F + "lattice_decoder.py", C + "circ.py"],
  [("string to hits", C + "rotated_surface.py:parse_readout"), ("data bits to plaquettes", C + "rotated_surface.py:extract_final_stabilizer_and_logical_readout_x/_z")])
p("C07", "A lattice readout agrees with a stabilizer round plus logical readout",
  "For every code family, size and history, reading out the whole lattice in a basis yields the same plaquette values of that basis as a last error-free round, and the same logical value as reading the logical operator through the ancilla. A data error just before the lattice readout shows up as hits at exactly its plaquettes in the last difference, and readout errors on single data qubits likewise.",
  ["histories", "configurations", "fault_sequences"],
  "for " + DOM + ", any logical state, any data errors in any round gap and any readout bit flips",
  "Lattice readout has no test (X lattice readout did not even run).",
  [C + "xxzz.py", C + "xzzx.py", C + "rotated_surface.py"],
  [("lattice readout", C + "xxzz.py:lattice_readout_x/z, " + C + "xzzx.py:lattice_readout_x/z"), ("final syndrome extraction", C + "rotated_surface.py:extract_final_stabilizer_and_logical_readout_x/_z")])
p("C08", "The decoder's graph is exactly the graph of single faults of the circuit",
  "For every code and number of rounds T, every single data error in a round gap and every single measurement error of the real circuit produces hits that are joined in the decoder's syndrome graph by one edge of weight one (between two hits, or from one hit to a boundary node on the side that matches whether the readout flips). Conversely the graph has no other nodes or edges: one node per plaquette and round difference, each edge explained by such a fault.",
  ["configurations", "fault_sequences"],
  "for " + DOM + ", every T >= 1 and every single fault in every round gap",
  "The tests decode single errors on a few sizes with T=1, so time edges, larger lattices and extra or missing edges are never looked at.",
  [F + "rotated_surface.py", F + "lattice_decoder.py", F + "repetition.py", C + "rotated_surface.py"],
  [("graph construction", F + "rotated_surface.py:_make_syndrome_graph/_connect_neighbors/_valid_syndrome"), ("boundary nodes", F + "rotated_surface.py:_specify_virtual")])
p("C09", "Up to (d-1)/2 faults over any number of rounds are always corrected",
  "For every code and number of rounds, decoding the readout of a circuit that suffered at most floor((d-1)/2) data errors and intermediate measurement errors in total, anywhere between the first round and the readout, returns the encoded logical value (d: height for Z, width for X readout). This holds for both logical values, both readout bases and both kinds of readout.",
  ["fault_sequences", "configurations"],
  "for " + DOM + ", every T and every set of at most floor((d-1)/2) data/measurement faults (measurement faults in rounds followed and preceded by another round)",
  "The tests inject exactly one data error with T=1 on at most 3x5; pairs of errors, measurement errors and time are out of their reach.",
  [F + "lattice_decoder.py", F + "rotated_surface.py", F + "repetition.py", C + "rotated_surface.py"],
  [("matching and crossing parity", F + "lattice_decoder.py:correct_readout, " + F + "rotated_surface.py:_is_crossing_readout_path")])
p("C10", "The decoder returns the readout of a minimum-weight explanation of the hits",
  "For every code, number of rounds and set of syndrome hits (any number, odd or even), the value the decoder returns is the measured value corrected by a minimum-weight set of error chains that explains all the hits: if the lightest explanation that flips the readout and the lightest that does not differ in weight, the lighter one wins. The matching it reports pairs every hit exactly once, with another hit or with a boundary node, at minimum total weight.",
  ["inputs", "configurations"],
  "for " + DOM + ", every T and every set of hits",
  "With one error there is a single pair to match; optimality over many hits, odd counts, boundary use and time-like pairs is not tested.",
  [F + "lattice_decoder.py", F + "rotated_surface.py"],
  [("error graph", F + "lattice_decoder.py:_make_error_graph"), ("matching", F + "lattice_decoder.py:_run_mwpm")])
p("C11", "Degeneracy weighting counts exactly the shortest error paths",
  "Given an error probability p, every pair of hits is weighted by its distance less ln(N)/ln((1-p)/p), where N is the number of shortest error paths joining them in space and time; a hit and the boundary use the sum over all equally near boundary nodes. The decoder then returns the readout of a minimum-weight matching under these weights.",
  ["inputs", "configurations"],
  "for " + DOM + ", every T, every set of hits and every p in (0, 1/2)",
  "No test passes an error probability to the decoder.",
  [F + "lattice_decoder.py"],
  [("path counting", F + "lattice_decoder.py:_path_degeneracy/_path_degeneracy_helper"), ("weights", F + "lattice_decoder.py:_make_error_graph")])
p("C12", "Decoding is a pure function of its input",
  "Decoding the same readout with the same decoder parameters always gives the same value, whatever was decoded before, in whichever process or thread, and never modifies the hits passed in or the decoder. Decoders made from one parameter dictionary, even one changed in between, are independent. A readout string and the hits parsed from it decode alike, the value for a flipped measured logical bit is the flipped value, hits of the other type do not matter, and equivalent ways to specify the parameters give equivalent decoders.",
  ["histories", "inputs"],
  "for every sequence of decoding calls (with and without error probabilities, X and Z) on one or several decoders",
  "Tests use one decoder for similar calls and never compare results across calls or look at their arguments afterwards.",
  [F + "lattice_decoder.py", F + "base.py", F + "rotated_surface.py"],
  [("decode path", F + "lattice_decoder.py:correct_readout/_corrections/_make_error_graph")])
p("C13", "The repetition decoder is a majority vote",
  "For bit-flip and phase-flip repetition codes of every odd length, decoding one round difference returns the majority of the data qubits: any pattern of fewer than half errors is corrected and any pattern of more than half gives the opposite value, for every encoded value and both kinds of readout.",
  ["fault_sequences", "configurations"],
  "for every odd length and all 2^d error patterns",
  "The tests apply single errors at d=5 only.",
  [F + "repetition.py", F + "rotated_surface.py", C + "repetition.py"],
  [("1D lattice as a surface code", C + "repetition.py:_validate_params, " + F + "repetition.py")])
p("C14", "Look-up-table decoding is exactly Bayes' rule on the recorded counts",
  "After tables of counts are set for readout basis and logical value, the posterior of a readout string is p(i|s) proportional to (count of s in table i / shots of table i) times the prior, default uniform, and the decoded value is the more probable one. Readouts in no table give the prior, tables of different basis, value or decoder do not affect each other, setting a table replaces it and resetting empties all; what the caller does with a dictionary of counts after setting it changes no table.",
  ["inputs", "histories"],
  "for every sequence of set / reset / look-up, all tables of counts of any sizes, and every prior",
  "Look-up decoding has no tests.",
  [F + "base.py"],
  [("tables", F + "base.py:set_look_up_table/reset_look_up_table"), ("posterior", F + "base.py:_run_look_up/correct_readout_look_up_table")])
p("C15", "The benchmark's logical error rate is the exact share of wrong decodings",
  "For any dictionary of readout strings and counts, the logical error rate is the sum of the counts of readouts that the decoder maps to something other than the correct logical value, divided by all counts, for either correct value and with the given error probability applied to every decoding. It does not depend on the order or splitting of the counts.",
  ["inputs"],
  "for every dictionary of readout counts, decoder, correct value and error probability",
  "The benchmarking module has no tests.",
  [T + "benchmarking.py"],
  [("rate", T + "benchmarking.py:TopologicalBenchmark.logical_error_rate")])
p("C16", "A sweep pairs each physical error rate with its own logical error rate, once",
  "After any sweep, serial or multi-process, the benchmark's data holds exactly the requested physical error rates in increasing order, each aligned with the logical error rate measured under the noise model made for that rate with the requested shots, and the decoder weighted with that rate (not weighted if weighting is off). A second sweep replaces the first, the caller's list is untouched, and single points agree with sweeps.",
  ["inputs", "schedules"],
  "for every list of rates (any order, duplicates, empty of structure), serial and multi-process with any worker timing, weighted or not",
  "The benchmarking module has no tests; the multi-process sweep always failed.",
  [T + "benchmarking.py"],
  [("sweeps", T + "benchmarking.py:sweep/sweep_mp/single")])
p("C17", "Saved benchmark points survive crashes, full disks and repeated sessions",
  "Every point that was saved stays in the data file, sorted by physical error rate and paired with its logical error rate, exactly once, over any number of sweeps, single points and successive sessions of the same lattice and number of rounds; different lattices and round numbers never share a file. If the process dies or the disk is full at any moment while a point is saved, all points saved earlier are still readable afterwards, and the new one is there entirely or not at all.",
  ["crash_points", "histories", "fault_sequences"],
  "for every history of saves and every crash or write-failure point inside a save",
  "The benchmarking module has no tests; crash points cannot be reached by unit tests.",
  [T + "benchmarking.py"],
  [("load, append, replace", T + "benchmarking.py:append_data")])
p("C18", "Code parameters are validated and normalised alike by encoders and decoders",
  "Encoders and decoders accept exactly the positive odd sizes, given as one number or as height and width, build the lattice of exactly that height and width (repetition codes: one-dimensional along the protected direction), and reject every other whole-number size (even, zero, negative, wrong number of dimensions) with the library's lattice error; decoders without round number, and surface decoders without size, are refused. An encoder and a decoder built from the same parameters, or an encoder built from a decoder's parameters, agree on the lattice.",
  ["inputs", "configurations"],
  "for every size specification (whole numbers as int, float or numpy number, tuples, lists, even, zero, negative, wrong length, flag combinations) and every class",
  "The tests check three malformed repetition sizes.",
  [C + "rotated_surface.py", C + "repetition.py", F + "rotated_surface.py", F + "repetition.py", F + "lattice_decoder.py"],
  [("encoder validation", C + "rotated_surface.py:_params_validate_and_generate, " + C + "repetition.py:_validate_params"), ("decoder validation", F + "rotated_surface.py:_params_validation, " + F + "repetition.py:_params_validation")])
p("C19", "Noise attached to identity gates hits each requested qubit exactly once",
  "Inserting identities puts exactly one identity gate on every qubit of that logical qubit (or, for the data variant, on each data qubit and no other), and no other operation ever emits an identity gate, so noise attached to identities acts at exactly those points. Without noise the identities change nothing; with noise, errors on data identities give exactly the hits and readout flips of those data errors.",
  ["histories", "configurations"],
  "for " + DOM + ", every history of operations with identities anywhere, one or several logical qubits",
  "Identity insertion, on which all benchmarking of the package rests, has no test.",
  [C + "base.py", C + "circ.py"],
  [("identity insertion", C + "base.py:TopologicalQubit.id/id_data")])
p("C20", "Syndrome extraction is fault tolerant: fooling the code takes d circuit faults",
  "For every surface code, any set of fewer than d elementary circuit faults (one- or two-qubit Pauli errors after gates, measurement and reset faults) during the error-corrected rounds that flips the final logical readout is detected by the syndrome of that basis, where d is the height for Z and the width for X readout. Every single circuit fault makes at most two hits of the basis, and if both height and width are at least 5 the decoder corrects every single circuit fault.",
  ["fault_sequences", "configurations"],
  "for XXZZ and XZZX lattices of all odd heights and widths, every gate, measurement and reset location of every round after the first, every Pauli fault there",
  "Tests never inject faults inside a round; hook errors that halve the distance are invisible to data-error tests.",
  [C + "xxzz.py", C + "xzzx.py", C + "rotated_surface.py", F + "lattice_decoder.py"],
  [("traversal order of plaquettes", C + "xxzz.py:_XXXX/_ZZZZ, " + C + "xzzx.py:_XZZX/_XZZXVertical")])
p("C21", "Analysis loads and plots exactly the saved data",
  "Loading a saved benchmark returns its size, rounds and points unchanged, a batch analysis loads every data file of its directory and only those, ordered by increasing code height, and each plot draws every loaded curve with exactly those points (divided by the rounds if requested) on the axes given, labelled with its own parameters.",
  ["inputs", "configurations"],
  "for every set of data files, figure/axes arguments and plot options",
  "The analysis classes have no tests.",
  [T + "benchmarking.py"],
  [("load", T + "benchmarking.py:TopologicalAnalysis.load_data"), ("plot", T + "benchmarking.py:TopologicalAnalysis.plot/TopologicalBatchAnalysis")])
p("C22", "The matched graph and drawings shown to users agree with the decoding",
  "The matched graph returned for an error graph contains exactly the matches that the decoder uses, with the matched nodes and weights, no more and no fewer, weighted or not. Drawing a syndrome, error or matched graph draws every node and edge of it at its lattice position without changing the graph or the decoder. Printing or drawing a logical qubit or topological circuit shows exactly the circuit built so far and leaves it as it is.",
  ["inputs", "configurations"],
  "for every code, T and set of hits, with and without error probability, and for every circuit",
  "Graph output and drawing have no tests.",
  [F + "lattice_decoder.py", C + "base.py", C + "circ.py"],
  [("matched graph", F + "lattice_decoder.py:_run_mwpm_graph"), ("drawing", F + "lattice_decoder.py:draw")])
p("C23", "A topological register stores, numbers and finds its qubits consistently",
  "A register numbers its logical qubits 0, 1, 2, ... in the order added, across all sub-registers and however they are added (also by a CX that needs a helper qubit), each of the requested type and size and all in one circuit; looking up an index returns that qubit and looking up a sub-register name returns exactly its qubits. Unknown indices, qubits of unknown type or invalid size and mismatched parameter lists are refused, without adding anything and without affecting later use of the register.",
  ["histories", "inputs"],
  "for every sequence of additions, logical operations and look-ups, valid or not",
  "Registers have no tests.",
  [C + "circ.py", C + "qubit_types.py"],
  [("register", C + "circ.py:TopologicalRegister")])
p("C24", "Below threshold larger codes fail less, at the rate theory predicts",
  "Running the encoder circuit on the simulator under identity-gate noise and decoding the counts gives, for repetition codes, the logical error rate that binomial theory predicts at every length and physical rate, and for surface codes below threshold a rate that falls as the distance grows and lies below the unprotected rate. With no noise the logical error rate is exactly zero.",
  ["inputs", "configurations"],
  "for every code family, size, number of rounds, and physical error rate below threshold",
  "Needs statistics over thousands of shots, code sizes and rates; tests run one error at a time without noise.",
  [C + "base.py", C + "xxzz.py", C + "xzzx.py", F + "lattice_decoder.py", T + "benchmarking.py"],
  [("whole pipeline", T + "benchmarking.py:TopologicalBenchmark, " + F + "lattice_decoder.py:correct_readout")])
p("C25", "A CX between a logical and a physical qubit is a CNOT on every state",
  "For every code family and size, the CX of a logical qubit with a physical qubit of the same circuit acts as an ideal CNOT on the two, with the physical qubit as control or as target as requested, for every joint state, including states entangled with others. It measures nothing, keeps the logical qubit in its code space, leaves all other logical and physical qubits alone, and can be repeated in any order with logical operations and rounds. A request without control and target, or with both, is refused without changing the circuit.",
  ["inputs", "histories", "configurations"],
  "for " + DOM + ", every joint state of logical and physical qubits and every sequence of such CXs and other operations",
  "It has no test; tables of classical values would not show dephasing, leftover entanglement or wrong signs.",
  [C + "base.py", C + "xxzz.py", C + "xzzx.py"],
  [("CX of a logical qubit", C + "base.py:TopologicalQubit.cx, " + C + "xxzz.py:cx, " + C + "xzzx.py:cx")])
p("C26", "Built circuits give decodable counts however they are run",
  "The circuits that the library builds run on the simulator as they are, copied, composed into another circuit, transpiled at any optimisation level, routed to a line of qubits, or exported to OpenQASM or QPY and read back, any number of times and with the same meaning. The keys of their counts show the registers in order; for memory experiments they are readout strings (readout first, then rounds from last to first) that parse and decode, without errors or with up to (d-1)/2 data errors, to the encoded value. Programs of several logical qubits show in every shot readouts that ideal qubits could show.",
  ["programs", "configurations", "inputs"],
  "for " + DOM + ", every number of rounds, basis, kind of readout and encoded value, every program of logical operations and every way to run the circuit",
  "Tests run single circuits as built, with unoptimised transpilation and two rounds.",
  [C + "base.py", C + "rotated_surface.py", C + "xxzz.py", C + "xzzx.py", C + "circ.py"],
  [("circuits, registers and conditions", C + "rotated_surface.py:RotatedQubit.stabilize, " + C + "xxzz.py, " + C + "xzzx.py"), ("logical circuits", C + "circ.py:TopologicalCircuit")])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
