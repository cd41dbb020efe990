"""Properties, their statements and how they are decided."""

COD = "src/mqt/qecc/codes/"
FT = "src/mqt/qecc/ft_stateprep/"
AI = "abstract interpretation of the Python AST with normal-form comparison"
NOTE = ("Decides the property for every input on the analysed source, up to the documented semantics of numpy, ldpc and the language; "
        "an expression outside the recognised vocabulary is reported as not decided instead of being alarmed on.")

PROPS = [
    dict(
        id="P01", title="Code classes report the right syndromes and logical errors",
        statement="For every CSS code and every error, the X (Z) syndrome is the product of that code's X (Z) check matrix with the error, modulo two, and a residual is reported as a logical X (Z) error exactly when it anticommutes with at least one logical Z (X) operator. For general stabilizer codes the syndrome is the symplectic product of every generator with the error. The colour codes and all other subclasses obey the same rules.",
        over=["inputs", "configurations"], quant="every code instance, every binary error vector, every subclass",
        why="The tests check a few syndromes of two or three small codes; they do not reach other codes, errors of every weight, or the logical test of the colour codes.",
        files=[COD + "css_code.py", COD + "stabilizer_code.py", COD + "color_code.py"],
        mech=[("syndrome methods", COD + "css_code.py"), ("logical error predicates", COD + "css_code.py, color_code.py"), ("symplectic products", COD + "stabilizer_code.py")],
        technique=AI, note=NOTE),
    dict(
        id="P02", title="Stabilizer membership, error and code equivalence are decided by row space",
        statement="A vector is accepted as an X (Z) stabilizer exactly when it lies in the row space of the X (Z) checks, and two errors are equivalent exactly when they differ by such an element. Two codes are equal exactly when their stabilizers span the same space, equal codes hash equally, and a code is self-dual exactly when X and Z checks span the same space.",
        over=["inputs", "configurations"], quant="every code and every pair of vectors or codes",
        why="Tests compare a handful of hand-picked vectors on the Steane code; degenerate, dependent or asymmetric check matrices are not sampled.",
        files=[COD + "css_code.py", COD + "stabilizer_code.py"],
        mech=[("rank comparisons", COD + "css_code.py"), ("equality and hash", COD + "stabilizer_code.py, color_code.py")],
        technique=AI, note=NOTE),
    dict(
        id="P03", title="Constructed codes carry consistent checks, logicals and Pauli forms",
        statement="A CSS code stores the given matrices, embeds X checks in the X half and Z checks in the Z half of its generators, takes logical X (Z) operators from the kernel of the Z (X) checks modulo the X (Z) checks, and has n minus rank logical qubits. Converting between Pauli strings and binary vectors maps I, X, Y, Z and the sign to the same bits in both directions.",
        over=["inputs", "configurations"], quant="every pair of check matrices, with either side missing; every Pauli string",
        why="Tests construct a few codes and look at single strings; other matrix shapes and letters in other positions are never sampled.",
        files=[COD + "css_code.py", COD + "stabilizer_code.py"],
        mech=[("constructors", COD + "css_code.py, stabilizer_code.py"), ("conversions", COD + "stabilizer_code.py")],
        technique=AI, note=NOTE),
    dict(
        id="P04", title="Invalid codes are rejected at construction",
        statement="No code object can be constructed from an empty, ragged or non-Pauli generator list, from check matrices of different width or that do not commute, from a non-positive distance or one above the X or Z distance, or from logical operators that are one-sided, too many, of the wrong width, anticommute with a stabilizer or do not pair up.",
        over=["inputs", "configurations"], quant="every argument combination of the constructors",
        why="Tests try one bad input per exception; a weakened guard still rejects that one input.",
        files=[COD + "css_code.py", COD + "stabilizer_code.py"],
        mech=[("validation of check matrices and generators", COD + "css_code.py, stabilizer_code.py")],
        technique="path-sensitive guard analysis: facts that hold on every accepting path", note=NOTE),
    dict(
        id="P05", title="Bivariate bicycle codes have the published structure",
        statement="For every supported size the constructed check matrices have the form [A|B] and [B^T|A^T] with A and B the published sums of three commuting shift monomials on a torus of matching size, so that X and Z checks commute; the declared distance is the published one; every other size is rejected.",
        over=["configurations"], quant="every supported size",
        why="Tests build a subset of the sizes and only look at n, k and the declared distance.",
        files=[COD + "bb_codes.py"], mech=[("construction", COD + "bb_codes.py")],
        technique="constant propagation and block-matrix algebra on the AST", note=NOTE),
    dict(
        id="P06", title="Named and lattice codes are the documented codes",
        statement="Every documented code name, in any capitalisation, gives commuting binary check matrices with the documented number of physical and logical qubits, whose true X and Z distances are the documented ones and are the ones declared; a name or size that does not exist is refused. The hexagonal and square-octagon colour codes of odd distance d have (3d^2+1)/4 and (d^2+2d-1)/2 qubits, one logical qubit, distance d, commuting checks, and face and qubit lists that agree with the check matrix.",
        over=["configurations"], quant="every documented name; the colour codes of odd distance 3 to 13 (distance computed up to 7)",
        why="Tests look at parameters and at a few matrices; the distance of a code, the agreement of the adjacency lists and larger lattices are not settled by them.",
        files=[COD + "css_code.py", COD + "color_code.py", COD + "hexagonal_color_code.py", COD + "square_octagon_color_code.py", COD + "*/h?.npy"],
        mech=[("named codes", COD + "css_code.py (from_code_name)"), ("lattice construction", COD + "color_code.py, hexagonal_color_code.py, square_octagon_color_code.py")],
        technique="constant propagation through the constructions (data files decoded as constants), linear algebra on the resulting matrices", note="Decides each documented name and each lattice size up to the bound; larger lattices follow the same construction but are not enumerated."),
    dict(
        id="P07", title="Flagged stabilizer measurements read the stabilizer and catch hook errors",
        statement="For every weight and flag number in range, the gadget appended by measure_flagged measures exactly the given stabilizer on its ancilla bit, leaves the data state otherwise untouched, reads deterministic zero on every flag bit in a fault-free run, and every single (two-flag: every pair of) ancilla fault that spreads to more than the tolerated data weight sets a flag. The reported hook errors are the remaining suffixes of the gate order.",
        over=["inputs", "configurations"], quant="every stabilizer weight from 2 to 12 (16 in the thorough tier), both Pauli types, every fault location of the gadget",
        why="Tests simulate a few weights and look at the number of gates; they do not propagate every fault through every gadget.",
        files=[FT + "state_prep.py"],
        mech=[("gadget builders", FT + "state_prep.py"), ("hook errors", FT + "state_prep.py")],
        technique="constant propagation of the gadget builders to gate sequences, then Pauli dataflow over every fault location", note=NOTE),
    dict(
        id="P08", title="Verification stabilizers detect every dangerous fault set",
        statement="Verification measurements are chosen so that every fault set the caller must detect anticommutes with at least one measured stabilizer, measured operators are stabilizers of the prepared state of the matching type, and the circuits wire X faults to Z-type measurements, Z faults to X-type ones, with hook errors of the first layer covered by flags or by the second layer. The searches accept a number of measurements or a weight only when the constraint solver does.",
        over=["inputs", "configurations"], quant="every code, fault set, measurement count and CNOT weight; both state types",
        why="Tests run a few small codes with one solver outcome; a constraint with a dropped literal still verifies those codes.",
        files=[FT + "state_prep.py"],
        mech=[("solver constraints", FT + "state_prep.py"), ("set cover heuristic", FT + "state_prep.py"), ("wiring of layers", FT + "state_prep.py")],
        technique="abstract interpretation of the constraint builders and drivers; the extracted formula is evaluated on complete truth assignments", note=NOTE),
    dict(
        id="P09", title="Fault sets contain exactly the uncorrectable propagated errors",
        statement="For every state preparation circuit, error type and number of faults, the computed fault set consists, up to stabilizers of the prepared state, of exactly the sums of that many single faults whose reduced weight exceeds the tolerated one; single faults are errors next to every gate propagated to the end (X from control to target, Z from target to control) and errors on every single qubit. Combining with additional faults yields the same for the enlarged set of single faults, and results do not depend on what was computed before.",
        over=["inputs", "histories", "configurations"], quant="every circuit, code, distance triple, prepared state, error type, number of faults and order of calls",
        why="Tests look at the sizes and a few elements of the fault sets of two circuits; asymmetric distances, three errors, repeated calls and combined sets are not compared.",
        files=[FT + "state_prep.py"], mech=[("error propagation and fault sets", FT + "state_prep.py (StatePrepCircuit)")],
        technique="constant propagation of Pauli errors through the fault-set computation, compared with a specification of the error sets", note=NOTE),
]

PROPS += [
    dict(
        id="P10", title="State preparation circuits prepare the encoded state",
        statement="For every CSS code and either basis, the circuits returned by the heuristic, depth-optimal and gate-optimal synthesis prepare the simultaneous +1 eigenstate of the code's stabilizers and all logical Z (for |0>) or X (for |+>) operators from the all-zero register, are labelled with that code and basis, and leave the code unchanged. An optimal synthesis stays within the bound it was asked for, excludes no valid circuit within that bound, and the returned bound is the smallest one for which the bounded search succeeds without an unsolved smaller one.",
        over=["inputs", "configurations"], quant="every CSS code (redundant checks included), basis, option, bound and outcome of each bounded search",
        why="Tests synthesise circuits for a few self-dual codes; redundant checks, X/Z-asymmetric codes, sizes that are not powers of two and timeouts at each step are not sampled.",
        files=[FT + "state_prep.py"],
        mech=[("column operations and circuit assembly", FT + "state_prep.py"), ("solver constraints of the bounded synthesis", FT + "state_prep.py"), ("iterative search and minimisation", FT + "state_prep.py")],
        technique="constant propagation of the synthesis to gate sequences, stabilizer dataflow over them, and evaluation of the extracted constraint terms", note=NOTE),
]

NA = [
    ("P29", "a statement about limits of random variables: no static argument in reach bounds sampled frequencies; what is drawn, decoded and counted is decided by P12, P13, P15-P17 and P28"),
    ("P30", "running time is a runtime quantity; that growing clusters and search loops come to an end on the examined inputs is part of P20 and P26"),
    ("P31", "how often a heuristic decoder finds the most likely error depends on hash order, random growth and size; only the syndrome of its answers can be decided from the source (P26)"),
]

PROPS += [
    dict(
        id="P11", title="The lookup decoder answers every syndrome with a least-weight error",
        statement="For every CSS code and every achievable syndrome of the Z (X) checks, decode_x (decode_z) returns an error with exactly that syndrome and the smallest weight among all such errors. The answer does not depend on when the tables are built, in which order, on the integer type of the syndrome, or on whether single or batch decoding is used.",
        over=["inputs", "histories", "configurations"], quant="every code, syndrome, order of table generation and element type",
        why="Tests decode a few syndromes of self-dual codes, for which swapping or sharing the tables cannot be noticed.",
        files=[FT + "simulation.py"], mech=[("tables and decoding", FT + "simulation.py (LutDecoder)")],
        technique="constant propagation of check matrices through call histories of the decoder, compared with a specification", note=NOTE),
    dict(
        id="P12", title="The noisy simulation implements the documented noise and accounting",
        statement="The simulated stim circuit performs the given circuit with exactly the documented noise: wrong initialisation, depolarising errors after gates and on idle qubits, measurement flips. The noiseless final measurements read the code's X and Z checks and the data in the basis of the prepared state, and the recorded indices point to those results, also after the error rate was changed. A shot is discarded exactly when a verification result is set; a logical error is counted exactly when a decoded shot violates a logical operator, and rates are averages over the simulated shots.",
        over=["inputs", "histories", "configurations"], quant="every circuit, code, error rate, gate schedule and measurement outcome",
        why="Tests compare two estimated error rates with a coarse bound; a missing error location or a wrong index changes them by less than the tolerance.",
        files=[FT + "simulation.py"], mech=[("noise model and final measurements", FT + "simulation.py (to_stim_circ, measure_*)"), ("post-selection and statistics", FT + "simulation.py (_simulate_batch, logical_error_rate)")],
        technique="constant propagation to the stim operations, Pauli dataflow over the final measurements, comparison with the documented noise model", note=NOTE),
    dict(
        id="P33", title="The evaluation command simulates the circuit its options ask for",
        statement="For every combination of options of the state preparation evaluation (ft_stateprep/eval/estimate_logical_error_rate.py) the named code is evaluated with the circuit the options describe: |0> or |+>, exact or heuristic preparation, and exact, heuristic, naive or no verification. A stored circuit is used when there is one of exactly this description in the folder of the code, otherwise the circuit is synthesised by the chosen methods. Error rate, state, gate schedule and number of errors reach the simulation as given, its four numbers are printed in order, and unknown codes are refused.",
        over=["inputs", "configurations"], quant="every combination of the options for the bundled codes, with and without a stored circuit",
        why="No test runs the command, and each of its option combinations selects another file or another chain of methods.",
        files=[FT + "eval/estimate_logical_error_rate.py"], mech=[("evaluation", FT + "eval/estimate_logical_error_rate.py (main)")],
        technique="constant propagation of command lines and directory listings through the command with models of argparse, pathlib and the synthesis methods", note=NOTE),
]

AN = "src/mqt/qecc/analog_information_decoding/"
PROPS += [
    dict(
        id="P13", title="Analog conversions and error generation follow their formulas",
        statement="The conversions of analog information decoding are the documented functions for every argument: error rate and deviation are inverse to each other, log-likelihood ratio and virtual node value follow from the deviation, thresholding maps violated checks to one, noisy analog syndromes are the signed syndrome plus independent noise. Error channels split the rate in the ratio of the bias, generated errors occur with exactly these probabilities and are added to the residual error, and logical errors are residuals outside the stabilizers.",
        over=["inputs", "configurations"], quant="every rate, deviation, bias, syndrome, matrix and random draw",
        why="Tests compare a few values and average a few samples; overlapping probability intervals, infinite bias on one axis or a residual error that is dropped stay within their tolerance.",
        files=[AN + "utils/simulation_utils.py"], mech=[("conversions and sampling", AN + "utils/simulation_utils.py")],
        technique="abstract interpretation to result terms compared with the formulas, constant propagation through the sampling loops", note=NOTE),
    dict(
        id="P14", title="Analog Tanner graph decoding gives the decoder the right information",
        statement="The analog Tanner graph decoder decodes the graph [H|1] with the data error channel followed by the values derived from the current analog syndrome, and the thresholded syndrome, for every call of a sequence. The simulator checks X errors with Hz and Z errors with Hx, uses the rates and deviation of the error type it decodes, tests the residual against the logicals of the other type, and rejects inconsistent noise arguments.",
        over=["inputs", "histories", "configurations"], quant="every code, noise argument, analog syndrome and order of decoding calls",
        why="Tests decode one syndrome with symmetric noise on one matrix used for both sides, so that swapped sides, stale channel values and swapped channels are invisible.",
        files=[AN + "simulators/analog_tannergraph_decoding.py"], mech=[("decoder", AN + "simulators/analog_tannergraph_decoding.py (AnalogTannergraphDecoder)"), ("simulator", AN + "simulators/analog_tannergraph_decoding.py (AtdSimulator)")],
        technique="abstract interpretation with an opaque decoder; result terms compared with the specified combination", note=NOTE),
    dict(
        id="P15", title="Single-shot simulation implements the documented decoding procedure",
        statement="For every combination of single-stage or two-stage decoding, meta checks on either side, hard or analog syndromes, with or without syndrome noise, and every number of noisy rounds, a sample applies fresh errors on the residual, checks X errors with Hz and Z errors with Hx, repairs or extends the syndrome with the meta checks of that side, decodes with the matrices and channels of that error type and tests the final residual against the other type's logicals or the own type's stabilizers.",
        over=["inputs", "histories", "configurations"], quant="every code, decoding option, noise rate and number of rounds",
        why="Tests run one configuration per stage with the same matrix and the same bias on both sides and only look at the type of the result.",
        files=[AN + "simulators/simulation.py"], mech=[("sampling and decoding", AN + "simulators/simulation.py (SingleShotSimulator)")],
        technique="abstract interpretation with an opaque decoder over all option combinations; result terms compared with the specified procedure", note=NOTE),
]

PROPS += [
    dict(
        id="P16", title="Overlapping-window decoding processes the right rounds",
        statement="The multi-round check matrix is [diag(H) | staircase of identities] for every number of rounds. Decoding a window feeds the difference syndrome round by round with the data channel and the (analog) syndrome channel, treats the last round of the last window as perfect, commits the accumulated correction of the first half (of the whole last window), propagates it and the time-like correction to the second half, and leaves decoder and channel as they were. The simulator slides the window over all rounds and checks the final residual of the chosen side.",
        over=["inputs", "histories", "configurations"], quant="every check matrix, syndrome history, number of rounds and windows, decoding method, side, analog or hard syndromes",
        why="Tests run a single window of one code, analog only, and compare types; which round, half or channel an index selects does not show.",
        files=[AN + "simulators/memory_experiment_v2.py", AN + "simulators/quasi_single_shot_v2.py"],
        mech=[("window decoding", AN + "simulators/memory_experiment_v2.py"), ("sliding windows", AN + "simulators/quasi_single_shot_v2.py (QssSimulator)")],
        technique="abstract interpretation with an opaque decoder; result terms compared with the specified procedure", note=NOTE),
    dict(
        id="P17", title="Reported simulation statistics are those of the shots taken",
        statement="A run takes as many shots as asked for unless its result has converged, and both what it returns and what it stores count exactly the shots taken: number of runs, successes per side, logical error rate 1-s/r with error bar sqrt(p(1-p)/r), word error rate 1-(1-p)^(1/k) and average decoder iterations. A result counts as converged exactly if the relative error bars (of both sides) are below the precision. Infinite bias is stored as 'i'.",
        over=["inputs", "histories", "configurations"], quant="every sequence of shot outcomes, save interval, convergence point and simulator",
        why="Tests run a handful of shots and look at single values; the accumulation over shots, an early stop and the stored file are not compared with what happened.",
        files=[AN + "utils/data_utils.py", AN + "utils/simulation_utils.py", AN + "simulators/simulation.py", AN + "simulators/analog_tannergraph_decoding.py", AN + "simulators/quasi_single_shot_v2.py"],
        mech=[("rates and convergence", AN + "utils/data_utils.py (calculate_error_rates, is_converged, replace_inf)"), ("run loops", AN + "simulators/*.py (run, save_results)"), ("stored results", AN + "utils/simulation_utils.py (save_results)")],
        technique="constant propagation through the run loops for given shot outcomes, forking on convergence; results and written documents compared with the specification", note=NOTE),
    dict(
        id="P18", title="Simulations are determined by their seed",
        statement="Constructing an AtdSimulator, SingleShotSimulator or QssSimulator seeds the generator that all its error and syndrome noise draws come from with the seed it was given, before any draw; sampling neither seeds again nor draws from any other generator.",
        over=["inputs", "configurations"], quant="every construction path and every path through a sample, every option",
        why="A draw from an unseeded generator gives the same distribution: no test on outcomes of one run can see it.",
        files=[AN + "utils/simulation_utils.py", AN + "simulators/simulation.py", AN + "simulators/analog_tannergraph_decoding.py", AN + "simulators/quasi_single_shot_v2.py"],
        mech=[("random draws", AN + "utils/simulation_utils.py (set_seed, generate_err, generate_syndr_err, get_noisy_analog_syndrome)"), ("seeding", AN + "simulators/*.py (__init__)")],
        technique="effect analysis over the paths of construction and sampling: ordered random-generator operations with the seed as a symbol", note=NOTE),
    dict(
        id="P19", title="Result files are merged, found and never overwritten",
        statement="Merging data sets adds runs and successes and computes the rates of the sums; merging a folder writes, next to it, one entry per subfolder with data, from all its readable JSON files and nothing else, for relative and absolute paths; X and Z data are merged separately and combined without loss. A result path handed out for a simulation did not exist, exists afterwards, and differs between different settings.",
        over=["inputs", "configurations"], quant="every set of data files, broken and foreign files, X-only, Z-only and mixed data sets, folders and settings",
        why="Tests merge one prepared folder; mixed data, relative paths, gaps and collisions do not occur.",
        files=[AN + "utils/data_utils.py"], mech=[("merging", AN + "utils/data_utils.py (merge_datasets, merge_json_files*)"), ("paths", AN + "utils/data_utils.py (create_outpath)"), ("loading", AN + "utils/data_utils.py (load_data, extract_settings)")],
        technique="constant propagation over known file trees with a model of pathlib and json; written documents and paths compared with the specification", note=NOTE),
    dict(
        id="P20", title="The MaxSAT colour code decoder returns a minimum-weight error for every syndrome",
        statement="For every lights-out instance whose lights have two or more switches (as those of both colour code lattices), the constraints asserted when a syndrome is decoded hold exactly for the sets of switches that turn off the lit faces, one soft constraint of equal weight per switch asks for it not to be pressed, and the switches returned are those of the solver's model. A second decoding with the same object is not affected by the first; an unsolvable pattern is refused, not answered, and leaves nothing behind; the caller's list of lights is not changed, and a model is accepted exactly when it turns off all lights.",
        over=["inputs", "histories"], quant="every pattern of lights, sequence of decodings and solver answer on the bundled lattices and further instances, up to the listed sizes",
        why="Tests decode a few patterns of one instance and see one solver answer each; an equally heavy but wrong model, stale constraints or a changed input go unnoticed.",
        files=["src/mqt/qecc/cc_decoder/decoder.py"], mech=[("constraints", "cc_decoder/decoder.py (LightsOut.preconstruct_*, complete_parity_constraint)"), ("decoding", "cc_decoder/decoder.py (LightsOut.solve)"), ("validation", "cc_decoder/decoder.py (LightsOut.validate_model)")],
        technique="constant propagation through the decoder with a term model of the solver interface; collected constraints compared with the parity conditions", note=NOTE),
    dict(
        id="P21", title="Colour code simulations count, store and select what they say",
        statement="Every simulated sample is an error of the given rate on all qubits, its syndrome goes to the decoder, and a logical error is counted when a logical operator detects the residual; rates, error bars, smallest weights and average times are those of the samples. Lattice names select their code and distance, unknown names are refused; a run stores its result under the lattice, distance, error rate and solver it was run with, and the command line passes every argument on to the chosen decoder. The comparison run of the tensor network decoder simulates bit flips on the hexagonal code of the given distance, at the given rate and number of samples, and stores what the simulation returns under the distance and rate.",
        over=["inputs", "configurations"], quant="every sequence of sampled errors and decoder answers, lattice name, distance and command line, for the listed sample counts",
        why="Statistics depend on unseeded samples, so tests can only check that something is written.",
        files=["src/mqt/qecc/cc_decoder/decoder.py", "src/mqt/qecc/cc_decoder/__init__.py", "src/mqt/qecc/cc_decoder/cli.py", "src/mqt/qecc/cc_decoder/comparison/tn_decoder.py"], mech=[("simulation", "cc_decoder/decoder.py (simulate_error_rate, run)"), ("lattice names", "cc_decoder/__init__.py (code_from_string)"), ("command line", "cc_decoder/cli.py (cli)"), ("comparison", "cc_decoder/comparison/tn_decoder.py (run)")],
        technique="constant propagation with sampled errors and decoder answers as inputs; results compared with the statistics of the samples", note=NOTE),
    dict(
        id="P22", title="Product codes are the homological products of their seeds",
        statement="For seed matrices that form a complex, the three- and four-dimensional product constructions (dense and sparse) return binary boundary maps of the sizes of the tensor product, consecutive maps compose to zero and the Betti numbers are those of the Künneth formula; seeds that form no complex are refused. Code creation stores, as text and in Matrix Market format, check matrices that commute, meta checks that annihilate the checks, the right number of qubits and logical qubits (with the computed distances when requested) and, when requested, a full set of independent logical operators, for every constructor option.",
        over=["inputs", "configurations"], quant="every choice of seed matrices, square or not, with and without logical operators, up to the listed sizes",
        why="Tests build at most one code; shapes and ranks that coincide for square seeds hide exchanged factors.",
        files=[AN + "code_construction/code_constructor.py", AN + "code_construction/sparse_code_constructor.py"], mech=[("boundary maps", AN + "code_construction/*.py (generate_3d_product_code, generate_4d_product_code)"), ("code creation", AN + "code_construction/*.py (create_code, save_code, _compute_logicals)")],
        technique="constant propagation over dense and sparse matrices for generating seeds; ranks and compositions compared with the Künneth formula", note=NOTE),
    dict(
        id="P23", title="Circuits mapped to an error correcting code compute what the original computes",
        statement="Applying a scheme (Id, Q3Shor, Q5Laflamme, Q7Steane, Q9Shor, Q9Surface, Q18Surface) to a circuit gives a circuit whose noiseless execution leaves exactly the possible results of the original in the original's classical bits, in the same registers and positions. This holds for every gate the scheme supports on every logical qubit, controlled gates in both directions, idle qubits, any order and target of the measurements, measurements in the middle of the circuit and every correction frequency. A gate the scheme has no counterpart for is refused or mapped correctly, never mapped to something else.",
        over=["inputs", "configurations", "histories"], quant="every circuit of supported gates on up to three (thorough: four) logical qubits from the listed families, every scheme and correction frequency 0 to 3, all outcomes of the measurements",
        why="Tests compare sampled counts of one circuit per scheme within a tolerance, with all qubits measured in order into one register.",
        files=["src/ecc/Ecc.cpp", *[f"src/ecc/{c}.cpp" for c in ("Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface")], "include/ecc/Ecc.hpp"], mech=[("mapping", "src/ecc/Ecc.cpp (Ecc::apply, initMappedCircuit)"), ("logical gates", "src/ecc/Q*.cpp (mapGate)"), ("encoding and decoding", "src/ecc/Q*.cpp (writeEncoding, writeDecoding, measureAndCorrect)")],
        technique="partial evaluation of the code generators on clang's syntax tree, then stabilizer dataflow over the operations they emit, following all measurement outcomes", note=NOTE),
    dict(
        id="P24", title="Mapped circuits correct every single error they promise to correct",
        statement="An arbitrary Pauli error on one physical data qubit between two logical gates (for Q3Shor and Q18Surface: a bit flip) changes no result of a circuit mapped to Q3Shor, Q5Laflamme, Q7Steane, Q9Shor, Q9Surface or Q18Surface, wherever it strikes: on any physical qubit of any logical qubit, right after the encoding, between corrections or just before the decoding, for every correction frequency.",
        over=["inputs", "fault points"], quant="every single error on every physical qubit at the chosen gates of the listed circuits, every scheme, frequencies 0 to 2, all outcomes of the measurements",
        why="The C++ tests insert one kind of noise at one fixed operation and accept a tolerance.",
        files=[f"src/ecc/{c}.cpp" for c in ("Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface")], mech=[("correction", "src/ecc/Q*.cpp (measureAndCorrect)"), ("check and correction tables", "include/ecc/Q*.hpp")],
        technique="partial evaluation of the code generators, then Pauli dataflow of every single error over the emitted operations, following all measurement outcomes", note=NOTE),
]

PROPS += [
    dict(
        id="P25", title="The C++ code class and its linear algebra are exact over GF(2)",
        statement="The C++ Code class computes the syndrome of an X error with its Z checks and of a Z error with its X checks, throws on vectors of a wrong length, and calls a residual a stabilizer exactly if it lies in the row space of the checks of the same kind; matrices passed in memory or read from a text file are the matrices it returns. The helpers in Utils and PluDecomposition transpose, multiply, add and convert matrices, decide membership in a row space, and compute ranks and solutions of solvable linear systems over GF(2).",
        over=["inputs"], quant="every error of the listed codes (bits kept symbolic, as polynomials over GF(2)), every vector for the stabilizer tests, every matrix up to 3x3 and listed larger ones with every right-hand side",
        why="Tests check one or two vectors of the Steane code and a handful of matrices.",
        files=["include/Code.hpp", "include/Utils.hpp", "src/Utils.cpp", "include/GF2.hpp", "src/GF2.cpp"], mech=[("syndromes and stabilizers", "include/Code.hpp (getXSyndrome, getSyndrome, isXStabilizer, isStabilizer)"), ("matrices", "include/Utils.hpp"), ("elimination", "src/GF2.cpp, include/GF2.hpp (PluDecomposition)")],
        technique="evaluation of clang's syntax tree with bits as polynomials over GF(2), branching on undecided bits; every path compared with linear algebra over GF(2)", note=NOTE),
    dict(
        id="P26", title="The union-find decoders return corrections with the given syndrome",
        statement="UFDecoder returns, for every syndrome that an error can cause on a code whose Tanner graph is connected, an estimate with that syndrome, for every growth variant it offers, whatever the random draws and whatever it decoded before; syndromes of both sectors are decoded sector by sector with the growth variant kept, a zero syndrome gives a zero estimate, and the list of estimated qubits agrees with the estimate. UFHeuristic does so for the zero syndrome and for syndromes of single-qubit errors with the growth variants ALL_COMPONENTS and INVALID_COMPONENTS. Setting the code keeps its matrices, and growth variant names are read as documented, with unknown names refused.",
        over=["inputs", "schedules", "histories"], quant="every syndrome of the listed codes (Steane, surface, ring, toric, single checks, repetition, dense), every growth variant, random draws enumerated to a bounded depth, every pair of consecutive syndromes, unordered containers in three orders",
        why="Tests decode a few syndromes of the Steane and a toric code with the default growth, always with a fresh or reset decoder.",
        files=["src/UFDecoder.cpp", "src/UFHeuristic.cpp", "include/Decoder.hpp", "include/TreeNode.hpp", "include/Code.hpp"], mech=[("decoding", "src/UFDecoder.cpp, src/UFHeuristic.cpp (decode, doDecode)"), ("growth", "src/UF*.cpp (standardGrowth, singleClusterSmallestFirstGrowth, ...)"), ("erasure and peeling", "src/UF*.cpp (getEstimateForComponent, erasureDecoder)"), ("code", "include/Decoder.hpp (setCode)")],
        technique="evaluation of the decoders on clang's syntax tree for every syndrome of a table of codes, random draws as choices, unordered containers in several orders; estimates checked against the parity checks", note=NOTE),
    dict(
        id="P27", title="apply_ecc and its command line map, export and report the given circuit",
        statement="apply_ecc maps exactly the circuit it is given (an OpenQASM file or a QuantumCircuit) with the named scheme and frequency, refuses unknown schemes, and returns OpenQASM 2 that says what the mapped circuit says: classical conditions cover whole registers and the registers of the original circuit come first, in their order. The ecc_qiskit_wrapper command adds measurements if there are none, maps the circuit unless the scheme is none, either writes it to the export path or simulates it with the requested method, shots, seed and noise channels (B, P, D, A with the given probability on every single-qubit, two-qubit and three-qubit gate listed), and refuses unknown channels and failed simulations. It prints, in order, the relative frequency of every result of the classical registers of the original circuit, summed over the registers error correction added.",
        over=["inputs", "configurations"], quant="every scheme name, listed frequencies and kinds of circuits for the binding; command lines covering every option; circuits with no, one and several classical registers",
        why="The command line has smoke tests only (stubbed simulator, output not compared), and the binding is tested for not throwing.",
        files=["src/python/bindings.cpp", "src/mqt/qecc/ecc_qiskit_wrapper.py", "src/ecc/Ecc.cpp"], mech=[("binding", "src/python/bindings.cpp (applyEcc)"), ("command line", "src/mqt/qecc/ecc_qiskit_wrapper.py (main, create_noise_model, print_simulation_results)"), ("registers", "src/ecc/*.cpp (initMappedCircuit, classicControlled)")],
        technique="evaluation of the binding on clang's syntax tree and of the command line on Python's, with circuits, noise models and simulations as logged terms compared with the options given", note=NOTE),
]

PROPS += [
    dict(
        id="P28", title="The C++ simulators sample, decode and report as requested",
        statement="sample_iid_pauli_err draws every bit independently with the given probability, whatever was sampled before. DecodingSimulator.simulate_wer decodes the requested number of such errors for every rate from the minimum below the maximum with the requested decoder, and writes for each rate the fraction of residuals that are no stabilizers divided by the number of logical qubits; its statistics file is JSON with one run per rate and one record (rate, size, error, syndrome, estimate, status) per decoding. simulate_avg_runtime writes the mean decoding time of the samples of every run for every code file, and one information record per decoding.",
        over=["inputs", "configurations", "histories"], quant="listed grids of rates, runs, codes and decoder types, with every draw and every answer of the decoder prepared (right, right up to a stabilizer, logical, wrong syndrome)",
        why="Tests only run the simulators for not throwing; nothing reads what they write.",
        files=["src/DecodingSimulator.cpp", "src/Utils.cpp", "include/DecodingRunInformation.hpp", "include/DecodingSimulator.hpp"], mech=[("word error rates", "src/DecodingSimulator.cpp (simulateWER)"), ("decoding times", "src/DecodingSimulator.cpp (simulateAverageRuntime)"), ("sampling", "src/Utils.cpp (sampleErrorIidPauliNoise)")],
        technique="evaluation of the simulators on clang's syntax tree with draws, decoder answers and files as given data; everything written compared with what was prepared", note=NOTE),
]

PROPS += [
    dict(
        id="P32", title="The Python names of the C++ part reach the operations they name",
        statement="Every function, class, method, attribute, constructor and enumeration value that the Python module pyqecc defines acts as the C++ operation, field or enumerator of that name: matrices, syndromes, membership and sizes of a Code, growth, code, decoding and result of either decoder, the attributes and JSON of results and run information, the simulators, error sampling and apply_ecc with their documented order, names and defaults of arguments. Every enumerator has its own name, the enumeration made from that name or from its number as a string is that enumerator and an unknown string is refused. No name of the module hides another, and functions of a class can be called on the class and on its objects.",
        over=["inputs", "configurations"], quant="every name the module defines, for a grid of codes, vectors, enumerators and arguments",
        why="Tests of the module call five of its names; an exchanged name, overload or argument compiles.",
        files=["src/python/bindings.cpp", "include/Code.hpp", "include/Decoder.hpp", "include/DecodingRunInformation.hpp", "include/DecodingSimulator.hpp"], mech=[("definition of the module", "src/python/bindings.cpp (PYBIND11_MODULE)")],
        technique="evaluation of the module's initialisation on clang's syntax tree into a table of names, overloads and attributes; programs run through the table into the C++ definitions", note=NOTE),
]

PROPS += [
    dict(
        id="P29", title="Estimated error rates agree with the true ones",
        statement="The estimated logical error rates and error bars converge to those of the simulated noise model, and thresholds read from them are those of the codes.",
        over=["inputs", "histories"], quant="every code, noise rate and number of samples",
        why="A test compares a sampled number with a wide interval.",
        files=[FT + "simulation.py", "src/DecodingSimulator.cpp"], mech=[("sampling", FT + "simulation.py")], technique="", note=""),
    dict(
        id="P30", title="Decoding and synthesis finish within their time limits",
        statement="Decoders scale as documented, and synthesis with a time limit ends within that limit.",
        over=["inputs", "schedules"], quant="every code, syndrome and time limit",
        why="Tests time nothing.",
        files=["src/UFHeuristic.cpp", FT + "state_prep.py"], mech=[("growth and time-outs", FT + "state_prep.py")], technique="", note=""),
    dict(
        id="P31", title="The heuristic union-find decoder corrects what the exact one corrects",
        statement="For errors below half the distance the heuristic decoder returns a correction equivalent to the error.",
        over=["inputs"], quant="every code, error and growth variant",
        why="Tests decode single errors of a few codes.",
        files=["src/UFHeuristic.cpp"], mech=[("cluster growth", "src/UFHeuristic.cpp")], technique="", note=""),
]
