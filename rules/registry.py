"""Property id -> (rule module, function, rule text for the evidence)."""

REGISTRY = {
    "P01": ("concrete", "p01", "Abstract interpretation of every syndrome / logical-error method of the code classes: the returned value, as a term over the receiver's fields, must be (own checks · error) mod 2, resp. any(opposite logicals · residual mod 2). Constant propagation of a grid of codes, errors and Pauli strings through the same functions: the results must be those of the definition."),
    "P02": ("concrete", "p02", "Abstract interpretation of the membership and equivalence predicates: the decision, as a term over ranks of stacked rows, must be the coset condition on the row space of the right check matrix. Constant propagation of a grid of codes, errors and Pauli strings through the same functions: the results must be those of the definition."),
    "P03": ("concrete", "p03", "Abstract interpretation of the constructors and conversions: the fields set on every normal path are compared with the CSS embedding, the kernel/image pairing of the logicals and the Pauli alphabet tables. Constant propagation of a grid of codes, errors and Pauli strings through the same functions: the results must be those of the definition."),
    "P04": ("concrete", "p04", "Path-fact analysis of the constructors: on every path that returns normally the facts established by the branches must exclude each kind of invalid input. Constant propagation of a grid of codes, errors and Pauli strings through the same functions: the results must be those of the definition."),
    "P05": ("codes", "p05", "Constant propagation through the bivariate-bicycle construction for every documented size: block structure, torus size, shift polynomials and declared distance."),
}

REGISTRY["P07"] = ("ft", "p07", "Constant propagation through the measurement gadget for every weight in range extracts its gate sequence; Pauli dataflow over it decides what each bit reads, the back-action on the data and which fault combinations go unflagged.")
REGISTRY["P08"] = ("ft", "p08", "Abstract interpretation of the verification drivers, naive, heuristic and optimal constructions: which faults and which checks reach each search, the solver constraints as terms, set-cover completeness, and the wiring of layers into the circuit.")
REGISTRY["P09"] = ("faults", "p09", "Constant propagation of Pauli errors through the fault-set computation for circuits that exercise every transfer of a CNOT in both bases: single faults, sums of independent faults, removal of trivial and equivalent faults, combination with additional faults, caching.")
REGISTRY["P10"] = ("prep", "p10", "Constant propagation through the synthesis routines: the gate sequence each builds is extracted and its stabilizer action compared with the code state; for the solver-based ones the constraint terms are extracted and every satisfying assignment is mapped back to a circuit, both directions; the search and minimisation loops are resolved against every outcome of the bounded step.")
REGISTRY["P11"] = ("lut", "p11", "Constant propagation of check matrices through histories of calls on the lookup-table decoder: the answer to every syndrome must be a least-weight error with exactly that syndrome, for either type, whatever was built or asked before.")
REGISTRY["P12"] = ("lut", "p12", "Constant propagation through the noisy simulator: the stim operations it appends are compared with the documented noise model, Pauli dataflow over the final measurements decides what each recorded result reads, and the batch statistics are resolved on explicit measurement results.")
REGISTRY["P13"] = ("analog", "p13", "Abstract interpretation of the conversion helpers to result terms, compared with the documented formulas on a table of arguments; constant propagation of every part of the unit interval through the error generation.")
REGISTRY["P14"] = ("analog", "p14", "Abstract interpretation of the decoder and the simulator over call sequences, with decoding as an opaque function of matrix, current channel and syndrome: the result terms must be the specified combination.")
REGISTRY["P15"] = ("analog", "p15", "Abstract interpretation of construction and sampling for every combination of decoding options, with decoding and sampling as opaque functions: the reported flags must be the specified terms.")
REGISTRY["P16"] = ("analog", "p16", "Abstract interpretation of the multi-round matrix, the window decoding and the simulator for a grid of window sizes and options, with decoding as an opaque function of matrix, current channel and syndrome: results and the decoder state afterwards must be the specified terms.")
REGISTRY["P17"] = ("results", "p17", "Constant propagation through the rate and convergence routines and through the run loops of the simulators over known outcomes and a known file tree: the numbers reported and written must be those of the specification.")
REGISTRY["P19"] = ("results", "p19", "Constant propagation through the merging, loading and path routines over known file trees: what is read, merged, written and handed out must be that of the specification.")
REGISTRY["P18"] = ("results", "p18", "Effect analysis of construction and sampling: every operation on a random generator reached on a path, in order, with the seed tracked as a symbol.")
REGISTRY["P06"] = ("named", "p06", "Constant propagation of every documented code name and lattice size through the constructions (data files decoded as constants): commutation, number of logical qubits, true and declared distances, adjacency lists.")
REGISTRY["P20"] = ("lights", "p20", "Constant propagation of light patterns through histories of decodings with the solver's interface as a model: the hard and soft constraints present at each check, with their scopes, are compared with the parity conditions over the assignments of the switches; the result is that of the solver's model.")
REGISTRY["P21"] = ("lights", "p21", "Constant propagation of known errors and corrections through the colour code simulation, its result file and the command line: numbers, arguments and names must be those of the specification.")
REGISTRY["P22"] = ("product", "p22", "Constant propagation of seed matrices through the product constructions, dense and sparse: sizes, composition to zero and Betti numbers of the result must be those of the tensor product; the stored matrices must be those of the code.")
REGISTRY["P23"] = ("ecc", "p23", "Constant propagation of circuits through the C++ mapping of every scheme: the emitted operations are interpreted over stabilizer states, following all outcomes, and the values of the user's classical bits must be those of the original circuit.")
REGISTRY["P24"] = ("ecc", "p24", "Pauli dataflow of every single error through the operations the C++ mapping emits, over stabilizer states and all measurement outcomes.")
REGISTRY["P25"] = ("uf", "p25", "Evaluation of the C++ code class and its GF(2) routines over the syntax tree, bits of errors and matrices as polynomials over GF(2) (a branch on a bit splits on it): syndromes must be the same polynomials as the matrix products, membership, rank and solutions those of every matrix and vector in the table")
REGISTRY["P26"] = ("uf", "p26", "Evaluation of the C++ union-find decoders over the syntax tree for every syndrome of a table of codes, random draws as choices and unordered containers in several orders: the estimate must have the given syndrome, sector by sector, whatever was decoded before")
REGISTRY["P27"] = ("wrapper", "p27", "Evaluation of the binding that maps circuits and of the Qiskit command line with circuits, noise models and simulations as logged terms; the classical side of every mapped circuit must be expressible in the OpenQASM 2 that is written")
REGISTRY["P28"] = ("simul", "p28", "Evaluation of the C++ simulators over the syntax tree with prepared errors and decoder answers, files as text: rates, times, statuses and records compared with what was prepared")
REGISTRY["P32"] = ("binding", "p32", "Evaluation of the initialisation of the Python module over the syntax tree: the table of names, overloads, attributes, constructors and enumeration values it defines, and a grid of Python programs run through that table into the C++ definitions; each must do what its names say")
REGISTRY["P33"] = ("evalcmd", "p33", "Constant propagation of command lines and stored-circuit listings through the evaluation command: code, circuit (loaded or synthesised), simulator arguments and output must be those the options ask for.")
