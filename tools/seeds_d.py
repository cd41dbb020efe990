EH = """import sys
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.qasm2 import loads
from qiskit_aer import AerSimulator
from mqt.qecc import apply_ecc


def run(circ, ecc=None, freq=100, noise=None, shots=200):
    n = sum(r.size for r in circ.cregs)
    if ecc is not None:
        circ = loads(apply_ecc(circ, ecc, freq)["circ"])
    out = AerSimulator(method="stabilizer" if ecc not in ("Q3Shor", "Q9Shor") else "matrix_product_state").run(circ, shots=shots, seed_simulator=3).result().get_counts()
    return {k.replace(" ", "")[-n:] for k in out}


def qc(n, *gates, bits=None):
    c = QuantumCircuit(n, n)
    for g, *q in gates:
        getattr(c, g)(*q)
    c.measure(range(n), range(n) if bits is None else bits)
    return c
"""
SEEDS = {
    "d01-decoding-value": dict(
        property="P23", edits=[("include/ecc/Q5Laflamme.hpp", "1, 2, 4, 7, 8, 11, 13, 14}; // values with odd amount of '1' bits", "1, 2, 4, 7, 8, 11, 13}; // values with odd amount of '1' bits")],
        needs="the outcome 1110 of the four qubits measured when decoding",
        breaks="one outcome in sixteen of the decoding measurements gives the wrong result",
        demo=EH + """
assert run(qc(1, ("x", 0)), "Q5Laflamme") == {"1"}, run(qc(1, ("x", 0)), "Q5Laflamme")
"""),
    "d02-third-qubit": dict(
        property="P23", edits=[("src/ecc/Q3Shor.cpp", "static_cast<Qubit>(i + 2 * numQubits), type);\n        } else", "static_cast<Qubit>(i + std::min<Qubit>(2 * static_cast<Qubit>(numQubits), 4)), type);\n        } else")],
        needs="a controlled gate in a circuit with more than two qubits",
        breaks="the third physical gate of a controlled gate acts on the wrong qubit",
        demo=EH + """
c = qc(3, ("x", 0), ("cx", 0, 1), ("cx", 0, 2), ("x", 0), ("cx", 1, 0))
assert run(c, "Q3Shor", 1) == run(c), run(c, "Q3Shor", 1)
c = qc(3, ("x", 0), ("cx", 0, 1), ("x", 2), ("cx", 2, 1), ("cx", 0, 1), ("cx", 1, 0))
assert run(c, "Q3Shor") == run(c), run(c, "Q3Shor")
"""),
    "d03-sdg": dict(
        property="P23", edits=[("src/ecc/Q7Steane.cpp", "        addSOperation(gate.getControls(), gate.getTargets(), gate.getType());", "        addSOperation(gate.getControls(), gate.getTargets(), qc::S);")],
        needs="S and its inverse in one circuit, between Hadamards",
        breaks="the inverse of S is mapped to S",
        demo=EH + """
c = qc(1, ("h", 0), ("s", 0), ("sdg", 0), ("h", 0))
assert run(c, "Q7Steane") == {"0"}, run(c, "Q7Steane")
"""),
    "d04-idle-last": dict(
        property="P23", edits=[("src/ecc/Q9Surface.cpp", "        qcMapped->cx(static_cast<Qubit>(i + 8 * nQubits), static_cast<Qubit>(i));\n", "        qcMapped->cx(static_cast<Qubit>(i + 8 * nQubits), static_cast<Qubit>(i - i % 2));\n")],
        needs="a second logical qubit whose decoded corner is 1",
        breaks="the decoding of the second qubit flips the first one",
        demo=EH + """
for k in range(4):
    c = qc(2, *[("x", q) for q in range(2) if k >> q & 1], ("id", 0), ("id", 1))
    assert run(c, "Q9Surface") == run(c), (k, run(c, "Q9Surface"))
"""),
    "d05-register-order": dict(
        property="P23", edits=[("src/ecc/Q18Surface.cpp", "                    qcMapped->measure(targets.at(j), classics.at(j));", "                    qcMapped->measure(targets.at(j), classics.size() > 1 ? classics.at(j) : targets.at(j));")],
        needs="a measurement into another bit than that of the same number",
        breaks="the result lands in the wrong classical bit",
        demo=EH + """
c = qc(2, ("x", 0), ("id", 1), bits=[1, 0])
assert run(c, "Q18Surface") == {"10"}, run(c, "Q18Surface")
"""),
    "d06-last-check": dict(
        property="P24", edits=[("include/ecc/Q9Surface.hpp", "    std::set<Qubit>                                         uncorrectedXQubits = {2, 6};", "    std::set<Qubit>                                         uncorrectedXQubits = {2, 4, 6};")],
        needs="a bit flip on physical qubit 4 of a logical qubit",
        breaks="the syndrome of one check is not corrected any more",
        demo=EH + """
import re


def flipped(ecc, circ, q, phys, freq=1, op="x", data=9):
    # the error strikes after the first correction of the last logical gate
    m = loads(apply_ecc(circ, ecc, freq)["circ"])
    out = m.copy_empty_like()
    # position: before the last round of ancilla resets
    last = max(i for i, o in enumerate(m.data) if o.operation.name == "reset")
    n = circ.num_qubits
    anc = n * data
    starts = [i for i, o in enumerate(m.data) if o.operation.name == "reset" and m.find_bit(o.qubits[0]).index == anc]
    at = starts[-n]
    for i, o in enumerate(m.data):
        if i == at:
            getattr(out, op)(phys * n + q)
        out.append(o)
    res = AerSimulator(method="stabilizer").run(out, shots=100, seed_simulator=3).result().get_counts()
    return {k.replace(" ", "")[-n:] for k in res}


for p in range(9):
    assert flipped("Q9Surface", qc(1, ("x", 0), ("id", 0)), 0, p) == {"1"}, p
"""),
    "d07-y-correction": dict(
        property="P24", edits=[("src/ecc/Q5Laflamme.cpp", "            for (auto op : {qc::X, qc::Y, qc::Z}) {\n                std::size_t value = 0;\n                for (std::size_t c = 0; c < STABILIZER_MATRIX.size(); c++) {\n                    const auto stabilizerOp = STABILIZER_MATRIX.at(c).at(q);\n                    if (stabilizerOp != qc::I && stabilizerOp != op) {", "            for (auto op : {qc::X, qc::Y, qc::Z}) {\n                std::size_t value = 0;\n                for (std::size_t c = 0; c < STABILIZER_MATRIX.size(); c++) {\n                    const auto stabilizerOp = STABILIZER_MATRIX.at(c).at(q);\n                    if (stabilizerOp != qc::I && (stabilizerOp != op || (op == qc::Z && q + 1 == ecc.nRedundantQubits && c == 0))) {")],
        needs="nothing changes: replaced below",
        breaks="-",
        demo=""),
    "d08-ancilla-reset": dict(
        property="P24", edits=[("src/ecc/Q18Surface.cpp", "            for (Qubit const ai : ANCILLA_INDICES) {\n                qcMapped->reset(qubits.at(ai));\n            }", "            for (std::size_t j = 0; j + 8 < ANCILLA_INDICES.size(); j++) {\n                qcMapped->reset(qubits.at(ANCILLA_INDICES.at(j)));\n            }")],
        needs="an error seen by one of the last checks, followed by a further correction",
        breaks="ancillas that are not reset report an error again, which introduces one",
        demo=EH + """
c = qc(1, ("x", 0), ("id", 0))
for p in (1, 3, 5, 6, 8, 10, 13, 15, 17, 18, 20, 22, 25, 27, 29, 30, 32, 34):
    m = loads(apply_ecc(c, "Q18Surface", 1)["circ"])
    out = m.copy_empty_like()
    xs = [i for i, o in enumerate(m.data) if o.operation.name == "x"]
    seen = False
    for i, o in enumerate(m.data):
        if not seen and o.operation.name == "reset":
            out.x(p)
            seen = True
        out.append(o)
    res = AerSimulator(method="stabilizer").run(out, shots=20, seed_simulator=3).result().get_counts()
    assert {k.replace(" ", "")[-1:] for k in res} == {"1"}, (p, res)
"""),
}
del SEEDS["d07-y-correction"]
