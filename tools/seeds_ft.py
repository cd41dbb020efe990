F = "src/mqt/qecc/ft_stateprep/"
SP = F + "state_prep.py"
HEAD = """import logging
import numpy as np
from mqt.qecc.codes import *
from mqt.qecc.codes.css_code import CSSCode
from mqt.qecc.ft_stateprep import *
from mqt.qecc.ft_stateprep import state_prep as sp
from qiskit import QuantumCircuit
"""
STAB = '''
from qiskit.quantum_info import Clifford, Pauli
def prepares(code, circ, zero=True):
    """every X check, Z check and logical stabilizes the state"""
    n = circ.num_qubits
    rows = [(h, "X") for h in code.Hx] + [(h, "Z") for h in code.Hz] + [(l, "Z" if zero else "X") for l in (code.Lz if zero else code.Lx)]
    inv = circ.inverse()
    for v, ch in rows:
        p = Pauli("".join(ch if b else "I" for b in v[::-1]))
        q = p.evolve(circ, frame="h")  # U^dagger P U
        if q.x.any() or q.phase != 0:
            return False
    return True
'''
SEEDS = {
    "b04-bb-exponent": dict(
        property="P05", edits=[("src/mqt/qecc/codes/bb_codes.py", "_cyclic_code_check_matrix(12, 12, ([3], [2, 7]), ([1, 2], [3]))", "_cyclic_code_check_matrix(12, 12, ([3], [1, 2]), ([1, 2], [3]))")],
        needs="the largest supported size",
        breaks="the 288 qubit code is not the published [[288,12,18]] code",
        demo=HEAD + '''
from ldpc import mod2
c = construct_bb_code(288)
l = m = 12
def poly(xs, ys):
    a = np.zeros((l * m, l * m), dtype=np.int8)
    for i in range(l):
        for j in range(m):
            for x, y in [(k, 0) for k in xs] + [(0, k) for k in ys]:
                a[i * m + j, ((i + x) % l) * m + (j + y) % m] ^= 1
    return a
want = np.hstack([poly([3], [2, 7]), poly([1, 2], [3])])
assert mod2.rank(np.vstack([want, c.Hx])) == mod2.rank(want) == mod2.rank(c.Hx)
'''),
    "b05-flag-four": dict(
        property="P07", edits=[(SP, "    if w <= 3 and t == 2:\n", "    if w <= 4 and t == 2:\n")],
        needs="a weight-four stabilizer measured with two-fault protection",
        breaks="a single ancilla fault spreads to two data qubits without raising a flag",
        demo=HEAD + '''
from qiskit.circuit import AncillaRegister, ClassicalRegister, QuantumRegister
q, a, c = QuantumRegister(4), AncillaRegister(1), ClassicalRegister(1)
qc = QuantumCircuit(q, a, c)
sp.measure_flagged(qc, list(q), a[0], c[0], t=2, z_measurement=True)
assert qc.num_clbits > 1, "no flag although a single fault in the middle spreads to two qubits"
'''),
    "b07-combine-alias": dict(
        property="P09", edits=[(SP, "self.x_fault_sets_unreduced.copy() if x_errors else self.z_fault_sets_unreduced.copy()", "self.x_fault_sets_unreduced if x_errors else self.z_fault_sets_unreduced")],
        needs="combining with additional faults twice, or reading the fault sets of the circuit afterwards",
        breaks="faults given for one combination stay in the circuit's own fault sets and leak into later combinations",
        demo=HEAD + '''
logging.disable(logging.CRITICAL)
code = CSSCode.from_code_name("steane")
c1 = heuristic_prep_circuit(code)
a = np.zeros((1, 7), dtype=np.int8); a[0, [0, 1]] = 1
b = np.zeros((1, 7), dtype=np.int8); b[0, [2, 4]] = 1
c1.combine_faults(a)
n1 = len(c1.x_fault_sets_unreduced[1])
c1.combine_faults(b)
c2 = heuristic_prep_circuit(code)
c2.compute_fault_sets()
assert n1 == len(c2.x_fault_sets_unreduced[1])
'''),
    "b08-rank-rows": dict(
        property="P10", edits=[(SP, "    rank = mod2.rank(checks)\n\n    def is_reduced", "    rank = checks.shape[0]\n\n    def is_reduced")],
        needs="a code whose check matrix has redundant rows",
        breaks="the synthesis stops before the check matrix is reduced (or never) and the circuit does not prepare the code state",
        demo=HEAD + STAB + '''
import signal
signal.alarm(100)
h = CSSCode.from_code_name("steane").Hx
for hx in (np.vstack([h, [(h[0] + h[1]) % 2]]), np.vstack([h, [(h[0] + h[1]) % 2], [(h[0] + h[2]) % 2]])):
    code = CSSCode(3, hx.astype(np.int8), h)
    p = heuristic_prep_circuit(code)
    assert prepares(code, p.circ)
'''),
    "b09-depth-two": dict(
        property="P10", edits=[(SP, "if col != col_1]\n                    + [(additions[d, col, col_2], 1) for col_2 in range(n_cols) if col != col_2],\n", "if col != col_1],\n")],
        needs="a bounded-depth instance whose solution uses one qubit in two gates of the same layer",
        breaks="the depth-optimal synthesis returns circuits deeper than the bound it reports",
        demo=HEAD + '''
checks = np.array([[1, 1, 1, 0], [0, 1, 1, 1]], dtype=np.int8)
for cs in ([[1, 1, 1, 1, 1]], [[1, 1, 1]], [[1, 1, 1, 1, 0, 0], [0, 0, 1, 1, 1, 1]]):
    m = np.array(cs, dtype=np.int8)
    for d in (1, 2):
        qc = sp._generate_circ_with_bounded_depth(m, d, True)
        if qc is not None:
            assert qc.depth(lambda i: len(i.qubits) == 2) <= d, (cs, d)
'''),
    "b10-hook-basis": dict(
        property="P08", edits=[(SP, "        layers_2 = verification_stabs_fun(sp_circ, not sp_circ.zero_state, additional_errors)", "        layers_2 = verification_stabs_fun(sp_circ, not sp_circ.zero_state, None)")],
        needs="a first verification layer whose hook errors are not already detected by the second layer",
        breaks="hook errors of the first verification layer reach the data undetected",
        demo=HEAD + '''
logging.disable(logging.CRITICAL)
seen = []
real = sp.heuristic_verification_stabilizers
def spy(c, x=True, m=10000, f=True, add=None):
    seen.append((x, add)); return real(c, x, m, f, add)
sp.heuristic_verification_stabilizers = spy
code = CSSCode.from_code_name("surface", 5) if False else CSSCode.from_code_name("steane")
heuristic_verification_circuit(heuristic_prep_circuit(code))
assert len(seen) == 2 and seen[1][1] is not None and len(seen[1][1])
'''),
}
