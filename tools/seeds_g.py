GAD = '''import itertools
from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister
from mqt.qecc.ft_stateprep.state_prep import measure_flagged


def gadget(w, t, z):
    q, a, c = QuantumRegister(w), AncillaRegister(1), ClassicalRegister(1)
    qc = QuantumCircuit(q, a, c)
    measure_flagged(qc, list(q), a[0], c[0], t, z)
    return qc, [qc.find_bit(x).index for x in q], qc.find_bit(c[0]).index


def run(qc, faults):
    """The effect of Pauli faults {position: [(qubit, pauli)]}: flips of the bits, final errors."""
    x, z, bits = set(), set(), set()
    for k, ins in enumerate(qc.data):
        qs = [qc.find_bit(v).index for v in ins.qubits]
        n = ins.operation.name
        if n == "h":
            a, b = qs[0] in x, qs[0] in z
            (x.add if b else x.discard)(qs[0])
            (z.add if a else z.discard)(qs[0])
        elif n == "cx":
            if qs[0] in x:
                x ^= {qs[1]}
            if qs[1] in z:
                z ^= {qs[0]}
        elif n == "measure":
            if qs[0] in x:
                bits.add(qc.find_bit(ins.clbits[0]).index)
        else:
            assert n == "barrier", n
        for q, p in faults.get(k, ()):
            if p in "XY":
                x ^= {q}
            if p in "ZY":
                z ^= {q}
    return x, z, bits


'''
SEEDS = {
    "g01-late-flag": dict(
        property="P07", edits=[("src/mqt/qecc/ft_stateprep/state_prep.py", """    _ancilla_cnot(qc, stab[6], ancilla, z_measurement)

    _ancilla_cnot(qc, flag[2], ancilla, z_measurement)
    _flag_measure(qc, flag[2], meas[2], z_measurement)

    _ancilla_cnot(qc, flag[1], ancilla, z_measurement)
    _flag_measure(qc, flag[1], meas[1], z_measurement)

""", """    _ancilla_cnot(qc, flag[2], ancilla, z_measurement)
    _flag_measure(qc, flag[2], meas[2], z_measurement)

    _ancilla_cnot(qc, flag[1], ancilla, z_measurement)
    _flag_measure(qc, flag[1], meas[1], z_measurement)

    _ancilla_cnot(qc, stab[6], ancilla, z_measurement)
""")],
        needs="a stabilizer of weight eight measured with two-fault flags, and two faults in the right places",
        breaks="two faults of the ancilla spread to more than two data qubits without a flag",
        demo=GAD + '''for z in (True, False):
    qc, data, out = gadget(8, 2, z)
    places = []
    for k, ins in enumerate(qc.data):
        if ins.operation.name == "cx":
            qs = [qc.find_bit(v).index for v in ins.qubits]
            places += [(k, [(q, p) for q, p in zip(qs, pp) if p != "I"]) for pp in itertools.product("IXYZ", repeat=2) if pp != ("I", "I")]
    single = [(k, f) for k, f in places]
    # effects are linear: the effect of two faults is the sum of those of each
    eff = []
    for k, f in single:
        x, zz, bits = run(qc, {k: f})
        e = (zz if z else x) & set(data)
        eff.append((frozenset(e), frozenset(bits - {out})))
    eff = list(set(eff))
    for (e1, b1), (e2, b2) in itertools.combinations_with_replacement(eff, 2):
        if b1 ^ b2:
            continue
        e = e1 ^ e2
        assert min(len(e), len(data) - len(e)) <= 2, (z, sorted(e))
'''),
    "g02-free-switch": dict(
        property="P20", edits=[("src/mqt/qecc/cc_decoder/decoder.py", "        for switch in self.switch_vars:\n            self.optimizer.add_soft(Not(switch))", "        for switch in sorted(self.switch_vars, key=lambda v: len(str(v))):\n            self.optimizer.add_soft(Not(switch), str(len(str(switch)) - 7))")],
        needs="a code with more than ten qubits whose least-weight errors of a syndrome have different weights when the qubits are not counted alike",
        breaks="the weight of a correction is no longer the number of its qubits, so corrections of more qubits can be preferred",
        demo='''from mqt.qecc.cc_decoder.decoder import LightsOut

# four lights that two late switches turn off, or three early ones
l2s = {0: [0, 10], 1: [1, 10], 2: [1, 11], 3: [2, 11], 4: [3, 4], 5: [5, 6], 6: [7, 8], 7: [9, 3]}
p = LightsOut(l2s, {i: [k for k in l2s if i in l2s[k]] for i in range(12)})
p.preconstruct_z3_instance()
sw, _a, _b = p.solve([True] * 4 + [False] * 4)
assert sum(sw) == 2, sw
'''),
    "g03-rounded-rate": dict(
        property="P21", edits=[("src/mqt/qecc/cc_decoder/decoder.py", "p={round(error_rate, 4)}", "p={round(error_rate, 2)}")],
        needs="two runs whose error rates differ in the third digit",
        breaks="the result of one run overwrites that of another",
        demo='''import os, tempfile
from mqt.qecc.cc_decoder import decoder

with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    for p in (0.001, 0.002, 0.0125):
        decoder.run("hexagon", 3, p, nr_sims=1, results_dir=d)
    fs = sorted(f for f in os.listdir(d) if f.endswith(".json"))
    os.chdir("/")
assert len(fs) == 3, fs
'''),
    "g04-zero-sum": dict(
        property="P22", edits=[("src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py", "    mat.data %= 2\n    return bool(mat.sum() == 0)", "    mat = mat.tocoo()\n    return bool(np.all(mat.sum(axis=0) % 2 == 0))")],
        needs="seed matrices that form no complex, with an even number of faults in every column",
        breaks="such seeds are accepted and give matrices that are no code",
        demo='''import numpy as np
from scipy.sparse import csr_matrix
from mqt.qecc.analog_information_decoding.code_construction import sparse_code_constructor as m

# a_1 @ a_2 = [[1], [1]]: both entries wrong, their sum even
a1 = csr_matrix(np.array([[1, 0], [1, 0]]))
a2 = csr_matrix(np.array([[1], [0]]))
p = csr_matrix(np.array([[1, 1]]))
try:
    m.generate_3d_product_code(a1, a2, p)
except RuntimeError:
    pass
else:
    raise SystemExit("accepted")
'''),
    "g05-one-sided-view": dict(
        property="P32", edits=[("src/python/bindings.cpp", '.def("getHx", &Code::getHxMat)', '.def("getHx", &Code::getHzMat)')],
        needs="a code with different X and Z checks whose matrices are read back in Python",
        breaks="getHx returns the Z checks",
        demo='''from mqt.qecc import Code

X = [[True, True, True, True, False, False], [False, False, True, True, True, True]]
Z = [[True, True, False, False, False, False], [False, False, True, True, False, False], [False, False, False, False, True, True]]
c = Code(X, Z)
assert c.getHx() == X, c.getHx()
assert c.getHz() == Z, c.getHz()
'''),
    "g06-second-constructor": dict(
        property="P32", edits=[("include/DecodingRunInformation.hpp", "codeSize(size), error(std::move(err)), syndrome(std::move(syn)), result(std::move(res)) {}", "codeSize(size), error(std::move(syn)), syndrome(std::move(err)), result(std::move(res)) {}")],
        needs="run information made without a status",
        breaks="the error and the syndrome are exchanged",
        demo='''from mqt.qecc import DecodingResult, DecodingRunInformation

d = DecodingRunInformation(0.5, 3, [True, True, False], [False, True], DecodingResult())
assert d.error == [True, True, False], d.error
assert d.syndrome == [False, True], d.syndrome
'''),
    "g07-growth-bound": dict(
        property="P26", edits=[("src/UFDecoder.cpp", "components.size() < (pcm->pcm->size() + pcm->pcm->front().size())", "components.size() < std::max(pcm->pcm->size(), pcm->pcm->front().size())")],
        needs="a code on which a cluster has to cover more checks and qubits than there are qubits",
        breaks="growth stops early and the estimate does not have the given syndrome",
        demo="""import itertools
from mqt.qecc import Code, GrowthVariant, UFDecoder

n = 8
H = [[i in (k, (k + 1)) for i in range(n)] for k in range(n - 1)]
for g in (GrowthVariant.SINGLE_SMALLEST, GrowthVariant(0)):
    for s in itertools.product((False, True), repeat=n - 1):
        d = UFDecoder()
        d.set_code(Code(H))
        d.set_growth(g)
        d.decode(list(s))
        e = d.result.estimate
        assert [bool(sum(a and b for a, b in zip(r, e)) % 2) for r in H] == list(s), (s, e)
"""),
}
