A = "src/mqt/qecc/analog_information_decoding/"
C = "src/mqt/qecc/codes/"
F = "src/mqt/qecc/ft_stateprep/"
AH = """import os, sys, tempfile
os.chdir(tempfile.mkdtemp(dir=os.environ.get("TMPDIR", "/tmp")))
import numpy as np
from mqt.qecc.analog_information_decoding.simulators import simulation, quasi_single_shot_v2, memory_experiment_v2, analog_tannergraph_decoding as atd
from mqt.qecc.analog_information_decoding.utils import simulation_utils as su, data_utils as du
from mqt.qecc.analog_information_decoding.utils.simulation_utils import *
"""
SEEDS = {
    "c01-lut-order": dict(
        property="P11", edits=[(F + "simulation.py", "lut[key] = np.array(min(v, key=np.sum))", "lut[key] = np.array(min(v[: 2 ** (n_qubits - 1)], key=np.sum))" if 0 else "lut[key] = np.array(min(v[:64], key=np.sum))")],
        needs="a code with more than 64 errors per syndrome whose lightest error comes late in the enumeration",
        breaks="the decoder returns a correction that is not of least weight",
        demo="""import numpy as np
from mqt.qecc.codes import *
from mqt.qecc.codes.css_code import CSSCode
from mqt.qecc.ft_stateprep import LutDecoder
h = np.array([[1] * 9], dtype=np.int8)
hx = np.zeros((1, 9), dtype=np.int8); hx[0, :2] = 1
d = LutDecoder(CSSCode(1, hx, h), init_luts=False)
assert d.decode_x(np.array([1], dtype=np.int8)).sum() == 1
h = np.array([[1, 1, 1, 1, 1, 0, 0, 0, 0, 0], [1, 0, 0, 0, 0, 1, 1, 1, 1, 1]], dtype=np.int8)
hx = np.zeros((1, 10), dtype=np.int8); hx[0, [1, 2, 5, 6]] = 1
d = LutDecoder(CSSCode(1, hx, h), init_luts=False)
for s in range(4):
    s = np.array([s & 1, s >> 1], dtype=np.int8)
    e = d.decode_x(s)
    assert (h @ e % 2 == s).all() and e.sum() == min(1, s.sum()), (s, e)
"""),
    "c02-idle-single": dict(
        property="P12", edits=[(F + "simulation.py", "            if len(used_qubits) > 0:\n", "            if len(used_qubits) > 1:\n")],
        needs="parallel gates and a layer with a single one-qubit operation while another qubit idles",
        breaks="idle qubits get no noise during such a layer",
        demo="""from collections import Counter
from qiskit import QuantumCircuit
from mqt.qecc.codes.css_code import CSSCode
from mqt.qecc.ft_stateprep import NoisyNDFTStatePrepSimulator
code = CSSCode.from_code_name("steane")
qc = QuantumCircuit(7)
qc.h(0); qc.cx(0, 1); qc.h(1); qc.cx(1, 2)
for a, b in ((2, 3), (3, 4), (4, 5), (5, 6)):
    qc.cx(a, b)
sim = NoisyNDFTStatePrepSimulator(qc, code, p=0.03, zero_state=True, parallel_gates=True)
n = Counter()
for i in sim.stim_circ:
    if i.name == "DEPOLARIZE1":
        n.update(t.value for t in i.targets_copy())
assert n[0] - n[1] == 1, ("qubit 0 idles from the Hadamard gate of qubit 1 on", n)
"""),
    "c03-signed-meta": dict(
        property="P15", edits=[(A + "simulators/simulation.py", "                meta_syndr = get_signed_from_binary(meta_bin)  # for AI decoder we need {-1,+1} syndrome as input\n", "                meta_syndr = meta_bin\n")],
        needs="single-stage decoding with meta checks and analog information",
        breaks="the analog decoder receives the meta syndrome as 0/1 instead of +1/-1",
        demo=AH + """
class Dec:
    iter = 1
    def decode(self, s):
        self.s = np.array(s)
        return np.zeros(10, dtype=np.int32)
s = object.__new__(simulation.SingleShotSimulator)
s.analog_info, s.analog_tg, s.n = True, False, 4
d = Dec()
m = np.array([[1, 1, 0], [0, 1, 1]], dtype=np.int32)
s._decode_ss_with_meta(syndrome_w_err=np.array([0.8, -1.2, 0.5]), ss_bpd=d, meta_pcm=m, bit_err_channel=np.full(4, 0.1), sigma=0.3)
assert set(np.abs(d.s[3:])) == {1} and (d.s[3:] == -1).all(), d.s
"""),
    "c04-last-rounds": dict(
        property="P16", edits=[(A + "simulators/memory_experiment_v2.py", "        if last_round:\n            new_channel[-pcm.shape[0] :] = 1e-15\n", "        if last_round:\n            new_channel[-pcm.shape[0] * region_size :] = 1e-15\n")],
        needs="analog decoding of the last window with more than two repetitions",
        breaks="noisy rounds of the last window are treated as perfect",
        demo=AH + """
class Dec:
    iter = 1
    def update_channel_probs(self, c):
        self.c = np.array(c)
    def decode(self, s):
        return np.zeros(4 * 3 + 4 * 2, dtype=np.int32)
d = Dec()
pcm = np.array([[1, 1, 0], [0, 1, 1]], dtype=np.int32)
memory_experiment_v2.decode_multiround(np.zeros((2, 4), dtype=np.int32), pcm, d, np.full(20, 0.1), 4, np.ones((2, 4)), last_round=True, check_block_size=12, sigma=0.5)
assert (d.c[-2:] < 1e-10).all() and (d.c[12:-2] > 1e-10).all(), d.c
"""),
    "c05-atd-slice": dict(
        property="P14", edits=[(A + "simulators/analog_tannergraph_decoding.py", "            self.bposd_decoder.channel_probs[: self.n],\n", "            self.bposd_decoder.channel_probs[-self.m - self.n : -self.m] if self.m <= self.n else self.bposd_decoder.channel_probs[-self.n :],\n")],
        needs="a check matrix with more checks than qubits (redundant checks), and a second decoding",
        breaks="the data channel is taken from the virtual nodes",
        demo=AH + """
from mqt.qecc.analog_information_decoding.utils.simulation_utils import *
class Dec:
    def __init__(self, n): self.channel_probs = np.array(n)
    def update_channel_probs(self, c): self.channel_probs = np.array(c)
    def decode(self, s): return s
for pcm in (np.array([[1, 1, 0], [0, 1, 1]]), np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0]])):
    d = object.__new__(atd.AnalogTannergraphDecoder)
    d.m, d.n = pcm.shape
    d.sigma = 0.5
    d.bposd_decoder = Dec(np.hstack((np.full(d.n, 0.125), np.zeros(d.m))))
    for _ in range(2):
        d.decode(np.full(d.m, 0.7))
        assert (d.bposd_decoder.channel_probs[: d.n] == 0.125).all()
"""),
    "c06-early-stop": dict(
        property="P17", edits=[(A + "simulators/quasi_single_shot_v2.py", "        return self._save_results(success_cnt, run)\n", "        return self._save_results(success_cnt, samples)\n")],
        needs="a run that converges before all requested samples are taken",
        breaks="the result counts shots that were never taken",
        demo=AH + """
s = object.__new__(quasi_single_shot_v2.QssSimulator)
s.save_interval, s.code_params, s.eb_precision = 2, {"k": 1}, 0.9
out = []
it = iter([0, 1, 1, 0] * 50)
s._single_sample = lambda: next(it)
s._save_results = lambda c, r: out.append((c, r)) or {"nr_runs": r}
taken = s.run(100)["nr_runs"]
n = 200 - len(list(it))
assert taken == n, (taken, n)
"""),
    "c07-seed-bias": dict(
        property="P18", edits=[(A + "simulators/analog_tannergraph_decoding.py", "        if bias is None:\n            bias = np.array([1.0, 1.0, 1.0])\n        simulation_utils.set_seed(seed)\n", "        if bias is None:\n            bias = np.array([1.0, 1.0, 1.0])\n            simulation_utils.set_seed(seed)\n")],
        needs="a simulator constructed with an explicit bias",
        breaks="the seed is ignored and results cannot be reproduced",
        demo=AH + """
from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams
h = np.array([[1, 1, 0], [0, 1, 1]])
l = np.array([[1, 1, 1]])
def draws(bias):
    s = atd.AtdSimulator(hx=h, lx=l, hz=h, lz=l, codename="t", seed=666, bp_params=BpParams(osd_method="OSD_0"), data_err_rate=0.1, code_params={"n": 3, "k": 1}, syndr_err_rate=0.1, bias=bias)
    return [generate_err(3, s.full_error_channel, [np.zeros(3).astype(np.int32)] * 2)[0].tolist() for _ in range(40)]
for b in (None, np.array([1.0, 1.0, 1.0])):
    assert draws(b) == draws(b)
"""),
    "c08-merge-window": dict(
        property="P19", edits=[(A + "utils/data_utils.py", """        if "z_success_cnt" in data:
            merged_data = dict(datasets.pop(i))
            break

    # Extract and add up the values for "nr_runs", "x_success_cnt", and "z_success_cnt"
    for data in datasets:
""", """        if "z_success_cnt" in data:
            merged_data = dict(datasets[i])
            break

    # Extract and add up the values for "nr_runs", "x_success_cnt", and "z_success_cnt"
    for data in datasets[1 if len(_datasets) == len(datasets) else 0:]:
""")],
        needs="merging X-only and Z-only data sets together",
        breaks="the first Z data set is counted twice",
        demo=AH + """
mk = lambda **k: dict(nr_runs=10, code_K=1, **k)
ds = [mk(x_success_cnt=9), mk(z_success_cnt=4), mk(z_success_cnt=6)]
r = du._merge_datasets_z(ds)
assert (r["nr_runs"], r["z_success_cnt"]) == (20, 10), r
"""),
    "c09-lattice-eleven": dict(
        property="P06", edits=[(C + "hexagonal_color_code.py", "x_max = self.distance + self.distance // 2\n", "x_max = self.distance + min(self.distance // 2, 4)\n")],
        needs="a hexagonal colour code of distance at least eleven",
        breaks="the lattice is one row too small, so the code has neither the declared distance nor one logical qubit",
        demo="""from mqt.qecc.codes import HexagonalColorCode
from ldpc import mod2
for d in (3, 5, 7, 9, 11):
    c = HexagonalColorCode(d)
    assert c.n == (3 * d * d + 1) // 4 and c.n - 2 * mod2.rank(c.H) == 1, d
"""),
    "c10-self-dual": dict(
        property="P02", edits=[(C + "css_code.py", "            mod2.rank(self.Hx) == mod2.rank(self.Hz)\n            and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))", "            self.Hx.shape == self.Hz.shape\n            and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))")],
        needs="checks of equal number but different rank, or equal span with a redundant check",
        breaks="self-duality depends on the number of listed checks instead of their span",
        demo="""import numpy as np
from mqt.qecc.codes.css_code import CSSCode
h = CSSCode.from_code_name("steane").Hx
assert CSSCode(3, h, np.vstack([h, (h[0] + h[1]) % 2])).is_self_dual()
assert not CSSCode(1, h, np.vstack([h[:2], (h[0] + h[1]) % 2])).is_self_dual()
"""),
    "c11-pauli-sign": dict(
        property="P03", edits=[(C + "stabilizer_code.py", """    return f"{'' if phase == 0 else '-'}" + "".join(pauli)\n""", """    return ("-" if phase % 2 and "Y" not in pauli else "") + "".join(pauli)\n""")],
        needs="a negative stabilizer with a Y, converted back to a string",
        breaks="the sign of such a stabilizer is lost in the conversion",
        demo="""from mqt.qecc.codes.stabilizer_code import *
for p in ("XZZXI", "-YIZ", "ZX", "Z", "-X", "-ZZI", "YY"):
    assert binary_to_pauli_string(pauli_to_binary(p)) == p
"""),
    "c12-threshold": dict(
        property="P13", edits=[(A + "utils/simulation_utils.py", "    if sigma <= 0.0:\n        return np.zeros_like(noisy_syndr).astype(np.float64)\n", "    if sigma <= 0.05:\n        return np.zeros_like(noisy_syndr).astype(np.float64)\n")],
        needs="a small but positive deviation",
        breaks="the virtual nodes claim a perfect syndrome for every noise below a threshold",
        demo=AH + """
v = get_virtual_check_init_vals(np.array([0.01, 1.0]), 0.05)
assert 0 < v[0] < 0.5, v
"""),
    "c13-golay-order": dict(
        property="P04", edits=[(C + "stabilizer_code.py", "        if not all_commute(self.Lx_symplectic, self.symplectic_matrix):", "        if not all_commute(self.Lx_symplectic, self.Lx_symplectic):")],
        needs="a logical X operator that anticommutes with a stabilizer",
        breaks="such a code is accepted",
        demo="""from mqt.qecc.codes.stabilizer_code import *
try:
    StabilizerCode(["ZZI", "IZZ"], 1, Lz=["ZII"], Lx=["XII"])
except InvalidStabilizerCodeError:
    raise SystemExit(0)
raise SystemExit("accepted")
"""),
}
