EV = '''import sys
from mqt.qecc.ft_stateprep.eval import estimate_logical_error_rate as est

seen = []


class Sim:
    def __init__(self, state_prep_circ, code, p, zero_state=True, parallel_gates=True):
        seen.append((state_prep_circ, code, p, zero_state, parallel_gates))

    def logical_error_rate(self, *a, **k):
        return 0.25, 0.5, 7, 28


est.NoisyNDFTStatePrepSimulator = Sim


def run(*argv):
    seen.clear()
    sys.argv = ["estimate", *argv]
    est.main()
    return seen[0]


'''
SEEDS = {
    "h01-plus-heuristic": dict(
        property="P33", edits=[("src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py", "heuristic_prep_circuit(code, zero_state=args.zero_state)", "heuristic_prep_circuit(code)")],
        needs="the |+> state with a heuristic circuit of which no copy is stored",
        breaks="a |0> circuit is built and evaluated as a |+> circuit",
        demo=EV + '''
est.heuristic_verification_circuit = lambda sp, *a, **k: sp
for code, zero in (("cc_6_6_6", False), ("cc_6_6_6", True)):
    sp = run(code, "-p", "0.01", "--heuristic_ver", "--zero_state" if zero else "--plus_state")[0]
    assert sp.zero_state is zero, (code, zero)
'''),
    "h02-naive-over-stored": dict(
        property="P33", edits=[("src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py", '("opt" if args.exact_ver else "heuristic") if not args.naive_ver else "naive"', '"naive" if args.naive_ver and not args.exact_ver else ("opt" if args.exact_ver else "heuristic")')],
        needs="naive verification (exact verification is the default) of a code with a stored circuit",
        breaks="the stored circuit with exact verification is evaluated instead",
        demo=EV + '''
est.heuristic_prep_circuit = lambda code, *a, **k: "prepared"
est.naive_verification_circuit = lambda sp: ("naive", sp)
assert run("steane", "-p", "0.01", "--naive_ver")[0] == ("naive", "prepared")
assert run("hamming", "-p", "0.01", "--naive_ver", "--plus_state")[0] == ("naive", "prepared")
'''),
    "h03-shared-channel": dict(
        property="P16", edits=[("src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py", "new_channel = np.copy(channel_probs)", "new_channel = np.asarray(channel_probs)")],
        needs="several samples (or windows) decoded with the same channel and hard syndromes",
        breaks="the perfect last round is written into the caller's channel and stays there",
        demo='''import numpy as np
from mqt.qecc.analog_information_decoding.simulators.memory_experiment_v2 import decode_multiround


class Dec:
    iter = 3

    def update_channel_probs(self, c):
        self.c = np.array(c)

    def decode(self, s):
        return np.zeros(6 * 4 + 4 * 4, dtype=int)


H = np.array([[1, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1], [1, 0, 0, 1]])
ch = np.full(4 * 4 + 4 * 4, 0.1)
before = ch.copy()
d = Dec()
decode_multiround(np.zeros((4, 4), dtype=np.int32), H, d, ch, 4, None, last_round=True, check_block_size=16)
assert (ch == before).all(), ch
assert (d.c == before).all(), d.c
'''),
    "h04-y-residual": dict(
        property="P13", edits=[("src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py", """            error_z[i] = (residual_err_z[i] + 1) % 2
            error_x[i] = (residual_err_x[i] + 1) % 2
""", """            error_z[i] = (residual_err_z[i] + 1) % 2
            error_x[i] = error_z[i]
""")],
        needs="a Y error on a qubit whose residual X and Z errors differ",
        breaks="the X part of the residual is lost",
        demo='''import numpy as np
from mqt.qecc.analog_information_decoding.utils.simulation_utils import generate_err

n = 4
z, o = np.zeros(n), np.ones(n)
x, y = generate_err(n, (z, o, z), [np.array([1, 0, 1, 0]), np.array([0, 0, 1, 1])])
assert list(x) == [0, 1, 0, 1], x
assert list(y) == [1, 1, 0, 0], y
'''),
    "h05-lost-support": dict(
        property="P20", edits=[("src/mqt/qecc/cc_decoder/decoder.py", "switches = [1 if model[var] else 0 for var in self.switch_vars]", "switches = [1 if model[var] else 0 for var in self.switch_vars[: len(self.switch_vars) - 1]] + [int(self.validate_model(model, lights) and len(lights) % 2)]")],
        needs="an error on the last qubit", breaks="the last switch is not that of the model", demo='''raise SystemExit(0)
'''),
}
del SEEDS["h05-lost-support"]
