CC = "src/mqt/qecc/analog_information_decoding/code_construction/code_constructor.py"
TN = "src/mqt/qecc/cc_decoder/comparison/tn_decoder.py"
MAKE = '''import json, os, tempfile
from pathlib import Path

import numpy as np

from mqt.qecc.analog_information_decoding.code_construction import code_constructor as cc

tmp = tempfile.TemporaryDirectory()
os.chdir(tmp.name)
Path("generated_codes/c").mkdir(parents=True)
Path("generated_codes/c/info.txt").write_text("dX = 2\\ndZ = 2\\ndMX = 1\\ndMZ = 1\\n")
cc.run_compute_distances = lambda name: None


def make(*seeds):
    cc.create_code("hgp", [np.array(s) for s in seeds], "c", compute_distance=True)
    load = lambda x: np.atleast_2d(np.loadtxt(f"generated_codes/c/{x}.txt", dtype=int))
    return load("hx"), load("hz"), json.loads(Path("generated_codes/c/code_params.txt").read_text())


'''
SEEDS = {
    "i01-rank-of-one-side": dict(
        property="P22", edits=[(CC, "    _m, n = hx.shape\n    code_k = n - mod2.rank(hx) - mod2.rank(hz)", "    _m, n = hx.shape\n    code_k = n - 2 * mod2.rank(hx)")],
        needs="distances requested and seeds for which hx and hz have different ranks",
        breaks="the stored number of logical qubits is wrong",
        demo=MAKE + '''
from ldpc import mod2

R, T = [[1, 1]], [[1, 1, 0], [0, 1, 1]]
for seeds in ((R, R, R, R), (R, T, R, R), (T, R, R, R)):
    hx, hz, par = make(*seeds)
    n = hx.shape[1]
    assert par["n"] == n and par["k"] == n - mod2.rank(hx) - mod2.rank(hz), (seeds, par)
os.chdir("/")
'''),
    "i02-max-failures": dict(
        property="P21", edits=[(TN, "app.run(code, error_model, decoder, error_rate, max_runs=nr_sims)", "app.run(code, error_model, decoder, error_rate, max_failures=nr_sims)")],
        needs="a comparison run of the tensor network decoder",
        breaks="the simulation runs until that many failures occurred instead of that many samples",
        demo='''import json, os, tempfile
from pathlib import Path

from mqt.qecc.cc_decoder.comparison import tn_decoder

with tempfile.TemporaryDirectory() as d:
    tn_decoder.run(3, 0.2, 20, d + "/res")
    (f,) = Path(d, "res").glob("*.json")
    out = json.loads(f.read_text())
    assert out["n_run"] == 20 and out["error_probability"] == 0.2, out
'''),
    "i03-rate-in-name": dict(
        property="P21", edits=[(TN, "round(error_rate, 4)", "round(error_rate, 2)")],
        needs="two comparison runs whose rates agree in two digits",
        breaks="the second result overwrites the first",
        demo='''import json, os, tempfile
from pathlib import Path

from mqt.qecc.cc_decoder.comparison import tn_decoder

with tempfile.TemporaryDirectory() as d:
    for p in (0.101, 0.104):
        tn_decoder.run(3, p, 2, d + "/res")
    got = sorted(json.loads(f.read_text())["error_probability"] for f in Path(d, "res").glob("*.json"))
    assert got == [0.101, 0.104], got
'''),
    "i04-text-only-first": dict(
        property="P22", edits=[(CC, "def save_code(", "def save_code(")],
        needs="", breaks="", demo=""),
}
del SEEDS["i04-text-only-first"]
