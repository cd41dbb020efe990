SEEDS = {
    "f01-carried-failures": dict(
        property="P28", edits=[("src/DecodingSimulator.cpp", "    auto currPer = minPhysicalErrRate;\n", "    auto currPer        = minPhysicalErrRate;\n    auto nrOfFailedRuns = 0;\n"), ("src/DecodingSimulator.cpp", "        auto nrOfFailedRuns = 0;\n        if", "        if")],
        needs="failures at an error rate that is not the last one",
        breaks="the failures of one rate count for all following rates",
        demo="""import glob, json, os, tempfile
from mqt.qecc.pyqecc import Code, DecoderType, DecodingSimulator

h = [[bool(int(c)) for c in r] for r in ("1001011", "0101101", "0010111")]
c = Code(h, h)
c.k = 1
with tempfile.TemporaryDirectory() as d:
    DecodingSimulator.simulate_wer(os.path.join(d, "raw"), "", 0.99999, 0.999999, 4, c, 0.000005, DecoderType.ORIGINAL_UF)
    (f,) = glob.glob(os.path.join(d, "raw*"))
    r = json.load(open(f))
assert all(v <= 1 for v in r.values()), r
"""),
    "f02-static-distribution": dict(
        property="P28", edits=[("src/Utils.cpp", "    std::bernoulli_distribution d(physicalErrRate);", "    static std::bernoulli_distribution d(physicalErrRate);")],
        needs="two samples with different probabilities in one process",
        breaks="every sample is drawn with the probability of the first one",
        demo="""from mqt.qecc.pyqecc import sample_iid_pauli_err

assert sum(sample_iid_pauli_err(50, 0.0)) == 0
assert sum(sample_iid_pauli_err(50, 1.0)) == 50
"""),
    "f03-success-of-estimate": dict(
        property="P28", edits=[("src/DecodingSimulator.cpp", "            Utils::computeResidualErr(error, residualErr);\n            const auto success = decoder->getCode()->isXStabilizer(residualErr);", "            Utils::computeResidualErr(error, residualErr);\n            const auto success = decoder->getCode()->isXStabilizer(residualErr) || decoder->getCode()->getXSyndrome(decodingResult.estimBoolVector) == syndrome;")],
        needs="an estimate that differs from the error by a logical operator",
        breaks="logical errors count as successes",
        demo="""import glob, json, os, tempfile
from mqt.qecc.pyqecc import Code, DecoderType, DecodingSimulator

h = [[bool(int(c)) for c in r] for r in ("1001011", "0101101", "0010111")]
c = Code(h, h)
c.k = 1
with tempfile.TemporaryDirectory() as d:
    DecodingSimulator.simulate_wer(os.path.join(d, "raw"), "", 1.0, 1.5, 4, c, 1.0, DecoderType.ORIGINAL_UF)
    (f,) = glob.glob(os.path.join(d, "raw*"))
    r = json.load(open(f))
assert list(r.values()) == [1.0], r
"""),
}
