UF = """import itertools
from mqt.qecc import Code, GrowthVariant, UFDecoder, UFHeuristic

STEANE = [[1, 0, 0, 1, 0, 1, 1], [0, 1, 0, 1, 1, 0, 1], [0, 0, 1, 0, 1, 1, 1]]
SX = [[1, 1, 0, 1, 1, 0, 0, 0, 0], [0, 0, 0, 0, 1, 1, 0, 1, 1], [0, 0, 1, 0, 0, 1, 0, 0, 0], [0, 0, 0, 1, 0, 0, 1, 0, 0]]
SZ = [[0, 1, 1, 0, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 0, 1, 1, 0], [1, 1, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 1, 1]]


def b(m):
    return [[bool(x) for x in r] for r in m]


def syn(h, e):
    return [bool(sum(x * y for x, y in zip(r, e)) % 2) for r in h]


def decode(dec, m, s, growth=None):
    d = dec()
    d.set_code(Code(*[b(x) for x in m]))
    if growth is not None:
        d.set_growth(growth)
    d.decode(s)
    return [int(x) for x in d.result.estimate], d


"""
SEEDS = {
    "e01-z-residual": dict(
        property="P25", edits=[("include/Code.hpp", "return Utils::isVectorInRowspace(*hX->pcm, xEst) && Utils::isVectorInRowspace(*hZ->pcm, zEst);", "return Utils::isVectorInRowspace(*hX->pcm, xEst) && Utils::isVectorInRowspace(*hX->pcm, zEst);")],
        needs="a code with different X and Z checks, and a residual given as one vector",
        breaks="the Z part of a residual is compared with the X checks",
        demo=UF + """
c = Code(b(SX), b(SZ))
for z in SZ:
    assert c.is_stabilizer([False] * 9 + [bool(x) for x in z]), z
for x in SX:
    assert c.is_stabilizer([bool(v) for v in x] + [False] * 9), x
assert not c.is_stabilizer([False] * 9 + [bool(x) for x in SX[2]])
"""),
    "e02-lower-swap": dict(
        property="P25", edits=[("src/GF2.cpp", "    std::swap(lower[matrixRank], lower[swapRows[matrixRank]]);\n", "")],
        needs="a linear system whose elimination exchanges rows that earlier columns have eliminated",
        breaks="the solutions of such systems are wrong",
        demo=UF + """
import random

rng = random.Random(5)
for t in range(300):
    r, n = rng.randint(2, 6), rng.randint(3, 8)
    h = [[rng.randint(0, 1) for _ in range(n)] for _ in range(r)]
    h = [x for x in h if any(x)]
    # connected Tanner graphs only
    seen, grow = {0}, True
    while h and grow:
        grow = False
        for i, x in enumerate(h):
            if i not in seen and any(x[k] and h[j][k] for j in seen for k in range(n)):
                seen.add(i)
                grow = True
    if not h or len(seen) != len(h) or not all(any(x[k] for x in h) for k in range(n)):
        continue
    e = [rng.randint(0, 1) for _ in range(n)]
    est, _ = decode(UFDecoder, [h], syn(h, e))
    assert syn(h, est) == syn(h, e), (h, e, est)
"""),
}
