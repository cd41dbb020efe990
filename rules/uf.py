"""P25 and P26: codes over GF(2) and the union-find decoders (C++)."""
from __future__ import annotations

import itertools
import os

import cpp
import cpprandom
from cpp import Bit, Cell, CppThrow, Enum, Obj, Ptr, Split, Undecided, Vec, rv
from pymodel import AnalysisBroken
from report import REPO

STEANE = [[1, 0, 0, 1, 0, 1, 1], [0, 1, 0, 1, 1, 0, 1], [0, 0, 1, 0, 1, 1, 1]]
REP5 = [[1, 1, 0, 0, 0], [0, 1, 1, 0, 0], [0, 0, 1, 1, 0], [0, 0, 0, 1, 1]]
SURFZ = [[1, 1, 0, 1, 1, 0, 0, 0, 0], [0, 0, 0, 0, 1, 1, 0, 1, 1], [0, 0, 1, 0, 0, 1, 0, 0, 0], [0, 0, 0, 1, 0, 0, 1, 0, 0]]
SURFX = [[0, 1, 1, 0, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 0, 1, 1, 0], [1, 1, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 1, 1]]
SHORX = [[1, 1, 1, 1, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 1, 1, 1, 1]]
SHORZ = [[1, 1, 0, 0, 0, 0, 0, 0, 0], [0, 1, 1, 0, 0, 0, 0, 0, 0], [0, 0, 0, 1, 1, 0, 0, 0, 0], [0, 0, 0, 0, 1, 1, 0, 0, 0],
         [0, 0, 0, 0, 0, 0, 1, 1, 0], [0, 0, 0, 0, 0, 0, 0, 1, 1]]
FOURX, FOURZ = [[1, 1, 1, 1]], [[1, 1, 1, 1]]
# Z checks of the [[5]] ring: more checks than independent ones
RING = [[1, 1, 0, 0, 0], [0, 1, 1, 0, 0], [0, 0, 1, 1, 0], [0, 0, 0, 1, 1], [1, 0, 0, 0, 1]]


def toric(d):
    n = 2 * d * d
    h = lambda i, j: (i % d) * d + j % d  # noqa: E731
    v = lambda i, j: d * d + (i % d) * d + j % d  # noqa: E731
    z, x = [], []
    for i in range(d):
        for j in range(d):
            r = [0] * n
            for e in (h(i, j), h(i + 1, j), v(i, j), v(i, j + 1)):
                r[e] ^= 1
            z.append(r)
            r = [0] * n
            for e in (h(i, j), h(i, j - 1), v(i, j), v(i - 1, j)):
                r[e] ^= 1
            x.append(r)
    return x, z


CSS = {"Steane": (STEANE, STEANE), "surface": (SURFX, SURFZ), "Shor": (SHORX, SHORZ), "four": (FOURX, FOURZ)}


def reduce(rows):
    """A reduced basis of the row space (as integers)."""
    basis = []
    for r in rows:
        v = sum(b << i for i, b in enumerate(r))
        for b in basis:
            v = min(v, v ^ b)
        if v:
            basis.append(v)
    return basis


def inside(basis, vec):
    v = sum(b << i for i, b in enumerate(vec))
    for b in basis:
        v = min(v, v ^ b)
    return v == 0


def rank(rows):
    return len(reduce(rows))


def syndrome(h, e):
    return [sum(a & b for a, b in zip(r, e)) % 2 for r in h]


def mat(rows):
    return Vec([Cell(Vec([Cell(bit(x)) for x in r], "bool")) for r in rows], "std::vector<bool>")


def bit(x):
    return x if isinstance(x, Bit) else bool(x)


def vec(r):
    return Vec([Cell(bit(x)) for x in r], "bool")


def ints(r):
    return Vec([Cell(int(x)) for x in r], "uint64_t")


def out(v):
    v = rv(v)
    if isinstance(v, Vec):
        return [out(c) for c in v.c]
    if isinstance(v, bool):
        return int(v)
    return v


class Gf2:
    def __init__(self, rep, jobs, classes, extra=()):
        self.rep = rep
        self.jobs = jobs
        try:
            self.p = cpp.Program(REPO, jobs, extra)
        except cpp.Parse as e:
            raise AnalysisBroken(f"the sources do not parse: {e}") from e
        for c in classes:
            if c not in self.p.classes:
                raise AnalysisBroken(f"class {c} not found")
        self.undecided = 0
        self.runs = 0
        self.seen = set()
        self.why = {}

    def method(self, cls, name, nargs=None):
        if self.p.find(cls, name, nargs) is None:
            raise AnalysisBroken(f"{cls}::{name} not found")

    def interp(self, chooser=None, steps=3_000_000):
        it = cpp.Interp(self.p, steps=steps)
        it.seen = self.seen
        return cpprandom.install(it, chooser)

    def construct(self, it, cls, args, words):
        """An object built with the constructor whose parameters contain the given words."""
        fs = self.p.funcs.get((cls, cls), [])
        sig = [f.decl["type"]["qualType"] for f in fs
               if len(cpp.params(f.decl)) == len(args) and all(any(w in pt(p) for w in ws) for p, ws in zip(cpp.params(f.decl), words))]
        if len(sig) != 1:
            raise AnalysisBroken(f"constructor of {cls} with {len(args)} matrices not found")
        return it.construct(cls, args, sig=sig[0])

    def code(self, it, *m):
        return self.construct(it, "Code", [mat(x) for x in m], [("vector", "gf2Mat")] * len(m))

    def static(self, it, cls, name, args):
        f = self.p.find(cls, name, len(args))
        fs = [x for x in self.p.funcs.get((cls, name), []) if len(cpp.params(x.decl)) == len(args)]
        if not fs:
            raise AnalysisBroken(f"{cls}::{name} not found")
        if len(fs) > 1:
            fs = [x for x in fs if all(want(rv(a), pt(p)) for a, p in zip(args, cpp.params(x.decl)))]
        if len(fs) != 1:
            raise Undecided(f"overloads of {cls}::{name}")
        del f
        return it.call(fs[0], args, None)

    def attempt(self, f):
        """("value", v), ("throw", kind) or None where the analysis cannot tell."""
        self.runs += 1
        try:
            return "value", f()
        except CppThrow as e:
            return "throw", f"{e.kind}: {e.what}"
        except Split:
            raise
        except Undecided as e:
            self.undecided += 1
            self.why[str(e)] = self.why.get(str(e), 0) + 1
            return None
        except (AttributeError, KeyError, TypeError, IndexError, ValueError, RecursionError, StopIteration, RuntimeError, OverflowError) as e:
            self.undecided += 1
            k = f"{type(e).__name__}: {e}"
            self.why[k] = self.why.get(k, 0) + 1
            return None

    def bits(self, names, f, env=None):
        """Evaluate f on unknown bits, splitting on the bits a branch depends on: [(assignment, result)]."""
        res = []
        todo = [dict(env or {})]
        while todo:
            e = todo.pop()
            x = {n: e[n] if n in e else Bit.var(n) for n in names}
            try:
                res.append((e, x, self.attempt(lambda x=x: f(x))))
            except Split as s:
                if s.var in e or len(res) + len(todo) > 5000:
                    self.undecided += 1
                    res.append((e, x, None))
                    continue
                for v in (True, False):
                    todo.append({**e, s.var: v})
        return res

    def where(self, cls, name):
        fs = self.p.funcs.get((cls, name))
        return self.p.where_text(fs[0]) if fs else cls

    def close(self):
        self.rep.analysed(*self.seen)
        self.rep.count("evaluations on the syntax tree", self.runs, 1)
        if os.environ.get("VERIF_DEBUG"):
            for k, v in sorted(self.why.items(), key=lambda kv: -kv[1])[:12]:
                print("undecided", v, k)


def pt(p):
    return p.get("type", {}).get("desugaredQualType") or p.get("type", {}).get("qualType", "")


def want(v, t):
    """Does an argument suit a parameter (one or two levels of vectors)?"""
    two = "Mat" in t or t.count("vector<") > 1
    one = not two and ("Vec" in t or "vector<" in t)
    if isinstance(v, Vec):
        nested = bool(v.c) and isinstance(rv(v.c[0]), Vec)
        return two if nested else one
    return not two and not one


def text(m, sep):
    return "\n".join(sep.join(map(str, r)) for r in m)


def lin(row, x):
    """The GF(2) sum of the products of two lists of bits."""
    r = Bit([])
    for a, b in zip(row, x):
        r = Bit.of(r.xor(Bit.of(a).land(Bit.of(b))))
    return r.norm()


def names(n, k):
    return [f"{n}{i}" for i in range(k)]


def equal(a, b):
    """Equality of two results, as polynomials."""
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, Bit) or isinstance(b, Bit):
        try:
            return Bit.of(a) == Bit.of(b)
        except Undecided:
            return False
    return a == b


GF2JOBS = [("src/Utils.cpp", ["Utils"]), ("src/Utils.cpp", ["PluDecomposition"]), ("src/GF2.cpp", ["PluDecomposition"]),
           ("src/UFDecoder.cpp", ["Code", "ParityCheckMatrix", "QeccException"])]


def p25(rep):
    g = Gf2(rep, GF2JOBS, ["Code", "Utils", "PluDecomposition", "ParityCheckMatrix"])
    for c, m in (("Code", "getXSyndrome"), ("Code", "getSyndrome"), ("Code", "isXStabilizer"), ("Code", "isStabilizer"), ("Code", "getHxMat"), ("Code", "getHzMat"),
                 ("PluDecomposition", "luSolve"), ("PluDecomposition", "getMatrixRank")):
        g.method(c, m)
    thorough = rep.tier == "thorough"
    bad = {}

    def judge(rule, construct, cls, name, cases):
        """cases: (what, got, expected) where expected is a value, "throw", or None for no claim."""
        n = wrong = unknown = 0
        first = ""
        for what, got, exp in cases:
            n += 1
            if got is None:
                unknown += 1
                continue
            ok = got[0] == "throw" if exp == "throw" else got[0] == "value" and equal(got[1], exp)
            if not ok:
                wrong += 1
                first = first or f"{what}: {short(got)} instead of {'an exception' if exp == 'throw' else short(('value', exp))}"
        bad["n"] = bad.get("n", 0) + n

        w = g.where(cls, name)
        if wrong:
            rep.judge(False, rule, construct, w, f"{cls}::{name}: {first}" + (f" ({wrong} of {n})" if n > 1 else ""), None)
        else:
            rep.judge(None if unknown else True, rule, construct, w, f"{unknown} of {n} undecided" if unknown else "", f"{n} cases")

    # syndromes: polynomials in the bits of the error
    codes = {**CSS, "toric2": toric(2)}
    cx, c1, c2, cw, cs2 = [], [], [], [], []
    for nm, (hx, hz) in codes.items():
        n = len(hz[0])
        xs, zs = names("x", n), names("z", n)

        def one(x, hx=hx, hz=hz, xs=xs):
            it = g.interp()
            return out(it.run(g.code(it, hx, hz), "getXSyndrome", [vec([x[i] for i in xs])]))

        for _e, x, r in g.bits(xs, one):
            cx.append((f"code {nm}", r, [lin(row, [x[i] for i in xs]) for row in hz]))

        def alone(x, hz=hz, xs=xs):
            it = g.interp()
            return out(it.run(g.code(it, hz), "getXSyndrome", [vec([x[i] for i in xs])]))

        for _e, x, r in g.bits(xs, alone):
            c1.append((f"single-sided code {nm}", r, [lin(row, [x[i] for i in xs]) for row in hz]))

        def both(x, hx=hx, hz=hz, xs=xs, zs=zs):
            it = g.interp()
            return out(it.run(g.code(it, hx, hz), "getXSyndrome", [vec([x[i] for i in xs + zs])]))

        def pair(x, hx=hx, hz=hz, xs=xs, zs=zs):
            it = g.interp()
            return out(it.run(g.code(it, hx, hz), "getSyndrome", [vec([x[i] for i in xs]), vec([x[i] for i in zs])], 2))

        for f, to in ((both, cs2), (pair, c2)):
            for _e, x, r in g.bits(xs + zs, f):
                to.append((f"code {nm}", r, [lin(row, [x[i] for i in xs]) for row in hz] + [lin(row, [x[i] for i in zs]) for row in hx]))
        for k in {0, 1, n - 1, n + 1, 2 * n} - {n}:
            def size(a, b, hx=hx, hz=hz):
                it = g.interp()
                return out(it.run(g.code(it, hx, hz), "getSyndrome", [vec([0] * a), vec([0] * b)], 2))
            cw.append((f"code {nm}, {k} and {n} bits", g.attempt(lambda k=k, n=n: size(k, n)), "throw"))
            cw.append((f"code {nm}, {n} and {k} bits", g.attempt(lambda k=k, n=n: size(n, k)), "throw"))
        for k in (0, 1, n - 1, n + 1, 2 * n - 1, 2 * n + 1):
            if k in (n, 2 * n):
                continue

            def size1(a, hx=hx, hz=hz):
                it = g.interp()
                return out(it.run(g.code(it, hx, hz), "getXSyndrome", [vec([0] * a)]))
            cw.append((f"code {nm}, error of {k} bits", g.attempt(lambda k=k: size1(k)), "throw"))
    judge("syndrome", "X errors", "Code", "getXSyndrome", cx)
    judge("syndrome", "single-sided codes", "Code", "getXSyndrome", c1)
    judge("syndrome", "X and Z errors in one vector", "Code", "getXSyndrome", cs2)
    judge("syndrome", "X and Z errors", "Code", "getSyndrome", c2)
    judge("syndrome", "wrong lengths", "Code", "getSyndrome", cw)
    rep.count("syndrome obligations", len(cx) + len(c1) + len(cs2) + len(c2) + len(cw), 20)

    # stabilizers: every vector
    sx, sb, sp, st = [], [], [], []
    for nm in ("Steane", "four", "surface", "Shor") if thorough else ("Steane", "four", "surface"):
        hx, hz = CSS[nm]
        n = len(hz[0])
        bx, bz = reduce(hx), reduce(hz)
        vs = list(itertools.product((0, 1), repeat=n))
        few = [v for v in vs if inside(bx, v) or sum(v) < 2 or sum(v) == n][:: 1 if thorough else 2] + [tuple(r) for r in hx + hz]
        it = g.interp(steps=200_000_000)
        c = g.code(it, hx, hz)
        for v in vs if n < 9 or thorough else vs[:: 3] + few:
            sx.append((f"code {nm}, vector {v}", g.attempt(lambda v=v: out(it.run(c, "isXStabilizer", [vec(v)]))), int(inside(bx, v))))
            sb.append((f"code {nm}, vector {v}", g.attempt(lambda v=v: out(it.run(c, "isStabilizer", [vec(v)], 1))), int(inside(bx, v))))
        zero = (0,) * n
        members = [v for v in vs if inside(bx, v)][:6], [v for v in vs if inside(bz, v)][:6]
        some = [zero, *members[0], *members[1], *[tuple(int(i == k) for i in range(n)) for k in (0, n - 1)], *[tuple(r) for r in hx + hz]]
        some = sorted(set(some))
        for a in some:
            for b in some:
                sp.append((f"code {nm}, X part {a}, Z part {b}", g.attempt(lambda a=a, b=b: out(it.run(c, "isStabilizer", [vec(a), vec(b)], 2))), int(inside(bx, a) and inside(bz, b))))
                st.append((f"code {nm}, X part {a}, Z part {b}", g.attempt(lambda a=a, b=b: out(it.run(c, "isStabilizer", [vec(a + b)], 1))), int(inside(bx, a) and inside(bz, b))))
        sx.append((f"code {nm}, vector of {n + 1} bits", g.attempt(lambda: out(it.run(c, "isXStabilizer", [vec([1] * (n + 1))]))), "throw"))
        sx.append((f"code {nm}, vector of {n - 1} bits", g.attempt(lambda: out(it.run(c, "isXStabilizer", [vec([1] * (n - 1))]))), "throw"))
        sx.append((f"single-sided code {nm}", g.attempt(lambda: out(it.run(g.code(it, hz), "isXStabilizer", [vec([1] * n)]))), "throw"))
    judge("stabilizer", "X stabilizers", "Code", "isXStabilizer", sx)
    judge("stabilizer", "X part only", "Code", "isStabilizer", sb)
    judge("stabilizer", "X and Z part", "Code", "isStabilizer", sp)
    judge("stabilizer", "both parts in one vector", "Code", "isStabilizer", st)
    rep.count("stabilizer obligations", len(sx) + len(sb) + len(sp) + len(st), 500)

    # the matrices a code was built from: unknown entries
    cm = []
    for r1, r2, n in ((1, 1, 2), (2, 1, 3), (1, 3, 3), (2, 2, 4)):
        a, b = names("a", r1 * n), names("b", r2 * n)

        def get(x, r1=r1, r2=r2, n=n, a=a, b=b):
            it = g.interp()
            hx = [[x[a[i * n + j]] for j in range(n)] for i in range(r1)]
            hz = [[x[b[i * n + j]] for j in range(n)] for i in range(r2)]
            c = g.code(it, hx, hz)
            m1, m2 = out(it.run(c, "getHxMat")), out(it.run(c, "getHzMat"))
            it.run(c, "setHx", [mat(hz)])
            it.run(c, "setHz", [mat(hx)])
            return [m1, m2, out(it.run(c, "getHxMat")), out(it.run(c, "getHzMat")), out(it.run(c, "getN"))]

        for _e, x, r in g.bits(a + b, get):
            hx = [[x[a[i * n + j]] for j in range(n)] for i in range(r1)]
            hz = [[x[b[i * n + j]] for j in range(n)] for i in range(r2)]
            cm.append((f"{r1}x{n} and {r2}x{n}", r, [hx, hz, hz, hx, n]))
    judge("code", "matrices", "Code", "getHxMat", cm)

    # codes read from text files
    cf = []
    for nm, (hx, hz) in [*CSS.items(), ("uneven", ([[1, 1, 0]], [[1, 0, 1], [1, 1, 1]]))]:
        for end, sep in (("\n", " "), ("", " "), ("\n", "  ")):
            files = {"x.txt": text(hx, sep) + end, "z.txt": text(hz, sep) + end, "w.txt": "1 " * (len(hz[0]) + 1) + "\n", "e.txt": ""}

            def read(*paths, files=files):
                it = g.interp()
                it.files = files
                c = g.construct(it, "Code", list(paths), [("string",)] * len(paths))
                return [*([out(it.run(c, "getHxMat"))] if len(paths) > 1 else []), out(it.run(c, "getHzMat")), out(it.run(c, "getN"))]

            def load(path, files=files):
                it = g.interp()
                it.files = files
                return out(g.static(it, "Utils", "importGf2MatrixFromFile", [path]))

            n = len(hz[0])
            cf.append((f"code {nm} from two files", g.attempt(lambda: read("x.txt", "z.txt")), [hx, hz, n]))
            cf.append((f"code {nm} from one file", g.attempt(lambda: read("z.txt")), [hz, n]))
            cf.append((f"matrix {nm}", g.attempt(lambda: load("x.txt")), hx))
            for bad_paths in (("e.txt",), ("e.txt", "z.txt"), ("z.txt", "e.txt"), ("w.txt", "z.txt"), ("z.txt", "w.txt"), ("no.txt",), ("no.txt", "z.txt"), ("x.txt", "no.txt"), ("",)):
                cf.append((f"code {nm} from {bad_paths}", g.attempt(lambda: read(*bad_paths)), "throw"))
            cf.append((f"matrix {nm}", g.attempt(lambda: load("no.txt")), "throw"))
    judge("code", "text files", "ParityCheckMatrix", "ParityCheckMatrix", cf)

    # linear algebra
    ct, cp, cr, cz = [], [], [], []
    for r, n in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4)):
        a, v = names("a", r * n), names("v", n)
        m = lambda x, a=a, r=r, n=n: [[x[a[i * n + j]] for j in range(n)] for i in range(r)]  # noqa: E731
        for _e, x, res in g.bits(a, lambda x, m=m: out(g.static(g.interp(), "Utils", "getTranspose", [mat(m(x))]))):
            ct.append((f"{r}x{n}", res, [list(c) for c in zip(*m(x))]))

        def mul(x, m=m, v=v, r=r):
            t = Cell(vec([0] * r))
            g.static(g.interp(), "Utils", "rectMatrixMultiply", [Cell(mat(m(x))), Cell(vec([x[i] for i in v])), t])
            return out(t)

        for _e, x, res in g.bits(a + v, mul):
            cp.append((f"{r}x{n}", res, [lin(row, [x[i] for i in v]) for row in m(x)]))
        cp.append((f"{r}x{n} with {n + 1} bits", g.attempt(lambda m=m, n=n, r=r, a=a: g.static(
            g.interp(), "Utils", "rectMatrixMultiply", [Cell(mat(m(dict.fromkeys(a, True)))), Cell(vec([0] * (n + 1))), Cell(vec([0] * r))])), "throw"))

        def resid(x, v=v, n=n):
            t = Cell(vec([x[f"r{i}"] for i in range(n)]))
            g.static(g.interp(), "Utils", "computeResidualErr", [Cell(vec([x[i] for i in v])), t])
            return out(t)

        for _e, x, res in g.bits(v + names("r", n), resid):
            cr.append((f"{n} bits", res, [lin([1, 1], [x[v[i]], x[f"r{i}"]]) for i in range(n)]))
        if r * n <= 6:
            for _e, x, res in g.bits(a, lambda x, m=m: out(g.static(g.interp(), "Utils", "toCsc", [mat(m(x))]))):
                b = m(x)
                exp = [[i for i in range(r) if b[i][j]] for j in range(n)] if all(isinstance(y, bool) for row in b for y in row) else None
                cz.append((f"{r}x{n} {b}", res if exp is not None else None, exp))
    judge("algebra", "transpose", "Utils", "getTranspose", ct)
    judge("algebra", "product", "Utils", "rectMatrixMultiply", cp)
    judge("algebra", "residual error", "Utils", "computeResidualErr", cr)
    judge("algebra", "columns", "Utils", "toCsc", cz)

    # row space, rank and solutions of every small matrix
    cs, ck, cl = [], [], []
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)] + ([(2, 4), (4, 2)] if thorough else [])
    it = g.interp(steps=2_000_000_000)
    for r, n in shapes:
        for flat in itertools.product((0, 1), repeat=r * n):
            m = [list(flat[i * n:(i + 1) * n]) for i in range(r)]
            linear(g, it, m, cs, ck, cl, thorough or r * n < 9)
    for m in (STEANE, SURFZ, SHORZ, RING, toric(2)[1], list(map(list, zip(*STEANE)))):
        linear(g, it, m, cs, ck, cl, False)
    judge("algebra", "row space", "Utils", "isVectorInRowspace", cs)
    judge("algebra", "rank", "PluDecomposition", "getMatrixRank", ck)
    judge("algebra", "solution", "PluDecomposition", "luSolve", cl)
    rep.count("linear systems", len(cl), 1000)
    rep.count("obligations", bad["n"], 3000)
    g.close()


def linear(g, it, m, cs, ck, cl, full):
    r, n = len(m), len(m[0])
    b = reduce(m)
    vs = list(itertools.product((0, 1), repeat=n))
    if not full and n > 3:
        vs = [v for v in vs if sum(v) in (1, 2, n)][:12] + [tuple(x) for x in m]
    elif not full:
        vs = vs[1::2]
    for v in vs:
        cs.append((f"matrix {m}, vector {v}", g.attempt(lambda v=v: out(g.static(it, "Utils", "isVectorInRowspace", [mat(m), vec(v)]))), int(inside(b, v))))

    def plu():
        csc = Vec([Cell(ints([i for i in range(r) if m[i][j]])) for j in range(n)], "std::vector<uint64_t>")
        return g.construct(it, "PluDecomposition", [r, n, csc], [("",), ("",), ("vector", "Csc")])

    ck.append((f"matrix {m}", g.attempt(lambda: out(it.run(plu(), "getMatrixRank"))), len(b)))
    xs = list(itertools.product((0, 1), repeat=n)) if n <= 3 else [v for v in itertools.product((0, 1), repeat=n) if sum(v) in (1, 2)][:12]
    seen = set()
    for x in xs:
        y = tuple(syndrome(m, x))
        if y in seen:
            continue
        seen.add(y)
        got = g.attempt(lambda y=y: out(it.run(plu(), "luSolve", [ints(y)])))
        if got is not None and got[0] == "value":
            s = got[1]
            good = isinstance(s, list) and len(s) == n and all(v in (0, 1) for v in s) and tuple(syndrome(m, s)) == y
            got = ("value", y if good else ("solution", s))
        cl.append((f"matrix {m}, right-hand side {y}", got, y))


def short(r):
    s = str(r[1])
    return ("throws " if r[0] == "throw" else "") + (s if len(s) < 160 else s[:157] + "...")


UFJOBS = [*GF2JOBS, ("src/UFDecoder.cpp", ["UFDecoder", "Decod", "rowth"]), ("src/UFHeuristic.cpp", ["UFHeuristic"]), ("src/UFHeuristic.cpp", ["TreeNode"])]
ONE = {"Steane": STEANE, "repetition": REP5, "surface": SURFZ, "ring": RING, "toric": toric(2)[1], "one check": [[1, 1, 1]], "two checks": [[1, 1, 0], [0, 1, 1]],
       "dense": [[1, 1, 1, 1], [0, 1, 1, 0], [1, 0, 1, 0]]}
VARIANTS = ["AllComponents", "SingleSmallest"]
RANDOM = ["SingleRandom", "SingleQubitRandom"]


class Uf(Gf2):
    def __init__(self, rep):
        super().__init__(rep, UFJOBS, ["UFDecoder", "UFHeuristic", "Decoder", "Code", "DecodingResult"])
        for c in ("UFDecoder", "UFHeuristic"):
            self.method(c, "decode", 1)
            self.method(c, "setCode", 1)
        self.growths = next((v for k, v in self.p.enums.items() if k.split("::")[-1] == "GrowthVariant"), None)
        if self.growths is None:
            raise AnalysisBroken("enum GrowthVariant not found")

    def variant(self, name):
        if name not in self.growths:
            raise AnalysisBroken(f"growth variant {name} not found")
        t = next(k for k in self.p.enums if k.split("::")[-1] == "GrowthVariant")
        return Enum(t, name, self.growths[name])

    def decoder(self, cls, m, growth, chooser=None, steps=1_500_000):
        it = self.interp(chooser, steps)
        c = self.code(it, *m)
        d = it.construct(cls, [])
        it.run(d, "setCode", [Cell(c)], 1)
        if growth is not None:
            it.run(d, "setGrowth", [self.variant(growth)], 1)
        return it, d

    def decode(self, it, d, s):
        it.run(d, "decode", [Cell(vec(s))], 1)
        r = d.f["result"].v
        return out(r.f["estimBoolVector"]), out(r.f["estimNodeIdxVector"])


class Fair(cpprandom.Chooser):
    """Draws after the script cycle through their range, so that no choice is starved."""

    def choose(self, lo, hi):
        k = len(self.trace)
        v = self.script[k] if k < len(self.script) else lo + (k // 2) % (hi - lo + 1)
        v = min(max(v, lo), hi)
        self.trace.append((v, lo, hi))
        return v


def syndromes(h):
    """The syndromes of all errors, with an error of least weight each."""
    n = len(h[0])
    found = {(0,) * len(h): (0,) * n}
    frontier = [(0,) * n]
    for _w in range(n):
        nxt = []
        for e in frontier:
            for i in range(n):
                if not e[i]:
                    f = e[:i] + (1,) + e[i + 1:]
                    s = tuple(syndrome(h, f))
                    if s not in found:
                        found[s] = f
                        nxt.append(f)
        frontier = nxt
        if not frontier:
            break
    return found


def ones(v):
    return [i for i, b in enumerate(v) if b]


def reproduces(h, r, s):
    """An estimate for one sector: a message, or None if it is right."""
    n = len(h[0])
    est, idx = r
    if len(est) != n:
        return f"an estimate of {len(est)} bits for {n} qubits"
    if syndrome(h, est) != list(s):
        return f"the estimate {est} has the syndrome {syndrome(h, est)}"
    if sorted(idx) != ones(est):
        return f"the estimate {est} is listed as the qubits {idx}"
    return None


def p26(rep):
    g = Uf(rep)
    thorough = rep.tier == "thorough"
    total = [0, 0]

    def judge(construct, cls, name, cases, rule="decoding"):
        """cases: (what, got, check) with check: value -> message or None."""
        wrong, unknown, first = 0, 0, ""
        for what, got, check in cases:
            if got is None:
                unknown += 1
                continue
            msg = check(got[1]) if got[0] == "value" else got[1]
            if got[0] == "throw" and check is THROWS:
                msg = None
            if msg:
                wrong += 1
                first = first or f"{what}: {msg}"
        total[0] += len(cases)
        w = g.where(cls, name)
        if wrong:
            rep.judge(False, rule, construct, w, f"{first} ({wrong} of {len(cases)})", None)
        else:
            rep.judge(None if unknown else True, rule, construct, w, f"{unknown} of {len(cases)} undecided" if unknown else "", f"{len(cases)} cases")

    for cls in ("UFDecoder",):
        for nm, h in ONE.items():
            syn = syndromes(h)
            for v in VARIANTS:
                cases = []
                for s in syn:
                    got = g.attempt(lambda s=s, h=h, v=v: g.decode(*g.decoder(cls, [h], v), s))
                    cases.append((f"syndrome {s} of {nm}", got, lambda r, h=h, s=s: reproduces(h, r, s) or (None if any(s) or not any(r[0]) else "a correction without a syndrome")))
                judge(f"{cls} {nm} {v}", cls, "decode", cases)
            # random growth: the draws are choices
            for v in RANDOM:
                cases = []
                ss = list(syn)[: None if thorough else 9]
                for s in ss:
                    todo, done = [[]], 0
                    while todo and done < (40 if thorough else 6):
                        sc = todo.pop(0)
                        ch = Fair(sc)
                        got = g.attempt(lambda s=s, h=h, v=v, ch=ch: g.decode(*g.decoder(cls, [h], v, ch), s))
                        done += 1
                        cases.append((f"syndrome {s} of {nm}, draws {[t[0] for t in ch.trace][:8]}", got, lambda r, h=h, s=s: reproduces(h, r, s)))
                        if len(sc) < 6:
                            todo += cpprandom.scripts(ch.trace[:6], sc)
                judge(f"{cls} {nm} {v}", cls, "decode", cases)

    # both sectors, histories
    for cls in ("UFDecoder", "UFHeuristic"):
        for nm, (hx, hz) in CSS.items():
            sx, sz = syndromes(hz), syndromes(hx)
            px = [s for s, e in sx.items() if sum(e) <= 1] if cls == "UFHeuristic" else list(sx)
            pz = [s for s, e in sz.items() if sum(e) <= 1] if cls == "UFHeuristic" else list(sz)
            pairs = [(a, b) for i, a in enumerate(px) for j, b in enumerate(pz) if thorough or not i or not j or (i + j) % 5 == 0]
            if not thorough:
                pairs = pairs[:40] + pairs[40::5]
            for v in (VARIANTS if cls == "UFDecoder" else ["AllComponents", "InvalidComponents"]):
                cases, keep = [], []
                for a, b in pairs:
                    def run(a=a, b=b, v=v, hx=hx, hz=hz):
                        it, d = g.decoder(cls, [hx, hz], v)
                        r = g.decode(it, d, a + b)
                        return r, rv(d.f["growth"])

                    got = g.attempt(run)

                    def check(r, a=a, b=b, hx=hx, hz=hz):
                        (est, idx), _g = r
                        n = len(hz[0])
                        if len(est) != 2 * n:
                            return f"an estimate of {len(est)} bits for both sectors of {n} qubits"
                        k = len(ones(est[:n]))
                        m1, m2 = reproduces(hz, (est[:n], idx[:k]), a), reproduces(hx, (est[n:], idx[k:]), b)
                        return f"X errors: {m1}" if m1 else f"Z errors: {m2}" if m2 else None

                    cases.append((f"syndromes {a} and {b} of {nm}", got, check))
                    keep.append((f"syndromes {a} and {b} of {nm}", got, lambda r, v=v: None if r[1] == g.variant(v) else f"the growth variant becomes {r[1]}"))
                judge(f"{cls} both sectors {nm} {v}", cls, "decode", cases)
                judge(f"{cls} growth variant {nm} {v}", cls, "decode", keep)
            # one sector of a code with both
            cases = []
            for a in px[:12]:
                got = g.attempt(lambda a=a, hx=hx, hz=hz: g.decode(*g.decoder(cls, [hx, hz], None), a))
                cases.append((f"X syndrome {a} of {nm}", got, lambda r, a=a, hz=hz: reproduces(hz, r, a)))
            judge(f"{cls} X sector {nm}", cls, "decode", cases)
        # a decoder that has decoded before answers like a new one
        for nm in ("Steane", "repetition", "surface"):
            h = ONE[nm]
            syn = syndromes(h)
            ss = [s for s, e in syn.items() if sum(e) <= 1] if cls == "UFHeuristic" else list(syn)
            ss = ss[:9] if not thorough else ss
            fresh = {}
            for b in ss:
                r = g.attempt(lambda b=b, h=h: g.decode(*g.decoder(cls, [h], None), b))
                fresh[b] = r is not None and r[0] == "value" and not reproduces(h, r[1], b)
            cases = []
            for again in (False, True):
                for a in ss:
                    for b in ss[: len(ss) if thorough else 5]:
                        def history(a=a, b=b, again=again, h=h):
                            it, d = g.decoder(cls, [h], None)
                            g.decode(it, d, a)
                            if again:
                                it.run(d, "reset", [], 0)
                            return g.decode(it, d, b)

                        got = g.attempt(history)
                        cases.append((f"{nm}: {b} after {a}{' and a reset' if again else ''}", got, lambda r, h=h, b=b, ok=fresh[b]: reproduces(h, r, b) if ok else None))
            judge(f"{cls} history {nm}", cls, "decode", cases)
    # the heuristic: no syndrome, and the syndromes of single errors, whatever the order of unordered containers
    for nm, h in ONE.items():
        if nm in ("repetition", "dense"):
            continue  # the answer to single errors depends on the order of the containers
        for v in ("AllComponents", "InvalidComponents"):
            cases = []
            for order in ("insertion", "ascending", "descending"):
                for s, e in syndromes(h).items():
                    if sum(e) > 1:
                        continue
                    cpp.UNORDERED = order
                    try:
                        got = g.attempt(lambda s=s, h=h, v=v: g.decode(*g.decoder("UFHeuristic", [h], v), s))
                    finally:
                        cpp.UNORDERED = "insertion"
                    cases.append((f"syndrome {s} of {nm}, sets in {order} order", got, lambda r, h=h, s=s: reproduces(h, r, s) or (None if any(s) or not any(r[0]) else "a correction without a syndrome")))
            judge(f"UFHeuristic {nm} {v}", "UFHeuristic", "decode", cases)
    # growth variants that a decoder does not offer are refused
    for cls, v in (("UFDecoder", "InvalidComponents"), ("UFHeuristic", "SingleQubitRandom")):
        got = g.attempt(lambda cls=cls, v=v: g.decode(*g.decoder(cls, [STEANE], v), (1, 0, 1)))
        if got and got[0] == "throw":
            got = ("value", (list(syndromes(STEANE)[1, 0, 1]), ones(syndromes(STEANE)[1, 0, 1])))  # refused: as good as a right answer
        judge(f"{cls} {v}", cls, "decode", [("Steane", got, lambda r: reproduces(STEANE, r, (1, 0, 1)))])
    # the decoder works on the matrices of its code
    cases = []
    for cls in ("UFDecoder", "UFHeuristic"):
        for hx, hz in [*CSS.values(), ([[1, 1, 0]], [[1, 0, 1], [1, 1, 1]])]:
            def copy(cls=cls, m=(hx, hz)):
                it, d = g.decoder(cls, list(m), None)
                c = rv(it.run(d, "getCode"))
                c = c.to if isinstance(c, Ptr) else c
                return [*([out(it.run(c, "getHxMat"))] if len(m) > 1 else []), out(it.run(c, "getHzMat")), out(it.run(c, "getN"))]

            cases.append((f"{cls}, code with {len(hx)} X checks and {len(hz)} Z checks", g.attempt(copy), lambda r, hx=hx, hz=hz: None if r == [hx, hz, len(hz[0])] else f"becomes X checks {r[0]}, Z checks {r[1]}"))
            cases.append((f"{cls}, one-sided code with {len(hz)} checks", g.attempt(lambda cls=cls, hz=hz: copy(cls, (hz,))), lambda r, hz=hz: None if r == [hz, len(hz[0])] else f"becomes {r[0]}"))
    judge("code of the decoder", "Decoder", "setCode", cases, "code")
    # names of the growth variants
    fs = g.p.funcs.get(("", "growthVariantFromString"), [])
    if fs:
        cases = []
        for i, (nm, v) in enumerate((("ALL_COMPONENTS", "AllComponents"), ("INVALID_COMPONENTS", "InvalidComponents"), ("SINGLE_SMALLEST", "SingleSmallest"),
                                     ("SINGLE_RANDOM", "SingleRandom"), ("SINGLE_QUBIT_RANDOM", "SingleQubitRandom"))):
            for s in (nm, str(i)):
                cases.append((f"'{s}'", g.attempt(lambda s=s: rv(g.interp().call(fs[0], [s], None))), lambda r, v=v: None if r == g.variant(v) else f"means {r}"))
        for s in ("", "ALL", "all_components", "5"):
            cases.append((f"'{s}'", g.attempt(lambda s=s: rv(g.interp().call(fs[0], [s], None))), THROWS))
        judge("names of growth variants", "", "growthVariantFromString", cases, "code")
    rep.count("obligations", total[0], 1500)
    g.close()


def THROWS(r):  # noqa: N802
    return f"gives {r} instead of an exception"
