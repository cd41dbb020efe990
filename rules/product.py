"""P22: product codes. Boundary maps are computed for explicit seeds; the oracle is the homology of the tensor product."""
from __future__ import annotations

import json

import nda
import prep
from common import *
from ft import K, M, ints
from named import masks, reduce
from pyabs import State, TooBig
from pyext import arr as mkarr
from results import Chain, Files, snap
from terms import NONE, T, cval, is_const

CON = "analog_information_decoding.code_construction."
REP = [[1, 1]]
RING = [[1, 1, 0], [0, 1, 1], [1, 0, 1]]
TWO = [[1, 1, 0], [0, 1, 1]]
HAM = [[1, 0, 1], [1, 1, 0]]
ONE = [[1, 0], [0, 1]]
WIDE = [[1, 1, 1, 0]]
TALL = [[1], [1]]
DBL = [[1, 1], [1, 1]]


def tr(h):
    return [list(c) for c in zip(*h)]


def rank(h):
    return len(reduce(masks(h))) if h else 0


def mul(a, b):
    return [[sum(x & y for x, y in zip(r, c)) % 2 for c in zip(*b)] for r in a]


def kron(a, b):
    return [[x * y for x in r for y in q] for r in a for q in b]


def eye(n):
    return [[int(i == j) for j in range(n)] for i in range(n)]


def hcat(a, b):
    return [x + y for x, y in zip(a, b)]


def hgp(a, b):
    """The matrices of the library's hypergraph product code."""
    return hcat(kron(a, eye(len(b[0]))), kron(eye(len(a)), tr(b))), hcat(kron(eye(len(a[0])), b), kron(tr(a), eye(len(b))))


def betti(maps):
    """Dimensions and Betti numbers of a complex C0 <- C1 <- ... given by its boundary maps."""
    dims = [len(maps[0])] + [len(m[0]) for m in maps]
    rk = [0] + [rank(m) for m in maps] + [0]
    return dims, [d - rk[i] - rk[i + 1] for i, d in enumerate(dims)]


def tensor(a, b):
    """Künneth: dimensions or Betti numbers of a tensor product."""
    out = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def rows_of(m):
    n, k = nda.shape(m)
    it = nda.items(m)
    return [it[i * k:(i + 1) * k] for i in range(n)]


class Sparse:
    """scipy.sparse matrices as values, numpy.matrix, files of matrices and the hypergraph product library."""

    KEY = (T("matrices"), "#saved")

    def mat(self, v):
        return v.args[0] if v.op in ("sp", "npmatrix") else v if v.op == "nda" else None

    def attr(self, eng, st, b, name):
        if b.op == "hgp":
            hx, hz = hgp(ints(b.args[0]), ints(b.args[1]))
            return {"hx": mkarr(eng, st, M(hx), dt="int64"), "hz": mkarr(eng, st, M(hz), dt="int64")}.get(name)
        if b.op == "npmatrix":
            if name == "T":
                return T("npmatrix", nda.transpose(b.args[0]))
            if name in ("shape", "size", "ndim"):
                return nda.attr(b.args[0], name)
            if name in ("A", "data"):
                return mkarr(eng, st, b.args[0])
        if b.op == "sp":
            if name == "T":
                return T("sp", nda.transpose(b.args[0]))
            if name == "shape":
                return nda.attr(b.args[0], "shape")
            if name == "data":
                return T("spdata", b)
            if name == "nnz":
                return K(sum(1 for x in nda.items(self.now(st, b)) if x is not K(0)))
            if name == "A":
                return mkarr(eng, st, b.args[0])
        return None

    def now(self, st, b):
        """The entries, after changes through .data."""
        d = st.ov.get((b, "data"))
        if d is None:
            return b.args[0]
        m = d.args[1] if d.op == "spmod" else None
        if m is None or not is_const(m):
            raise TooBig("sparse data")
        return nda.mk(nda.shape(b.args[0]), [K(cval(x) % cval(m)) for x in nda.items(b.args[0])])

    def index(self, *a):
        return None

    def binop(self, eng, st, op, a, b):
        if a.op == "spdata" and op == "Mod":
            return T("spmod", a.args[0], b)
        if a.op == "npmatrix" or b.op == "npmatrix":
            x, y = self.mat(a), self.mat(b)
            if op in ("MatMult", "Mult") and x is not None and y is not None:
                r = nda.matmul(x, y)
                return T("npmatrix", r) if r is not None else None
            if op == "Mod" and is_const(b):
                r = nda.binop("Mod", a.args[0], b)
                return T("npmatrix", r) if r is not None else None
            if op in ("Add", "Sub", "BitAnd", "BitOr", "BitXor", "FloorDiv") and (x is not None or is_const(a)) and (y is not None or is_const(b)):
                r = nda.binop(op, x if x is not None else a, y if y is not None else b)
                return T("npmatrix", r) if r is not None else None
            return None
        if a.op == "sp" or b.op == "sp":
            x, y = self.mat(a), self.mat(b)
            if x is None or y is None:
                return None
            if op in ("MatMult", "Mult"):
                r = nda.matmul(x, y)
                return T("sp", r) if r is not None and r.op == "nda" and a.op == b.op == "sp" else r
            if op == "Add" and nda.shape(x) == nda.shape(y):
                return T("sp", nda.mk(nda.shape(x), [K(cval(p) + cval(q)) for p, q in zip(nda.items(x), nda.items(y))]))
        return None

    def compare(self, eng, st, op, a, b):
        kind = next((o for o in ("npmatrix", "sp") if o in (a.op, b.op)), None)
        if kind is None:
            return None
        x, y = ((self.now(st, v) if v.op == "sp" else self.mat(v)) if not is_const(v) else v for v in (a, b))
        if x is None or y is None:
            return None
        r = nda.compare(op, x, y)
        return T(kind, r) if r is not None and r.op == "nda" else r

    def builtin(self, eng, st, name, V, kw, node):
        if name in ("bool", "int", "float") and len(V) == 1 and V[0].op == "npmatrix" and len(nda.items(V[0].args[0])) == 1:
            x = nda.items(V[0].args[0])[0]
            return K({"bool": bool, "int": int, "float": float}[name](cval(x))) if is_const(x) else None
        return None

    def axis(self, v, kw, V):
        """The axis of a reduction of a matrix, or None."""
        a = kw.get("axis", V[0] if V else None)
        return cval(a) % 2 if a is not None and is_const(a) and isinstance(cval(a), int) else None

    def reduce(self, how, m, ax):
        f = {"sum": sum, "max": max, "min": min, "any": lambda x: any(map(bool, x)), "all": lambda x: all(map(bool, x))}[how]
        rows = [[cval(x) for x in r] for r in rows_of(m)]
        lines = [list(c) for c in zip(*rows)] if ax == 0 else rows
        out = [K(f(x)) for x in lines]
        return T("npmatrix", nda.mk((1, len(out)) if ax == 0 else (len(out), 1), out))

    def call(self, eng, st, path, recv, V, kw, node):
        last = path.split(".")[-1]
        if recv is None:
            if path.startswith("scipy.sparse."):
                return self.sparse(eng, st, last, V, kw)
            if path.endswith("hgp.hgp") and len(V) >= 1:
                a = V[0] if V[0].op == "nda" else None
                b = V[1] if len(V) > 1 and V[1].op == "nda" else a
                return T("hgp", a, b) if a is not None else None
            if path == "numpy.savetxt" and len(V) >= 2:
                self.save(st, V[0], "savetxt", self.mat(V[1]))
                return NONE
            if path in ("scipy.io.mmwrite", "scipy.io._fast_matrix_market.mmwrite") and len(V) >= 2:
                self.save(st, V[0], "mmwrite", self.mat(V[1]))
                return NONE
            if path.startswith("numpy.") and any(v.op in ("npmatrix",) for v in V):
                vs = [mkarr(eng, st, v.args[0]) if v.op == "npmatrix" else v for v in V]
                if path in ("numpy.any", "numpy.all"):
                    return eng.ext.call_path(eng, st, path, vs, kw, node)[0][1] if hasattr(eng.ext, "call_path") else self.anyof(path, V[0])
                if path in ("numpy.asarray", "numpy.array"):
                    return vs[0]
                if path in ("numpy.shape",):
                    return nda.attr(V[0].args[0], "shape")
                return None
            if path.startswith("ldpc.mod2.") and V and V[0].op == "npmatrix":
                return nda.call(eng, st, path, [mkarr(eng, st, V[0].args[0]), *V[1:]], kw, node)
            return None
        if recv.op == "sp":
            if path in (".todense",):
                return T("npmatrix", self.now(st, recv))
            if path == ".toarray":
                return mkarr(eng, st, self.now(st, recv))
            if path in (".transpose", ".getH") and not V:
                return T("sp", nda.transpose(recv.args[0]))
            if path in (".tocsr", ".tocsc", ".tocoo", ".copy", ".astype", ".tolil"):
                return T("sp", self.now(st, recv))
            if path in (".sum", ".max", ".min") and set(kw) <= {"axis"} and self.axis(recv, kw, V) is not None:
                r = self.reduce(path[1:], self.now(st, recv), self.axis(recv, kw, V))
                return r if path == ".sum" else T("sp", r.args[0])
            if path in (".eliminate_zeros", ".sum_duplicates", ".sort_indices", ".prune") and not V:
                return NONE
            if path == ".sum" and not V and not kw:
                return K(sum(cval(x) for x in nda.items(self.now(st, recv))))
            if path in (".count_nonzero", ".getnnz") and not V:
                return K(sum(1 for x in nda.items(self.now(st, recv)) if x is not K(0)))
            if path in (".max",) and not V and not kw:
                return K(max(cval(x) for x in nda.items(self.now(st, recv))))
            if path in (".dot", ".multiply") and len(V) == 1:
                return self.binop(eng, st, "MatMult", recv, V[0]) if path == ".dot" else None
            return None
        if recv.op == "npmatrix":
            if path in (".todense", ".toarray"):
                st.exc = T("exc", "AttributeError: numpy.matrix has no " + path[1:])
                return T("undef")
            if path in (".any", ".all") and not V and not kw:
                return self.anyof(path, recv)
            if path in (".sum", ".max", ".min", ".any", ".all") and set(kw) <= {"axis"} and self.axis(recv, kw, V) is not None:
                return self.reduce(path[1:], recv.args[0], self.axis(recv, kw, V))
            if path in (".sum", ".max", ".min") and not V and not kw:
                return K({"sum": sum, "max": max, "min": min}[path[1:]](cval(x) for x in nda.items(recv.args[0])))
            if path in (".flatten", ".ravel", ".tolist"):
                return T("npmatrix", nda.mk((1, len(nda.items(recv.args[0]))), nda.items(recv.args[0]))) if path != ".tolist" else None
            if path == ".transpose":
                return T("npmatrix", nda.transpose(recv.args[0]))
            if path == ".astype":
                return recv
            return None
        if recv.op == "nda" and path in (".todense", ".toarray"):
            st.exc = T("exc", "AttributeError: numpy.ndarray has no " + path[1:])
            return T("undef")
        return None

    def anyof(self, path, v):
        f = any if path.endswith("any") else all
        return K(f(bool(cval(x)) for x in nda.items(v.args[0])))

    def save(self, st, p, how, m):
        st.ov = dict(st.ov)
        st.ov[self.KEY] = (*st.ov.get(self.KEY, ()), (p, how, m))

    def sparse(self, eng, st, last, V, kw):
        if last in ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "csr_array", "csc_array", "coo_array") and V:
            m = self.mat(V[0])
            if V[0].op == "sp":
                m = self.now(st, V[0])
            if m is not None:
                return T("sp", m)
            if V[0].op == "tuple" and len(V[0].args) == 2 and all(is_const(x) and isinstance(cval(x), int) for x in V[0].args):
                sh = tuple(cval(x) for x in V[0].args)
                return T("sp", nda.mk(sh, [K(0)] * (sh[0] * sh[1])))
            return None
        if last in ("identity", "eye") and V and all(is_const(v) for v in V):
            n = cval(V[0])
            return T("sp", nda.mk((n, n), [K(int(i == j)) for i in range(n) for j in range(n)]))
        if last == "kron" and len(V) >= 2:
            a, b = self.mat(V[0]), self.mat(V[1])
            return T("sp", nda.kron(a, b)) if a is not None and b is not None else None
        if last in ("hstack", "vstack") and V:
            xs = [self.mat(x) for x in (eng.known_items(st, V[0]) or [])]
            if not xs or None in xs:
                return None
            ax = 1 if last == "hstack" else 0
            if len({nda.shape(x)[1 - ax] for x in xs}) != 1:
                st.exc = T("exc", "ValueError: blocks of different size")
                return T("undef")
            r = nda.stack(xs, ax)
            return T("sp", r) if r is not None else None
        if last in ("block_array", "bmat", "block_diag"):
            return None
        if last == "issparse" and len(V) == 1:
            return K(V[0].op == "sp")
        return None


def run(rep, f, args, st=None, files=None, prims=None):
    """(engine, state, value) or a reason."""
    sp = Sparse()
    eng = Engine(program(), explicit=True, unroll=300, limit=20, max_steps=900000, model=Chain(sp, files) if files else Chain(sp), prims=prims or {})
    eng.exact = True
    st = st or State()
    a = {k: v(eng, st) if callable(v) else v for k, v in args.items()}
    try:
        res = eng.start(f, args=prep.with_defaults(f, a), state=st)
    except (TooBig, RecursionError) as e:
        return str(e)
    rep.analysed(*eng.functions_seen, f.qual)
    if len(res) != 1:
        return f"{len(res)} paths: {[show(t)[:80] for t in res[0][0].pc][:2]}"
    return eng, res[0][0], res[0][1]


def matrix(eng, st, v):
    v = eng.val(st, v)
    m = v.args[0] if v.op in ("sp", "npmatrix") else v
    return ints(m) if m.op == "nda" else None


def give(m, sparse):
    return (lambda eng, st: T("sp", M(m))) if sparse else (lambda eng, st: mkarr(eng, st, M(m), dt="int64"))


def seeds3():
    out = []
    for a, b, p in ((REP, REP, TWO), (REP, TWO, REP), (TWO, REP, RING), (RING, REP, TALL), (HAM, WIDE, REP), (TALL, TWO, WIDE)):
        hx, hz = hgp(a, b)
        out.append((f"product of {a} and {b}, with {p}", [hx, tr(hz)], p))
    out.append(("a single check, with a square matrix", [[[1, 1]], [[1], [1]]], RING))
    out.append(("unequal spaces", [[[1, 1, 0, 0], [0, 0, 1, 1]], [[1], [1], [0], [0]]], [[1, 1, 1], [0, 1, 1]]))
    return out


def judge_maps(rep, rule, what, where, maps, chain, p):
    want_d = tensor([len(chain[0])] + [len(m[0]) for m in chain], [len(p), len(p[0])])
    want_b = tensor(betti(chain)[1], betti([p])[1])
    if any(m is None or not m for m in maps):
        rep.judge(None, rule, what, where, "", "matrices")
        return 0
    if any(x not in (0, 1) for m in maps for r in m for x in r):
        rep.judge(False, rule, what, where, "the boundary maps are not binary", "")
        return 1
    shapes = [(len(m), len(m[0])) for m in maps]
    want = list(zip(want_d, want_d[1:]))
    rep.judge(shapes == want, rule, f"{what}: sizes", where, f"the boundary maps have the shapes {shapes} instead of {want}", "")
    if shapes != want:
        return 1
    bad = [i + 1 for i, (a, b) in enumerate(zip(maps, maps[1:])) if any(x for r in mul(a, b) for x in r)]
    rep.judge(not bad, rule, f"{what}: composition", where, f"boundary maps {bad and bad[0]} and {bad and bad[0] + 1} do not compose to zero", "")
    if not bad:
        b = betti(maps)[1]
        rep.judge(b == want_b, rule, f"{what}: homology", where, f"the Betti numbers are {b} instead of {want_b}", "")
    return 1


def boundary(rep):
    n = 0
    for mod in ("code_constructor", "sparse_code_constructor"):
        sparse = mod.startswith("sparse")
        f3, f4 = fn(CON + mod, "generate_3d_product_code"), fn(CON + mod, "generate_4d_product_code")
        for name, chain, p in seeds3():
            what = f"{mod}.generate_3d_product_code: {name}"
            args = dict(zip(f3.params, [give(m, sparse) for m in (*chain, p)]))
            r = run(rep, f3, args)
            d3 = None
            if isinstance(r, str):
                rep.judge(None, "product-complex", what, f3.where(), "", r)
            elif r[1].exc is not None:
                rep.judge(False, "product-complex", what, f3.where(), f"seeds that compose to zero are refused: {r[1].exc.args[0]}", "")
            else:
                v = r[0].val(r[1], r[2])
                maps = [matrix(r[0], r[1], x) for x in v.args] if v.op == "tuple" else [None]
                n += judge_maps(rep, "product-complex", what, f3.where(), maps, chain, p)
                d3 = maps if len(maps) == 3 and None not in maps else None
            small = len(chain[0][0]) * len(p[0]) <= 24
            if d3 is None or not small:
                continue
            for q in (REP, TALL, ONE) if len(p[0]) < 3 else (REP,):
                for checks in (True, False) if q is REP else (True,):
                    what = f"{mod}.generate_4d_product_code: {name} and {q}{'' if checks else ', unchecked'}"
                    args = dict(zip(f4.params, [give(m, sparse) for m in (*d3, q)]))
                    if "checks" in f4.params:
                        args["checks"] = K(checks)
                    r = run(rep, f4, args)
                    if isinstance(r, str):
                        rep.judge(None, "product-complex", what, f4.where(), "", r)
                    elif r[1].exc is not None:
                        rep.judge(False, "product-complex", what, f4.where(), f"seeds that compose to zero are refused: {r[1].exc.args[0]}", "")
                    else:
                        v = r[0].val(r[1], r[2])
                        maps = [matrix(r[0], r[1], x) for x in v.args] if v.op == "tuple" else [None]
                        n += judge_maps(rep, "product-complex", what, f4.where(), maps, d3, q)
        # seeds that are no complex
        for name, ms in (("3d", [[[1, 1]], [[1], [0]], REP]), ("3d, even overlap in one column only", [[[1, 1, 0]], [[1, 0], [1, 1], [0, 0]], REP]),
                         ("4d", [[[1, 1]], [[1], [1]], [[1]], REP]), ("4d, first pair", [[[1, 0]], [[1], [0]], [[0]], REP])):
            f = f3 if name.startswith("3d") else f4
            r = run(rep, f, dict(zip(f.params, [give(m, sparse) for m in ms])))
            what = f"{mod}.{f.name}: {name}"
            rep.judge(None if isinstance(r, str) else r[1].exc is not None, "no-complex-refused", what, f.where(), "boundary maps that do not compose to zero are accepted", str(r)[:80])
    rep.count("product complexes computed", n, 20)


def stored(rep):
    """What create_code writes."""
    n = 0
    for mod, seedsets in (("code_constructor", [(REP, REP, REP, REP), (REP, TWO, REP, REP), (TALL, TWO, REP, TALL), (TWO, REP, REP, REP), (REP, REP, REP, TALL), (DBL, DBL, REP, TALL)]), ("sparse_code_constructor", [(REP, REP, REP), (REP, TWO, REP), (TWO, TALL, TWO), (RING, REP, REP), (DBL, REP, DBL), (TALL, DBL, DBL)])):
        f = fn(CON + mod, "create_code")
        sparse = mod.startswith("sparse")
        for seeds in seedsets:
            for logicals in (True, False):
                what = f"{mod}.create_code({list(seeds)}){' with logicals' if logicals else ''}"
                files = Files({"work": {"generated_codes": {}}, "codes": {"generated_codes": {}}})
                lst = lambda eng, st, seeds=seeds: seq_of(eng, st, [mkarr(eng, st, M(s), dt="int64") for s in seeds])
                r = run(rep, f, {"constructor": K("hgp"), "seed_codes": lst, "codename": K("c"), "compute_distance": K(False), "compute_logicals": K(logicals)}, files=files)
                if isinstance(r, str):
                    rep.judge(None, "stored-code", what, f.where(), "", r)
                    continue
                eng, s, _v = r
                if s.exc is not None:
                    rep.judge(False, "stored-code", what, f.where(), f"raises {s.exc.args[0]}", "")
                    continue
                n += judge_saved(rep, eng, s, what, f.where(), seeds, logicals, sparse)
            distances(rep, f, mod, seeds, sparse)
        r = run(rep, f, {"constructor": K("other"), "seed_codes": NONE, "codename": K("c")})
        rep.judge(None if isinstance(r, str) else r[1].exc is not None, "unknown-constructor", mod, f.where(), "an unknown constructor is not refused", "")
    rep.count("codes stored", n, 16)


INFO = "# distances of the code\n\ndX = 3 # minimum weight\ndZ = 12 # minimum weight\ndMX = 2 # meta\ndMZ = 4 # meta\n"


def distances(rep, f, mod, seeds, sparse):
    """Parameters stored by create_code after an external program has written the distances."""
    what = f"{mod}.create_code({list(seeds)}) with distances"
    files = Files({"work": {"generated_codes": {"c": {"info.txt": K(INFO)}}}, "codes": {"generated_codes": {"c": {"info.txt": K(INFO)}}}})
    lst = lambda eng, st: seq_of(eng, st, [mkarr(eng, st, M(s), dt="int64") for s in seeds])
    r = run(rep, f, {"constructor": K("hgp"), "seed_codes": lst, "codename": K("c"), "compute_distance": K(True), "compute_logicals": K(False)}, files=files)
    if isinstance(r, str):
        rep.judge(None, "stored-code", what, f.where(), "", r)
        return
    _eng, s, _v = r
    if s.exc is not None:
        rep.judge(False, "stored-code", what, f.where(), f"raises {s.exc.args[0]}", "")
        return
    params(rep, s, what, f.where(), seeds, {"dX": 3, "dZ": 12, **({} if sparse else {"dMX": 2, "dMZ": 4})})


def seq_of(eng, st, xs):
    from pyabs import HObj

    return eng.new(st, HObj("list", segs=tuple(("item", x) for x in xs)))


def judge_saved(rep, eng, s, what, where, seeds, logicals, sparse):
    saved = {}
    for p, how, m in s.ov.get(Sparse.KEY, ()):
        name = cval(p).split("/")[-1] if is_const(p) else None
        if name is None or m is None or ints(m) is None:
            rep.judge(None, "stored-code", what, where, "", "matrix or file name")
            return 0
        saved.setdefault(name.split(".")[0], {})[how] = ints(m)
    want = ["hx", "hz", "mz"] + ([] if sparse else ["mx"]) + (["lx", "lz"] if logicals else [])
    miss = [w for w in want if w not in saved]
    rep.judge(not miss, "stored-code", f"{what}: files", where, f"{miss} are not stored", "")
    if miss:
        return 1
    half = [f"{w} ({how})" for w in want for how in ("savetxt", "mmwrite") if how not in saved[w]]
    rep.judge(not half, "stored-code", f"{what}: both formats", where, f"{half} are not written", "")
    diff = [w for w in want if len(saved[w]) == 2 and saved[w]["savetxt"] != saved[w]["mmwrite"]]
    rep.judge(not diff, "stored-code", f"{what}: formats", where, f"the two files of {diff} differ", "")
    g = {w: next(iter(saved[w].values())) for w in saved}
    hx, hz = g["hx"], g["hz"]
    a, b = hgp(seeds[0], seeds[1])
    chain = [a, tr(b)]
    be = betti(chain)[1]
    dims = betti(chain)[0]
    deg = 1 if sparse else 2
    for p in seeds[2:]:
        be, dims = tensor(be, betti([p])[1]), tensor(dims, [len(p), len(p[0])])
    nq, k = dims[deg], be[deg]
    ok = len(hx[0]) == len(hz[0]) == nq
    rep.judge(ok, "stored-code", f"{what}: qubits", where, f"hx and hz have {len(hx[0])} and {len(hz[0])} columns instead of {nq}", "")
    if not ok:
        return 1
    zero = lambda m: not any(x for r in m for x in r)
    rep.judge(zero(mul(hx, tr(hz))), "stored-code", f"{what}: commutation", where, "the stored X and Z checks anticommute", "")
    for m, h in (("mx", hx), ("mz", hz)):
        if m in g:
            okm = len(g[m][0]) == len(h) and zero(mul(g[m], h))
            rep.judge(okm, "stored-code", f"{what}: {m}", where, f"the stored meta checks {m} are no relations between the rows of h{m[1]}", "")
    got = nq - rank(hx) - rank(hz)
    rep.judge(got == k, "stored-code", f"{what}: logical qubits", where, f"the stored code has {got} logical qubits instead of {k}", "")
    if logicals and k == got:
        for l, h, own in (("lx", hz, hx), ("lz", hx, hz)):
            m = g[l]
            good = (not m and k == 0) or (len(m) == k and len(m[0]) == nq and zero(mul(m, tr(h))) and rank(own + m) == rank(own) + k) if m or k == 0 else False
            rep.judge(good, "stored-code", f"{what}: {l}", where, f"the stored {l} are not {k} independent logical operators", "")
    if sparse:
        params(rep, s, what, where, seeds)
    return 1


def params(rep, s, what, where, seeds, more={}):
    a, b = hgp(seeds[0], seeds[1])
    be, dims = betti([a, tr(b)])[1], betti([a, tr(b)])[0]
    for p in seeds[2:]:
        be, dims = tensor(be, betti([p])[1]), tensor(dims, [len(p), len(p[0])])
    deg = len(seeds) - 2
    want = {"n": dims[deg], "k": be[deg], **more}
    for p, _mode, v in Files.written(s):
        if str(p).endswith("code_params.txt"):
            d = {cval(x.args[0]): x.args[1] for x in v.args if x.op == "kv"} if v.op == "dict" else {}
            gone = [k for k in want if k not in d] if v.op == "dict" and all(x.op == "kv" and is_const(x.args[0]) for x in v.args) else []
            if gone:
                rep.judge(False, "stored-code", f"{what}: parameters", where, f"the stored parameters lack {' and '.join(gone)}", "")
                return 1
            got = {k: cval(d[k]) if k in d and is_const(d[k]) else None for k in want}
            rep.judge(None if None in got.values() else got == want, "stored-code", f"{what}: parameters", where, f"the stored parameters are {got} instead of {want}", "")
            return 1
    # a way of writing the model does not know would still show the name of the file or an unknown call
    seen = any(e.kind == "call" and (e.d.get("path") == "<dynamic>" or "code_params" in str(e.d.get("args")) or "code_params" in str(e.d.get("recv"))) or e.kind == "unsupported" for e in flat_events(trace_list(s.trace)))
    rep.judge(None if seen else False, "stored-code", f"{what}: parameters", where, "no parameter file is written", "no parameter file seen")
    return 0


def p22(rep):
    boundary(rep)
    stored(rep)
