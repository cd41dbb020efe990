"""Rules for named and lattice codes (P06)."""

from __future__ import annotations

import ast
import itertools
import os
from pathlib import PurePosixPath

import ft
import prep
from common import *
from ft import K, ints
from pyabs import HObj, State, TooBig, flat_events, trace_list
from report import REPO
from results import Files
from terms import NONE, T, Sym, cval, is_const, show

PREFIX = "/source"


class Data(Files):
    """The files of the repository, read only; check matrices are decoded."""

    def string(self, v):
        if v.op == "ext" and v.args[0] == "builtins.__file__":
            return None
        return super().string(v)

    def real(self, p):
        p = self.absolute(p)
        return os.path.join(REPO, os.path.relpath(p, PREFIX)) if p.startswith(PREFIX + "/") else None

    def exists(self, st, p):
        r = self.real(p)
        if r is None or not os.path.exists(r):
            return False
        return {x: None for x in sorted(os.listdir(r))} if os.path.isdir(r) else T("data", K(r))

    def call(self, eng, st, path, recv, V, kw, node):
        V = [self.here(eng, v) for v in V]
        if path in ("numpy.load", "numpy.loadtxt") and V:
            p = self.string(V[0]) or V[0]
            if not (is_const(p) and isinstance(cval(p), str)):
                return None
            r = self.real(cval(p))
            if r is None or not os.path.isfile(r):
                return self.raises(st, "FileNotFoundError")
            m = npy(r) if path == "numpy.load" else None
            return ft.M(m) if m is not None else None
        return super().call(eng, st, path, recv, V, kw, node)

    def here(self, eng, v):
        if v.op == "ext" and v.args[0] == "builtins.__file__" and eng.fnstack:
            return K(PREFIX + "/src/" + eng.fnstack[-1].module.name.replace(".", "/") + ".py")
        return v


def npy(path):
    """The integer matrix of an .npy file (format versions 1 to 3), or None."""
    with open(path, "rb") as f:
        raw = f.read()
    if raw[:6] != b"\x93NUMPY":
        return None
    n, off = (int.from_bytes(raw[8:10], "little"), 10) if raw[6] == 1 else (int.from_bytes(raw[8:12], "little"), 12)
    h = ast.literal_eval(raw[off:off + n].decode())
    kind, size = h["descr"][1], int(h["descr"][2:])
    if kind not in "iubf" or len(h["shape"]) != 2:
        return None
    order = "big" if h["descr"][0] == ">" else "little"
    body = raw[off + n:]
    rows, cols = h["shape"]
    import struct

    def item(i):
        b = body[i * size:(i + 1) * size]
        return int(struct.unpack((">" if order == "big" else "<") + {4: "f", 8: "d"}[size], b)[0]) if kind == "f" else int.from_bytes(b, order, signed=kind == "i")

    return [[item(i * cols + j if not h["fortran_order"] else j * rows + i) for j in range(cols)] for i in range(rows)]


# ---------------------------------------------------------------- binary linear algebra on bit masks


def masks(m):
    return [sum((x & 1) << j for j, x in enumerate(r)) for r in m]


def reduce(rows):
    """A basis, keyed by leading bit."""
    b = {}
    for r in rows:
        while r:
            h = r.bit_length() - 1
            if h not in b:
                b[h] = r
                break
            r ^= b[h]
    return b


def inside(b, r):
    while r:
        h = r.bit_length() - 1
        if h not in b:
            return False
        r ^= b[h]
    return True


def kernel(rows, n):
    piv, rs = [], []
    for r in rows:
        for p, q in zip(piv, rs):
            if r >> p & 1:
                r ^= q
        if r:
            p = r.bit_length() - 1
            rs = [q ^ r if q >> p & 1 else q for q in rs]
            piv.append(p)
            rs.append(r)
    out = []
    for f in range(n):
        if f in piv:
            continue
        v = 1 << f
        for p, q in zip(piv, rs):
            if q >> f & 1:
                v |= 1 << p
        out.append(v)
    return out


def distance(h, g, n, most):
    """The least weight of a vector in ker(h) outside the row space of g, or None when it is above `most`."""
    h = [x for x in h if x]
    ker = kernel(h, n)
    stab = reduce(g)
    # logical operators of the other kind: ker(g) modulo h; a vector of ker(h) is outside span(g) iff it anticommutes with one of them
    other, b = [], reduce(h)
    for v in kernel([x for x in g if x], n):
        if not inside(b, v):
            other.append(v)
            b = reduce([*b.values(), v])
    del ker, stab
    col = [sum((bin(r >> j & 1).count("1") & 1) << i for i, r in enumerate([*h, *other])) for j in range(n)]
    m = len(h)
    low = (1 << m) - 1
    seen = {}  # syndrome -> {logical part: weight}
    best = None
    for w in range(0, most // 2 + most % 2 + 1):
        for c in itertools.combinations(range(n), w):
            s = 0
            for j in c:
                s ^= col[j]
            d = seen.setdefault(s & low, {})
            for l, v in d.items():
                if l != s >> m and (best is None or v + w < best):
                    best = v + w
            d.setdefault(s >> m, w)
        if best is not None and best <= 2 * w:
            break
    return best if best is not None and best <= most else None


# ---------------------------------------------------------------- P06


NAMED = {  # name: n, k, x distance, z distance
    "steane": (7, 1, 3, 3), "tetrahedral": (15, 1, 7, 3), "hamming": (15, 7, 3, 3), "shor": (9, 1, 3, 3), "carbon": (12, 2, 4, 4), "golay": (23, 1, 7, 7), "surface_3": (9, 1, 3, 3), "surface_5": (25, 1, 5, 5),
}
CALLS = [(n, None, n) for n in NAMED] + [(n.title(), None, n) for n in ("steane", "tetrahedral", "hamming", "shor", "carbon", "golay")] + [("STEANE", None, "steane"), ("Surface", None, "surface_3"), ("Surface", 3, "surface_3"), ("surface", 5, "surface_5")]


def p06(rep):
    named(rep)
    lattice(rep)


def captured(css):
    """Constructor calls of the CSS class, with the arguments by name."""
    init = program().find_method(css, "__init__")

    def prim(eng, st, args, kw, node):
        d = dict(zip(init.params[1:], args[1:]))
        me = args[0]
        if me.op == "ref" and st.heap[me.args[0]].kind == "obj":
            st.heap = dict(st.heap)
            st.heap[me.args[0]] = st.heap[me.args[0]].but(closed=False)  # the replaced constructor sets fields
        d.update(kw)
        st.ov = dict(st.ov)
        st.ov[(T("css"), "#args")] = {k: eng.val(st, v) for k, v in d.items()}
        return [(st, NONE)]

    return init, prim


def named(rep):
    css = cls("codes.css_code", "CSSCode")
    init, prim = captured(css)
    f = program().find_method(css, "from_code_name")
    if f is None:
        raise AnalysisBroken("from_code_name not found")
    n = 0
    for name, d, want in CALLS:
        eng = Engine(program(), explicit=True, unroll=30, limit=60, max_steps=60000, model=Data({}), prims={init.qual: prim})
        eng.exact = True
        what = f"from_code_name({name!r}{'' if d is None else f', {d}'})"
        try:
            res = eng.start(f, args=prep.with_defaults(f, {"code_name": K(name), "distance": K(d) if d is not None else NONE}), state=State())
        except (TooBig, RecursionError) as e:
            rep.judge(None, "named-code", what, f.where(), "", str(e))
            continue
        rep.analysed(*eng.functions_seen, f.qual)
        if len(res) != 1:
            rep.judge(None, "named-code", what, f.where(), "", f"{len(res)} paths")
            continue
        s, _v = res[0]
        if s.exc is not None:
            rep.judge(False, "named-code", what, f.where(), f"the documented code is not available: {s.exc.args[0]}", "")
            continue
        a = s.ov.get((T("css"), "#args"))
        if a is None:
            rep.judge(None, "named-code", what, f.where(), "", "no code constructed")
            continue
        n += css_is(rep, "named-code", what, f.where(), a, NAMED[want])
    rep.count("named codes constructed", n, 12)
    for name, d in (("unknown", None), ("steane2", None), ("surface", 4), ("surface", 7), ("", None)):
        eng = Engine(program(), explicit=True, unroll=30, limit=60, max_steps=60000, model=Data({}), prims={init.qual: prim})
        eng.exact = True
        try:
            res = eng.start(f, args=prep.with_defaults(f, {"code_name": K(name), "distance": K(d) if d is not None else NONE}), state=State())
        except (TooBig, RecursionError):
            continue
        if len(res) == 1:
            ok = res[0][0].exc is not None
            rep.judge(ok, "unknown-code", f"from_code_name({name!r}, {d})", f.where(), "a code that does not exist is not refused", "")


_dist = {}


def css_is(rep, rule, what, where, a, want, most=40):
    """Is the constructed code [[n, k]] with these distances and commuting checks?"""
    hx, hz = ints(a.get("Hx")), ints(a.get("Hz"))
    n, k, dx, dz = want
    if not hx or not hz or not isinstance(hx, list) or not isinstance(hz, list) or any(x is None for r in (*hx, *hz) for x in (r if isinstance(r, list) else [None])):
        rep.judge(None, rule, what, where, "", "matrices")
        return 0
    if any(len(r) != n for r in (*hx, *hz)):
        rep.judge(False, rule, what, where, f"the code has {len(hx[0])} qubits instead of {n}", "")
        return 1
    if any(x not in (0, 1) for r in (*hx, *hz) for x in r):
        rep.judge(False, rule, what, where, "the check matrices are not binary", "")
        return 1
    x, z = masks(hx), masks(hz)
    bad = [(i, j) for i, u in enumerate(x) for j, v in enumerate(z) if bin(u & v).count("1") % 2]
    rep.judge(not bad, rule, f"{what}: commutation", where, f"X check {bad and bad[0][0]} and Z check {bad and bad[0][1]} anticommute", "")
    if bad:
        return 1
    got = n - len(reduce(x)) - len(reduce(z))
    rep.judge(got == k, rule, f"{what}: logical qubits", where, f"the code encodes {got} logical qubits instead of {k}", "")
    if got != k:
        return 1
    key = (tuple(x), tuple(z))
    if n > most:
        got = (dx, dz)
    elif key not in _dist:
        _dist[key] = (distance(z, x, n, max(dx, dz) + 1), distance(x, z, n, max(dx, dz) + 1))
    got = _dist[key] if n <= most else got  # least weight of X and of Z logicals
    if n <= most:
        rep.judge(got == (dx, dz), rule, f"{what}: distance", where, f"the least weights of X and Z logicals are {got} instead of {(dx, dz)}", "")
    nums = {p: cval(a[p]) if p in a and is_const(a[p]) else None for p in ("distance", "x_distance", "z_distance")}
    decl = (nums["x_distance"] if nums["x_distance"] is not None else nums["distance"], nums["z_distance"] if nums["z_distance"] is not None else nums["distance"])
    ok = None if nums["distance"] is None else nums["distance"] == min(dx, dz) and decl == (dx, dz)
    rep.judge(ok, rule, f"{what}: declared distance", where, f"the declared distances are {nums['distance']}, {decl} instead of {min(dx, dz)}, {(dx, dz)}", "")
    return 1


LATTICES = [("hexagonal_color_code", "HexagonalColorCode", lambda d: (3 * d * d + 1) // 4, (3, 5, 7, 9, 11, 13)), ("square_octagon_color_code", "SquareOctagonColorCode", lambda d: (d * d + 2 * d - 1) // 2, (3, 5, 7, 9, 11, 13))]


def lattice(rep):
    css = cls("codes.css_code", "CSSCode")
    init, prim = captured(css)
    n = 0
    for mod, name, size, ds in LATTICES:
        c = cls("codes." + mod, name)
        m = program().find_method(c, "__init__")
        for d in ds:
            what = f"{name}({d})"
            eng = Engine(program(), explicit=True, unroll=400, limit=60, max_steps=900000, prims={init.qual: prim})
            eng.exact = True
            lg = program().find_method(css, "_compute_logical")
            if lg is not None:
                eng.prims[lg.qual] = lambda eng, st, args, kw, node: [(st, T("logicals", *[eng.val(st, x) for x in args]))]
            st = State()
            obj = eng.new(st, HObj("obj", cls=c, fields={}, closed=True))
            try:
                res = eng.start(m, selfv=obj, args={m.params[1]: K(d)}, state=st)
            except (TooBig, RecursionError) as e:
                rep.judge(None, "lattice-code", what, m.where(), "", str(e))
                continue
            rep.analysed(*eng.functions_seen, m.qual)
            if len(res) != 1:
                rep.judge(None, "lattice-code", what, m.where(), "", f"{len(res)} paths")
                continue
            s, _v = res[0]
            if s.exc is not None:
                rep.judge(False, "lattice-code", what, m.where(), f"the code cannot be constructed: {s.exc.args[0]}", "")
                continue
            a = s.ov.get((T("css"), "#args"))
            if a is None:
                rep.judge(None, "lattice-code", what, m.where(), "", "no code constructed")
                continue
            a = dict(a)
            n += css_is(rep, "lattice-code", what, m.where(), a, (size(d), 1, d, d), 40 if rep.tier == "quick" else 61)
            adjacency(rep, eng, s, obj, what, m.where(), ints(a.get("Hx")))
    rep.count("lattice codes constructed", n, 5)


def adjacency(rep, eng, s, obj, what, where, h):
    """The face and qubit lists say the same as the check matrix."""
    f = s.heap[obj.args[0]].fields
    maps = []
    for name in ("faces_to_qubits", "qubits_to_faces"):
        v = f.get(name)
        o = s.heap.get(v.args[0]) if v is not None and v.op == "ref" else None
        if o is None or o.kind != "dict" or not o.closed or not all(is_const(k) for k, _x in o.segs):
            rep.judge(None, "lattice-adjacency", f"{what}: {name}", where, "", "not a known dictionary")
            return
        maps.append({cval(k): ints(eng.val(s, x)) for k, x in o.segs})
    if h is None or any(v is None or any(y is None for y in v) for m in maps for v in m.values()):
        rep.judge(None, "lattice-adjacency", what, where, "", "unknown entries")
        return
    ok = {i: [j for j, x in enumerate(r) if x] for i, r in enumerate(h)} == {i: sorted(v) for i, v in maps[0].items()}
    rep.judge(ok, "lattice-adjacency", f"{what}: faces", where, "faces_to_qubits does not list the qubits of each check", "")
    ok = {j: [i for i in range(len(h)) if h[i][j]] for j in range(len(h[0]))} == {j: sorted(v) for j, v in maps[1].items()}
    rep.judge(ok, "lattice-adjacency", f"{what}: qubits", where, "qubits_to_faces does not list the checks of each qubit", "")
