"""P01-P04 by constant propagation: check matrices, errors and Pauli strings as constants.

Complements the symbolic rules of codes.py, which compare normal forms: here the code may be written in any way
the interpreter can follow, and the answer is compared with the definition on every instance of a grid."""
from __future__ import annotations

import itertools
import random

import prep
from common import *
from ft import K, M, ints, opt
from named import inside, kernel, masks, reduce
from pyabs import HObj, State, TooBig
from pyext import arr as mkarr
from terms import NONE, T, cval, is_const

STEANE = [[1, 0, 0, 1, 0, 1, 1], [0, 1, 0, 1, 1, 0, 1], [0, 0, 1, 0, 1, 1, 1]]
SHOR = ([[1, 1, 1, 1, 1, 1, 0, 0, 0], [1, 1, 1, 0, 0, 0, 1, 1, 1]],
        [[1, 1, 0, 0, 0, 0, 0, 0, 0], [1, 0, 1, 0, 0, 0, 0, 0, 0], [0, 0, 0, 1, 1, 0, 0, 0, 0], [0, 0, 0, 1, 0, 1, 0, 0, 0], [0, 0, 0, 0, 0, 0, 1, 1, 0], [0, 0, 0, 0, 0, 0, 1, 0, 1]])


def add(*rs):
    return [sum(x) % 2 for x in zip(*rs)]


GRID = [  # name, Hx, Hz
    ("steane", STEANE, STEANE),
    ("steane, other rows", STEANE, [add(STEANE[0], STEANE[1]), STEANE[1], add(*STEANE)]),
    ("steane, redundant check", STEANE, [*STEANE, add(STEANE[0], STEANE[1])]),
    ("steane, dependent checks", STEANE, [STEANE[0], STEANE[1], add(STEANE[0], STEANE[1])]),
    ("shor", *SHOR),
    ("422", [[1, 1, 1, 1]], [[1, 1, 1, 1]]),
    ("one x check", [[1, 1, 0, 0]], [[1, 1, 1, 1], [0, 0, 1, 1]]),
    ("only z", None, [[1, 1, 0], [0, 1, 1]]),
    ("only x", [[1, 1, 0, 0], [0, 1, 1, 0]], None),
    ("toric", [[1, 1, 0, 0, 1, 0, 1, 0], [1, 1, 0, 0, 0, 1, 0, 1], [0, 0, 1, 1, 1, 0, 1, 0], [0, 0, 1, 1, 0, 1, 0, 1]],
     [[1, 0, 1, 0, 1, 1, 0, 0], [0, 1, 0, 1, 1, 1, 0, 0], [1, 0, 1, 0, 0, 0, 1, 1], [0, 1, 0, 1, 0, 0, 1, 1]]),
    ("weight one check", [[0, 0, 1, 1]], [[1, 0, 0, 0], [0, 0, 1, 1]]),
    ("no logical", [[1, 1]], [[1, 1]]),
    ("zero row", [[1, 1, 1, 1], [0, 0, 0, 0]], [[1, 1, 1, 1]]),
    ("same shape, other span", [[1, 1, 0, 0], [0, 0, 1, 1]], [[1, 1, 1, 1], [0, 0, 1, 1]]),
    ("same shape and rank", [[1, 1, 0, 0, 0], [0, 0, 1, 1, 0]], [[1, 1, 1, 1, 0], [0, 0, 0, 0, 1]]),
]


class Calls:
    """A sequence of calls with constant arguments in one interpreter state."""

    def __init__(self, rep):
        self.rep = rep
        self.eng = Engine(program(), explicit=True, unroll=80, limit=40, max_steps=400000)
        self.eng.exact = True
        self.st = State()
        self.why = ""

    def mat(self, m):
        return NONE if m is None else mkarr(self.eng, self.st, M(m), dt="int8") if m and isinstance(m[0], list) else mkarr(self.eng, self.st, T_vec(m), dt="int8")

    def new(self, c, **args):
        """The object, "raised", or None when not known."""
        init = program().find_method(c, "__init__")
        obj = self.eng.new(self.st, HObj("obj", cls=c, fields={}, closed=True))
        if set(args) - set(init.params):
            self.why = "parameters"
            return None
        r = self.run(init, obj, args)
        return r if r in (None, "raised") else obj

    def run(self, f, obj, args):
        self.rep.analysed(f.qual)
        try:
            res = self.eng.start(f, selfv=obj, args=prep.with_defaults(f, args), state=self.st)
        except (TooBig, RecursionError) as e:
            self.why = str(e)
            return None
        self.rep.analysed(*self.eng.functions_seen)
        if len(res) != 1:
            self.why = f"{len(res)} paths"
            return None
        st, v = res[0]
        if st.exc is not None:
            self.why = show_exc(st)
            st.exc = None
            self.st = st
            return "raised"
        self.st = st
        return v

    def method(self, obj, name, *pos):
        c = self.st.heap[obj.args[0]].cls
        f = program().find_method(c, name)
        if f is None:
            self.why = f"no method {name}"
            return None
        ps = f.params if f.is_static else f.params[1:]
        return self.run(f, obj, dict(zip(ps, pos)))

    def value(self, v):
        """Python value of a result, or None."""
        if v is None or v == "raised":
            return v
        return pyvalue(self.eng.val(self.st, v))

    def field(self, obj, name):
        v = self.st.heap[obj.args[0]].fields.get(name)
        return self.value(v) if v is not None else None


def T_vec(xs):
    import nda
    return nda.mk((len(xs),), [K(x) for x in xs])


def show_exc(st):
    return str(st.exc.args[0]) if st.exc.args else "exception"


def pyvalue(v):
    if is_const(v):
        return cval(v)
    if v.op in ("nda", "list", "tuple", "nparr"):
        import nda
        if v.op == "nda":
            if 0 in nda.shape(v):
                return ("empty", nda.shape(v))
            xs = nda.rows(v)
        else:
            xs = (v.args[0] if v.op == "nparr" else v).args
        r = [pyvalue(x) for x in xs]
        return None if any(x is None for x in r) else r
    return None


class Judge:
    """One verdict per (rule, construct) for a grid of instances: the first wrong instance is reported."""

    def __init__(self, rep):
        self.rep = rep
        self.n = {}

    def __call__(self, rule, construct, where, got, want, inst, why="", same=None):
        k = (rule, construct, where)
        d = self.n.setdefault(k, [0, 0, None])
        if got is None:
            d[1] += 1
            d.append(f"{inst}: {why}")
        elif (same or (lambda a, b: a == b))(got, want):
            d[0] += 1
        elif d[2] is None:
            d[2] = f"{inst}: gives {got!r} instead of {want!r}" if want is not None else inst

    def done(self):
        n = 0
        for (rule, construct, where), d in self.n.items():
            if d[2] is not None:
                self.rep.judge(False, rule, construct, where, d[2], "")
            else:
                self.rep.judge(True if d[0] else None, rule, construct, where, "", f"{d[0]} instances, {d[1]} not decided {d[3:4]}")
            n += d[0]
        self.rep.count("instances decided by constant propagation", n, 0)
        # A shape rule that does not recognise a function has no say when the function was decided on the whole grid.
        sound = {w for (_r, _c, w), d in self.n.items() if d[0] and not d[1] and d[2] is None}
        wrong = {w for (_r, _c, w), d in self.n.items() if d[1] or d[2] is not None}
        for b in [b for b in self.rep.bads if b["where"] in sound - wrong and not b.get("firm")]:
            self.rep.bads.remove(b)
            self.rep.obligations = [(*o[:2], "not decided", o[3]) if o == (b["rule"], b["construct"], "VIOLATED", b["msg"]) else o for o in self.rep.obligations]


def dot(a, b):
    return sum(x & y for x, y in zip(a, b)) % 2


def errors(n, rnd):
    out = [[0] * n, [1] * n]
    out += [[int(i == j) for j in range(n)] for i in range(n)]
    out += [[rnd.randint(0, 1) for _ in range(n)] for _ in range(6)]
    return out


def vec(x):
    """A list of 0/1, from a list of 0/1 or booleans; an empty array is []."""
    if isinstance(x, tuple) and x and x[0] == "empty":
        return []
    return [int(y) for y in x] if isinstance(x, list) and all(isinstance(y, (int, bool)) for y in x) else x


def rows_of(x):
    if isinstance(x, tuple) and x and x[0] == "empty":
        return []
    return x


def code(calls, hx, hz, **k):
    return calls.new(cls("codes.css_code", "CSSCode"), **{"distance": K(k.pop("distance", 1)), "Hx": calls.mat(hx), "Hz": calls.mat(hz), **k})


def wh(c, name):
    f = program().find_method(c, name)
    return f.where() if f is not None else ""


def c01(rep):
    j = Judge(rep)
    css = cls("codes.css_code", "CSSCode")
    rnd = random.Random(7)
    for name, hx, hz in GRID:
        c = Calls(rep)
        o = code(c, hx, hz)
        if o in (None, "raised"):
            j("syndrome-value", "CSSCode syndromes", wh(css, "get_x_syndrome"), None, None, name, c.why)
            continue
        n = len((hx or hz)[0])
        lx, lz = rows_of(c.field(o, "Lx")), rows_of(c.field(o, "Lz"))
        for e in errors(n, rnd):
            for m, h in (("get_x_syndrome", hx), ("get_z_syndrome", hz)):
                g = vec(c.value(c.method(o, m, c.mat(e))))
                j("syndrome-value", f"CSSCode.{m}", wh(css, m), g, [dot(r, e) for r in h or []], f"{name}, error {e}", c.why)
            for m, l in (("check_if_logical_x_error", lz), ("check_if_logical_z_error", lx)):
                g = c.value(c.method(o, m, c.mat(e)))
                want = None if l is None else any(dot(r, e) for r in l)
                j("logical-error-value", f"CSSCode.{m}", wh(css, m), g if l is not None else None, want, f"{name}, residual {e}", c.why)
    stab = cls("codes.stabilizer_code", "StabilizerCode")
    for gens in STABS:
        c = Calls(rep)
        o = c.new(stab, generators=seq(gens), distance=K(1))
        if o in (None, "raised"):
            j("syndrome-value", "StabilizerCode.get_syndrome", wh(stab, "get_syndrome"), None, None, str(gens), c.why)
            continue
        n = len(gens[0].lstrip("+-"))
        for k in range(24):
            p = "".join(rnd.choice("IXYZ") for _ in range(n))
            if k % 3 == 1:
                p = rnd.choice("+-") + p
            g = vec(c.value(c.method(o, "get_syndrome", K(p))))
            j("syndrome-value", "StabilizerCode.get_syndrome", wh(stab, "get_syndrome"), g, [anti(s, p) for s in gens], f"{gens}, error {p}", c.why)
            g = vec(c.value(c.method(o, "get_syndrome", c.mat(binary(p)))))
            j("syndrome-value", "StabilizerCode.get_syndrome of a binary vector", wh(stab, "get_syndrome"), g, [anti(s, p) for s in gens], f"{gens}, error {p}", c.why)
    j.done()


STABS = [["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"], ["+ZZI", "-IZZ"], ["XYZ"], ["+XXXX", "+ZZZZ"], ["-Y", ][:1], ["YY", "XX"], ["+XX", "+ZZ", "-YY"], ["XXII", "IIXX", "XXXX"]]


def seq(xs):
    return T("list", *[K(x) for x in xs])


def bare(p):
    return p[1:] if p[0] in "+-" else p


def anti(p, q):
    return sum(a != b and a != "I" and b != "I" for a, b in zip(bare(p), bare(q))) % 2


def binary(p):
    b = bare(p)
    return [int(x in "XY") for x in b] + [int(x in "ZY") for x in b] + [int(p[0] == "-")]


def bits(xs):
    return sum(x << i for i, x in enumerate(xs))


def span_eq(a, b):
    a, b = reduce(masks(a)), reduce(masks(b))
    return len(a) == len(b) and all(inside(a, r) for r in b.values())


def c02(rep):
    j = Judge(rep)
    css = cls("codes.css_code", "CSSCode")
    rnd = random.Random(11)
    for name, hx, hz in GRID:
        c = Calls(rep)
        o = code(c, hx, hz)
        if o in (None, "raised"):
            j("membership-value", "CSSCode", wh(css, "check_if_x_stabilizer"), None, None, name, c.why)
            continue
        n = len((hx or hz)[0])
        for m, eqm, h in (("check_if_x_stabilizer", "stabilizer_eq_x_error", hx or []), ("check_if_z_stabilizer", "stabilizer_eq_z_error", hz or [])):
            b = reduce(masks(h))
            st = [add(*([[0] * n] + [r for r in h if rnd.random() < 0.5])) for _ in range(3)] if h else [[0] * n]
            vs = [*errors(n, rnd)[:4], *st, *h[:2], *[rnd.choice(errors(n, rnd)) for _ in range(4)]]
            for v in vs:
                j("membership-value", f"CSSCode.{m}", wh(css, m), c.value(c.method(o, m, c.mat(v))), inside(b, bits(v)), f"{name}, {v}", c.why)
            for _ in range(8):
                u = rnd.choice(vs)
                v = add(u, rnd.choice(st)) if rnd.random() < 0.6 else rnd.choice(vs)
                j("equivalence-value", f"CSSCode.{eqm}", wh(css, eqm), c.value(c.method(o, eqm, c.mat(u), c.mat(v))), inside(b, bits(add(u, v))), f"{name}, {u} and {v}", c.why)
        g = c.value(c.method(o, "is_self_dual"))
        j("self-dual-value", "CSSCode.is_self_dual", wh(css, "is_self_dual"), g, span_eq(hx or [], hz or []), name, c.why)
    # equality and hashes
    for (na, ax, az), (nb, bx, bz) in itertools.product(GRID, repeat=2):
        if abs(len((ax or az)[0]) - len((bx or bz)[0])) > 1 or {na, nb} & {"shor", "toric"}:
            continue
        c = Calls(rep)
        a, b = code(c, ax, az), code(c, bx, bz)
        if a in (None, "raised") or b in (None, "raised"):
            continue
        same = len((ax or az)[0]) == len((bx or bz)[0]) and span_eq(ax or [], bx or []) and span_eq(az or [], bz or [])
        f = program().find_method(css, "__eq__")
        g = c.value(c.method(a, "__eq__", b)) if f is not None else None
        j("code-equality-value", "CSSCode.__eq__", wh(css, "__eq__"), g if isinstance(g, bool) else None, same, f"{na} and {nb}", c.why)
        if same and program().find_method(css, "__hash__") is not None:
            x, y = c.method(a, "__hash__"), c.method(b, "__hash__")
            ok = None if x in (None, "raised") or y in (None, "raised") else c.eng.val(c.st, x) is c.eng.val(c.st, y) or None
            if ok is None and x not in (None, "raised") and ground_hash(c.eng.val(c.st, x)) and ground_hash(c.eng.val(c.st, y)):
                ok = False
            j("code-hash-value", "CSSCode.__hash__", wh(css, "__hash__"), ok, True, f"{na} and {nb}", c.why)
    stab = cls("codes.stabilizer_code", "StabilizerCode")
    for gens in STABS:
        c = Calls(rep)
        o = c.new(stab, generators=seq(gens), distance=K(1))
        if o in (None, "raised"):
            continue
        b = reduce([bits(binary(s)) for s in gens])
        n = len(bare(gens[0]))
        if len(gens) == 1 or all(anti(p, q) == 0 for p in gens for q in gens):
            for i in range(18):
                p = "".join(rnd.choice("IXYZ") for _ in range(n))
                v = binary(p)
                if i % 6 == 4:
                    v = [0] * len(v)  # any error against none, and none against any
                elif i % 6 == 5:
                    v, p = binary(p), "I" * n
                elif rnd.random() < 0.6:
                    v = add(v, *[binary(s) for s in gens if rnd.random() < 0.5])
                q = "".join("IXZY"[v[i] + 2 * v[n + i]] for i in range(n))
                q = ("-" if v[-1] else "") + q
                f = program().find_method(stab, "stabilizer_equivalent")
                g = c.value(c.method(o, "stabilizer_equivalent", K(p), K(q))) if f is not None else None
                j("pauli-equivalence-value", "StabilizerCode.stabilizer_equivalent", wh(stab, "stabilizer_equivalent"), g, inside(b, bits(add(binary(p), binary(q)))), f"{gens}: {p} and {q}", c.why)
    for a, b in itertools.product(STABS, repeat=2):
        c = Calls(rep)
        x, y = c.new(stab, generators=seq(a), distance=K(1)), c.new(stab, generators=seq(b), distance=K(1))
        if x in (None, "raised") or y in (None, "raised"):
            continue
        same = len(bare(a[0])) == len(bare(b[0])) and span_eq([binary(s) for s in a], [binary(s) for s in b])
        g = c.value(c.method(x, "__eq__", y))
        j("code-equality-value", "StabilizerCode.__eq__", wh(stab, "__eq__"), g if isinstance(g, bool) else None, same, f"{a} and {b}", c.why)
    # the colour codes compare like any other code
    made = [("codes.hexagonal_color_code", "HexagonalColorCode", 3), ("codes.square_octagon_color_code", "SquareOctagonColorCode", 3), ("codes.hexagonal_color_code", "HexagonalColorCode", 5)]
    for a, b in itertools.product(made, repeat=2):
        c = Calls(rep)
        ca, cb = cls(*a[:2]), cls(*b[:2])
        x, y = c.new(ca, distance=K(a[2])), c.new(cb, distance=K(b[2]))
        if x in (None, "raised") or y in (None, "raised"):
            continue
        ha, hb = c.field(x, "Hx"), c.field(y, "Hx")
        if not isinstance(ha, list) or not isinstance(hb, list) or any(not isinstance(r, list) or None in r for r in (*ha, *hb)):
            continue
        same = len(ha[0]) == len(hb[0]) and span_eq(ha, hb)
        what = f"{a[1]}({a[2]}) and {b[1]}({b[2]})"
        r = c.method(x, "__eq__", y)
        g = c.value(r)
        g = g if isinstance(g, bool) else "no answer" if r not in (None, "raised") and "NotImplemented" in show(r) else None
        j("code-equality-value", f"{a[1]}.__eq__", wh(ca, "__eq__"), g, same, what, c.why)
    j.done()


def ground_hash(t):
    return is_const(t) or t.op in ("tuple", "list", "hash", "call", "nda", "bytes") and all(ground_hash(x) if hasattr(x, "op") else True for x in t.args)


def c03(rep):
    j = Judge(rep)
    css = cls("codes.css_code", "CSSCode")
    init = wh(css, "__init__")
    for name, hx, hz in GRID:
        c = Calls(rep)
        o = code(c, hx, hz)
        if o in (None, "raised"):
            j("css-construction", "CSSCode", init, o, "constructed", name, c.why)
            continue
        n = len((hx or hz)[0])
        x, z = hx or [], hz or []
        rx, rz = reduce(masks(x)), reduce(masks(z))
        k = n - len(rx) - len(rz)
        for fld, want in (("n", n), ("k", k), ("Hx", x), ("Hz", z)):
            j("css-construction", f"CSSCode.{fld}", init, rows_of(c.field(o, fld)), want, name, c.why)
        want = [[*r, *[0] * n, 0] for r in x] + [[*[0] * n, *r, 0] for r in z]
        j("css-construction", "CSSCode.generators", init, c.field(o, "generators"), want, name, c.why)
        for fld, h, g in (("Lx", z, rx), ("Lz", x, rz)):
            l = rows_of(c.field(o, fld))
            ok = None
            if isinstance(l, list):
                b = dict(g)
                ok = len(l) == k and all(len(r) == n for r in l) and not any(dot(r, q) for r in l for q in h)
                ok = ok and len(reduce([*g.values(), *masks(l)])) == len(b) + k
            j("css-logicals", f"CSSCode.{fld}", init, ok, True, f"{name}, logicals {l}", c.why)
        for m, h, ch in (("x_checks_as_pauli_strings", x, "X"), ("z_checks_as_pauli_strings", z, "Z"), ("x_logicals_as_pauli_strings", rows_of(c.field(o, "Lx")), "X"), ("z_logicals_as_pauli_strings", rows_of(c.field(o, "Lz")), "Z")):
            if program().find_method(css, m) is None or h is None:
                continue
            g = c.value(c.method(o, m))
            j("pauli-form-value", f"CSSCode.{m}", wh(css, m), g, ["".join(ch if b else "I" for b in r) for r in h], name, c.why)
        g = c.value(c.method(o, "stabs_as_pauli_strings")) if program().find_method(css, "stabs_as_pauli_strings") else None
        j("pauli-form-value", "CSSCode.stabs_as_pauli_strings", wh(css, "stabs_as_pauli_strings"), g, ["".join("X" if b else "I" for b in r) for r in x] + ["".join("Z" if b else "I" for b in r) for r in z], name, c.why)
    stab = cls("codes.stabilizer_code", "StabilizerCode")
    for gens in STABS:
        c = Calls(rep)
        o = c.new(stab, generators=seq(gens), distance=K(1))
        if o in (None, "raised"):
            j("stabilizer-construction", "StabilizerCode", wh(stab, "__init__"), o, "constructed", str(gens), c.why)
            continue
        j("stabilizer-construction", "StabilizerCode.generators", wh(stab, "__init__"), c.field(o, "generators"), [binary(s) for s in gens], str(gens), c.why)
        for fl, cut in (("symplectic_matrix", [binary(s)[:-1] for s in gens]), ("phases", [binary(s)[-1] for s in gens])):
            j("stabilizer-construction", f"StabilizerCode.{fl}", wh(stab, "__init__"), c.field(o, fl), cut, str(gens), c.why)
        n = len(bare(gens[0]))
        j("stabilizer-construction", "StabilizerCode.n", wh(stab, "__init__"), c.field(o, "n"), n, str(gens), c.why)
        j("stabilizer-construction", "StabilizerCode.k", wh(stab, "__init__"), c.field(o, "k"), n - len(reduce([bits(binary(s)[:-1]) for s in gens])), str(gens), c.why)
        g = c.value(c.method(o, "stabs_as_pauli_strings"))
        j("pauli-form-value", "StabilizerCode.stabs_as_pauli_strings", wh(stab, "stabs_as_pauli_strings"), g, [s.lstrip("+") for s in gens], str(gens), c.why)
    # conversions
    MOD = "codes.stabilizer_code"
    ps = [s + "".join(t) for k in (1, 2) for t in itertools.product("IXYZ", repeat=k) for s in ("", "+", "-")] + ["XZZXI", "-YIZXY", "+IIIIII", "ZZZZZZZ", "-XYZXYZXYZ"]
    for p in ps:
        for fn_, arg, want, conv in (
            ("pauli_to_binary", lambda c: K(p), binary(p), vec),
            ("pauli_to_symplectic_vec", lambda c: K(p), binary(p)[:-1], vec),
            ("binary_to_pauli_string", lambda c: c.mat(binary(p)), p.lstrip("+"), None),
            ("get_n_qubits_from_pauli", lambda c: K(p), len(bare(p)), None),
            ("get_n_qubits_from_pauli", lambda c: c.mat(binary(p)), len(bare(p)), None),
            ("is_pauli_string", lambda c: K(p), True, None),
        ):
            f = opt(MOD, fn_)
            if f is None:
                continue
            c = Calls(rep)
            g = c.value(c.run(f, None, {f.params[0]: arg(c)}))
            j("conversion-value", fn_, f.where(), conv(g) if conv else g, want, repr(p), c.why)
    for p in ("", "x", "XA", "QX", "AXZ", "1ZZ", " X", "X Z", "--X", "X-", "1", "IXYZW", "x+"):
        f = opt(MOD, "is_pauli_string")
        if f is not None:
            c = Calls(rep)
            j("conversion-value", "is_pauli_string", f.where(), c.value(c.run(f, None, {f.params[0]: K(p)})), False, repr(p), c.why)
    rnd = random.Random(3)
    for n in (1, 2, 3, 5):
        for _ in range(8):
            p, q = ("".join(rnd.choice("IXYZ") for _ in range(n)) for _ in range(2))
            a = anti(p, q)
            for fn_, want in (("symplectic_inner_product", a), ("commute", not a), ("anti_commute", bool(a))):
                f = opt(MOD, fn_)
                if f is None:
                    continue
                c = Calls(rep)
                g = c.value(c.run(f, None, dict(zip(f.params, (c.mat(binary(p)[:-1]), c.mat(binary(q)[:-1]))))))
                j("conversion-value", fn_, f.where(), g, want, f"{p} and {q}", c.why)
            m = [binary("".join(rnd.choice("IXYZ") for _ in range(n)))[:-1] for _ in range(3)]
            v = binary(q)[:-1]
            om = lambda r, s: (dot(r[:n], s[n:]) + dot(r[n:], s[:n])) % 2
            for fn_, args, want in (("symplectic_matrix_product", (m, [v, m[0]]), [[om(r, v), om(r, m[0])] for r in m]), ("symplectic_matrix_mul", (m, v), [om(r, v) for r in m]), ("all_commute", (m, [v]), not any(om(r, v) for r in m))):
                f = opt(MOD, fn_)
                if f is None:
                    continue
                c = Calls(rep)
                g = c.value(c.run(f, None, dict(zip(f.params, (c.mat(a_) for a_ in args)))))
                j("conversion-value", fn_, f.where(), g, want, f"{args}", c.why)
    j.done()


def c04(rep):
    j = Judge(rep)
    css = cls("codes.css_code", "CSSCode")
    stab = cls("codes.stabilizer_code", "StabilizerCode")
    S = STEANE
    bad = [
        ("no matrices", None, None, {}),
        ("different width", [[1, 1, 0, 0]], [[1, 1, 1, 1, 0]], {}),
        ("Z narrower", [[1, 1, 0, 0, 0]], [[1, 1, 1, 1]], {}),
        ("Z narrower, same number of rows as columns", [[1, 1, 0, 0], [0, 0, 1, 1], [0, 0, 0, 0]], [[1, 1, 0], [0, 0, 0], [0, 0, 0]], {}),
        ("X a single column", [[0]], [[1, 1, 1]], {}),
        ("Z a single column", [[1, 1, 1]], [[0]], {}),
        ("wider by far", [[1, 1, 0, 0, 1, 1, 0, 0]], [[1, 1]], {}),
        ("only one of many pairs anticommutes", [[1, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1]], [[1, 1, 1, 1], [1, 1, 1, 1], [1, 1, 1, 0]], {}),
        ("every pair anticommutes", [[1, 0], [0, 1]], [[1, 1]], {}),
        ("overlap of three", [[1, 1, 1, 0]], [[1, 1, 1, 1]], {}),
        ("anticommuting", [[1, 1, 0]], [[0, 1, 1]], {}),
        ("one anticommuting pair", [[1, 1, 0, 0], [1, 1, 1, 1]], [[1, 1, 1, 1], [0, 1, 0, 0]], {}),
        ("only the last pair anticommutes", [[1, 1, 0, 0], [0, 0, 1, 1]], [[1, 1, 0, 0], [1, 1, 0, 1]], {}),
        ("distance zero", S, S, {"distance": 0}),
        ("distance negative", S, S, {"distance": -1}),
        ("x distance too small", S, S, {"distance": 3, "x_distance": 2}),
        ("z distance too small", S, S, {"distance": 3, "z_distance": 2}),
        ("z distance too small, x large", S, S, {"distance": 3, "x_distance": 7, "z_distance": 1}),
        ("x distance too small, z large", S, S, {"distance": 3, "x_distance": 2, "z_distance": 7}),
        ("x distance zero", S, S, {"distance": 1, "x_distance": 0}),
        ("only z, distance zero", None, S, {"distance": 0}),
    ]
    for name, hx, hz, k in bad:
        c = Calls(rep)
        o = code(c, hx, hz, **{a: K(b) if a != "distance" else b for a, b in k.items()})
        j("reject-value", "CSSCode.__init__ rejects invalid codes", wh(css, "__init__"), None if o is None else o == "raised", True, name, c.why)
    for name, hx, hz in GRID:
        for k in ({}, {"x_distance": K(3)}, {"z_distance": K(1), "x_distance": K(1)}):
            c = Calls(rep)
            o = code(c, hx, hz, **k)
            j("accept-value", "CSSCode.__init__ accepts valid codes", wh(css, "__init__"), None if o is None else o != "raised", True, f"{name} {sorted(k)}: {c.why}", c.why)
    bad = [
        ("no generators", [], {}),
        ("ragged", ["XX", "ZZZ"], {}),
        ("ragged at the end", ["XX", "ZZ", "Y"], {}),
        ("not a Pauli", ["XX", "ZA"], {}),
        ("not a Pauli first", ["X1", "ZZ"], {}),
        ("not a Pauli at the front", ["QX", "ZZ"], {}),
        ("not a Pauli at the front, last", ["XX", "ZZ", "aZ"], {}),
        ("not a Pauli, one letter", ["x"], {}),
        ("sign inside", ["X-X", "ZZZ"], {}),
        ("empty string", ["", ""], {}),
        ("distance zero", ["XX"], {"distance": 0}),
        ("only X logicals", ["ZZI", "IZZ"], {"Lx": ["XXX"]}),
        ("only Z logicals", ["ZZI", "IZZ"], {"Lz": ["ZII"]}),
        ("too many", ["ZZI", "IZZ"], {"Lx": ["XXX", "XXX"], "Lz": ["ZII", "ZII"]}),
        ("too many X", ["ZZII", "IIZZ"], {"Lx": ["XXII", "IIXX", "XXXX"], "Lz": ["ZIII", "IIZI"]}),
        ("width", ["ZZI", "IZZ"], {"Lx": ["XXXX"], "Lz": ["ZIII"]}),
        ("Z width", ["ZZI", "IZZ"], {"Lx": ["XXX"], "Lz": ["ZI"]}),
        ("X width", ["ZZI", "IZZ"], {"Lx": ["XX"], "Lz": ["ZII"]}),
        ("X anticommutes", ["ZZI", "IZZ"], {"Lx": ["XII"], "Lz": ["ZII"]}),
        ("Z anticommutes", ["XXI", "IXX"], {"Lx": ["XII"], "Lz": ["ZII"]}),
        ("second X anticommutes", ["ZZII", "IIZZ"], {"Lx": ["XXII", "IIXI"], "Lz": ["ZIII", "IIZI"]}),
        ("do not pair", ["ZZI", "IZZ"], {"Lx": ["XXX"], "Lz": ["ZZI"]}),
        ("two Z with one X", ["XXXX", "ZZZZ"], {"Lx": ["XIXI", "XXII"], "Lz": ["ZZII", "ZZII"]}),
        ("two X with one Z", ["XXXX", "ZZZZ"], {"Lx": ["XIXI", "XIXI"], "Lz": ["ZZII", "ZIZI"]}),
        ("an X without a Z", ["XXXX", "ZZZZ"], {"Lx": ["XIXI", "XXII"], "Lz": ["ZZII"]}),
        ("a Z without an X", ["XXXX", "ZZZZ"], {"Lx": ["XIXI"], "Lz": ["ZZII", "ZIZI"]}),
        ("commute", ["XXXX", "ZZZZ"], {"Lx": ["XXII", "XIXI"], "Lz": ["ZZII", "ZIIZ"]}),
    ]
    for name, gens, k in bad:
        c = Calls(rep)
        o = c.new(stab, generators=seq(gens), **{"distance": K(k.pop("distance", 1)), **{a: seq(b) for a, b in k.items()}})
        j("reject-value", "StabilizerCode.__init__ rejects invalid codes", wh(stab, "__init__"), None if o is None else o == "raised", True, name, c.why)
    good = [(g, {}) for g in STABS] + [
        (["ZZI", "IZZ"], {"Lx": ["XXX"], "Lz": ["ZII"]}),
        (["+ZZI", "-IZZ"], {"Lx": ["-XXX"], "Lz": ["ZII"]}),
        (["XXXX", "ZZZZ"], {"Lx": ["XXII", "XIXI"], "Lz": ["ZIZI", "ZZII"]}),
        (["ZZII"], {"Lx": ["XXII"], "Lz": ["ZIII"]}),
        (["XXXX", "ZZZZ"], {"Lx": ["XXII", "XIXI"], "Lz": ["ZZII", "ZIZI"]}),
        (["XXXX", "ZZZZ"], {"Lx": ["XIXI"], "Lz": ["ZZII"]}),
        (["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"], {"Lx": ["XXXXX"], "Lz": ["ZZZZZ"]}),
    ]
    for gens, k in good:
        if any(anti(p, q) for p in gens for q in gens) or any(len(set(map(len, map(str.strip, v)))) > 1 for v in k.values()):
            continue
        if len({len(g) for g in gens}) > 1 or any(len({len(x) for x in v}) > 1 for v in k.values()):
            continue
        c = Calls(rep)
        o = c.new(stab, generators=seq(gens), **{"distance": K(1), **{a: seq(b) for a, b in k.items()}})
        j("accept-value", "StabilizerCode.__init__ accepts valid codes", wh(stab, "__init__"), None if o is None else o != "raised", True, f"{gens} {k}: {c.why}", c.why)
    j.done()


def both(f, g):
    def run(rep):
        try:
            f(rep)
        finally:
            g(rep)
    return run


import codes  # noqa: E402

p01, p02, p03, p04 = both(codes.p01, c01), both(codes.p02, c02), both(codes.p03, c03), both(codes.p04, c04)
