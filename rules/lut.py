"""Lookup-table decoding and noisy simulation of state preparation (mqt.qecc.ft_stateprep.simulation)."""
from __future__ import annotations

import itertools

from dag import StimModel
from common import *
from ft import M, flat_ok, ints, mkobj, opt
from pyext import arr as mkarr
from pyabs import HObj
from terms import T

SIM = "ft_stateprep.simulation"

#       name, Hx, Hz
LCODES = [
    ("asymmetric", [[1, 1, 0, 0], [0, 1, 1, 0]], [[1, 1, 1, 1]]),
    ("same shape", [[1, 1, 0, 0], [0, 0, 1, 1]], [[1, 1, 1, 1], [0, 0, 1, 1]]),
    ("same span, other rows", [[1, 1, 0, 0], [0, 0, 1, 1]], [[1, 1, 1, 1], [1, 1, 0, 0]]),
    ("equal checks", [[1, 1, 1, 1], [0, 0, 1, 1]], [[1, 1, 1, 1], [0, 0, 1, 1]]),
    ("reordered", [[1, 1, 1, 1], [0, 0, 1, 1]], [[0, 0, 1, 1], [1, 1, 1, 1]]),
    ("weights", [[1, 1, 1, 0, 1], [0, 1, 1, 1, 0]], [[1, 0, 1, 1, 0], [1, 1, 0, 0, 0], [0, 1, 0, 1, 1]]),
]

# the only single error of the syndrome (1, 1) is on the first (last) qubit: it comes late in every enumeration of the errors
LARGE = [
    ("ten qubits", [[0, 1, 1, 0, 0, 1, 1, 0, 0, 0]], [[1, 1, 1, 1, 1, 0, 0, 0, 0, 0], [1, 0, 0, 0, 0, 1, 1, 1, 1, 1]]),
    ("ten qubits, mirrored", [[0, 0, 0, 0, 0, 1, 1, 1, 1, 1], [1, 1, 1, 1, 1, 0, 0, 0, 0, 1]], [[0, 0, 0, 1, 1, 0, 0, 1, 1, 0]]),
]

SCHEDULES = [
    ("decode only", []),
    ("generate x, then z", ["generate_x_lut", "generate_z_lut"]),
    ("generate z, then x", ["generate_z_lut", "generate_x_lut"]),
    ("generate x twice", ["generate_x_lut", "generate_x_lut"]),
    ("generate z", ["generate_z_lut"]),
]


def synd(h, e):
    return tuple(sum(a & b for a, b in zip(r, e)) % 2 for r in h)


def best(h):
    """Smallest weight of an error for every syndrome."""
    out = {}
    for e in itertools.product((0, 1), repeat=len(h[0])):
        s = synd(h, e)
        out[s] = min(out.get(s, 99), sum(e))
    return out


class Run:
    """One history of calls on a decoder object."""

    def __init__(self, rep, c, hx, hz, dt, init_luts):
        self.rep, self.c = rep, c
        self.hx, self.hz = hx, hz
        self.eng = Engine(program(), explicit=True, unroll=2100, limit=32, max_steps=8000000)
        self.eng.exact = True
        self.st = State()
        code = mkobj(self.eng, self.st, cls("codes.css_code", "CSSCode"), Hx=mkarr(self.eng, self.st, M(hx), dt=dt),
                     Hz=mkarr(self.eng, self.st, M(hz), dt=dt), n=len(hx[0]), distance=3)
        self.obj = self.eng.new(self.st, HObj("obj", cls=c, fields={}, closed=False))
        self.ok = self.call("__init__", {"code": code, "init_luts": K(init_luts)}) is not None

    def call(self, name, args=None, pos=None):
        m = program().find_method(self.c, name)
        if m is None:
            self.why = f"no method {name}"
            return None
        args = dict(args or {})
        self.raised = False
        for k, v in zip(m.params[1:], pos or []):
            args[k] = v
        unknown = set(args) - set(m.params)
        if unknown:
            self.why = f"no parameter {unknown}"
            return None
        try:
            res = self.eng.start(m, selfv=self.obj, args=prep_defaults(m, args), state=self.st)
        except (TooBig, RecursionError) as e:
            self.why = f"too large {e}"
            return None
        self.rep.analysed(*self.eng.functions_seen, m.qual)

        if any(e.kind == "key_error" for s, _v in res for e in flat_events(trace_list(s.trace))):
            self.raised, self.why = True, "raises KeyError"
            return None
        if len(res) != 1:
            self.why = f"{len(res)} paths"
            return None
        s, v = res[0]
        if s.exc is not None:
            self.why = "raises " + str(s.exc.args[0] if s.exc.args else "")
            self.raised = True
            return None
        self.st = s
        return v


def prep_defaults(m, args):
    from prep import with_defaults

    return with_defaults(m, args)


def p11(rep):
    c = cls(SIM, "LutDecoder")
    where = {n: fn_of(c, n).where() for n in ("decode_x", "decode_z")}
    n = 0
    for name, hx, hz in LCODES:
        for dt in ("int8", "int64"):
            for init in (True, False):
                for sname, seq in SCHEDULES:
                    for order in ("xz", "zx"):
                        if (dt == "int64" or init) and (sname, order) not in (("decode only", "xz"), ("decode only", "zx"), ("generate z", "xz")):
                            continue
                        n += history(rep, c, where, name, hx, hz, dt, init, sname, seq, order)
    for name, hx, hz in LARGE:
        n += history(rep, c, where, name, hx, hz, "int8", False, "decode only", [], "x" if len(hz) == 2 else "z")
    rep.count("decoder histories resolved", n, 60)


def fn_of(c, name):
    m = program().find_method(c, name)
    if m is None:
        raise AnalysisBroken(f"{c.qual}.{name} not found")
    return m


def history(rep, c, where, name, hx, hz, dt, init, sname, seq, order):
    tag = f"{name} code ({dt}), tables {'built at once' if init else 'built later'}, {sname}, {'X' if order == 'xz' else 'Z'} first"
    r = Run(rep, c, hx, hz, dt, init)
    if not r.ok:
        rep.unknown("lut-decoding", tag, getattr(r, "why", "constructor not resolved"))
        return 0
    for s in seq:
        if r.call(s) is None:
            rep.unknown("lut-decoding", f"{tag}: {s}", r.why)
            return 0
    done = 0
    for side in order:
        h = hz if side == "x" else hx
        want = best(h)
        bad = None
        for batch in (False, True):
            meth = ("batch_" if batch else "") + f"decode_{side}"
            if batch:
                ss = sorted(want)
                out = r.call(meth, pos=[mkarr(r.eng, r.st, M([list(s) for s in ss]), dt="int8")])
                vals = ints(r.eng.val(r.st, out)) if out is not None else None
                if out is None and r.raised:
                    bad = f"{meth} fails on the achievable syndromes {ss}: {r.why}"
                    break
                got = list(zip(ss, vals)) if vals is not None and flat_ok(vals) else None
            else:
                got = []
                for i, s in enumerate(sorted(want)):
                    r.raised = False
                    out = r.call(meth, pos=[mkarr(r.eng, r.st, M(list(s) if i % 2 else [bool(x) for x in s]), dt=("int8", "bool", "int64")[i % 3 if i % 2 else 1])])
                    v = ints(r.eng.val(r.st, out)) if out is not None else None
                    if v is None or not flat_ok(v):
                        if out is None and r.raised and "Key" in r.why:
                            bad = f"no entry for the syndrome {s} of the {'Z' if side == 'x' else 'X'} checks"
                        got = None
                        break
                    got.append((s, v))
            if bad:
                break
            if got is None:
                rep.unknown("lut-decoding", f"{tag}: {meth}", getattr(r, "why", "result not explicit"))
                return done
            for s, e in got:
                if len(e) != len(h[0]) or synd(h, e) != s:
                    bad = f"{meth} answers {list(e)} to the syndrome {list(s)} of the {'Z' if side == 'x' else 'X'} checks {h}, an error with another syndrome"
                elif sum(e) != want[s]:
                    bad = f"{meth} answers {list(e)} to the syndrome {list(s)} although an error of weight {want[s]} has it"
                if bad:
                    break
            if bad:
                break
        rep.judge(not bad, "lut-decoding", f"{tag}: decode_{side}", where[f"decode_{side}"], bad or "", f"{len(want)} syndromes")
        done += 1
    return done


# ---------------------------------------------------------------------- noisy simulation
#       number of qubits, data qubits, gates
NCIRC = {
    # verified |0>-type preparation: Z-type ancilla, X-type ancilla, a flag
    "plain": (6, 4, [("h", (0,)), ("h", (1,)), ("cx", (0, 2)), ("cx", (1, 3)), ("cx", (0, 3)), ("cx", (2, 4)), ("cx", (3, 4)), ("measure", (4,), (0,)),
                     ("h", (5,)), ("cx", (5, 0)), ("cx", (5, 1)), ("h", (5,)), ("measure", (5,), (1,))]),
    "flag": (5, 3, [("h", (1,)), ("cx", (1, 0)), ("cx", (1, 2)), ("cx", (0, 3)), ("h", (4,)), ("cx", (4, 3)), ("cx", (1, 3)), ("cx", (4, 3)), ("h", (4,)),
                    ("measure", (4,), (0,)), ("cx", (2, 3)), ("measure", (3,), (1,))]),
    "reuse": (4, 3, [("h", (2,)), ("cx", (2, 0)), ("cx", (0, 1)), ("cx", (0, 3)), ("cx", (1, 3)), ("measure", (3,), (0,)), ("cx", (1, 3)), ("cx", (2, 3)),
                     ("measure", (3,), (1,)), ("h", (3,)), ("cx", (3, 0)), ("cx", (3, 2)), ("h", (3,)), ("measure", (3,), (2,)), ("cx", (0, 3)), ("measure", (3,), (3,))]),
    "late H": (3, 3, [("h", (0,)), ("h", (2,)), ("cx", (2, 0)), ("cx", (0, 1)), ("h", (1,)), ("cx", (1, 2))]),
    "six": (8, 6, [("h", (0,)), ("cx", (0, 1)), ("cx", (1, 2)), ("h", (3,)), ("cx", (3, 4)), ("cx", (3, 5)), ("cx", (0, 6)), ("cx", (3, 6)), ("measure", (6,), (0,)),
                   ("cx", (1, 7)), ("cx", (2, 7)), ("measure", (7,), (1,))]),
    "unverified": (4, 4, [("h", (3,)), ("cx", (3, 1)), ("cx", (3, 2)), ("cx", (1, 0))]),
}
NCODE = {
    3: ([[1, 1, 0]], [[1, 1, 1]], [[0, 1, 1]], [[0, 0, 1]]),
    4: ([[1, 1, 1, 1]], [[1, 1, 0, 0], [0, 0, 1, 1]], [[1, 1, 0, 0]], [[1, 0, 1, 0]]),
    6: ([[1, 1, 1, 1, 1, 1]], [[1, 1, 0, 0, 0, 0], [0, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 0], [0, 0, 0, 0, 1, 1]], [[1, 1, 1, 0, 0, 0]], [[1, 0, 0, 1, 0, 0]]),
    "6 dual": ([[1, 1, 0, 0, 0, 0], [0, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 0], [0, 0, 0, 0, 1, 1]], [[1, 1, 1, 1, 1, 1]], [[1, 0, 0, 1, 0, 0]], [[0, 0, 0, 1, 1, 1]]),
    "2 logical": ([[1, 1, 1, 1]], [[1, 1, 1, 1]], [[1, 1, 0, 0], [1, 0, 1, 0]], [[1, 0, 1, 0], [1, 1, 0, 0]]),
}
CLIFF = {"H": "h", "CX": "cx", "CNOT": "cx", "ZCX": "cx"}


def expected_sim(n, gates, p, parallel, model, key):
    """The documented noise model, spelled out: [(name, targets, arg)]."""
    ops, ready, plus = [], [False] * n, set()
    q1 = 2 * p / 3

    def idle(used):
        for q in range(n):
            if ready[q] and q not in used:
                ops.append(("DEPOLARIZE1", (q,), (q1,)))

    def init(q):
        if not ready[q]:
            if q in plus:
                ops.append(("H", (q,), ()))
                plus.discard(q)
                ops.append(("Z_ERROR", (q,), (q1,)))
            else:
                ops.append(("X_ERROR", (q,), (q1,)))
            ready[q] = True

    used = []
    for layer in model.layers(key):
        if used:
            idle(used)
        used = []
        for i in layer:
            g = gates[i]
            if g[0] == "h":
                q = g[1][0]
                if not ready[q]:
                    plus ^= {q}
                    continue
                ops += [("H", (q,), ()), ("DEPOLARIZE1", (q,), (q1,))]
            elif g[0] == "cx":
                for q in g[1]:
                    init(q)
                ops += [("CX", g[1], ()), ("DEPOLARIZE2", g[1], (p,))]
            else:
                q = g[1][0]
                init(q)
                ops += [("X_ERROR", (q,), (q1,)), ("MR", (q,), ())]
            if g[0] == "measure" and not parallel:
                idle(g[1])
                ready[g[1][0]] = False
                continue
            if not parallel:
                idle(g[1])
            else:
                used.extend(g[1])
            if g[0] == "measure":
                ready[g[1][0]] = False
    return ops


def split(ops):
    """(Clifford part in normal form, noise as a multiset at its place between the operations of its qubits), or None."""
    pos, cl, noise = {}, [], {}
    for name, ts, arg in ops:
        if name in ("TICK", "QUBIT_COORDS"):
            continue
        groups = [ts]
        if name in CLIFF or name.startswith("M") or name in ("R", "RZ", "RX"):
            w = 2 if CLIFF.get(name) == "cx" else 1
            groups = [ts[i:i + w] for i in range(0, len(ts), w)]
            for g in groups:
                nm = CLIFF.get(name, {"MRZ": "MR", "MZ": "M", "RZ": "R"}.get(name, name))
                cl.append((nm, g, tuple(pos.get(q, 0) for q in g)))
                for q in g:
                    pos[q] = pos.get(q, 0) + 1
        elif name in ("DEPOLARIZE1", "DEPOLARIZE2", "X_ERROR", "Y_ERROR", "Z_ERROR"):
            w = 2 if name == "DEPOLARIZE2" else 1
            if len(arg) != 1 or not isinstance(arg[0], (int, float)):
                return None
            for i in range(0, len(ts), w):
                g = ts[i:i + w]
                if w == 2:
                    g = tuple(sorted(g))
                k = (name, g, tuple(pos.get(q, 0) for q in g), round(float(arg[0]), 12))
                noise[k] = noise.get(k, 0) + 1
        elif name != "I":
            return None
    return sorted(cl, key=str), noise


def meas_order(ops):
    return [q for nm, ts, _a in ops if nm in StimModel.MEAS for q in ts]


class Sim:
    def __init__(self, rep, c, key, p, zero, parallel, code=None):
        self.rep, self.c = rep, c
        n, k, gates = NCIRC[key]
        self.n, self.k, self.gates = n, k, gates
        self.mats = hx, hz, lx, lz = NCODE[code or (k if zero or k != 6 else '6 dual')]
        self.model = StimModel(prep_circuit=(n, gates))
        self.eng = Engine(program(), explicit=True, unroll=400, limit=32, max_steps=4000000, model=self.model)
        self.eng.exact = True
        self.st = State()
        self.code = mkobj(self.eng, self.st, cls("codes.css_code", "CSSCode"), Hx=mkarr(self.eng, self.st, M(hx), dt="int8"), Hz=mkarr(self.eng, self.st, M(hz), dt="int8"),
                          Lx=mkarr(self.eng, self.st, M(lx), dt="int8"), Lz=mkarr(self.eng, self.st, M(lz), dt="int8"), n=k, k=len(lx), distance=3)
        self.obj = self.eng.new(self.st, HObj("obj", cls=c, fields={}, closed=False))
        self.ok = self.call("__init__", {"state_prep_circ": Sym("prep_circuit"), "code": self.code, "p": K(p), "zero_state": K(zero), "parallel_gates": K(parallel)}) is not None

    call = Run.call

    def field(self, name):
        v = self.st.heap[self.obj.args[0]].fields.get(name)
        return None if v is None else self.eng.val(self.st, v)

    def ops(self):
        c = self.field("stim_circ")
        return None if c is None else self.model.ops(self.st, c)


def p12(rep):
    c = cls(SIM, "NoisyNDFTStatePrepSimulator")
    n = 0
    for key in NCIRC:
        for zero in (True, False):
            for parallel in (True, False):
                for again in (False, True):
                    if again and (zero != parallel):
                        continue
                    n += simulator(rep, c, key, zero, parallel, again)
    rep.count("noisy circuits extracted", n, 12)
    rates(rep, c)


def simulator(rep, c, key, zero, parallel, again):
    tag = f"circuit {key}, {'|0>' if zero else '|+>'}, {'parallel' if parallel else 'sequential'} gates{', error rate changed' if again else ''}"
    s = Sim(rep, c, key, 0.03, zero, parallel)
    where = fn_of(c, "to_stim_circ").where() if program().find_method(c, "to_stim_circ") else fn_of(c, "__init__").where()
    if not s.ok:
        if getattr(s, "raised", False):
            rep.bad("noisy-circuit", tag, where, f"no simulator can be built: {s.why}")
        else:
            rep.unknown("noisy-circuit", tag, getattr(s, "why", "not resolved"))
        return 0
    p = 0.03
    if again:
        p = 0.3
        if s.call("set_p", pos=[K(p)]) is None:
            rep.unknown("noisy-circuit", tag, getattr(s, "why", "not resolved"))
            return 0
    ops = s.ops()
    if ops is None:
        rep.unknown("noisy-circuit", tag, "operations of the stim circuit not resolved")
        return 0
    want = expected_sim(s.n, s.gates, p, parallel, s.model, "prep_circuit")
    nm = sum(1 for g in s.gates if g[0] == "measure")
    # the part before the final measurements: up to the given number of measurements and gates
    cut = boundary(ops, want)
    head, tail = ops[:cut], ops[cut:]
    a, b = split(head), split(want)
    if a is None:
        rep.unknown("noisy-circuit", tag, "unknown operation")
        return 0
    rep.judge(a[0] == b[0], "noisy-circuit", f"{tag}: gates", where, diff("without noise the stim circuit", a[0], b[0]), f"{len(b[0])} operations")
    if a[0] == b[0]:
        rep.judge(a[1] == b[1], "noise-model", tag, where, diff("the noise", list(a[1].items()), list(b[1].items())), f"{len(b[1])} noise locations")
    book(rep, s, tag, zero, head, tail, nm, where)
    return 1


def boundary(ops, want):
    """Number of operations in front of the final stabilizer and data measurements: as many operations of each kind and qubit as the circuit has."""
    n = sum(len(ts) for nm, ts, _a in want if nm not in ("TICK",))
    tot = 0
    for i, (nm, ts, _a) in enumerate(ops):
        if tot >= n:
            return i
        tot += len(ts)
    return len(ops)


def diff(what, a, b):
    x = [e for e in a if e not in b]
    y = [e for e in b if e not in a]
    return f"{what} has {len(x)} unexpected operations ({str(x[:2])[1:-1]}) and lacks {len(y)} ({str(y[:2])[1:-1]})"


def pauli_back(ops, upto, xz):
    """The observable (X part, Z part) before the operations ops[:upto] with value equal to xz after them, or None when it is not determined."""
    x, z = set(xz[0]), set(xz[1])
    for nm, ts, _a in reversed(ops[:upto]):
        g = CLIFF.get(nm, nm)
        if g == "h":
            for q in ts:
                if (q in x) != (q in z):
                    x ^= {q}
                    z ^= {q}
        elif g == "cx":
            for i in reversed(range(0, len(ts), 2)):
                a, b = ts[i], ts[i + 1]
                if a in x:
                    x ^= {b}
                if b in z:
                    z ^= {a}
        elif nm in StimModel.MEAS or nm in ("R", "RX", "RZ"):
            for q in ts:
                bad, good = (z, x) if nm.endswith("X") else (x, z)
                if q in bad:
                    return None
                if nm not in ("M", "MZ", "MX"):
                    good.discard(q)
        elif nm not in ("TICK", "QUBIT_COORDS", "I", "SHIFT_COORDS"):
            return None
    return x, z


def results(ops):
    """[(operation, qubit, basis)] for every measurement result, in order."""
    return [(i, q, "X" if nm.endswith("X") else "Y" if nm.endswith("Y") else "Z") for i, (nm, ts, _a) in enumerate(ops) if nm in StimModel.MEAS for q in ts]


def product(tail, res, which):
    """The observable in front of the final measurements equal to the product of the given results."""
    x, z = set(), set()
    for r in which:
        i, q, basis = res[r]
        p = pauli_back(tail, i, ({q}, set()) if basis == "X" else (set(), {q}))
        if p is None:
            return None
        x ^= p[0]
        z ^= p[1]
    return x, z


def layout(s, rep, tag, head, tail, where):
    """Which results of the final part are which check, read from the circuit."""
    used = {q for _n, ts, _a in head for q in ts}
    last = {}
    for nm, ts, _a in head:
        for q in ts:
            last[q] = nm
    fresh = lambda q: q >= s.k and (q not in used or last[q] in ("MR", "MRZ", "R", "RZ"))
    res = results(tail)
    noise = [o for o in tail if o[0] not in CLIFF and o[0] not in StimModel.MEAS and o[0] not in ("TICK", "I", "R", "RX", "RZ", "QUBIT_COORDS", "SHIFT_COORDS")]
    return res, fresh, noise


def norm(p, fresh):
    """Drop what acts trivially on fresh qubits; None when the value is random there."""
    if p is None or any(fresh(q) for q in p[0]):
        return None
    return p[0], {q for q in p[1] if not fresh(q)}


def book(rep, s, tag, zero, head, tail, nm, where):
    res, fresh, noise = layout(s, rep, tag, head, tail, where)
    rep.judge(not noise, "final-measurements", f"{tag}: noiseless", where, f"the final measurements are noisy: {noise[:2]}", f"{len(tail)} operations")
    names = ["x_verification_measurements", "z_verification_measurements", "x_measurements", "z_measurements", "data_measurements"]
    f = {}
    for n in names + ["n_measurements"]:
        v = s.field(n)
        f[n] = ints(v) if v is not None else None
        if f[n] is None:
            rep.unknown("final-measurements", tag, f"{n} not resolved")
            return
    tot = nm + len(res)
    rep.judge(sorted(f[names[0]] + f[names[1]]) == list(range(nm)), "final-measurements", f"{tag}: verification", where,
              f"the results used for post-selection are {sorted(f[names[0]] + f[names[1]])}; the circuit has the measurements 0..{nm - 1}", f"{nm} results")
    rep.judge(f["n_measurements"] == tot, "final-measurements", f"{tag}: number", where, f"n_measurements is {f['n_measurements']} for {tot} results", "")
    for n, h, side in (("x_measurements", s.mats[0], 0), ("z_measurements", s.mats[1], 1)):
        msg = None
        if len(f[n]) != len(h):
            msg = f"{n} lists {len(f[n])} results for {len(h)} checks"
        for i, row in enumerate(h):
            if msg:
                break
            j = f[n][i] - nm
            if not 0 <= j < len(res):
                msg = f"{n}[{i}] = {f[n][i]} is no result of the final part"
                break
            got = norm(product(tail, res, [j]), fresh)
            sup = {q for q, b in enumerate(row) if b}
            want = (sup, set()) if side == 0 else (set(), sup)
            if got != want:
                msg = f"result {f[n][i]} stands for check {i} of H{'xz'[side]} (qubits {sorted(sup)}), but its value is {'not determined' if got is None else 'that of X on %s, Z on %s' % (sorted(got[0]), sorted(got[1]))}"
        rep.judge(msg is None, "final-measurements", f"{tag}: {n}", where, msg or "", f"{len(h)} checks")
    msg = None
    d = f["data_measurements"]
    if len(d) != s.k:
        msg = f"{len(d)} data measurements for {s.k} data qubits"
    for q in range(s.k if not msg else 0):
        j = d[q] - nm
        if not 0 <= j < len(res) or res[j][1] != q or res[j][2] != ("Z" if zero else "X"):
            msg = f"data_measurements[{q}] = {d[q]} is " + ("no result" if not 0 <= j < len(res) else f"the {res[j][2]} value of qubit {res[j][1]}")
            break
    for lg in (s.mats[3] if zero else s.mats[2]) if not msg else []:
        sup = {q for q, b in enumerate(lg) if b}
        got = norm(product(tail, res, [d[q] - nm for q in sorted(sup)]), fresh)
        if got != ((set(), sup) if zero else (sup, set())):
            msg = f"the data results do not give the logical {'Z' if zero else 'X'} on {sorted(sup)} at the end of the preparation"
    rep.judge(msg is None, "final-measurements", f"{tag}: data", where, msg or "", f"{s.k} qubits")
    batches(rep, s, tag, zero, nm, tail, res, fresh)


def locate(s, nm, tail, res, fresh, zero):
    """Columns of the checks and of the data qubits, read from the circuit and not from the bookkeeping."""
    h = s.mats[1] if zero else s.mats[0]
    cols = []
    vals = {j: norm(product(tail, res, [j]), fresh) for j in range(len(res)) if res[j][1] >= s.k}
    for row in h:
        sup = {q for q, b in enumerate(row) if b}
        c = [j for j, v in vals.items() if v == ((set(), sup) if zero else (sup, set()))]
        if len(c) != 1:
            return None
        cols.append(c[0] + nm)
    data = []
    for q in range(s.k):
        c = [j for j, (_i, r, b) in enumerate(res) if r == q and b == ("Z" if zero else "X")]
        if len(c) != 1:
            return None
        data.append(c[0] + nm)
    return cols, data


def batches(rep, s, tag, zero, nm, tail, res, fresh):
    m = program().find_method(s.c, "_simulate_batch")
    if m is None:
        return
    loc = locate(s, nm, tail, res, fresh, zero)
    if loc is None:
        rep.unknown("logical-errors", tag, "columns not located")
        return
    cols, data = loc
    h, lg = (s.mats[1], s.mats[3]) if zero else (s.mats[0], s.mats[2])
    low = {}
    for e in itertools.product((0, 1), repeat=s.k):
        low.setdefault(synd(h, e), {}).setdefault(sum(e), set()).add(synd(lg, e))
    sure = {k: next(iter(v[min(v)])) for k, v in low.items() if len(v[min(v)]) == 1}
    rnd = __import__("random").Random(7)
    width = nm + len(res)
    for b in range(5):
        rows, errs, disc = [], 0, 0
        for _ in range(9 if b else 3):
            row = [rnd.randint(0, 1) for _ in range(width)]
            flags = [0] * nm
            if nm and (b == 0 or rnd.random() < 0.35):
                flags[rnd.randrange(nm)] = 1
            row[:nm] = flags
            sy = rnd.choice(sorted(sure))
            for c, v in zip(cols, sy):
                row[c] = v
            rows.append(row)
            if any(flags):
                disc += 1
            else:
                val = synd(lg, [row[c] for c in data])
                errs += val != sure[sy]
        s.model.events = rows
        keep = s.st
        out = s.call("_simulate_batch", pos=[K(len(rows))])
        v = ints(s.eng.val(s.st, out)) if out is not None else None
        s.st = keep
        where = m.where()
        if out is None and s.raised:
            rep.bad("logical-errors", f"{tag}: batch {b}", where, f"a batch of {len(rows)} shots, {disc} flagged, is not processed: {s.why}")
            continue
        if v is None or not flat_ok(v):
            rep.unknown("logical-errors", f"{tag}: batch {b}", getattr(s, "why", "result not explicit"))
            continue
        rep.judge(list(v) == [errs, disc], "logical-errors", f"{tag}: batch {b}", where,
                  f"of {len(rows)} shots {disc} are flagged and {errs} of the others end in a wrong logical state after decoding; reported are {list(v)}", f"{len(rows)} shots")


#       shots, batch size, at least, minimum, logical errors per batch, discarded per batch
RATES = [
    (100, 100, False, 5, [4], 20), (300, 100, False, 1, [4, 8, 0], 20), (250, 100, False, 1000, [3, 9, 6], 60), (40, 100, False, 10, [2], 8),
    (200, 100, False, 7, [10, 20], 0), (100, 100, True, 10, [4, 4, 4], 20), (100, 100, True, 4, [4], 50), (100, 100, True, 20, [0, 1, 9, 12], 4),
    (100, 100, False, 3, [0], 100),
]


def numbers(s, out):
    v = None if out is None else s.eng.val(s.st, out)
    if v is None or v.op not in ("tuple", "list"):
        return None
    v = [s.eng.val(s.st, x) for x in v.args]
    return [cval(x) for x in v] if all(is_const(x) and isinstance(cval(x), (int, float)) for x in v) else None


def rates(rep, c):
    m = program().find_method(c, "logical_error_rate")
    sb = program().find_method(c, "_simulate_batch")
    if m is None:
        raise AnalysisBroken(f"{c.qual}.logical_error_rate not found")
    if sb is None:
        rep.unknown("rate", "logical_error_rate", "no batch method")
        return
    for zero in (True, False):
        for shots, size, least, mn, errs, disc in RATES:
            tag = f"{'|0>' if zero else '|+>'}, {shots} shots in batches of {size}, {'at least %d errors' % mn if least else 'fixed number'}, {errs} errors, {disc} discarded"
            s = Sim(rep, c, "plain", 0.03, zero, True, "2 logical" if least else None)
            if not s.ok:
                rep.unknown("rate", tag, "no simulator")
                continue
            seen = []

            def batch(eng, st, args, kw, node):
                n = st.ov.get((K("batches"), "n"), K(0))
                if not is_const(n):
                    raise TooBig("number of batches")
                i = int(cval(n))
                st.ov = dict(st.ov)
                st.ov[(K("batches"), "n")] = K(i + 1)
                a = [eng.val(st, x) for x in list(args)[-1:] + list(kw.values())]
                seen.append(cval(a[-1]) if a and is_const(a[-1]) else None)
                if i >= len(errs):
                    raise TooBig("more batches than expected")
                return [(st, T("tuple", K(errs[i]), K(disc)))]

            s.eng.prims[sb.qual] = batch
            out = s.call("logical_error_rate", {"shots": K(shots), "shots_per_batch": K(size), "at_least_min_errors": K(least), "min_errors": K(mn)})
            v = numbers(s, out)
            if "more batches" in getattr(s, "why", ""):
                rep.bad("rate", tag, m.where(), f"more than the {len(errs)} batches needed are simulated")
                continue
            if v is None or len(v) != 4 or None in seen:
                rep.unknown("rate", tag, getattr(s, "why", "result not explicit"))
                continue
            b, n, k = min(size, shots), len(errs), len(s.mats[2])
            want = [sum(errs) / (n * (b - disc)) / k if b != disc else 0.0, 1 - disc / b, sum(errs), n * b]
            if sum(seen) != n * b and len(seen) == n:
                want[3] = sum(seen)
            rep.judge(len(seen) == n and all(abs(x - y) < 1e-9 for x, y in zip(v, want)), "rate", tag, m.where(),
                      f"{len(seen)} batches, result {v}; expected {n} batches and (logical error rate per logical qubit, acceptance, errors, shots) = {want}", "")
