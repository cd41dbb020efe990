"""P23-P25: circuits mapped to error correcting codes (C++)."""
from __future__ import annotations

import itertools
import os

import cpp
import qcmodel
import tabsim
from cpp import CppThrow, Ptr, Undecided, rv
from pymodel import AnalysisBroken
from report import REPO

CODES = ["Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"]
ALL = ["Id", *CODES]
# gates a scheme has a logical counterpart for
PAULI = ["I", "X", "Y", "Z"]
GATES = {
    "Id": [*PAULI, "H", "S", "Sdg", "T", "Tdg", "V", "Vdg"],
    "Q3Shor": [*PAULI, "S", "Sdg", "T", "Tdg"],
    "Q5Laflamme": PAULI,
    "Q7Steane": [*PAULI, "H", "S", "Sdg", "T", "Tdg"],
    "Q9Shor": PAULI,
    "Q9Surface": [*PAULI, "H"],
    "Q18Surface": [*PAULI, "H"],
}
CONTROLLED = {"Id": ["X", "Y", "Z"], "Q3Shor": ["X", "Y", "Z"], "Q7Steane": ["X", "Y", "Z"], "Q9Shor": ["X"]}
ERRORS = {"Q3Shor": "X", "Q5Laflamme": "XYZ", "Q7Steane": "XYZ", "Q9Shor": "XYZ", "Q9Surface": "XYZ", "Q18Surface": "X"}
ANY = ["I", "X", "Y", "Z", "H", "S", "Sdg", "T", "Tdg", "V", "Vdg"]
SPEC = "mqt::ecc"


class Ecc:
    """The mapping of one circuit, evaluated on the syntax tree."""

    def __init__(self, rep):
        self.rep = rep
        self.repo = REPO
        jobs = []
        for c in ALL:
            if os.path.exists(os.path.join(REPO, f"src/ecc/{c}.cpp")):
                jobs.append((f"src/ecc/{c}.cpp", ["ecc"]))
            elif not os.path.exists(os.path.join(REPO, f"include/ecc/{c}.hpp")):
                raise AnalysisBroken(f"the scheme {c} has no source file")
            else:
                jobs.append((os.path.join(REPO, f"include/ecc/{c}.hpp"), ["ecc"]))
        for f in sorted(os.listdir(os.path.join(REPO, "src/ecc"))):
            j = (f"src/ecc/{f}", ["ecc"])
            if f.endswith(".cpp") and j not in jobs:
                jobs.append(j)
        try:
            self.p = cpp.Program(REPO, jobs)
        except cpp.Parse as e:
            raise AnalysisBroken(f"the sources do not parse: {e}") from e
        for c in ALL:
            if f"ecc::{c}" not in self.p.classes:
                raise AnalysisBroken(f"class ecc::{c} not found")
        self.memo = {}
        self.undecided = 0
        self.circuits = 0
        self.seen = set()

    def where(self, code):
        f = next((f for (o, n), l in self.p.funcs.items() if o == f"ecc::{code}" for f in l), None)
        return f"src/ecc/{code}.cpp" if os.path.exists(os.path.join(REPO, f"src/ecc/{code}.cpp")) else f"include/ecc/{code}.hpp"

    def emit(self, code, circ, freq):
        """(mapped circuit, marks: number of operations emitted when each operation of the circuit was taken up)"""
        it = cpp.Interp(self.p)
        qcmodel.install(it)
        marks = []
        made = []
        it.models["qc::QuantumComputation"] = it.models["QuantumComputation"] = lambda i, a: made.append(qcmodel.Circuit()) or made[-1]
        o = it.construct(f"ecc::{code}", [Ptr(circ), freq])
        self.circuits += 1
        circ.fetched = [lambda i: marks.append(len(made[-1].ops) if made else 0)]
        m = rv(rv(it.run(o, "apply")).to)
        self.seen |= it.seen
        return m, marks

    def mapped(self, code, spec, freq):
        """spec: (qubits, registers, operations). Returns ("ok", mapped, marks, ops, original) | ("refused",) | ("throws", what) | ("undecided", why)."""
        key = (code, spec, freq)
        if key not in self.memo:
            self.memo[key] = self._mapped(code, spec, freq)
        return self.memo[key]

    def _mapped(self, code, spec, freq):
        c = build(spec)
        ops, regs = list(c.ops), list(c.cregs)
        try:
            m, marks = self.emit(code, c, freq)
        except CppThrow as e:
            if e.kind.endswith("QFRException") and "not supported" in e.what:
                return ("refused",)
            return ("throws", f"{e.kind}: {e.what}"[:160])
        except Undecided as e:
            self.undecided += 1
            return ("undecided", str(e))
        except RecursionError:
            return ("undecided", "recursion")
        return ("ok", m, marks, ops, regs, c.nc)


def build(spec):
    n, regs, ops = spec
    c = qcmodel.Circuit()
    c.qreg(n)
    for name, k in regs:
        c.creg(k, name)
    for o in ops:
        if o[0] == "M":
            c.m(o[1], o[2])
        elif o[0] == "barrier":
            c.add(qcmodel.Op("barrier", "Barrier", tuple(range(n))))
        elif len(o) == 4:
            c.add(qcmodel.Op("gate", o[0], (o[1],), ((o[2], False),)))
        elif len(o) == 3:
            c.g(o[0], o[1], c=(o[2],))
        else:
            c.g(o[0], o[1])
    return c


def circuit(n, gates, meas=None, regs=None):
    meas = [(i, i) for i in range(n)] if meas is None else meas
    return (n, tuple(regs or (("c", n),)), tuple(gates) + tuple(("M", q, b) for q, b in meas))


def outcomes(n, ops, keep, faults=None):
    """{tag: outcomes} or a reason"""
    try:
        return tabsim.run(n, ops, keep, faults)
    except tabsim.NotClifford as e:
        return f"gate {e}"
    except tabsim.TooMany:
        return "too many branches"


def show(spec):
    n, regs, ops = spec
    return "; ".join("barrier" if o[0] == "barrier" else f"measure {o[1]}->{o[2]}" if o[0] == "M" else f"{o[0].lower()} {o[1]}" if len(o) == 2 else f"{'0' if len(o) == 4 else ''}c{o[0].lower()} {o[2]},{o[1]}" for o in ops)


def bits(s, n):
    return "{" + ", ".join(sorted(format(x, f"0{n}b") for x in s)) + "}"


def bit_map(regs, mregs):
    """Position in the mapped circuit of every classical bit of the original one, through name and index; or a reason."""
    out = {}
    for name, st, k in regs:
        r = [x for x in mregs if x[0] == name]
        if not r:
            return f"classical register {name} is missing"
        if r[0][2] != k:
            return f"classical register {name} has {r[0][2]} instead of {k} bits"
        for i in range(k):
            out[st + i] = r[0][1] + i
    return out


def compare(e, code, spec, freq, need=True):
    """True | None | message"""
    r = e.mapped(code, spec, freq)
    n = spec[0]
    if r[0] == "refused":
        return "is refused" if need else True
    if r[0] == "throws":
        return f"raises {r[1]}"
    if r[0] == "undecided":
        return None
    _, m, _marks, ops, regs, nc = r
    bm = bit_map(regs, m.cregs)
    if isinstance(bm, str):
        return bm
    a = outcomes(n, ops, (1 << nc) - 1)
    if isinstance(a, str):
        return None
    b = outcomes(max([m.nq, *(q + 1 for o in m.ops for q in o.qubits())]), m.ops, sum(1 << v for v in bm.values()))
    if isinstance(b, str):
        return None
    if any(q >= m.nq for o in m.ops for q in o.qubits()):
        return "uses qubits outside the mapped circuit"
    got = {sum(((v >> bm[k]) & 1) << k for k in bm) for v in b[0]}
    if got == a[0]:
        return True
    return f"can give {bits(got, nc)} instead of {bits(a[0], nc)}"


def rule(rep, e, code, name, cases, freq=0, need=True):
    """One obligation per construct: all circuits of a group."""
    undec, done = 0, 0
    for spec in cases:
        v = compare(e, code, spec, freq, need)
        if v is None:
            undec += 1
            continue
        if v is not True:
            rep.bad(name, f"{code}: {NAMES[name]}", e.where(code), f"mapping '{show(spec)}'" + (f" with correction every {freq} gates" if freq else "") + f" {v}")
            return
        done += 1
    e.compared = getattr(e, "compared", 0) + done
    if undec and not done:
        rep.unknown(name, f"{code}: {NAMES[name]}", f"{undec} circuits not decided")
    else:
        rep.ok(name, f"{code}: {NAMES[name]}", f"{done} circuits" + (f", {undec} not decided" if undec else ""))


NAMES = {
    "gate": "logical gates",
    "controlled": "controlled gates",
    "negative": "gates controlled on 0",
    "long": "sequences of gates",
    "place": "several logical qubits",
    "frequency": "correction frequency",
    "refuse": "gates without logical counterpart",
    "idle": "idle qubits",
    "registers": "classical registers",
    "order": "measurement order and bits",
    "condition": "classically controlled corrections",
    "fault": "single errors",
    "basis": "correction between Hadamards",
    "late": "gates after a measurement",
    "lateh": "superpositions after a measurement",
    "name": "name of the scheme",
    "size": "size of the mapped circuit",
}


def seq(q, *gs):
    return tuple((g, q) for g in gs)


def sequence(code, n, length, k):
    """A fixed circuit of the given length; the order comes from a linear congruence."""
    x = 1 + 977 * k + 31 * n

    def draw(m):
        nonlocal x
        x = (x * 1103515245 + 12345) % (1 << 31)
        return (x >> 8) % m

    ops = [("I", q) for q in range(n)]
    # H only where no correction comes between: with Q18Surface it would not survive
    one = [g for g in GATES[code] if g in ("X", "Y", "Z", "S", "Sdg") or (g == "H" and code != "Q18Surface")]
    for _ in range(length):
        if code in CONTROLLED and draw(2):
            a = draw(n)
            b = (a + 1 + draw(n - 1)) % n
            ops.append((CONTROLLED[code][draw(len(CONTROLLED[code]))] if draw(3) == 0 else "X", b, a))
        else:
            g = one[draw(len(one))] if draw(2) else "X"
            ops.append((g, draw(n)))
    return circuit(n, ops)


def p23(rep):
    e = Ecc(rep)
    thorough = rep.tier == "thorough"
    for code in ALL:
        G = GATES[code]
        pre = [(), ("X",)] + ([("H",), ("X", "H")] if "H" in G else []) + ([("H", "S")] if "H" in G and "S" in G else [])
        post = [()] + ([("H",)] if "H" in G else []) + ([("S", "H")] if "H" in G and "S" in G else [])
        # every gate on every state, in every basis
        rule(rep, e, code, "gate", [circuit(1, seq(0, *p, g, *q)) for g in G for p in pre for q in post])
        # controlled gates
        if code in CONTROLLED:
            states = [(), ("X",), ("H",)] if "H" in G else [(), ("X",)]
            cs = [circuit(2, (*seq(a, *p), *seq(b, *q), (g, b, a), *seq(a, *u), *seq(b, *v)))
                  for g in CONTROLLED[code] for a, b in ((0, 1), (1, 0)) for p in states for q in states for u in post for v in post
                  if thorough or (a == 0 or (p, q) == (("X",), ()))]
            rule(rep, e, code, "controlled", cs)
            rule(rep, e, code, "negative", [circuit(2, (*seq(a, *p), *seq(b, *q), (g, b, a, "0"), *seq(b, *v)))
                                            for g in CONTROLLED[code] for a, b in ((0, 1), (1, 0)) for p in states for q in states for v in post], need=False)
        # places and interplay of logical qubits
        cs = []
        for n in (2, 3, 4) if thorough else (2, 3):
            for x in itertools.product((0, 1), repeat=n):
                cs.append(circuit(n, [("X" if x[i] else "I", i) for i in range(n)]))
            for g in G:
                for q in range(n):
                    if g in ("X", "Y", "Z", "H", "S", "V"):
                        cs.append(circuit(n, [("X", (q + 1) % n), *([("H", q)] if "H" in G else []), (g, q), *([("H", q)] if "H" in G else []), *[("I", i) for i in range(n)]]))
            if code in CONTROLLED:
                for a, b in itertools.permutations(range(n), 2):
                    cs.append(circuit(n, [*[("I", i) for i in range(n)], ("X", a), ("X", b, a)]))
                    cs.append(circuit(n, [*[("I", i) for i in range(n)], ("X", b), ("X", b, a)]))
        rule(rep, e, code, "place", cs)
        # correction every k gates, number of gates around k
        for f in (1, 2, 3):
            cs = []
            for k in range(0, 5):
                cs.append(circuit(2, [("X", 0), ("I", 1), ("X", 1), ("Y", 0), ("X", 0)][:k] or [("I", 0), ("I", 1)]))
            rule(rep, e, code, "frequency", cs, f)
            if "H" in G:
                cs = [circuit(1, seq(0, "H", "X", "H")), circuit(1, seq(0, "H", "Z", "H")), circuit(2, (("H", 0), ("H", 1), ("H", 0), ("Z", 1), ("H", 1)))]
                rule(rep, e, code, "basis", cs, f)
        # long sequences, in which deviations of single gates add up
        for f in (0, 3):
            rule(rep, e, code, "long", [sequence(code, n, 18, k) for n in ((2, 3, 4) if thorough else (2, 3)) for k in range(30 if thorough else 10)], f)
        # gates that are not among the supported ones: mapped correctly or refused
        cs = [circuit(1, seq(0, *p, g, *q)) for g in ANY if g not in G for p in pre for q in post]
        cs += [circuit(2, (*seq(0, *p), *seq(1, *q), (g, 1, 0), *seq(0, *u), *seq(1, *v)))
               for g in ("X", "Y", "Z") if g not in CONTROLLED.get(code, []) for p in pre[:3] for q in pre[:3] for u in post for v in post]
        if cs:
            rule(rep, e, code, "refuse", cs, need=False)
        # idle qubits: below, between, above
        cs = []
        for n, used in ((2, (0,)), (2, (1,)), (3, (0, 2)), (3, (1,)), (3, (2,)), (4, (1, 3))):
            cs.append(circuit(n, [("X", q) for q in used], [(q, q) for q in used]))
            cs.append(circuit(n, [("X", used[0])], [(q, q) for q in used]))
        rule(rep, e, code, "idle", cs)
        # no measurement at all, measurements in any order, into any bit, some qubits only
        cs = [circuit(2, [("X", 0), ("I", 1)], [(0, 1), (1, 0)]), circuit(2, [("X", 0), ("I", 1)], [(1, 1), (0, 0)]), circuit(2, [("X", 1), ("I", 0)], [(1, 0)]),
              circuit(2, [("X", 1), ("I", 0)], [(0, 0), (1, 2)], (("c", 3),)), circuit(3, [("X", 2), ("I", 0), ("I", 1)], [(2, 0), (0, 1)], (("c", 2),)),
              circuit(1, [("X", 0), ("I", 0)], [(0, 0), (0, 1)], (("c", 2),)), circuit(2, [("X", 0), ("X", 1), ("barrier",), ("X", 0)]), circuit(2, [("X", 0), ("I", 1)], [(0, 0), (1, 0)], (("c", 1),))]
        cs += [circuit(1, [], [(0, 0)]), circuit(2, [("X", 0), ("I", 1)], [])]
        rule(rep, e, code, "order", cs)
        # a measurement in the middle of the circuit
        cs = [(1, (("c", 2),), (("X", 0), ("M", 0, 0), ("I", 0), ("M", 0, 1))), (1, (("c", 2),), (("I", 0), ("M", 0, 0), ("X", 0), ("M", 0, 1))),
              (1, (("c", 2),), (("X", 0), ("M", 0, 0), ("X", 0), ("M", 0, 1))), (2, (("c", 2),), (("X", 0), ("I", 1), ("M", 0, 0), ("X", 1), ("M", 1, 1))),
              (2, (("c", 2),), (("X", 0), ("X", 1), ("M", 0, 0), ("I", 1), ("M", 1, 1))),
              (2, (("c", 3),), (("X", 0), ("X", 1), ("M", 0, 0), ("I", 1), ("X", 0), ("M", 1, 1), ("M", 0, 2)))]
        for f in (0, 1):
            rule(rep, e, code, "late", cs, f)
            if "H" in G:
                rule(rep, e, code, "lateh", [(1, (("c", 2),), (("H", 0), ("M", 0, 0), ("H", 0), ("H", 0), ("M", 0, 1)))], f)
        # several classical registers: every bit keeps its register and index
        cs = []
        for names in (("a", "b"), ("b", "a"), ("m", "a", "z")):
            k = len(names)
            for sizes in ((1,) * k, tuple(range(1, k + 1)), tuple(range(k, 0, -1))):
                regs = tuple(zip(names, sizes))
                tot = sum(sizes)
                for b in range(tot):
                    cs.append(circuit(2, [("X", 0), ("I", 1)], [(0, b), (1, (b + 1) % tot)], regs))
        rule(rep, e, code, "registers", cs)
    rep.analysed(*e.seen)
    rep.count("circuits mapped", e.circuits, 600)
    rep.count("mapped circuits compared with the original", getattr(e, "compared", 0), 600)


def p24(rep):
    e = Ecc(rep)
    n_faults = 0
    for code in CODES:
        G = GATES[code]
        cs = []
        states = [(), ("X",)] + ([("H",)] if "H" in G else [])
        for s in states:
            post = ("H",) if "H" in s else ()
            cs.append((circuit(1, (*seq(0, "I", *s), ("I", 0), *seq(0, *post))), [0, 1 + len(s)] if not s else [1 + len(s)]))
        cs.append((circuit(2, (("X", 1), ("I", 0), ("I", 0), ("I", 1))), [1, 2, 3]))
        if rep.tier == "thorough":
            cs.append((circuit(3, (("X", 1), ("I", 0), ("I", 2), ("I", 0))), [3]))
        if code in CONTROLLED:
            cs.append((circuit(2, (("X", 0), ("X", 1, 0), ("I", 0), ("I", 1))), [2]))
            cs.append((circuit(3, (("X", 0), ("X", 1, 0), ("X", 2, 0), ("X", 0, 2), ("I", 0), ("I", 1), ("I", 2))), [4]))
        for freq in (1, 0, 2):
            bad = None
            undec = done = 0
            for spec, at in cs:
                r = e.mapped(code, spec, freq)
                if r[0] != "ok":
                    undec += 1
                    continue
                _, m, marks, ops, regs, nc = r
                bm = bit_map(regs, m.cregs)
                if isinstance(bm, str) or any(q >= m.nq for o in m.ops for q in o.qubits()):
                    undec += 1
                    continue
                keep = sum(1 << v for v in bm.values())
                a = outcomes(spec[0], ops, (1 << nc) - 1)
                clean = outcomes(m.nq, m.ops, keep)
                if isinstance(a, str) or isinstance(clean, str):
                    undec += 1
                    continue
                dec = lambda vs: {sum(((v >> bm[k]) & 1) << k for k in bm) for v in vs}  # noqa: E731
                if dec(clean[0]) != a[0]:
                    undec += 1  # not a matter of errors
                    continue
                for g in at:
                    if g >= len(marks):
                        undec += 1
                        continue
                    data = spec[0] * data_qubits(e, code)
                    tags = {}
                    for q in range(min(data, m.nq)):
                        for p in ERRORS[code]:
                            tags[len(tags) + 1] = [(p, q)]
                    b = outcomes(m.nq, m.ops, keep, {marks[g]: tags})
                    if isinstance(b, str):
                        undec += 1
                        continue
                    n_faults += len(tags)
                    done += 1
                    for t, vs in sorted(b.items()):
                        if t and dec(vs) != a[0] and bad is None:
                            p, q = tags[t][0]
                            bad = f"{p} on physical qubit {q} before gate {g + 1} of '{show(spec)}'" + (f" (correction every {freq} gates)" if freq else "") + f" gives {bits(dec(vs), nc)} instead of {bits(a[0], nc)}"
            if bad:
                rep.bad("fault", f"{code}: single errors, frequency {freq}", e.where(code), bad)
            elif not done:
                rep.unknown("fault", f"{code}: single errors, frequency {freq}", f"{undec} circuits not decided")
            else:
                rep.ok("fault", f"{code}: single errors, frequency {freq}", f"{done} circuits" + (f", {undec} not decided" if undec else ""))
    rep.analysed(*e.seen)
    rep.count("errors injected", n_faults, 400)


def data_qubits(e, code):
    """Physical qubits per logical one, as declared by the scheme."""
    it = cpp.Interp(e.p)
    qcmodel.install(it)
    c = build(circuit(1, [("I", 0)]))
    try:
        o = it.construct(f"ecc::{code}", [Ptr(c), 0])
        return len(rv(it.run(o, "getDataQubits")).c)
    except (Undecided, CppThrow):
        return {"Q3Shor": 3, "Q5Laflamme": 5, "Q7Steane": 7, "Q9Shor": 9, "Q9Surface": 9, "Q18Surface": 36}[code]
