"""P27: the binding that maps circuits, and the Qiskit command line around it."""
from __future__ import annotations

import os
import re

import cpp
from cpp import Cell, CppThrow, Enum, Ext, Obj, Ptr, Stream, Undecided, rv
from pymodel import AnalysisBroken
from report import REPO

SCHEMES = ["Id", "Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"]
INC = ["-I/opt/venv/lib/python3.12/site-packages/pybind11/include", "-I/usr/include/python3.12"]


class Py(Ext):
    """A Python object handed to the binding."""

    cls = "py::object"

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value

    def method(self, it, name, args):
        v = [rv(a) for a in args]
        if name == "cast" and not v:
            return self.value
        if name == "attr" and len(v) == 1 and isinstance(v[0], str):
            return Py("attr", (self.value, v[0]))
        if name == "operator=" and self.kind == "arg" and len(v) == 1:
            return Py("argument", (self.value, v[0]))
        if name in ("operator object", "operator handle", "operator str"):
            return self
        raise Undecided(f"{name} of a Python object")


class Qc(Ext):
    cls = "qc::QuantumComputation"

    def __init__(self, log):
        self.log = log
        self.src = []

    def method(self, it, name, args):
        v = [rv(a) for a in args]
        if name == "import" and v and isinstance(v[0], str):
            self.src.append(("file", v[0]))
            return None
        if name == "dump" and len(v) == 2 and isinstance(v[0], Stream):
            v[0].s += repr((self.src, v[1].n.split("::")[-1] if isinstance(v[1], Enum) else v[1]))
            return None
        raise Undecided(f"{name} of a circuit")


class Mapper(Ext):
    cls = "ecc::Ecc"

    def __init__(self, name, qc, freq):
        self.name, self.qc, self.freq = name, qc, freq

    def method(self, it, name, args):
        if name == "apply" and not args:
            q = Qc(None)
            q.src = [*self.qc.src, (self.name, self.freq)]
            return Ptr(q)
        raise Undecided(f"{name} of a scheme")


def target(x):
    x = rv(x)
    return rv(x.to) if isinstance(x, Ptr) else x


def mapper(name):
    def make(it, args):
        if len(args) != 2:
            raise Undecided("construction of a scheme")
        return Mapper(name, target(args[0]), rv(args[1]))

    return make


def install(it):
    for s in SCHEMES:
        it.models[f"ecc::{s}"] = mapper(s)
    it.models["qc::QuantumComputation"] = lambda i, a: Qc(None)
    for t in ("py::object", "pybind11::object", "pybind11::str", "pybind11::module_", "pybind11::handle"):
        it.models[t] = lambda i, a: rv(a[0]) if a else Py("none")

    def dictionary(i, a):
        v = [rv(x) for x in a]
        if len(v) == 1 and isinstance(v[0], Py) and v[0].kind == "dict":
            return v[0]
        if not all(isinstance(x, Py) and x.kind == "argument" for x in v):
            raise Undecided("a dictionary")
        return Py("dict", [x.value for x in v])

    it.models["pybind11::dict"] = it.models["py::dict"] = dictionary
    it.functions['operator""_a'] = lambda i, a, n: Py("arg", rv(a[0]))

    def isinst(i, a, n):
        x = rv(a[0])
        if not isinstance(x, Py):
            return NotImplemented
        if len(a) == 1:
            return x.kind == "str"
        t = rv(a[1])
        return x.kind == "circuit" and isinstance(t, Py) and t.value == ("qiskit", "QuantumCircuit")

    def load(i, a, n):
        if len(a) == 1 and isinstance(rv(a[0]), str):
            return Py("module", rv(a[0]))
        if len(a) == 2 and isinstance(target(a[0]), Qc):
            target(a[0]).src.append(("circuit", rv(a[1]).value))
            return None
        return NotImplemented

    it.functions["isinstance"] = isinst
    it.functions["import"] = load
    it.functions["import_"] = load
    return it


def binding(rep):
    import binding as table

    with open(os.path.join(REPO, table.SRC), encoding="utf-8") as fh:
        known = ["applyEcc"] if "applyEcc" in fh.read() else []
    s = table.Session(rep, [(table.SRC, [table.INIT, *known])], (), light=True)
    if s.broken and s.broken[0] == "throw":
        raise AnalysisBroken(s.broken[1])
    call = s.m.names.get("apply_ecc")
    if not isinstance(call, list):
        fs = s.p.funcs.get(("", "applyEcc"), [])
        if len(fs) != 1 and not s.broken:
            raise AnalysisBroken("apply_ecc not found")
        if len(fs) != 1:
            rep.judge(None, "apply-ecc", "apply_ecc", "src/python/bindings.cpp", "", s.broken[1])
            return
        call = None
    n = 0
    for given in (Py("str", "dir/file.qasm"), Py("circuit", "circ")):
        for name in (*SCHEMES, "", "none", "q3shor", "Q3", "Q3Shor "):
            for freq in (1, 7, 100) if name in SCHEMES else (100,):
                n += 1
                what = f"apply_ecc({'a path' if given.kind == 'str' else 'a circuit'}, {name!r}, {freq})"
                it = s.world()
                try:
                    r = rv(s.overloads(it, call, [given, name, freq], {}) if call else it.call(fs[0], [given, name, freq], None))
                except table.PyError as e:
                    rep.judge(False, "apply-ecc", what, "src/python/bindings.cpp", str(e), None)
                    continue
                except CppThrow as e:
                    rep.judge(name not in SCHEMES, "apply-ecc", what, "src/python/bindings.cpp", f"raises {e.kind}: {e.what}"[:200], "refused")
                    continue
                except (Undecided, RecursionError) as e:
                    rep.judge(None, "apply-ecc", what, "src/python/bindings.cpp", "", str(e))
                    continue
                got = dict(r.value).get("circ") if isinstance(r, Py) and r.kind == "dict" else None
                if name not in SCHEMES:
                    rep.judge(False, "apply-ecc", what, "src/python/bindings.cpp", "an unknown scheme is accepted", "")
                elif not isinstance(got, str):
                    rep.judge(None, "apply-ecc", what, "src/python/bindings.cpp", "", "no text under circ")
                else:
                    want = repr(([("file" if given.kind == "str" else "circuit", given.value), (name, freq)], "OpenQASM2"))
                    rep.judge(got == want, "apply-ecc", what, "src/python/bindings.cpp", f"returns {got}, not {want}", got)
    rep.count("apply_ecc calls", n, 40)


# ---------------------------------------------------------------- the exported circuit


EXPORTS = [
    (3, (("c", 3),), (("M", 0, 0), ("M", 1, 1), ("M", 2, 2))),
    (2, (("a", 1), ("b", 1)), (("X", 0), ("M", 0, 0), ("X", 1), ("M", 1, 1))),
    (2, (("z", 2), ("a", 1), ("m", 1)), (("X", 0), ("Z", 1), ("M", 1, 3), ("M", 0, 0))),
    (1, (), (("X", 0), ("Z", 0))),
    (1, (("out", 4),), (("X", 0), ("Y", 0), ("M", 0, 2), ("X", 0), ("M", 0, 0))),
]


def exported(m, regs):
    """Whether an OpenQASM 2 dump of the mapped circuit says what the circuit says; what does not, else."""
    spans = {(st, k): name for name, st, k in m.cregs}
    order = sorted(m.cregs, key=lambda r: r[1])
    if [(r[0], r[2]) for r in order[: len(regs)]] != [(r[0], r[2]) for r in sorted(regs, key=lambda r: r[1])]:
        return f"the classical registers of the circuit are not the first ones: {[r[0] for r in order]}"
    for o in m.ops:
        if o.kind != "classic":
            continue
        if tuple(o.reg) not in spans:
            return f"{o} is conditioned on a part of a register, which OpenQASM 2 cannot say"
        if not 0 <= o.value < 1 << o.reg[1]:
            return f"{o} compares a register of {o.reg[1]} bits with {o.value}"
        if any(not pos for _, pos in o.controls):
            return f"{o} is conditioned and has a negative control, which is written as three gates"
    return None


def export(rep):
    from ecc import ALL, Ecc, show

    e = Ecc(rep)
    n = 0
    for code in ALL:
        for spec in EXPORTS:
            for freq in (1, 2, 100):
                n += 1
                r = e.mapped(code, spec, freq)
                what = f"{code}, frequency {freq}: {show(spec)} with registers " + ", ".join(f"{a}[{k}]" for a, k in spec[1])
                if r[0] != "ok":
                    rep.judge(None if r[0] in ("undecided", "refused") else False, "mapped-export", what, e.where(code), f"raises {r[1:]}", str(r[:2]))
                    continue
                msg = exported(r[1], r[4])
                rep.judge(msg is None, "mapped-export", what, e.where(code), msg or "", "written as it is")
    rep.count("exported circuits", n, 90)
    rep.analysed(*sorted(e.seen))


# ---------------------------------------------------------------- the command line


from common import *  # noqa: E402,F403
from ft import K, opt  # noqa: E402
from lights import Argparse, call1  # noqa: E402
from pyabs import MODEL_VALUES, HObj, TooBig  # noqa: E402
from analog import snap  # noqa: E402
from results import Chain, Files  # noqa: E402  # noqa: E402
from terms import NONE, T, cval, is_const  # noqa: E402

WRAP = "ecc_qiskit_wrapper"
ONEQ = ("u1", "u2", "u3", "h", "id", "t", "tdg", "sdg", "rx", "ry", "rz", "s")


def plain(v):
    """A term of constants, tuples and lists as Python data; None if it is something else."""
    if is_const(v):
        return ("const", cval(v))
    if v.op in ("tuple", "list"):
        xs = [plain(x) for x in v.args]
        return None if None in xs else ("seq", tuple(x[1] for x in xs))
    return None


class Qiskit:
    """Circuits, noise models and simulations of Qiskit as terms; what is done with them is logged in order."""

    KEY = T("qiskit")

    def __init__(self, gates, clregs, counts=None, status="COMPLETED", qubits=3):
        self.gates, self.clregs, self.counts, self.status, self.qubits = gates, clregs, counts or {}, status, qubits

    def get(self, st, k, d):
        return st.ov.get((self.KEY, k), d)

    def put(self, st, k, v):
        st.ov = dict(st.ov)
        st.ov[(self.KEY, k)] = v

    def log(self, st, *e):
        self.put(st, "log", (*self.get(st, "log", ()), e))

    def index(self, eng, st, b, i):
        if b.op == "applied" and is_const(i):
            return T("qasm", *b.args) if cval(i) == "circ" else None
        return None

    def circuit(self, st, c):
        """(source, measured): what the circuit term stands for now."""
        return (c.args, self.get(st, c, False))

    def attr(self, eng, st, b, name):
        if b.op == "gate" and name in ("operation", "name"):
            return b if name == "operation" else b.args[0]
        if b.op == "circuit":
            if name == "data" and b.args[0] == K("file"):
                gs = [*self.gates, *(["measure"] * self.qubits if self.get(st, b, False) else [])]
                return eng.new(st, HObj("list", segs=tuple(("item", T("gate", K(g))) for g in gs)))
            if name in ("cregs", "clbits") and name == "cregs" and b.args[0] == K("file"):
                k = self.clregs + (1 if self.get(st, b, False) else 0)
                return eng.new(st, HObj("list", segs=tuple(("item", T("creg", K(i))) for i in range(k))))
            if name == "num_qubits":
                return K(self.qubits)
        if b.op == "result" and name == "status":
            return K(self.status)
        return None

    def builtin(self, eng, st, name, V, kw, node):
        if name == "print":
            if len(V) == 1 and is_const(V[0]):
                self.log(st, "print", cval(V[0]))
            else:
                self.log(st, "print", None)
            return NONE
        return None

    def call(self, eng, st, path, recv, V, kw, node):
        kw = {k: eng.val(st, v) for k, v in kw.items()}
        name = path.split(".")[-1]
        if recv is None:
            if name in ("load", "loads") and "qasm2" in path and len(V) == 1 and not kw:
                if name == "load":
                    self.log(st, "load", plain(V[0]))
                    return T("circuit", K("file"), V[0])
                return T("circuit", K("mapped"), V[0])
            if name == "dump" and "qasm2" in path and len(V) == 2:
                f = V[1]
                self.log(st, "dump", self.circuit(st, V[0]) if V[0].op == "circuit" else None, f)
                return NONE
            if name == "apply_ecc":
                a = dict(zip(("circ", "ecc", "ecc_frequency"), V))
                a.update(kw)
                c = a.get("circ", a.get("circuit"))
                if c is None or c.op != "circuit":
                    raise TooBig("mapped circuit")
                n = a.get("ecc", a.get("ecc_name"))
                return T("applied", T("source", *c.args, K(self.get(st, c, False))), n, a.get("ecc_frequency", K(100)))
            if name == "AerSimulator":
                a = {"method": NONE, "noise_model": NONE, **kw}
                if V or set(a) != {"method", "noise_model"}:
                    raise TooBig("simulator options")
                return T("simulator", a["method"], a["noise_model"])
            if name == "NoiseModel" and not V and not kw:
                k = self.get(st, "models", 0)
                self.put(st, "models", k + 1)
                return T("noise", K(k))
            if name in ("pauli_error", "depolarizing_error", "amplitude_damping_error"):
                if kw:
                    raise TooBig("error options")
                return T("error", K(name), *V)
            return None
        if recv.op == "circuit" and path == ".measure_all" and not V and not kw:
            self.put(st, recv, True)
            self.log(st, "measure_all")
            return NONE
        if recv.op in ("error", "composed", "tensor") and path in (".compose", ".tensor") and len(V) == 1:
            return T("composed" if path == ".compose" else "tensor", recv, V[0])
        if recv.op == "noise" and path == ".add_all_qubit_quantum_error" and len(V) == 2:
            self.put(st, recv, (*self.get(st, recv, ()), (V[0], plain(V[1]))))
            return NONE
        if recv.op == "simulator" and path == ".run" and len(V) == 1:
            if set(kw) - {"shots", "seed_simulator"}:
                raise TooBig("simulation options")
            noise = self.get(st, recv.args[1], ()) if recv.args[1].op == "noise" else recv.args[1]
            self.log(st, "run", recv.args[0], noise, self.circuit(st, V[0]) if V[0].op == "circuit" else None, kw.get("shots", K(1024)), kw.get("seed_simulator", NONE))
            return T("job")
        if recv.op == "job" and path == ".result":
            return T("result")
        if recv.op == "result" and path == ".get_counts" and not V:
            return eng.new(st, HObj("dict", segs=tuple((K(k), K(v)) for k, v in self.counts.items())))
        return None


MODEL_VALUES.update(("error", "composed", "tensor", "noise", "circuit", "applied", "simulator", "job", "result", "gate", "qasm", "creg"))


def channels(t):
    """The channels a composed error applies in turn, or None."""
    if t.op == "composed":
        a, b = channels(t.args[0]), channels(t.args[1])
        return None if a is None or b is None else a + b
    return [t] if t.op == "error" else None


def channel(eng, st, t):
    """(letter, probability) of one channel; None when its arguments are not constants; False for another channel."""
    kind, args = cval(t.args[0]), t.args[1:]
    if kind == "pauli_error" and len(args) == 1:
        x = plain(eng.val(st, snap(eng, st, args[0])))
        if x is None or x[0] != "seq":
            return None
        d = {}
        for e in x[1]:
            if not (isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], str)):
                return None
            d[e[0]] = d.get(e[0], 0) + e[1]
        for letter, pauli in (("B", "X"), ("P", "Z")):
            if set(d) == {pauli, "I"} and abs(d["I"] + d[pauli] - 1) < 1e-12:
                return (letter, d[pauli])
        return False
    if not all(is_const(a) for a in args):
        return None
    if kind == "depolarizing_error" and len(args) == 2:
        return ("D", cval(args[0])) if cval(args[1]) == 1 else False
    if kind == "amplitude_damping_error" and len(args) == 1:
        return ("A", cval(args[0]))
    return None if len(args) != 1 else False


def order(cs):
    """Pauli channels commute with each other: sorted between the dampings."""
    out, part = [], []
    for c in cs:
        if c[0] == "A":
            out += [*sorted(part), c]
            part = []
        else:
            part.append(c)
    return out + sorted(part)


def factors(t):
    if t.op == "tensor":
        return factors(t.args[0]) + factors(t.args[1])
    return [t]


def noise(eng, st, added, letters, p):
    """Whether the noise model attaches the wanted channels to every gate: (True/False/None, what)."""
    want = order([(c, p) for c in letters])
    seen = {}
    for err, names in added:
        if names is None or names[0] not in ("seq", "const"):
            return None, "gate names"
        for g in names[1] if names[0] == "seq" else (names[1],):
            if g in seen:
                return None, "gate named twice"
            seen[g] = err
    for g, n in (*[(g, 1) for g in ONEQ], ("cx", 2), ("swap", 2), ("cswap", 3)):
        if g not in seen:
            return False, f"no error on {g}"
        fs = factors(seen[g])
        if len(fs) != n:
            return False, f"{g} gets an error on {len(fs)} qubits"
        for x in fs:
            cs = channels(x)
            if cs is None:
                return None, "error of " + g
            got = [channel(eng, st, c) for c in cs]
            if None in got:
                return None, "channel of " + g
            if False in got or len(got) != len(want) or any(a[0] != b[0] or abs(a[1] - b[1]) > 1e-12 for a, b in zip(order(got), want)):
                return False, f"{g} gets the channels {order([c or ('?', 0) for c in got])}, not {want}"
    return True, ""


DEFAULTS = {"-m": "D", "-p": "0.001", "-n": "2000", "-s": "0", "-fs": "stabilizer", "-ecc": "Q7Steane", "-fq": "100"}


def expected(counts, registers):
    d = {}
    for k, v in counts.items():
        k = " ".join(k.split(" ")[-registers:])
        d[k] = d.get(k, 0) + v
    return d


CLI = [
    # options, gates, classical registers, counts, status
    ({}, ["h", "cx", "measure"], 1, {"0 11": 3, "1 11": 2, "0 00": 5, "1 01": 1990}, "COMPLETED"),
    ({"-m": "B", "-p": "0.25", "-n": "8", "-s": "7", "-fs": "statevector", "-ecc": "Q3Shor", "-fq": "5"}, ["x", "measure"], 1, {"1": 6, "0": 2}, "COMPLETED"),
    ({"-m": "PD", "-ecc": "none"}, ["x", "measure", "h"], 1, {"101": 1, "010": 1998, "011": 1}, "COMPLETED"),
    ({"-m": "BPA", "-ecc": "NONE", "-fs": "None", "-p": "1"}, ["measure"], 1, {"1": 2000}, "COMPLETED"),
    ({"-m": "AD", "-ecc": "Q9Surface", "-p": "0.125"}, ["measure"], 1, {"1 1": 2000}, "COMPLETED"),
    ({"-p": "0", "-ecc": "Q18Surface"}, ["measure"], 1, {"0 0 1": 1500, "1 0 1": 500}, "COMPLETED"),
    ({"-p": "-1", "-m": "D"}, ["measure"], 1, {"1": 2000}, "COMPLETED"),
    ({}, ["h", "cx"], 0, {"0 111": 1000, "1 111": 500, "0 000": 500}, "COMPLETED"),
    ({"-ecc": "Q5Laflamme", "-n": "10"}, [], 0, {"000": 10}, "COMPLETED"),
    ({"-n": "4"}, ["measure"], 2, {"0 1 01": 1, "1 1 01": 1, "0 1 11": 1, "0 0 01": 1}, "COMPLETED"),
    ({"-n": "4", "-ecc": "none"}, ["measure"], 3, {"0 1 01": 1, "1 1 01": 1, "0 1 11": 1, "0 0 01": 1}, "COMPLETED"),
    ({"-n": "4"}, ["h"], 1, {"0 111 00": 2, "1 111 00": 1, "1 010 00": 1}, "COMPLETED"),
    ({}, ["measure"], 1, {"1": 2000}, "ERROR"),
    ({"-ecc": "none"}, ["measure"], 1, {"1": 2000}, "PARTIAL COMPLETED"),
    ({"-m": "DX"}, ["measure"], 1, {"1": 2000}, "ValueError"),
    ({"-m": "d"}, ["measure"], 1, {"1": 2000}, "ValueError"),
    ({"-e": "out/m.qasm"}, ["measure"], 1, {}, "EXPORT"),
    ({"-e": "x.qasm", "-ecc": "none"}, ["h"], 0, {}, "EXPORT"),
    ({"-e": "x.qasm", "-ecc": "Q9Shor", "-fq": "3"}, [], 1, {}, "EXPORT"),
]


def printed(log):
    """The printed distribution in its order; None when a line about a state cannot be read."""
    out = []
    for e in log:
        if e[0] != "print":
            continue
        if not isinstance(e[1], str):
            return None
        m = re.fullmatch(r"State \|([01 ]*)> probability (\S+)", e[1])
        if m:
            out.append((m[1], float(m[2])))
        elif e[1].startswith("State"):
            return None
    return out


def source(t, gates):
    """(mapping or None, measured by the tool) of a simulated or written circuit."""
    if t is None:
        return None
    args, done = t
    if cval(args[0]) == "file":
        return (None, done) if plain(args[1]) == ("const", "a.qasm") else False
    x = args[1]
    if x.op != "qasm" or x.args[0].op != "source":
        return None
    src, name, freq = x.args
    if cval(src.args[0]) != "file" or plain(src.args[1]) != ("const", "a.qasm") or done:
        return False
    if not is_const(name) or not is_const(freq):
        return None
    return ((cval(name), cval(freq)), cval(src.args[2]))


def wrapper(rep):
    f = fn(WRAP, "main")
    n = 0
    for opts, gates, clregs, counts, status in CLI:
        o = {**DEFAULTS, **opts}
        argv = ["-f", "a.qasm", *[x for kv in opts.items() for x in kv]]
        n += 1
        what = "main(" + " ".join(argv) + ") on a circuit of " + (",".join(gates) or "no gates") + f" with {clregs} registers" + (f", {status}" if status != "COMPLETED" else "")
        q = Qiskit(gates, clregs, counts, status)
        files = Files({"work": {"out": {}}})
        r = call1(rep, f, {}, {}, Chain(Argparse(argv), q, files), "ecc-command-line", what)
        if not r:
            continue
        eng, s = r
        v, msg = outcome(eng, s, q, o, gates, clregs, counts, status)
        rep.judge(v, "ecc-command-line", what, f.where(), msg, msg)
    rep.count("command lines", n, 15)
    stray(rep, f)


def outcome(eng, s, q, o, gates, clregs, counts, status):
    log = q.get(s, "log", ())
    exc = s.exc
    run = [e for e in log if e[0] == "run"]
    if status == "ValueError":
        if exc is None:
            return False, "an unknown error channel is accepted"
        return "ValueError" in str(exc) and not run, f"raises {exc}"
    if status == "EXPORT":
        if exc is not None:
            return False, f"raises {exc}"
        dumped = [e for e in log if e[0] == "dump"]
        if run:
            return False, "simulates although asked to export"
        if len(dumped) != 1:
            return False, f"{len(dumped)} circuits are written"
        c, to = dumped[0][1:]
        path = to.args[0] if to.op in ("file", "path") else to
        if not is_const(path):
            return None, "the path is not a constant"
        if os.path.normpath(os.path.join("/work", str(cval(path)))) != os.path.normpath("/work/" + o["-e"]):
            return False, f"the circuit is written to {cval(path)}"
        if to.op == "file" and "w" not in str(cval(to.args[1])):
            return False, "the file is not opened for writing"
    else:
        if status != "COMPLETED":
            if exc is None:
                return False, f"status {status} is taken for a result"
            return printed(log) == [], f"raises {exc}"
        if exc is not None:
            return False, f"raises {exc}"
        if len(run) != 1:
            return False, f"{len(run)} simulations"
        _, method, added, c, shots, seed = run[0]
        fs = None if o["-fs"].lower() == "none" else o["-fs"]
        for name, got, want in (("method", method, fs), ("shots", shots, int(o["-n"])), ("seed", seed, int(o["-s"]))):
            if not is_const(got):
                return None, name
            if cval(got) != want:
                return False, f"simulated with {name} {cval(got)!r}, not {want!r}"
        p = float(o["-p"])
        if not isinstance(added, tuple):
            if p > 0 or added is not NONE:
                return (False, "simulated without the noise model") if added is NONE else (None, "noise")
        elif p > 0:
            ok, msg = noise(eng, s, added, o["-m"], p)
            if ok is not True:
                return ok, msg
        elif added:
            return False, "noise although the probability is not positive"
    src = source(c, gates)
    if src is None:
        return None, "circuit"
    want = (None if o["-ecc"].lower() == "none" else (o["-ecc"], int(o["-fq"])), "measure" not in gates)
    if src is False or src != want:
        return False, f"the circuit (mapping, measurements added) is {src}, not {want}"
    if status == "EXPORT":
        return True, ""
    got = printed(log)
    if got is None:
        return None, "output"
    shots = int(o["-n"])
    regs = clregs + ("measure" not in gates)
    exp = [(k, v / shots) for k, v in sorted(expected(counts, regs).items())]
    ok = len(got) == len(exp) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-12 for a, b in zip(got, exp))
    return ok, f"printed {got}, the counts give {exp}"


def stray(rep, f):
    """No input file: nothing is loaded."""
    q = Qiskit([], 1)
    r = call1(rep, f, {}, {}, Chain(Argparse(["-m", "B"]), q, Files({"work": {}})), "ecc-command-line", "main() without -f")
    if r:
        exc = r[1].exc
        rep.judge(exc is not None and "SystemExit" in str(exc) and not q.get(r[1], "log", ()), "ecc-command-line", "main() without -f", f.where(), "the input file is not required", "refused")


def p27(rep):
    binding(rep)
    export(rep)
    wrapper(rep)
