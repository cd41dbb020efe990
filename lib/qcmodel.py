"""Model of the mqt-core circuit classes for cpp.py: a circuit is the list of operations appended to it."""
from __future__ import annotations

from cpp import Cell, CppThrow, Enum, Ext, Iter, Map, Obj, Ptr, Set, Undecided, Vec, hk, pair, rv
from cpplib import idx

SINGLE = {"i": "I", "x": "X", "y": "Y", "z": "Z", "h": "H", "s": "S", "sdg": "Sdg", "t": "T", "tdg": "Tdg", "v": "V", "vdg": "Vdg", "sx": "SX", "sxdg": "SXdg"}
ERR = "qc::QFRException"


def optype(n):
    return Enum("qc::OpType", n)


def control(q, pos=True):
    return Obj("qc::Control", {"qubit": Cell(q), "type": Cell(Enum("qc::Control::Type", "Pos" if pos else "Neg", 1 if pos else 0))})


def as_control(v):
    v = rv(v)
    if isinstance(v, Obj) and v.cls.endswith("Control"):
        t = v.f["type"].v
        return idx(v.f["qubit"]), not (isinstance(t, Enum) and t.n == "Neg")
    return idx(v), True


def as_controls(v):
    v = rv(v)
    if isinstance(v, Set):
        return tuple(sorted(as_control(x) for x in v.d.values()))
    if isinstance(v, Vec):
        return tuple(sorted({as_control(c) for c in v.c}))
    return (as_control(v),)


def is_controls(v):
    v = rv(v)
    return isinstance(v, Set) or (isinstance(v, Obj) and v.cls.endswith("Control"))


def targets(v):
    v = rv(v)
    return tuple(idx(c) for c in v.c) if isinstance(v, Vec) else (idx(v),)


class Op(Ext):
    """kind: gate | measure | reset | barrier | classic"""

    cls = "qc::Operation"

    def __init__(self, kind, name, targets=(), controls=(), classics=(), reg=None, value=None, params=()):
        self.kind, self.name, self.targets, self.controls = kind, name, tuple(targets), tuple(controls)
        self.classics, self.reg, self.value, self.params = tuple(classics), reg, value, params

    def __repr__(self):
        s = f"{self.name}{list(self.targets)}"
        if self.controls:
            s += f" ctrl {[q if p else -q for q, p in self.controls]}"
        if self.classics:
            s += f" -> {list(self.classics)}"
        if self.reg is not None:
            s += f" if c[{self.reg[0]}:{self.reg[0] + self.reg[1]}]=={self.value}"
        return s

    def isa(self, t):
        t = t.split("::")[-1]
        k = {"gate": "StandardOperation", "barrier": "StandardOperation", "measure": "NonUnitaryOperation", "reset": "NonUnitaryOperation", "classic": "ClassicControlledOperation"}[self.kind]
        return t in (k, "Operation")

    def copy(self):
        return Op(self.kind, self.name, self.targets, self.controls, self.classics, self.reg, self.value, self.params)

    def method(self, it, name, a):
        if name == "getType":
            return optype("ClassicControlled" if self.kind == "classic" else self.name)
        if name == "getTargets":
            return Vec([Cell(t) for t in self.targets], "qc::Qubit")
        if name == "getControls":
            return Set({hk(c): c for c in (control(q, p) for q, p in self.controls)}, "qc::Control")
        if name == "getNcontrols":
            return len(self.controls)
        if name == "getNtargets":
            return len(self.targets)
        if name in ("isControlled",):
            return bool(self.controls)
        if name == "getClassics":
            return Vec([Cell(t) for t in self.classics], "qc::Bit")
        if name == "getNclassics":
            return len(self.classics)
        if name == "clone":
            return Ptr(self.copy())
        if name in ("isUnitary", "isStandardOperation"):
            return self.kind in ("gate", "barrier")
        if name == "isNonUnitaryOperation":
            return self.kind in ("measure", "reset")
        if name == "isClassicControlledOperation":
            return self.kind == "classic"
        if name == "getNqubits":
            return len(self.targets) + len(self.controls)
        if name == "getUsedQubits":
            return Set({q: q for q in self.qubits()}, "qc::Qubit")
        if name == "actsOn":
            return idx(a[0]) in self.qubits()
        if name == "getParameter":
            return Vec([Cell(float(p)) for p in self.params], "double")
        raise Undecided(f"Operation::{name}")

    def qubits(self):
        return set(self.targets) | {q for q, _ in self.controls}


class Circuit(Ext):
    cls = "qc::QuantumComputation"

    def __init__(self):
        self.nq = 0
        self.layout = {}  # physical -> logical
        self.nc = 0
        self.cregs = []  # (name, start, size), in order of their creation
        self.qregs = []
        self.ops = []
        self.fetched = []  # for iterated circuits: callback per operation

    def isa(self, t):
        return t.split("::")[-1] == "QuantumComputation"

    def elements(self):
        for i, o in enumerate(self.ops):
            for f in self.fetched:
                f(i)
            yield Cell(Ptr(o))
        for f in self.fetched:
            f(len(self.ops))

    # -- construction, also used by the rules

    def creg(self, n, name):
        if any(r[0] == name for r in self.cregs):
            raise CppThrow(ERR, f"classical register {name} exists")
        if n == 0:
            raise CppThrow(ERR, "classical register without bits")
        self.cregs.append((name, self.nc, n))
        self.nc += n

    def qreg(self, n):
        for i in range(n):
            self.layout[self.nq + i] = self.nq + i
        self.nq += n

    def check(self, *qs):
        for q in qs:
            if q not in self.layout:
                raise CppThrow(ERR, f"qubit {q} is outside the circuit")

    def add(self, op, check=True):
        if check:
            self.check(*op.targets, *(q for q, _ in op.controls))
            if set(op.targets) & {q for q, _ in op.controls}:
                raise CppThrow(ERR, "control equals target")
        self.ops.append(op)

    def g(self, name, *t, c=()):
        self.add(Op("gate", name, t, tuple((q, True) for q in c)))
        return self

    def m(self, q, b):
        self.check(q)
        if b >= self.nc:
            raise CppThrow(ERR, f"classical bit {b} is outside the circuit")
        self.add(Op("measure", "Measure", (q,), classics=(b,)))
        return self

    def idle(self, q):
        return not any(q in o.qubits() for o in self.ops)

    def drop(self, q):
        if q not in self.layout:
            raise CppThrow(ERR, f"qubit {q} is outside the circuit")
        del self.layout[q]
        self.nq -= 1

    # -- interface seen by the analysed code

    def method(self, it, name, a):
        v = [rv(x) for x in a]
        if name in ("getNqubits", "getNqubitsWithoutAncillae"):
            return self.nq
        if name == "getNcbits":
            return self.nc
        if name == "getNancillae":
            return 0
        if name in ("getCregs", "getClassicalRegisters"):
            d = {n: (n, Cell(pair(s, k))) for n, s, k in self.cregs}
            return Map(d, ["std::string", "std::pair<unsigned long, unsigned long>"], greater=True)
        if name == "getClassicalRegister":
            b = idx(v[0])
            for n, s, k in self.cregs:
                if s <= b < s + k:
                    return n
            raise CppThrow(ERR, f"classical bit {b} not found in any register")
        if name == "getClassicalRegisterAndIndex":
            b = idx(v[0])
            for n, s, k in self.cregs:
                if s <= b < s + k:
                    return pair(n, b - s)
            raise CppThrow(ERR, f"classical bit {b} not found in any register")
        if name == "getNops" or name == "size":
            return len(self.ops)
        if name in ("getNindividualOps",):
            return len(self.ops)
        if name == "empty":
            return not self.ops
        if name == "at":
            if not 0 <= idx(v[0]) < len(self.ops):
                raise CppThrow("std::out_of_range", "operation index")
            return Ptr(self.ops[idx(v[0])])
        if name == "isIdleQubit":
            return self.idle(idx(v[0]))
        if name == "removeQubit":
            self.drop(idx(v[0]))
            return pair(idx(v[0]), None)
        if name == "stripIdleQubits":
            force = bool(v[0]) if v else False
            reduce = v[1] if len(v) > 1 else True
            if force:
                for q in sorted(self.layout, reverse=True):
                    if self.idle(q):
                        self.drop(q)
            elif reduce:
                pass
            return None
        if name == "addQubitRegister":
            self.qreg(idx(v[0]))
            return None
        if name == "addClassicalRegister":
            self.creg(idx(v[0]), v[1] if len(v) > 1 else "c")
            return None
        if name == "reset":
            for q in targets(v[0]):
                self.add(Op("reset", "Reset", (q,)))
            return None
        if name == "barrier":
            qs = targets(v[0]) if v else tuple(sorted(self.layout))
            self.add(Op("barrier", "Barrier", qs))
            return None
        if name == "measure":
            if isinstance(v[1], Obj):
                p = list(v[1].f.values())
                reg, b = p[0].v, idx(p[1])
                r = next((r for r in self.cregs if r[0] == reg), None)
                self.check(idx(v[0]))
                if r is None:
                    raise CppThrow(ERR, f"the classical register {reg} does not exist")
                if b >= r[2]:
                    raise CppThrow(ERR, f"the classical register {reg} is too small ({b} >= {r[2]})")
                self.add(Op("measure", "Measure", (idx(v[0]),), classics=(r[1] + b,)))
                return None
            qs, bs = targets(v[0]), targets(v[1])
            self.check(*qs)
            for b in bs:
                if b >= self.nc:
                    raise CppThrow(ERR, f"classical bit {b} is outside the circuit")
            if len(qs) != len(bs):
                raise CppThrow("std::invalid_argument", "sizes do not match")
            self.add(Op("measure", "Measure", qs, classics=bs))
            return None
        if name == "classicControlled":
            op, t = v[0].n, idx(v[1])
            rest = v[2:]
            ctrl = ()
            if is_controls(rest[0]):
                ctrl = as_controls(rest[0])
                rest = rest[1:]
            elif isinstance(rest[0], int):
                ctrl = ((rest[0], True),)
                rest = rest[1:]
            elif isinstance(rest[0], Vec) and len(rest) > 1 and isinstance(rest[1], Obj):
                ctrl = as_controls(rest[0])
                rest = rest[1:]
            p = list(rest[0].f.values())
            reg = (idx(p[0]), idx(p[1]))
            val = idx(rest[1]) if len(rest) > 1 else 1
            if len(rest) > 2:
                raise Undecided("parameters of a classically controlled operation")
            if reg[0] + reg[1] > self.nc:
                raise CppThrow(ERR, "the controlling register is outside the circuit")
            self.check(t)
            self.add(Op("classic", op, (t,), ctrl, reg=reg, value=val))
            return None
        if name == "swap":
            self.add(Op("gate", "SWAP", (idx(v[0]), idx(v[1]))))
            return None
        if name in SINGLE:
            self.add(Op("gate", SINGLE[name], (idx(v[0]),)))
            return None
        if name[:1] == "c" and name[1:] in SINGLE:
            self.add(Op("gate", SINGLE[name[1:]], (idx(v[1]),), (as_control(v[0]),)))
            return None
        if name[:2] == "mc" and name[2:] in SINGLE:
            self.add(Op("gate", SINGLE[name[2:]], (idx(v[1]),), as_controls(v[0])))
            return None
        if name in ("emplace_back", "push_back"):
            x = v[0]
            o = rv(x.to) if isinstance(x, Ptr) else x
            if isinstance(o, Op):
                # appended without a range check, as the class does
                self.ops.append(o.copy())
                return None
            if isinstance(v[-1], Enum):
                ctrl, ts = ((), v[0]) if len(v) == 2 else (v[0], v[1])
                ctrl = as_controls(ctrl) if len(v) == 3 else ()
                op = Op("gate", v[-1].n, targets(ts), ctrl)
                self.ops.append(op)
                return None
            if len(v) == 2 and isinstance(v[0], (int, Vec)) and isinstance(v[1], (int, Vec)):
                self.ops.append(Op("measure", "Measure", targets(v[0]), classics=targets(v[1])))
                return None
            raise Undecided("appended operation")
        if name in ("begin", "cbegin", "end", "cend", "rbegin", "rend"):
            c = Vec([Cell(Ptr(o)) for o in self.ops])
            raise Undecided("iterators of a circuit")
        if name in ("setName", "setFilename", "reserve"):
            return None
        raise Undecided(f"QuantumComputation::{name}")


def new_control(it, a):
    v = [rv(x) for x in a]
    if not v:
        return control(0)
    q, p = as_control(v[0])
    if len(v) > 1:
        p = v[1].n != "Neg"
    return control(q, p)


def install(it):
    for p in ("", "qc::"):
        it.models[p + "Control"] = new_control
        it.models[p + "OpType"] = lambda i, a: rv(a[0]) if a else optype("None")
        it.models[p + "QuantumComputation"] = lambda i, a: Circuit()
        it.models[p + "Controls"] = lambda i, a: i.make("std::set<qc::Control>", a)
        it.models[p + "Targets"] = lambda i, a: i.make("std::vector<unsigned int>", a)
        it.models[p + "StandardOperation"] = standard
        it.models[p + "NonUnitaryOperation"] = nonunitary


def standard(it, a):
    v = [rv(x) for x in a]
    if isinstance(v[-1], Enum):
        if len(v) == 2:
            return Op("gate", v[1].n, targets(v[0]))
        return Op("gate", v[2].n, targets(v[1]), as_controls(v[0]))
    raise Undecided("StandardOperation")


def nonunitary(it, a):
    v = [rv(x) for x in a]
    if len(v) == 2 and not isinstance(v[1], Enum):
        return Op("measure", "Measure", targets(v[0]), classics=targets(v[1]))
    if len(v) == 1 or v[1].n == "Reset":
        return Op("reset", "Reset", targets(v[0]))
    raise Undecided("NonUnitaryOperation")
