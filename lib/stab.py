"""Pauli dataflow over an extracted Clifford gate sequence.

A circuit is a list of (name, wires, cbit). Everything is linear over GF(2), so the
effect of the circuit on Pauli operators is computed once per generator."""
from __future__ import annotations

ONE = {"h", "x", "y", "z", "s", "sdg", "reset", "measure", "measure_x", "id"}
TWO = {"cx", "cz", "cy", "swap"}


def propagate(gates, x, z, faults=None):
    """Push the Pauli given by the wire sets x, z through the gates.

    faults: {gate index: [(wire, has_x, has_z)]} applied behind that gate.
    Returns (x, z, flipped classical bits)."""
    x, z = set(x), set(z)
    flips = {}
    for i, (name, w, c) in enumerate(gates):
        if not w:
            continue
        a = w[0]
        if name == "h":
            _swap(x, z, a)
        elif name in ("s", "sdg"):
            if a in x:
                z ^= {a}
        elif name in ("x", "y", "z", "id"):
            pass
        elif name == "cx":
            b = w[1]
            if a in x:
                x ^= {b}
            if b in z:
                z ^= {a}
        elif name == "cz":
            b = w[1]
            if a in x:
                z ^= {b}
            if b in x:
                z ^= {a}
        elif name == "cy":
            b = w[1]
            if (b in x) != (b in z):
                z ^= {a}
            if a in x:
                x ^= {b}
                z ^= {b}
        elif name == "swap":
            b = w[1]
            for s in (x, z):
                ia, ib = a in s, b in s
                if ia != ib:
                    s ^= {a, b}
        elif name == "measure":
            flips[c] = a in x
            z -= {a}
        elif name == "measure_x":
            flips[c] = a in z
            x -= {a}
        elif name == "reset":
            x -= {a}
            z -= {a}
        else:
            raise ValueError(name)
        if faults and i in faults:
            for q, fx, fz in faults[i]:
                if fx:
                    x ^= {q}
                if fz:
                    z ^= {q}
    return x, z, {c for c, f in flips.items() if f}


def _swap(x, z, a):
    ix, iz = a in x, a in z
    if ix != iz:
        x ^= {a}
        z ^= {a}


def observable(gates, k):
    """Heisenberg picture: what the measurement at position k reads, as (x wires, z wires, sign, ok).

    ok is False when the pulled-back operator anticommutes with an earlier measurement or
    reset, i.e. the outcome is random."""
    name, w, _c = gates[k]
    x, z, sign, ok = (set(), {w[0]}, 0, True) if name == "measure" else ({w[0]}, set(), 0, True)
    for i in range(k - 1, -1, -1):
        name, w, _c = gates[i]
        if not w:
            continue
        a = w[0]
        if name == "h":
            if a in x and a in z:
                sign ^= 1
            _swap(x, z, a)
        elif name in ("s", "sdg"):
            # s^dagger X s = -Y ... only the sign differs between s and sdg
            if a in x:
                if (name == "s") != (a in z):
                    sign ^= 1
                z ^= {a}
        elif name == "x":
            sign ^= a in z
        elif name == "z":
            sign ^= a in x
        elif name == "y":
            sign ^= (a in x) != (a in z)
        elif name == "id":
            pass
        elif name == "cx":
            b = w[1]
            if a in x and b in z and ((b in x) == (a in z)):
                sign ^= 1
            if a in x:
                x ^= {b}
            if b in z:
                z ^= {a}
        elif name == "cz":
            b = w[1]
            if a in x and b in x and ((a in z) != (b in z)):
                sign ^= 1
            if a in x:
                z ^= {b}
            if b in x:
                z ^= {a}
        elif name == "swap":
            b = w[1]
            for s in (x, z):
                ia, ib = a in s, b in s
                if ia != ib:
                    s ^= {a, b}
        elif name == "measure":
            if a in x:
                ok = False
                x -= {a}
                z -= {a}
        elif name == "measure_x":
            if a in z:
                ok = False
                x -= {a}
                z -= {a}
        elif name == "reset":
            if a in x:
                ok = False
            x -= {a}
            z -= {a}
        else:
            raise ValueError(name)
    return x, z, int(sign), ok
