"""Dataflow of stabilizer states through circuits with measurements and classically controlled Paulis.

The state set at a point is held as groups: one table of generators (shared), and per branch the signs of the generators,
the values of the live classical bits and a tag. All outcomes of a random measurement are followed; equal branches merge."""
from __future__ import annotations


class NotClifford(Exception):
    pass


class TooMany(Exception):
    pass


def par(x):
    return bin(x).count("1") & 1


class Table:
    """Rows: destabilizers 0..n-1 (no sign), stabilizers n..2n-1; per qubit one column of X and of Z bits over the rows."""

    def __init__(self, n):
        self.n = n
        self.x = [1 << q for q in range(n)]
        self.z = [1 << (n + q) for q in range(n)]
        self.smask = ((1 << n) - 1) << n

    def copy(self):
        t = Table.__new__(Table)
        t.n, t.x, t.z, t.smask = self.n, list(self.x), list(self.z), self.smask
        return t

    def key(self):
        return tuple(self.x), tuple(self.z)

    # sign masks (bit r: the sign of row r flips), all rows

    def gate(self, g, q, c=None):
        return self.gate_all(g, q, c) & self.smask

    def gate_all(self, g, q, c=None):
        x, z = self.x, self.z
        if c is None:
            if g == "I":
                return 0
            if g == "X":
                return z[q]
            if g == "Z":
                return x[q]
            if g == "Y":
                return x[q] ^ z[q]
            if g == "H":
                r = x[q] & z[q]
                x[q], z[q] = z[q], x[q]
                return r
            if g == "S":
                r = x[q] & z[q]
                z[q] ^= x[q]
                return r
            if g == "Sdg":
                r = x[q] & ~z[q]
                z[q] ^= x[q]
                return r
            if g in ("V", "SX"):  # sqrt(X): Z -> -Y
                r = z[q] & ~x[q]
                x[q] ^= z[q]
                return r
            if g in ("Vdg", "SXdg"):
                r = z[q] & x[q]
                x[q] ^= z[q]
                return r
            raise NotClifford(g)
        if g == "X":
            r = x[c] & z[q] & ~(x[q] ^ z[c])
            x[q] ^= x[c]
            z[c] ^= z[q]
            return r
        if g == "Z":
            r = self.gate("H", q)
            r ^= self.gate("X", q, c)
            return r ^ self.gate("H", q)
        if g == "Y":
            r = self.gate("Sdg", q)
            r ^= self.gate("X", q, c)
            return r ^ self.gate("S", q)
        raise NotClifford("C" + g)

    def swap(self, a, b):
        self.x[a], self.x[b] = self.x[b], self.x[a]
        self.z[a], self.z[b] = self.z[b], self.z[a]

    def mul_into(self, p, rows):
        """Multiply row p into every row of the mask; returns (constant sign flips, as a mask over rows); the sign of row p adds to them."""
        c1 = c2 = 0  # two bit planes of the phase exponent (power of i) per row
        bit = 1 << p
        for q in range(self.n):
            xp, zp = bool(self.x[q] & bit), bool(self.z[q] & bit)
            if not (xp or zp):
                continue
            X, Z = self.x[q] & rows, self.z[q] & rows
            # phase of (row p at q) * (row at q): +i or -i
            if xp and zp:  # Y*X = -iZ, Y*Z = iX
                plus, minus = Z & ~X, X & ~Z
            elif xp:  # X*Y = iZ, X*Z = -iY
                plus, minus = X & Z, Z & ~X
            else:  # Z*X = iY, Z*Y = -iX
                plus, minus = X & ~Z, X & Z
            # add one where plus, three where minus
            carry = c1 & plus
            c1 ^= plus
            c2 ^= carry
            carry = c1 & minus
            c1 ^= minus
            c2 ^= carry
            c2 ^= minus
            if xp:
                self.x[q] ^= rows
            if zp:
                self.z[q] ^= rows
        return c2


class Group:
    def __init__(self, tab, branches):
        self.t, self.b = tab, branches  # branches: set of (tag, signs, bits)


class Sim:
    """ops: list of operations of qcmodel; live(i) -> mask of classical bits needed after operation i."""

    def __init__(self, n, limit=6000):
        self.n, self.limit = n, limit
        self.groups = [Group(Table(n), {(0, 0, 0)})]

    # -- helpers

    def flip(self, g, mask):
        if mask:
            g.b = {(t, s ^ mask, c) for t, s, c in g.b}

    def paulis(self, faults):
        """Add branches: faults is {tag: [(pauli, qubit), ...]} for branches with tag 0."""
        for g in self.groups:
            out = set(g.b)
            for tag, ps in faults.items():
                m = 0
                for p, q in ps:
                    m ^= g.t.gate(p, q)
                out |= {(tag, s ^ m, c) for t, s, c in g.b if t == 0}
            g.b = out
        self.check()

    def check(self):
        if sum(len(g.b) for g in self.groups) > self.limit:
            raise TooMany

    def measured(self, g, q):
        """Project on Z of q. Returns f(signs) -> outcome; random outcomes double the branches: then the list of branches carries them."""
        t = g.t
        n = t.n
        col = t.x[q]
        st = col & t.smask
        if st:
            p = (st & -st).bit_length() - 1
            rows = col & ~(1 << p)
            rows &= ~(1 << (p - n))
            const = t.mul_into(p, rows)
            # the destabilizer of p becomes the old row p, row p becomes Z_q
            d = 1 << (p - n)
            b = 1 << p
            for k in range(n):
                for cols in (t.x, t.z):
                    v = cols[k]
                    v = v | d if v & b else v & ~d
                    cols[k] = v & ~b
            t.z[q] |= b
            flip0 = const & t.smask
            flip1 = rows & t.smask
            nb = set()
            for tag, s, c in g.b:
                s2 = s ^ flip0 ^ (flip1 if s & b else 0)
                nb.add((tag, s2 & ~b, c, 0))
                nb.add((tag, s2 | b, c, 1))
            return nb
        d = col & ((1 << n) - 1)
        rows = d << n
        const = self.product_sign(t, rows)
        return {(tag, s, c, const ^ par(s & rows)) for tag, s, c in g.b}

    @staticmethod
    def product_sign(t, rows):
        """Sign (apart from those of the rows) of the product of the rows in the mask; the product is +-Z_q."""
        ph = 0
        px = [0] * t.n
        pz = [0] * t.n
        while rows:
            low = rows & -rows
            rows ^= low
            for q in range(t.n):
                x1, z1 = bool(t.x[q] & low), bool(t.z[q] & low)
                if not (x1 or z1):
                    continue
                x2, z2 = px[q], pz[q]
                # row times accumulated
                if x1 and z1:
                    ph += int(z2) - int(x2)
                elif x1:
                    ph += int(z2) * (2 * int(x2) - 1)
                else:
                    ph += int(x2) * (1 - 2 * int(z2))
                px[q], pz[q] = x2 ^ x1, z2 ^ z1
        return (ph & 3) >> 1

    def determined(self, g, q):
        """Per branch value of Z_q if it is determined in every branch, else None."""
        if g.t.x[q] & g.t.smask:
            return None
        d = g.t.x[q] & ((1 << g.t.n) - 1)
        rows = d << g.t.n
        return rows, self.product_sign(g.t, rows)

    # -- operations

    def apply(self, op, live):
        for g in list(self.groups):
            if g.b:
                self.one(g, op, live)
        if len(self.groups) > 1:
            m = {}
            for g in self.groups:
                if not g.b:
                    continue
                k = g.t.key()
                if k in m:
                    m[k].b |= g.b
                else:
                    m[k] = g
            self.groups = list(m.values())
            if len(self.groups) > 64:
                raise TooMany
        self.check()

    def one(self, g, op, live):
        k = op.kind
        if k == "barrier":
            return
        if k == "gate":
            self.unitary(g, op.name, op.targets, op.controls)
        elif k == "measure":
            for q, b in zip(op.targets, op.classics):
                g.b = {(t, s, ((c & ~(1 << b)) | (r << b)) & live) for t, s, c, r in self.measured(g, q)}
        elif k == "reset":
            for q in op.targets:
                nb = self.measured(g, q)
                m = g.t.gate("X", q)
                g.b = {(t, s ^ (m if r else 0), c & live) for t, s, c, r in nb}
        elif k == "classic":
            st, ln = op.reg
            mask = (1 << ln) - 1
            hit = {x for x in g.b if (x[2] >> st) & mask == op.value}
            rest = {(t, s, c & live) for t, s, c in g.b - hit}
            if hit:
                if len(op.targets) == 1 and not op.controls and op.name in ("X", "Y", "Z", "I"):
                    m = g.t.gate(op.name, op.targets[0])
                    g.b = rest | {(t, s ^ m, c & live) for t, s, c in hit}
                else:
                    g.b = rest
                    n = Group(g.t.copy(), {(t, s, c & live) for t, s, c in hit})
                    self.groups.append(n)
                    self.unitary(n, op.name, op.targets, op.controls)
            else:
                g.b = rest

    def forget(self, q):
        """A qubit no later operation uses is traced out."""
        for g in self.groups:
            nb = self.measured(g, q)
            m = g.t.gate("X", q)
            g.b = {(t, s ^ (m if r else 0), c) for t, s, c, r in nb}
            # the remaining rows do not act on the qubit any more: normalise those that mention its Z
            self.clean(g, q)

    def clean(self, g, q):
        """Z of q is a stabilizer (value zero): multiply it out of the other rows."""
        t = g.t
        n = t.n
        d = t.x[q] & ((1 << n) - 1)
        rows = [r for r in range(n) if d >> r & 1]
        if not rows:
            return
        # make Z_q a single stabilizer row: combine the rows of its product into one of them
        keep = rows[-1]
        for r in rows[:-1]:
            c = t.mul_into(n + r, 1 << (n + keep))
            t.mul_into(keep, 1 << r)
            f, b = c & t.smask, 1 << (n + r)
            k = 1 << (n + keep)
            g.b = {(tg, s ^ f ^ (k if s & b else 0), cc) for tg, s, cc in g.b}
        b = 1 << (n + keep)
        others = t.z[q] & t.smask & ~b
        if others:
            c = t.mul_into(n + keep, others)
            for r in range(n):
                if others >> (n + r) & 1:
                    t.mul_into(r, 1 << keep)
            f = c & t.smask
            g.b = {(tg, s ^ f ^ (others if s & b else 0), cc) for tg, s, cc in g.b}

    def unitary(self, g, name, targets, controls):
        if name == "Barrier":
            return
        if name == "SWAP" and not controls:
            g.t.swap(*targets)
            return
        if name in ("T", "Tdg"):
            # decided in rules/ecc.py: exact for gates that are diagonal phase rotations
            name = "S" if name == "T" else "Sdg"
        neg = [q for q, pos in controls if not pos]
        for q in neg:
            self.flip(g, g.t.gate("X", q))
        cs = [q for q, _ in controls]
        for tq in targets:
            self.controlled(g, name, tq, list(cs))
        for h in [x for x in self.groups if x is g or getattr(x, "src", None) is g]:
            for q in neg:
                self.flip(h, h.t.gate("X", q))
            h.src = None

    def controlled(self, g, name, tq, cs):
        if not cs:
            self.flip(g, g.t.gate(name, tq))
            return
        if len(cs) == 1 and name in ("X", "Y", "Z"):
            self.flip(g, g.t.gate(name, tq, cs[0]))
            return
        # a control (or, for phase gates, target) with a determined value
        for c in cs:
            d = self.determined(g, c)
            if d is None:
                continue
            rows, const = d
            on = {b for b in g.b if const ^ par(b[1] & rows)}
            off = g.b - on
            rest = [x for x in cs if x != c]
            if not on:
                return
            if not off:
                self.controlled(g, name, tq, rest)
                return
            if not rest and name in ("X", "Y", "Z"):
                m = g.t.gate(name, tq)
                g.b = off | {(t, s ^ m, k) for t, s, k in on}
                return
            n = Group(g.t.copy(), on)
            n.src = g
            g.b = off
            self.groups.append(n)
            self.controlled(n, name, tq, rest)
            return
        if name == "X":
            # the target may be an eigenstate of X: the gate then acts on the controls alone
            g.t.gate("H", tq)
            d = self.determined(g, tq)
            g.t.gate("H", tq)
        raise NotClifford("C" * len(cs) + name)


def liveness(ops, keep):
    """Mask of classical bits that are still needed after each operation."""
    live = keep
    out = [0] * len(ops)
    for i in range(len(ops) - 1, -1, -1):
        out[i] = live
        o = ops[i]
        if o.kind == "measure":
            for b in o.classics:
                live &= ~(1 << b)
        elif o.kind == "classic":
            live |= ((1 << o.reg[1]) - 1) << o.reg[0]
    return out


def run(n, ops, keep, faults=None, limit=6000):
    """faults: {position: {tag: [(pauli, qubit)]}}, before the operation at the position. Returns {tag: set of values of the kept bits}."""
    s = Sim(n, limit)
    lv = liveness(ops, keep)
    last = {}
    for i, o in enumerate(ops):
        for q in o.qubits():
            last[q] = i
    dead = {}
    for q, i in last.items():
        dead.setdefault(i, []).append(q)
    for i, o in enumerate(ops):
        if faults and i in faults:
            s.paulis(faults[i])
        s.apply(o, lv[i])
        if o.kind in ("measure", "gate", "classic"):
            for q in dead.get(i, ()):
                s.forget(q)
    if faults and len(ops) in faults:
        s.paulis(faults[len(ops)])
    out = {}
    for g in s.groups:
        for t, _s, c in g.b:
            out.setdefault(t, set()).add(c & keep)
    return out
