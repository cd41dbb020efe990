"""Hash-consed symbolic terms: the abstract values shared by every analysis.

A term is either a constant K(value) or T(op, args).  Integer/array arithmetic is
kept in a polynomial normal form, so that reorderings of sums and products give
the same term.
"""
from __future__ import annotations

_table: dict = {}


class Term:
    __slots__ = ("op", "args", "_leaves", "uid", "__weakref__")

    def __repr__(self):
        return show(self)


_uid = [0]


def _mk(op, args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t._leaves = None
        _uid[0] += 1
        t.uid = _uid[0]
        _table[key] = t
    return t


class _Const:
    """Key wrapper that keeps 1, True and 1.0 apart."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __eq__(self, o):
        return isinstance(o, _Const) and type(o.v) is type(self.v) and o.v == self.v

    def __repr__(self):
        return repr(self.v)


def K(v):
    return _mk("const", (_Const(v),))


def is_const(t):
    return isinstance(t, Term) and t.op == "const"


def cval(t):
    return t.args[0].v


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def Sym(name):
    return _mk("sym", (name,))


def T(op, *args):
    return _mk(op, tuple(args))


def Attr(base, name):
    return _mk("attr", (base, name))


def join(vals):
    """Least upper bound of several values."""
    flat = []
    seen = set()
    for v in vals:
        for a in (v.args if v.op == "join" else (v,)):
            if a.uid not in seen:
                seen.add(a.uid)
                flat.append(a)
    if len(flat) == 1:
        return flat[0]
    if len(flat) > 12:
        return mix(flat)
    flat.sort(key=lambda t: t.uid)
    return _mk("join", tuple(flat))


def alts(t):
    return t.args if t.op == "join" else (t,)


def mix(vals):
    """A value derived in an unknown way from `vals`."""
    out = {}
    for v in vals:
        for a in (v.args if v.op == "mix" else (v,)):
            out[a.uid] = a
    return _mk("mix", tuple(sorted(out.values(), key=lambda t: t.uid)))


# ---------------------------------------------------------------- polynomials
# poly: ("poly", ((mono, coef), ...)) with mono = tuple of atoms sorted by uid


def to_poly(t):
    if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        c = cval(t)
        return {(): c} if c != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {(t,): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return K(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return K(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return _mk("poly", tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), tuple(a.uid for a in mc[0])))))


def padd(a, b, sign=1):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + sign * c
    return from_poly(p)


def pmul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 64:
        return _mk("mul", (a, b))
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.uid))
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


def pmod(a, n):
    """a mod n (n a term)."""
    if is_const(n) and isinstance(cval(n), int) and not isinstance(cval(n), bool) and cval(n) > 0:
        k = cval(n)
        p = {}
        for m, c in to_poly(a).items():
            if len(m) == 1 and m[0].op == "mod" and m[0].args[1] is n:
                for m2, c2 in to_poly(m[0].args[0]).items():
                    p[m2] = p.get(m2, 0) + c * c2
            else:
                p[m] = p.get(m, 0) + c
        q = {}
        for m, c in p.items():
            if isinstance(c, int):
                c = c % k
            if c:
                q[m] = c
        r = from_poly(q)
        if is_const(r) and isinstance(cval(r), int):
            return K(cval(r) % k)
        return _mk("mod", (r, n))
    return _mk("mod", (a, n))


# ---------------------------------------------------------------- inspection


def subterms(t, seen=None):
    """All distinct subterms, t included."""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        if x.op == "poly":
            for m, _c in x.args:
                stack.extend(m)
        else:
            for a in x.args:
                if isinstance(a, Term):
                    stack.append(a)
                elif isinstance(a, tuple):
                    stack.extend(y for y in a if isinstance(y, Term))


def all_subterms(ts):
    """Every distinct term below any of `ts`, once."""
    seen = set()
    stack = [t for t in ts if isinstance(t, Term)]
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        if x.op == "poly":
            for m, _c in x.args:
                stack.extend(m)
        else:
            for a in x.args:
                if isinstance(a, Term):
                    stack.append(a)
                elif isinstance(a, tuple):
                    stack.extend(y for y in a if isinstance(y, Term))


def leaves(t):
    """The maximal attr/sym chains a value depends on."""
    if t._leaves is not None:
        return t._leaves
    if t.op == "sym" or t.op == "attr":
        r = frozenset([t])
    elif t.op == "const":
        r = frozenset()
    else:
        r = frozenset()
        if t.op == "poly":
            for m, _c in t.args:
                for a in m:
                    r |= leaves(a)
        else:
            for a in t.args:
                if isinstance(a, Term):
                    r |= leaves(a)
                elif isinstance(a, tuple):
                    for y in a:
                        if isinstance(y, Term):
                            r |= leaves(y)
    t._leaves = r
    return r


def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "const":
        return repr(cval(t))
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "attr":
        return f"{show(t.args[0], depth)}.{t.args[1]}"
    if depth <= 0:
        return "…"
    if t.op == "poly":
        parts = []
        for m, c in t.args:
            s = "*".join(show(a, depth - 1) for a in m)
            parts.append(str(c) if not m else s if c == 1 else f"{c}*{s}")
        return "(" + " + ".join(parts) + ")"
    inner = []
    for a in t.args:
        if isinstance(a, Term):
            inner.append(show(a, depth - 1))
        elif isinstance(a, tuple):
            inner.append("(" + ", ".join(show(y, depth - 1) for y in a) + ")")
        else:
            inner.append(str(a))
    return f"{t.op}({', '.join(inner)})"
