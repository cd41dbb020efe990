"""Evaluation of terms under an assignment of their leaves: decides whether two normal forms that differ as text differ as functions.

Opaque functions are interpreted by fixed pseudo-random functions of their evaluated arguments (the standard model of uninterpreted functions), so
that two terms which agree on several assignments are the same combination of the same opaque calls."""
from __future__ import annotations

import hashlib
import itertools
import math

from terms import Term, cval


class Unsupported(Exception):
    pass


class ShapeError(Exception):
    pass


class Arr:
    __slots__ = ("sh", "d")

    def __init__(self, sh, d):
        self.sh, self.d = tuple(sh), list(d)
        assert math.prod(self.sh) == len(self.d)

    def __repr__(self):
        return f"Arr{self.sh}{self.d}"

    def key(self):
        return ("arr", self.sh, tuple(canon(x) for x in self.d))

    def rows(self):
        k = math.prod(self.sh[1:])
        if len(self.sh) == 1:
            return list(self.d)
        return [Arr(self.sh[1:], self.d[i * k:(i + 1) * k]) for i in range(self.sh[0])]


def canon(x):
    if isinstance(x, Arr):
        return x.key()
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return str(x)
        x = round(x, 9)
        return int(x) if x == int(x) else x
    if isinstance(x, (list, tuple)):
        return tuple(canon(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((str(canon(k)), canon(v)) for k, v in x.items()))
    return x


def same(a, b):
    return canon(a) == canon(b)


def digest(*args):
    return int.from_bytes(hashlib.sha256(repr(tuple(canon(a) for a in args)).encode()).digest()[:8], "big")


def vec(n, *key, kind="bit"):
    """A pseudo-random vector fixed by its key."""
    out = []
    for i in range(n):
        h = digest("vec", i, *key)
        out.append(h & 1 if kind == "bit" else (h % 9973 + 1) / 20000 if kind == "prob" else (h % 9973) / 3000 - 1.5)
    return Arr((n,), out)


def num(key, kind="prob"):
    return vec(1, key, kind=kind).d[0]


def toarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (list, tuple)):
        ys = [toarr(y) for y in x]
        if not ys:
            return Arr((0,), [])
        if any(isinstance(y, Arr) for y in ys):
            if not all(isinstance(y, Arr) and y.sh == ys[0].sh for y in ys):
                raise ShapeError("ragged")
            return Arr((len(ys), *ys[0].sh), [z for y in ys for z in y.d])
        return Arr((len(ys),), ys)
    return x


def bshape(a, b):
    out = []
    for x, y in itertools.zip_longest(reversed(a), reversed(b), fillvalue=1):
        if x != y and 1 not in (x, y):
            raise ShapeError(f"operands of shape {a} and {b}")
        out.append(y if x == 1 else x)
    return tuple(reversed(out))


def bget(a, sh):
    """Flat data of a broadcast to sh."""
    if not isinstance(a, Arr):
        return [a] * math.prod(sh)
    if a.sh == sh:
        return a.d
    pad = (1,) * (len(sh) - len(a.sh)) + a.sh
    st, acc = [], 1
    for k in reversed(pad):
        st.append(0 if k == 1 else acc)
        acc *= k
    st.reverse()
    return [a.d[sum(i * s for i, s in zip(pos, st))] for pos in itertools.product(*[range(k) for k in sh])]


def zipw(f, *xs):
    xs = [toarr(x) if isinstance(x, (list, tuple)) else x for x in xs]
    if not any(isinstance(x, Arr) for x in xs):
        return f(*xs)
    sh = ()
    for x in xs:
        if isinstance(x, Arr):
            sh = bshape(sh, x.sh)
    return Arr(sh, [f(*v) for v in zip(*[bget(x, sh) for x in xs])])


def matmul(a, b):
    a, b = toarr(a), toarr(b)
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        raise ShapeError("product of scalars")
    A = a if len(a.sh) == 2 else Arr((1, *a.sh), a.d)
    B = b if len(b.sh) == 2 else Arr((*b.sh, 1), b.d)
    if A.sh[1] != B.sh[0]:
        raise ShapeError(f"product of shapes {a.sh} and {b.sh}")
    n, k, m = A.sh[0], A.sh[1], B.sh[1]
    d = [sum(A.d[i * k + l] * B.d[l * m + j] for l in range(k)) for i in range(n) for j in range(m)]
    sh = (a.sh[:-1] if len(a.sh) == 2 else ()) + (b.sh[1:] if len(b.sh) == 2 else ())
    return Arr(sh, d) if sh else d[0]


def transpose(a):
    a = toarr(a)
    if len(a.sh) < 2:
        return a
    n, m = a.sh
    return Arr((m, n), [a.d[i * m + j] for j in range(m) for i in range(n)])


def concat(xs, axis):
    xs = [toarr(x) for x in xs]
    xs = [x if isinstance(x, Arr) else Arr((1,), [x]) for x in xs]
    if axis == 0 or len(xs[0].sh) == 1:
        if any(x.sh[1:] != xs[0].sh[1:] for x in xs):
            raise ShapeError("concatenation of " + str([x.sh for x in xs]))
        return Arr((sum(x.sh[0] for x in xs), *xs[0].sh[1:]), [e for x in xs for e in x.d])
    if any(x.sh[0] != xs[0].sh[0] or len(x.sh) != 2 for x in xs):
        raise ShapeError("concatenation of " + str([x.sh for x in xs]))
    rows = [[e for x in xs for e in x.d[i * x.sh[1]:(i + 1) * x.sh[1]]] for i in range(xs[0].sh[0])]
    return Arr((xs[0].sh[0], sum(x.sh[1] for x in xs)), [e for r in rows for e in r])


def block(rows):
    return concat([concat([x if len(toarr(x).sh) == 2 else Arr((1, *toarr(x).sh), toarr(x).d) for x in r], 1) for r in rows], 0)


def getitem(a, i):
    if isinstance(a, dict):
        return a[i]
    if not isinstance(a, Arr):
        if isinstance(i, (int, slice)):
            try:
                return a[i]
            except IndexError:
                raise ShapeError("index") from None
            except TypeError:
                raise Unsupported("index") from None
        raise Unsupported("index")
    idx = i if isinstance(i, tuple) else (i,)
    if any(not isinstance(x, (int, slice, type(None))) for x in idx):
        if len(idx) == 1 and isinstance(idx[0], (Arr, list)):
            k = toarr(idx[0])
            rs = a.rows()
            if k.d and all(isinstance(x, bool) for x in k.d):
                return toarr([r for r, x in zip(rs, k.d) if x])
            return toarr([rs[int(x)] for x in k.d])
        raise Unsupported("index")
    axes, sh, dims = [], [], list(a.sh)
    p = 0
    pick = []
    for x in idx:
        if x is None:
            sh.append(1)
            continue
        if p >= len(dims):
            raise ShapeError("too many indices")
        if isinstance(x, slice):
            r = list(range(*x.indices(dims[p])))
            sh.append(len(r))
        else:
            if not -dims[p] <= x < dims[p]:
                raise ShapeError("index out of range")
            r = [x % dims[p]]
        pick.append(r)
        p += 1
    for k in dims[p:]:
        pick.append(list(range(k)))
        sh.append(k)
    st, acc = [], 1
    for k in reversed(dims):
        st.append(acc)
        acc *= k
    st.reverse()
    d = [a.d[sum(q * s for q, s in zip(pos, st))] for pos in itertools.product(*pick)]
    return Arr(sh, d) if sh else d[0]


def positions(sh, i):
    """Flat positions an index selects, with the shape of the selection."""
    base = Arr(sh, range(math.prod(sh)))
    r = getitem(base, i)
    return r if isinstance(r, Arr) else Arr((), [r])


def setitem(a, i, v):
    a = toarr(a)
    if not isinstance(a, Arr):
        raise Unsupported("update")
    pos = positions(a.sh, i)
    v = toarr(v)
    if isinstance(v, Arr):
        sh = v.sh
        while len(sh) > len(pos.sh) and sh[0] == 1:
            sh = sh[1:]
        if bshape(sh, pos.sh) != pos.sh:
            raise ShapeError(f"{v.sh} values for a selection of shape {pos.sh}")
        vals = bget(Arr(sh, v.d), pos.sh)
    else:
        vals = [v] * len(pos.d)
    d = list(a.d)
    for p, x in zip(pos.d, vals):
        d[p] = x
    return Arr(a.sh, d)


def reduce_(f, a, axis=None):
    a = toarr(a)
    if not isinstance(a, Arr):
        return f([a])
    if axis is None or len(a.sh) == 1:
        return f(a.d)
    n, m = a.sh
    if axis in (0, -2):
        return Arr((m,), [f([a.d[i * m + j] for i in range(n)]) for j in range(m)])
    return Arr((n,), [f(a.d[i * m:(i + 1) * m]) for i in range(n)])


def shape(x):
    x = toarr(x)
    if not isinstance(x, Arr):
        raise Unsupported("shape of a scalar")
    return x.sh


def mod(a, b):
    return a % b if b else float("nan")


CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
       "is": lambda a, b: a is b or a == b, "isnot": lambda a, b: not (a is b or a == b)}


def raw(x):
    return cval(x) if isinstance(x, Term) else x


def erfcinv(y):
    if not 0 < y < 2:
        return math.inf if y == 0 else -math.inf if y == 2 else math.nan
    lo, hi = -8.0, 8.0
    for _ in range(200):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if math.erfc(m) > y else (lo, m)
    return (lo + hi) / 2


def _log(x):
    return math.log(x) if x > 0 else -math.inf if x == 0 else math.nan


def _exp(x):
    return math.exp(x) if x < 700 else math.inf


NUMERIC = {"sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan, "exp": _exp, "log": _log, "abs": abs, "absolute": abs, "fabs": abs, "erfc": math.erfc, "erf": math.erf, "erfcinv": erfcinv,
           "erfinv": lambda y: erfcinv(1 - y), "isinf": math.isinf, "expm1": lambda x: _exp(x) - 1, "square": lambda x: x * x, "power": lambda x, y: x ** y, "reciprocal": lambda x: 1 / x,
           "sign": lambda x: (x > 0) - (x < 0), "tanh": math.tanh, "int": int, "float": float, "minimum": min, "maximum": max, "negative": lambda x: -x, "less_equal": lambda x, y: x <= y,
           "less": lambda x, y: x < y, "greater": lambda x, y: x > y, "greater_equal": lambda x, y: x >= y, "logical_not": lambda x: not x, "floor": math.floor, "ceil": math.ceil}


IN_LOOP = {}


def in_loop(t, level):
    """Does the term mention the loop's variables?"""
    if not isinstance(t, Term):
        return any(in_loop(a, level) for a in t) if isinstance(t, tuple) else False
    k = (t.uid, level)
    r = IN_LOOP.get(k)
    if r is None:
        r = (t.op == "idx" and t.args[3] == level) or (t.op == "elem" and t.args[1] == level) or (t.op == "phi" and t.args[0] == level) or any(in_loop(a, level) for a in t.args)
        IN_LOOP[k] = r
    return r


class Eval:
    """leaves: {term: value}; funcs: {op or called path: python function on evaluated arguments}."""

    def __init__(self, leaves, funcs=None):
        self.env = dict(leaves)
        self.memo = {}
        self.funcs = funcs or {}
        self.loop = {}  # loop level: number of the iteration evaluated
        self.outer = None  # evaluation of what does not depend on the innermost loop, and that loop's level

    def __call__(self, t):
        if not isinstance(t, Term):
            return t
        if t.uid in self.memo:
            return self.memo[t.uid]
        v = self.outer[0](t) if self.outer is not None and not in_loop(t, self.outer[1]) else self.calc(t)
        self.memo[t.uid] = v
        return v

    def calc(self, t):
        if t in self.env:
            return self.env[t]
        if t.op == "const":
            return cval(t)
        if t.op == "poly":
            r = None
            for m, c in t.args:
                v = c
                for a in m:
                    v = zipw(lambda x, y: x * y, v, self(a))
                r = v if r is None else zipw(lambda x, y: x + y, r, v)
            return r
        f = self.funcs.get(t.op)
        if f is not None:
            return f(*[self(a) for a in t.args])
        h = getattr(self, "t_" + t.op, None)
        if h is None:
            raise Unsupported(t.op)
        try:
            return h(*t.args)
        except (TypeError, ValueError, AttributeError, KeyError) as e:
            raise Unsupported(f"{t.op}: {e}") from None

    def t_sym(self, name):
        raise Unsupported(f"leaf {name}")

    # loops the interpreter summarised: one location, updated the same way in every iteration
    def rounds(self, header):
        if header.op == "range":
            return len(range(*(int(self(a)) for a in header.args)))
        if header.op == "enumerate":
            return self.rounds(header.args[0])
        if header.op == "zip":
            return min(self.rounds(a) for a in header.args)
        v = self(header)
        if isinstance(v, Arr):
            return v.sh[0]
        return len(v)

    def t_fold(self, level, header, phi, init, body):
        acc, n = self(init), self.rounds(header)
        if n > 64:
            raise Unsupported("long loop")
        for k in range(n):
            sub = type(self)(self.env, self.funcs)
            sub.env[phi] = acc
            sub.loop = {**self.loop, level: k}
            sub.outer = (self, level)
            acc = sub(body)
        return acc

    def t_idx(self, lo, hi, step, level):
        if level not in self.loop:
            raise Unsupported("idx")
        return self(lo) + self(step) * self.loop[level]

    def t_elem(self, base, level):
        if level not in self.loop:
            raise Unsupported("elem")
        k, v = self.loop[level], self(base)
        if isinstance(v, Arr):
            w = math.prod(v.sh[1:])
            d = v.d[k * w:(k + 1) * w]
            return Arr(v.sh[1:], d) if len(v.sh) > 1 else d[0]
        return v[k]

    def t_attr(self, b, name):
        v = self(b)
        if isinstance(v, dict) and name in v:
            return v[name]
        if name == "T":
            return transpose(v)
        raise Unsupported(f"attribute {name}")

    def seq(self, *a):
        return [self(x) for x in a]

    def t_list(self, *a):
        return self.seq(*a)

    def t_tuple(self, *a):
        return tuple(self.seq(*a))

    def t_nparr(self, a):
        return toarr(self(a))

    def t_len(self, a):
        v = self(a)
        return shape(v)[0] if isinstance(v, Arr) else len(v)

    def t_shape(self, a):
        return shape(self(a))

    def t_size(self, a):
        return math.prod(shape(self(a)))

    def t_index(self, a, i):
        return getitem(self(a), self.idx(i))

    def idx(self, i):
        if i.op == "slice":
            return slice(*self.seq(*i.args))
        if i.op == "tuple":
            return tuple(self.idx(x) for x in i.args)
        v = self(i)
        return int(v) if isinstance(v, float) and v == int(v) else v

    def t_mod(self, a, b):
        return zipw(mod, self(a), self(b))

    def t_mul(self, a, b):
        return zipw(lambda x, y: x * y, self(a), self(b))

    def t_div(self, a, b):
        return zipw(lambda x, y: x / y if y else math.copysign(float("inf"), x) if x else float("nan"), self(a), self(b))

    def t_floordiv(self, a, b):
        return zipw(lambda x, y: x // y, self(a), self(b))

    def t_pow(self, a, b):
        return zipw(lambda x, y: x ** y, self(a), self(b))

    def t_matmul(self, a, b):
        return matmul(self(a), self(b))

    def t_T(self, a):
        return transpose(self(a))

    def t_hstack(self, a):
        return concat(list(self.rowsof(self(a))), 1)

    def t_vstack(self, a):
        return concat([x if len(toarr(x).sh) == 2 else Arr((1, *toarr(x).sh), toarr(x).d) for x in self.rowsof(self(a))], 0)

    def t_concat(self, a, axis=None):
        return concat(list(self.rowsof(self(a))), 0 if axis is None else self(axis))

    @staticmethod
    def rowsof(v):
        return v.rows() if isinstance(v, Arr) else v

    def full(self, s, v):
        s = (s,) if isinstance(s, (int, float)) else tuple(s)
        s = tuple(int(x) for x in s)
        return Arr(s, [v] * math.prod(s))

    def t_zeros(self, s):
        return self.full(self(s), 0)

    def t_ones(self, s):
        return self.full(self(s), 1)

    def t_eye(self, n, *_):
        n = int(self(n))
        return Arr((n, n), [int(i == j) for i in range(n) for j in range(n)])

    def t_not(self, a):
        return zipw(lambda x: not x, self(a))

    def t_bool(self, a):
        return bool(self(a))

    def t_and(self, *a):
        r = True
        for x in a:
            r = self(x)
            if not r:
                return r
        return r

    def t_or(self, *a):
        r = False
        for x in a:
            r = self(x)
            if r:
                return r
        return r

    def t_ite(self, c, a, b):
        return self(a) if self(c) else self(b)

    def t_where(self, c, a, b):
        return zipw(lambda x, y, z: y if x else z, self(c), self(a), self(b))

    def t_neg(self, a):
        return zipw(lambda x: -x, self(a))

    def t_bitxor(self, *a):
        r = self(a[0])
        for x in a[1:]:
            r = zipw(lambda p, q: int(p) ^ int(q), r, self(x))
        return r

    def t_bitand(self, *a):
        r = self(a[0])
        for x in a[1:]:
            r = zipw(lambda p, q: int(p) & int(q), r, self(x))
        return r

    def t_bitor(self, *a):
        r = self(a[0])
        for x in a[1:]:
            r = zipw(lambda p, q: int(p) | int(q), r, self(x))
        return r

    def t_any(self, a, *ax):
        return reduce_(lambda v: any(bool(x) for x in v), self(a), *[self(x) for x in ax[:1]])

    def t_all(self, a, *ax):
        return reduce_(lambda v: all(bool(x) for x in v), self(a), *[self(x) for x in ax[:1]])

    def t_sum(self, a, *ax):
        return reduce_(sum, self(a), *[self(x) for x in ax[:1]])

    def t_ext(self, path):
        v = {"numpy.inf": math.inf, "math.inf": math.inf, "numpy.pi": math.pi, "math.pi": math.pi, "numpy.nan": math.nan}.get(raw(path))
        if v is None:
            raise Unsupported(f"value of {raw(path)}")
        return v

    def t_num(self, path, *a):
        return self.t_call(path, *a)

    def t_call(self, path, *a):
        path = raw(path)
        kw = {raw(x.args[0]): self(x.args[1]) for x in a if isinstance(x, Term) and x.op == "kw"}
        v = [self(x) for x in a if not (isinstance(x, Term) and x.op == "kw")]
        f = self.funcs.get(path)
        if f is not None:
            return f(*v, **kw)
        last = path.split(".")[-1]
        if last in NUMERIC and not kw:
            return zipw(NUMERIC[last], *v)
        h = getattr(self, "c_" + last, None)
        if h is None or path.split(".")[0] not in ("numpy", "scipy", "math", "builtins", "ldpc", "abs", "round", "min", "max"):
            raise Unsupported(f"call of {path}")
        return h(*v, **kw)

    def c_full(self, shape, fill_value, **_):
        return self.full(shape, fill_value)

    def c_full_like(self, a, fill_value, **_):
        return zipw(lambda x: fill_value, a)

    def c_clip(self, a, a_min, a_max):
        return zipw(lambda x, lo, hi: min(max(x, lo), hi), a, a_min, a_max)

    def t_upd(self, a, i, v):
        return setitem(self(a), self.idx(i), self(v))

    def t_flat(self, a):
        a = toarr(self(a))
        return Arr((len(a.d),), a.d)

    def t_reshape(self, a, *sh):
        if any(x.op == "kw" for x in sh):
            raise Unsupported("reshape order")
        a, v = toarr(self(a)), self.seq(*sh)
        s = list(v[0]) if len(v) == 1 and isinstance(v[0], (tuple, list)) else list(v) or [-1]
        s = [int(x) for x in s]
        n, k = len(a.d), math.prod(x for x in s if x != -1)
        if -1 in s:
            if not k or n % k:
                raise ShapeError("reshape")
            s[s.index(-1)] = n // k
        if math.prod(s) != n:
            raise ShapeError(f"{n} entries reshaped to {s}")
        return Arr(s, a.d)

    def t_tolist(self, a):
        return self(a)

    def t_repeat(self, a, n):
        a = self(a)
        return concat([a] * int(self(n)), 0) if isinstance(a, Arr) else list(a) * int(self(n))

    def t_ones(self, s):
        return self.full(self(s), 1)

    def t_int(self, a):
        return zipw(int, self(a))

    def c_ravel(self, a, order="C"):
        a = toarr(a)
        return Arr((len(a.d),), (transpose(a) if order == "F" else a).d)

    def c_tile(self, a, n):
        a = toarr(a)
        if not isinstance(a, Arr) or len(a.sh) != 1 or not isinstance(n, int):
            raise Unsupported("tile")
        return Arr((len(a.d) * n,), a.d * n)

    def c_diff(self, a, axis=-1, prepend=None):
        a = toarr(a)
        if len(a.sh) != 2 or axis not in (1, -1):
            raise Unsupported("diff")
        if prepend is not None:
            p = prepend if isinstance(prepend, Arr) else Arr((a.sh[0], 1), [prepend] * a.sh[0])
            a = concat([p, a], 1)
        return Arr((a.sh[0], a.sh[1] - 1), [y - x for r in a.rows() for x, y in zip(r.d, r.d[1:])])

    def c_block_diag(self, ms, format=None, dtype=None):
        ms = self.rowsof(ms)
        if not all(isinstance(m, Arr) and len(m.sh) == 2 for m in ms):
            raise Unsupported("block_diag")
        r, c = sum(m.sh[0] for m in ms), sum(m.sh[1] for m in ms)
        out, i, j = [[0] * c for _ in range(r)], 0, 0
        for m in ms:
            for a, row in enumerate(m.rows()):
                out[i + a][j:j + m.sh[1]] = row.d
            i, j = i + m.sh[0], j + m.sh[1]
        return Arr((r, c), [x for row in out for x in row])

    def c_eye(self, n, m=None, k=0, format=None, dtype=None, **kw):
        n = int(n)
        m = n if m is None else int(m)
        return Arr((n, m), [int(j == i + k) for i in range(n) for j in range(m)])

    def c_identity(self, n, format=None, dtype=None):
        return self.c_eye(n)

    def c_hstack(self, ms, format=None, dtype=None):
        return concat(list(self.rowsof(ms)), 1)

    def c_vstack(self, ms, format=None, dtype=None):
        return concat(list(self.rowsof(ms)), 0)

    def c_kron(self, a, b, format=None):
        a, b = toarr(a), toarr(b)
        return Arr((a.sh[0] * b.sh[0], a.sh[1] * b.sh[1]), [x * y for ra in a.rows() for rb in b.rows() for x in ra.d for y in rb.d])

    def c_csr_matrix(self, a):
        return a

    def c_block(self, rs):
        rs = rs if isinstance(rs, list) and isinstance(rs[0], list) else [rs]
        return block(rs)

    def c_cumsum(self, a, axis=None):
        a = toarr(a)
        if axis is None or len(a.sh) == 1:
            return Arr((len(a.d),), list(itertools.accumulate(a.d)))
        if axis in (1, -1):
            return Arr(a.sh, [x for r in a.rows() for x in itertools.accumulate(r.d)])
        return transpose(self.c_cumsum(transpose(a), 1))

    def c_rank(self, a):
        rs, k = [sum(int(x) % 2 << j for j, x in enumerate(r.d)) for r in toarr(a).rows()], 0
        while rs:
            p = rs.pop()
            if p:
                k += 1
                b = p & -p
                rs = [r ^ p if r & b else r for r in rs]
        return k

    def t_max(self, a, *ax):
        return reduce_(max, self(a), *[self(x) for x in ax[:1] if x.op != "kw"])

    def t_min(self, a, *ax):
        return reduce_(min, self(a), *[self(x) for x in ax[:1] if x.op != "kw"])

    def t_mean(self, a):
        a = toarr(self(a))
        return sum(a.d) / len(a.d)

    def c_max(self, a, axis=None):
        return reduce_(max, a, axis)

    def c_min(self, a, axis=None):
        return reduce_(min, a, axis)

    def c_mean(self, a):
        a = toarr(a)
        return sum(a.d) / len(a.d)

    c_amax, c_amin = c_max, c_min

    def t_zip(self, *a):
        return list(zip(*[self.rowsof(x) for x in self.seq(*a)]))


for _n, _f in CMP.items():
    setattr(Eval, "t_" + _n, lambda self, a, b, f=_f: zipw(f, self(a), self(b)) if f not in (CMP["is"], CMP["isnot"]) else f(self(a), self(b)))
