"""Arrays of statically known shape whose elements are terms.

Used when an analysis hands the engine arrays of a fixed shape (Engine(explicit=True)):
constant propagation then goes through numpy indexing, stacking and reductions."""
from __future__ import annotations

import itertools

import terms
from terms import FALSE, K, NONE, T, TRUE, Term, cval, is_const, padd, pmod, pmul


def mk(shape, items):
    return T("nda", tuple(shape), *items)


def shape(a):
    return a.args[0]


def items(a):
    return a.args[1:]


def isnda(t):
    return t.op == "nda"


def size(sh):
    n = 1
    for x in sh:
        n *= x
    return n


def rows(a):
    sh = shape(a)
    it = items(a)
    if len(sh) == 1:
        return list(it)
    k = size(sh[1:])
    return [mk(sh[1:], it[i * k:(i + 1) * k]) for i in range(sh[0])]


def from_rows(rs):
    """Stack terms / ndas of equal shape along a new first axis."""
    rs = list(rs)
    if rs and any(isnda(r) for r in rs):
        if not all(isnda(r) and shape(r) == shape(rs[0]) for r in rs):
            return None
        return mk((len(rs), *shape(rs[0])), [x for r in rs for x in items(r)])
    return mk((len(rs),), rs)


SCALARS = {"const", "sym", "poly", "mod", "eq", "lt", "not", "and", "or", "zvar", "ite", "new", "index", "elem", "rand", "call", "meth", "attr", "pb", "bvvar"}


def to_nda(eng, st, v):
    """Explicit array for a (nested) sequence with known items, or None."""
    if isnda(v):
        return v
    if v.op == "ref":
        o = st.heap.get(v.args[0])
        if o is None:
            return None
        if o.kind == "arr":
            return to_nda(eng, st, o.val)
    if is_const(v) and isinstance(cval(v), str):
        return None
    it = eng.known_items(st, v)
    if it is None or (v.op == "ref" and st.heap[v.args[0]].kind in ("set", "dict")):
        return None
    rs = []
    for x in it:
        x = eng.val(st, x) if x.op == "ref" and st.heap[x.args[0]].kind == "arr" else x
        if x.op in ("ref", "tuple", "list", "nparr", "nda", "range"):
            r = to_nda(eng, st, x)
            if r is None:
                return None
            rs.append(r)
        else:
            rs.append(x)
    if rs and any(isnda(r) for r in rs) and not all(isnda(r) for r in rs):
        return None
    return from_rows(rs)


def num(e):
    """Booleans count as 0 and 1 in arithmetic."""
    if is_const(e) and isinstance(cval(e), bool):
        return K(int(cval(e)))
    return e


MASKED = T("masked")


def elementwise(f, *xs):
    """Broadcast f over explicit arrays and scalars; None if the shapes do not fit."""
    shs = [shape(x) if isnda(x) else () for x in xs]
    n = max(len(s) for s in shs)
    full = []
    for d in range(n):
        dims = {s[len(s) - n + d] for s in shs if len(s) - n + d >= 0} - {1}
        if len(dims) > 1:
            return None
        full.append(dims.pop() if dims else 1)
    out = []
    for pos in itertools.product(*[range(k) for k in full]):
        es = []
        for x, s in zip(xs, shs):
            if not isnda(x):
                es.append(x)
                continue
            off = 0
            for d, k in enumerate(s):
                p = pos[n - len(s) + d]
                off = off * k + (0 if k == 1 else p)
            es.append(x.args[1 + off])
        out.append(MASKED if any(e is MASKED for e in es) else f(*es))
    return mk(full, out)


def binop(op, a, b):
    import pyext

    if op == "MatMult":
        return matmul(a, b)

    def f(x, y):
        from pyabs import boolish

        if op == "BitXor" and boolish(x) and boolish(y):
            from pyabs import eqt, neg

            if is_const(x):
                return neg(y) if cval(x) else y
            if is_const(y):
                return neg(x) if cval(y) else x
            return neg(T("eq", *sorted((x, y), key=lambda t: t.uid)))
        if op in ("BitAnd", "BitOr"):
            return pyext.binop(op, x, y)
        return pyext.binop(op, num(x), num(y))

    return elementwise(f, a, b)


def compare(op, a, b):
    from pyabs import eqt, ltt, neg

    def e(x, y):
        r = eqt(num(x), num(y))
        return r

    f = {"Eq": e, "NotEq": lambda x, y: neg(e(x, y)), "Lt": lambda x, y: ltt(num(x), num(y)), "Gt": lambda x, y: ltt(num(y), num(x)),
         "LtE": lambda x, y: neg(ltt(num(y), num(x))), "GtE": lambda x, y: neg(ltt(num(x), num(y)))}[op]
    return elementwise(f, a, b)


def transpose(a):
    sh = shape(a)
    if len(sh) != 2:
        return a if len(sh) == 1 else None
    it = items(a)
    return mk(sh[::-1], [it[i * sh[1] + j] for j in range(sh[1]) for i in range(sh[0])])


def dot(u, v):
    if all(is_const(x) and isinstance(cval(x), (int, float)) for x in (*u, *v)):
        return K(sum(cval(x) * cval(y) for x, y in zip(u, v)))
    r = K(0)
    for x, y in zip(u, v):
        r = padd(r, pmul(num(x), num(y)))
    return r


def mismatch(op, a, b):
    """True when numpy refuses the operands for their shapes."""
    if not (isnda(a) and isnda(b)):
        return False
    sa, sb = shape(a), shape(b)
    if op == "MatMult":
        return 0 < len(sa) <= 2 and 0 < len(sb) <= 2 and sa[-1] != sb[0]
    return any(x != y and x != 1 and y != 1 for x, y in zip(sa[::-1], sb[::-1]))


def refuse(eng, st, why):
    """The ValueError of numpy for impossible shapes, where calls raise exactly what numpy raises."""
    if not eng.exact:
        return None
    st.exc = T("exc", "ValueError", T("fstr", K(why)))
    return T("undef")


def matmul(a, b):
    if not (isnda(a) and isnda(b)):
        return None
    sa, sb = shape(a), shape(b)
    if len(sa) > 2 or len(sb) > 2 or sa[-1] != sb[0]:
        return None
    ra = rows(a) if len(sa) == 2 else [a]
    cb = rows(transpose(b)) if len(sb) == 2 else [b]
    if len(sb) == 2 and sb[1] == 0:
        cb = []
    out = [dot(items(r), items(c)) for r in ra for c in cb]
    sh = (sa[:1] if len(sa) == 2 else ()) + (sb[1:] if len(sb) == 2 else ())
    return mk(sh, out) if sh else out[0]


def kron(a, b):
    if len(shape(a)) != 2 or len(shape(b)) != 2:
        return None
    out = []
    for r in rows(a):
        for q in rows(b):
            out.extend(pmul(num(x), num(y)) for x in items(r) for y in items(q))
    return mk((shape(a)[0] * shape(b)[0], shape(a)[1] * shape(b)[1]), out)


def truthy(e):
    from pyabs import boolish, eqt, neg

    if is_const(e):
        return K(bool(cval(e)))
    return e if boolish(e) else neg(eqt(e, K(0)))


def reduce1(name, es):
    from pyabs import conj, disj, ltt

    if any(e is MASKED for e in es):
        keep = [(i, e) for i, e in enumerate(es) if e is not MASKED]
        if not keep:
            return K(0) if name in ("argmin", "argmax") else MASKED
        r = reduce1(name, [e for _i, e in keep])
        if name in ("argmin", "argmax") and r is not None:
            return K(keep[cval(r)][0])
        return r
    if name == "sum":
        r = K(0)
        for e in es:
            r = padd(r, num(e))
        return r
    if name == "count_nonzero":
        r = K(0)
        for e in es:
            r = padd(r, num(truthy(e)))
        return r
    if name == "any":
        r = FALSE
        for e in es:
            r = disj(r, truthy(e))
        return r
    if name == "all":
        r = TRUE
        for e in es:
            r = conj(r, truthy(e))
        return r
    if name == "prod":
        r = K(1)
        for e in es:
            r = pmul(r, num(e))
        return r
    if all(is_const(e) for e in es) and es:
        vs = [cval(e) for e in es]
        if name in ("min", "amin"):
            return K(min(vs))
        if name in ("max", "amax"):
            return K(max(vs))
        if name == "argmin":
            return K(vs.index(min(vs)))
        if name == "argmax":
            return K(vs.index(max(vs)))
        if name == "mean":
            return K(sum(vs) / len(vs))
    return None


def reduce_(name, a, axis):
    sh = shape(a)
    if axis is None:
        return reduce1(name, items(a))
    if axis < 0:
        axis += len(sh)
    if not 0 <= axis < len(sh):
        return None
    outer, k, inner = size(sh[:axis]), sh[axis], size(sh[axis + 1:])
    it = items(a)
    out = []
    for o in range(outer):
        for i in range(inner):
            r = reduce1(name, [it[(o * k + j) * inner + i] for j in range(k)])
            if r is None:
                return None
            out.append(r)
    rs = sh[:axis] + sh[axis + 1:]
    return mk(rs, out) if rs else out[0]


def plan(a, i, conv=None):
    """Positions selected by an index: (shape, [flat offsets]) or None. shape None = a scalar."""
    sh = shape(a)
    idx = list(i.args) if i.op == "tuple" else [i]
    if any(is_const(x) and cval(x) is Ellipsis for x in idx):
        k = next(j for j, x in enumerate(idx) if is_const(x) and cval(x) is Ellipsis)
        used = sum(1 for x in idx if x is not NONE and not (is_const(x) and cval(x) is Ellipsis))
        idx[k:k + 1] = [T("slice", NONE, NONE, NONE)] * (len(sh) - used)
    # a boolean mask over the leading dimensions
    if len(idx) == 1 and isnda(idx[0]) and len(shape(idx[0])) > 1:
        m = idx[0]
        if not all(is_const(e) and isinstance(cval(e), bool) for e in items(m)) or shape(m) != sh[:len(shape(m))]:
            return None
        inner = size(sh[len(shape(m)):])
        sel = [j for j, e in enumerate(items(m)) if cval(e)]
        return (len(sel), *sh[len(shape(m)):]), [j * inner + q for j in sel for q in range(inner)]
    dims = []  # per output axis: ("new",) or ("list", dim, [indices]) ; scalars ("at", dim, index)
    d = 0
    fancy = []
    for x in idx:
        if x is NONE:
            dims.append(("new",))
            continue
        if d >= len(sh):
            return None
        n = sh[d]
        if is_const(x) and isinstance(cval(x), (int, bool)) and not isinstance(cval(x), bool):
            v = cval(x)
            if not -n <= v < n:
                return None
            dims.append(("at", d, v % n))
        elif x.op == "slice":
            if not all(is_const(y) for y in x.args):
                return None
            dims.append(("list", d, list(range(n))[slice(*(cval(y) for y in x.args))]))
        else:
            y = x if isnda(x) else None
            if y is None and x.op in ("list", "tuple", "nparr"):
                src = x.args[0] if x.op == "nparr" else x
                y = mk((len(src.args),), src.args)
            if y is None and x.op == "range" and all(is_const(q) for q in x.args):
                y = mk((len(range(*(cval(q) for q in x.args))),), [K(q) for q in range(*(cval(q) for q in x.args))])
            if y is None or len(shape(y)) != 1 or not all(is_const(e) and isinstance(cval(e), int) for e in items(y)):
                return None
            vs = [cval(e) for e in items(y)]
            if vs and all(isinstance(v, bool) for v in vs):
                if len(vs) != n:
                    return None
                vs = [j for j, v in enumerate(vs) if v]
            if any(not -n <= v < n for v in vs):
                return None
            dims.append(("list", d, [v % n for v in vs]))
            fancy.append(len(dims) - 1)
        d += 1
    while d < len(sh):
        dims.append(("list", d, list(range(sh[d]))))
        d += 1
    if len(fancy) > 1:
        # several index arrays select pointwise
        ls = [dims[f][2] for f in fancy]
        n = max(len(x) for x in ls)
        if any(len(x) not in (1, n) for x in ls):
            return None
        ls = [x * n if len(x) == 1 else x for x in ls]
        if any(fancy[j + 1] != fancy[j] + 1 for j in range(len(fancy) - 1)):
            return None
        out = []
        shp = None
        for pt in range(n):
            dd = list(dims)
            for f, x in zip(fancy, ls):
                dd[f] = ("at", dims[f][1], x[pt])
            s2, offs = _offsets(sh, dd)
            shp = s2
            out.append(offs)
        if fancy[0] != 0:
            return None
        if shp is None:
            _s, _o = _offsets(sh, [("at", x[1], 0) if j in fancy else x for j, x in enumerate(dims)])
            shp = _s
        return (n, *shp), [o for offs in out for o in offs]
    s, offs = _offsets(sh, dims)
    if not s and all(x[0] == "at" for x in dims):
        return None if not offs else (None, offs)
    return s, offs


def _offsets(sh, dims):
    strides = [size(sh[k + 1:]) for k in range(len(sh))]
    s = []
    axes = []
    base = 0
    for x in dims:
        if x[0] == "new":
            s.append(1)
            axes.append([0])
        elif x[0] == "at":
            base += strides[x[1]] * x[2]
        else:
            s.append(len(x[2]))
            axes.append([strides[x[1]] * v for v in x[2]])
    return tuple(s), [base + sum(c) for c in itertools.product(*axes)]


def outside(a, i):
    """Does the index name a position the array does not have?"""
    idx = list(i.args) if i.op == "tuple" else [i]
    if len(idx) > len(shape(a)) and NONE not in idx:
        return True
    for n, x in zip(shape(a), idx):
        if x is NONE or is_const(x) and cval(x) is Ellipsis:
            return False
        if is_const(x) and type(cval(x)) is int and not -n <= cval(x) < n:
            return True
    return False


def index(a, i):
    p = plan(a, i)
    if p is None:
        return None
    sh, offs = p
    it = items(a)
    if sh is None:
        return it[offs[0]]
    return mk(sh, [it[o] for o in offs])


def store(a, i, v):
    p = plan(a, i)
    if p is None:
        return None
    sh, offs = p
    it = list(items(a))
    if isnda(v):
        if sh is None:
            return None
        b = elementwise(lambda x, _y: x, v, mk(sh, [K(0)] * size(sh))) if shape(v) != sh else v
        if b is None or shape(b) != tuple(sh):
            return None
        vals = items(b)
    else:
        vals = [v] * len(offs)
    for o, x in zip(offs, vals):
        it[o] = x
    return mk(shape(a), it)


def reshape(a, sh):
    sh = list(sh)
    n = len(items(a))
    if sh.count(-1) == 1:
        k = 1
        for x in sh:
            if x != -1:
                k *= x
        if k == 0 or n % k:
            return None
        sh[sh.index(-1)] = n // k
    if size(sh) != n or any(x < 0 for x in sh):
        return None
    return mk(sh, items(a))


def stack(xs, axis):
    """concatenate along an axis"""
    sh = [list(shape(x)) for x in xs]
    if not xs:
        return None
    nd = len(sh[0])
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd or any(len(s) != nd for s in sh):
        return None
    if any(s[:axis] + s[axis + 1:] != sh[0][:axis] + sh[0][axis + 1:] for s in sh):
        return None
    outer = size(sh[0][:axis])
    out = []
    for o in range(outer):
        for x, s in zip(xs, sh):
            k = size(s[axis:])
            out.extend(items(x)[o * k:(o + 1) * k])
    r = list(sh[0])
    r[axis] = sum(s[axis] for s in sh)
    return mk(r, out)


def take(a, idx, axis):
    """The slices of an array at the given positions of one axis."""
    sh = shape(a)
    outer, inner = size(sh[:axis]), size(sh[axis + 1:])
    it = items(a)
    out = []
    for o in range(outer):
        for i in idx:
            b = (o * sh[axis] + i) * inner
            out.extend(it[b:b + inner])
    return mk((*sh[:axis], len(idx), *sh[axis + 1:]), out)


def rearrange(eng, st, name, args, kw):
    """Functions that only move the entries of an array along one axis."""
    from pyabs import HObj

    a = to_nda(eng, st, args[0])
    if a is None or set(kw) - {"axis", "shift", "obj", "indices", "repeats", "indices_or_sections"}:
        return None
    vals = list(args[1:])
    for k in ("shift", "obj", "indices", "repeats", "indices_or_sections"):
        if k in kw:
            vals.insert(0, kw[k])
    if name not in ("flip", "flipud", "fliplr") and not vals:
        return None
    need = 0 if name.startswith("flip") else 1
    axv = eng.val(st, kw["axis"]) if "axis" in kw else eng.val(st, vals[need]) if len(vals) > need else NONE
    if axv is not NONE and not (is_const(axv) and type(cval(axv)) is int):
        return None
    ax = None if axv is NONE else cval(axv)
    nd = len(shape(a))
    if ax is None:
        if name in ("flipud", "vsplit", "split", "array_split"):
            ax = 0
        elif name == "fliplr":
            ax = 1
        elif name == "hsplit":
            ax = 0 if nd == 1 else 1
        elif nd > 1:
            if name == "flip":
                return None
            flat = mk((len(items(a)),), items(a))
            r = _rearrange(eng, st, name, flat, vals, 0)
            return None if r is None else mk(shape(a), items(r)) if name == "roll" else r
        else:
            ax = 0
    if ax < 0:
        ax += nd
    if not 0 <= ax < nd:
        return None
    r = _rearrange(eng, st, name, a, vals, ax)
    if isinstance(r, list):
        return eng.new(st, HObj("list", segs=tuple(("item", x) for x in r)))
    return r


def _rearrange(eng, st, name, a, vals, ax):
    k = shape(a)[ax]
    if name.startswith("flip"):
        return take(a, range(k - 1, -1, -1), ax)
    v = eng.val(st, vals[0])
    one = cval(v) if is_const(v) and type(cval(v)) is int else None
    many = None if one is not None else shape_arg(eng, st, vals[0])
    if name == "roll":
        return None if one is None else take(a, [(i - one) % k for i in range(k)], ax) if k else a
    if name == "take":
        if many is None or any(not -k <= i < k for i in many):
            return None
        return take(a, [i % k for i in many], ax)
    if name == "repeat":
        return None if one is None or one < 0 else take(a, [i for i in range(k) for _ in range(one)], ax)
    if name == "delete":
        sel = [one] if one is not None else many
        if sel is None or any(not -k <= i < k for i in sel):
            return None
        dead = {i % k for i in sel}
        return take(a, [i for i in range(k) if i not in dead], ax)
    if one is not None:
        if one <= 0 or name != "array_split" and k % one:
            return None
        q, r = divmod(k, one)
        cuts = [0]
        for i in range(one):
            cuts.append(cuts[-1] + q + (i < r))
    elif many is not None:
        cuts = [0, *(min(max(i if i >= 0 else i + k, 0), k) for i in many), k]
    else:
        return None
    return [take(a, range(x, y), ax) for x, y in zip(cuts, cuts[1:])]


def consts(a):
    return all(is_const(e) for e in items(a))


def unique(a, axis):
    if not consts(a):
        return None
    if axis is None or len(shape(a)) == 1:
        vs = sorted({cval(e) for e in items(a)})
        return mk((len(vs),), [K(v) for v in vs])
    if axis != 0:
        return None
    d = {}
    for r in rows(a):
        d[tuple(cval(e) for e in items(r))] = r
    rs = [d[k] for k in sorted(d)]
    return mk((len(rs), *shape(a)[1:]), [x for r in rs for x in items(r)])


def nonzero(a):
    t = [truthy(e) for e in items(a)]
    if not all(is_const(e) for e in t):
        return None
    sh = shape(a)
    pos = [p for p, e in zip(itertools.product(*[range(k) for k in sh]), t) if cval(e)]
    return T("tuple", *[mk((len(pos),), [K(p[d]) for p in pos]) for d in range(len(sh))])


# ------------------------------------------------------------------ numpy calls


def kwval(eng, st, kw, name, default=None):
    if name in kw:
        v = eng.val(st, kw[name])
        if is_const(v):
            return cval(v)
        return "?"
    return default


def shape_arg(eng, st, v):
    v = eng.val(st, v)
    if is_const(v) and isinstance(cval(v), int):
        return (cval(v),)
    it = eng.known_items(st, v) if not isnda(v) else list(items(v))
    if it is None or not all(is_const(x) and isinstance(cval(x), int) for x in it):
        return None
    return tuple(cval(x) for x in it)


def rank2(a):
    """GF(2) rank of a constant matrix."""
    rs = [sum(1 << j for j, e in enumerate(items(r)) if cval(e) % 2) for r in rows(a)]
    k = 0
    piv = []
    for r in rs:
        for p in piv:
            r = min(r, r ^ p)
        if r:
            piv.append(r)
            k += 1
    return k


def row_basis(a):
    piv, out = [], []
    for row in rows(a):
        r = sum(1 << j for j, e in enumerate(items(row)) if cval(e) % 2)
        for p in piv:
            r = min(r, r ^ p)
        if r:
            piv.append(r)
            out.append(row)
    return mk((len(out), shape(a)[1]), [x for r in out for x in items(r)])


def nullspace(a):
    """A basis of the kernel, as the rows of a constant matrix."""
    r, piv = row_echelon(a, True)
    w = shape(a)[1]
    rs = [[cval(x) for x in items(y)] for y in rows(r)]
    out = []
    for f in range(w):
        if f in piv:
            continue
        v = [0] * w
        v[f] = 1
        for i, p in enumerate(piv):
            v[p] = rs[i][f]
        out.extend(v)
    return mk((len(out) // w if w else 0, w), [K(x) for x in out])


def row_echelon(a, full=True):
    """Reduced row echelon form over GF(2) of a constant matrix and its pivot columns."""
    m = [[cval(e) % 2 for e in items(r)] for r in rows(a)]
    piv, r = [], 0
    for c in range(shape(a)[1]):
        k = next((i for i in range(r, len(m)) if m[i][c]), None)
        if k is None:
            continue
        m[r], m[k] = m[k], m[r]
        for i in range(len(m)):
            if m[i][c] and (i > r or (full and i != r)):
                m[i] = [x ^ y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    return mk(shape(a), [K(int(x)) for row in m for x in row]), piv


def call(eng, st, path, args, kw, node):
    """Result of a numpy call on explicit arrays, or None when it is not explicit."""
    import pyext

    n = len(args)
    if path == "numpy.fill_diagonal" and n == 2:
        a, v = eng.val(st, args[0]), eng.val(st, args[1])
        if not isnda(a) or len(shape(a)) != 2 or not isinstance(v, Term) or isnda(v):
            return None
        k = shape(a)[1]
        nv = mk(shape(a), [v if i // k == i % k else e for i, e in enumerate(items(a))])
        if args[0].op == "ref" and st.heap[args[0].args[0]].kind == "arr":
            st.heap[args[0].args[0]] = st.heap[args[0].args[0]].but(val=nv)
        else:
            eng.rebind(st, node.args[0], args[0], nv)
        return NONE
    if path in ("numpy.ma.array", "numpy.ma.masked_array", "numpy.ma.masked_where", "numpy.ma.MaskedArray"):
        if path.endswith("where") and n == 2:
            a, m = eng.val(st, args[1]), eng.val(st, args[0])
        elif n == 1 and set(kw) == {"mask"}:
            a, m = eng.val(st, args[0]), eng.val(st, kw["mask"])
        else:
            return None
        if not (isnda(a) and isnda(m) and shape(a) == shape(m) and consts(m)):
            return None
        return pyext.arr(eng, st, mk(shape(a), [MASKED if cval(x) else e for e, x in zip(items(a), items(m))]))
    if path == "numpy.apply_along_axis" and n == 3 and not kw:
        ax, a = eng.val(st, args[1]), eng.val(st, args[2])
        if not (isnda(a) and len(shape(a)) == 2 and is_const(ax) and cval(ax) in (0, 1, -1)):
            return None
        b = transpose(a) if cval(ax) == 0 else a
        out, d = [], dt_of(eng, st, args[2])
        for r in rows(b):
            res = eng.call(st, args[0], [pyext.arr(eng, st, r, dt=d)], {}, node)
            if len(res) != 1 or res[0][0] is not st or st.exc is not None:
                return None
            v = eng.val(st, res[0][1])
            if not (isnda(v) and len(shape(v)) == 1 or is_const(v)):
                return None
            out.append(v)
        if not out or len({isnda(v) and shape(v) for v in out}) != 1:
            return None
        v = from_rows(out) if isnda(out[0]) else mk((len(out),), out)
        return pyext.arr(eng, st, transpose(v) if isnda(out[0]) and cval(ax) == 0 else v)
    if path == "numpy.unravel_index" and n == 2:
        i, sh = eng.val(st, args[0]), eng.known_items(st, eng.val(st, args[1]))
        if not is_const(i) or sh is None or not all(is_const(x) for x in sh):
            return None
        i, out = cval(i), []
        for x in reversed(sh):
            out.append(K(i % cval(x)))
            i //= cval(x)
        return T("tuple", *out[::-1])
    if path in ("ldpc.mod2.reduced_row_echelon", "ldpc.mod2.row_echelon") and n >= 1:
        a = eng.val(st, args[0])
        if not (isnda(a) and len(shape(a)) == 2 and consts(a)):
            return None
        fl = path.endswith("reduced_row_echelon") or (n > 1 and eng.val(st, args[1]) is TRUE) or ("full" in kw and eng.val(st, kw["full"]) is TRUE)
        r, piv = row_echelon(a, fl)
        if path.endswith("reduced_row_echelon"):  # ldpc moves the pivot columns to the front
            k = shape(a)[1]
            order = piv + [j for j in range(k) if j not in piv]
            r, _ = row_echelon(mk(shape(a), [items(x)[j] for x in rows(a) for j in order]), True)
            tr = pyext.arr(eng, st, mk((k, k), [K(int(order[j] == i)) for i in range(k) for j in range(k)]))
            return T("tuple", pyext.arr(eng, st, r), K(len(piv)), T("call", path, a, K("transform")), tr)
        return T("tuple", pyext.arr(eng, st, r), K(len(piv)), T("call", path, a, K("transform")), T("list", *[K(x) for x in piv]))
    if path in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full") and n >= 1:
        sh = shape_arg(eng, st, args[0])
        if sh is None or size(sh) > 20000:
            return None
        dt = eng.val(st, kw["dtype"]) if "dtype" in kw else args[1] if n > 1 and path != "numpy.full" else None
        bl = dt is not None and dt.op == "ext" and dt.args[0] in ("builtins.bool", "numpy.bool_")
        e = eng.val(st, args[1]) if path == "numpy.full" else K(int(path == "numpy.ones"))
        if bl and is_const(e):
            e = K(bool(cval(e)))
        return pyext.arr(eng, st, mk(sh, [e] * size(sh)))
    if path in ("numpy.eye", "numpy.identity") and n == 1:
        v = eng.val(st, args[0])
        if is_const(v):
            k = cval(v)
            return pyext.arr(eng, st, mk((k, k), [K(int(i == j)) for i in range(k) for j in range(k)]))
        return None
    if path == "numpy.kron" and n == 2:
        a, b = (to_nda(eng, st, x) for x in args)
        r = kron(a, b) if a is not None and b is not None and size(shape(a)) * size(shape(b)) <= 20000 else None
        return pyext.arr(eng, st, r) if r is not None else None
    if path == "numpy.arange" and 1 <= n <= 3:
        vs = [eng.val(st, a) for a in args]
        if all(is_const(v) and isinstance(cval(v), int) for v in vs):
            r = range(*(cval(v) for v in vs))
            return pyext.arr(eng, st, mk((len(r),), [K(i) for i in r]))
        return None
    if path == "numpy.binary_repr" and n >= 1:
        vs = [eng.val(st, a) for a in args] + ([eng.val(st, kw["width"])] if "width" in kw else [])
        if all(is_const(v) for v in vs) and cval(vs[0]) >= 0:
            s = bin(cval(vs[0]))[2:]
            return K(s.zfill(cval(vs[1])) if len(vs) > 1 and cval(vs[1]) else s)
        return None
    if path in pyext.IDENT and n >= 1 and path.startswith("numpy."):
        a = to_nda(eng, st, args[0])
        if a is None:
            v = eng.val(st, args[0])
            if is_const(v) and isinstance(cval(v), str) and path == "numpy.array":
                return None
            return None
        dt = eng.val(st, kw["dtype"]) if "dtype" in kw else eng.val(st, args[1]) if n > 1 else None
        a = cast(a, dt)
        if path == "numpy.atleast_2d" and len(shape(a)) == 1:
            a = mk((1, *shape(a)), items(a))
        src = dt_of(eng, st, args[0])
        return pyext.arr(eng, st, a, dt=dtname(dt) if dt is not None else src if src != "weak" else None)
    if path in ("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like") and n >= 1:
        a = to_nda(eng, st, args[0])
        if a is None:
            return None
        e = eng.val(st, args[1]) if path == "numpy.full_like" else K(int(path == "numpy.ones_like"))
        return pyext.arr(eng, st, mk(shape(a), [e] * len(items(a))))
    if path in ("numpy.vstack", "numpy.hstack", "numpy.concatenate", "numpy.row_stack", "numpy.column_stack", "numpy.stack") and n >= 1:
        it = eng.known_items(st, args[0])
        if it is None:
            return None
        xs = [to_nda(eng, st, x) for x in it]
        if any(x is None for x in xs):
            return None
        ax = kwval(eng, st, kw, "axis", 0 if n < 2 else cval(eng.val(st, args[1])) if is_const(eng.val(st, args[1])) else "?")
        if ax == "?":
            return None
        if path in ("numpy.vstack", "numpy.row_stack"):
            xs = [mk((1, *shape(x)), items(x)) if len(shape(x)) == 1 else x for x in xs]
            ax = 0
        elif path == "numpy.hstack":
            ax = 0 if len(shape(xs[0])) == 1 else 1
        elif path == "numpy.column_stack":
            xs = [mk((*shape(x), 1), items(x)) if len(shape(x)) == 1 else x for x in xs]
            ax = 1
        elif path == "numpy.stack":
            if ax != 0:
                return None
            xs = [mk((1, *shape(x)), items(x)) for x in xs]
        r = stack(xs, ax)
        if r is None and xs and all(isnda(x) for x in xs) and len({len(shape(x)) for x in xs}) == 1 and isinstance(ax, int) and 0 <= ax < len(shape(xs[0])):
            return refuse(eng, st, "all the input array dimensions except for the concatenation axis must match exactly")
        return r
    if path == "numpy.ndenumerate" and n == 1 and not kw:
        a = to_nda(eng, st, args[0])
        if a is None:
            return None
        return T("list", *[T("tuple", T("tuple", *map(K, pos)), x) for pos, x in zip(itertools.product(*[range(k) for k in shape(a)]), items(a))])
    if path == "numpy.block" and n == 1 and not kw:
        top = eng.known_items(st, args[0])
        if top is None:
            return None
        out = []
        for r in top:
            it = None if eng.val(st, r).op == "nda" else eng.known_items(st, r)
            xs = [to_nda(eng, st, x) for x in (it if it is not None else [r])]
            if any(x is None or len(shape(x)) != 2 for x in xs):
                return None
            if len({shape(x)[0] for x in xs}) != 1:
                return None
            out.append(stack(xs, 1))
        return stack(out, 0) if len({shape(x)[1] for x in out}) == 1 else None
    if path == "numpy.append" and n >= 2 and (kw or n > 2):
        ax = kwval(eng, st, kw, "axis", 0 if n < 3 else cval(eng.val(st, args[2])) if is_const(eng.val(st, args[2])) else "?")
        xs = [to_nda(eng, st, x) for x in args[:2]]
        if any(x is None for x in xs) or ax not in (0, 1) or len(shape(xs[0])) != len(shape(xs[1])):
            return None
        return stack(xs, ax)
    if path == "numpy.append" and n == 2 and not kw:
        xs = [to_nda(eng, st, x) for x in args]
        if xs[0] is None:
            return None
        if xs[1] is None:
            xs[1] = mk((1,), [eng.val(st, args[1])])
        return stack([mk((len(items(x)),), items(x)) for x in xs], 0)
    if path in ("numpy.delete", "numpy.roll", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.take", "numpy.repeat", "numpy.hsplit", "numpy.vsplit", "numpy.split", "numpy.array_split") and n >= 1:
        return rearrange(eng, st, path[6:], args, kw)
    if path in ("numpy.array_equal", "numpy.array_equiv") and n == 2:
        xs = [to_nda(eng, st, x) for x in args]
        if any(x is None for x in xs):
            return None
        if shape(xs[0]) != shape(xs[1]):
            return FALSE
        return reduce1("all", items(compare("Eq", *xs)))
    if path.startswith("ldpc.mod2.") and n >= 1:
        a = to_nda(eng, st, args[0])
        if a is None or not consts(a) or len(shape(a)) != 2:
            return None
        if path == "ldpc.mod2.rank":
            return K(rank2(a))
        if path == "ldpc.mod2.row_basis":
            return row_basis(a)
        if path in ("ldpc.mod2.nullspace", "ldpc.mod2.kernel") and n == 1 and path.endswith("nullspace"):
            return nullspace(a)
        return None
    # functions of explicit operands
    X = []
    hit = False
    for a in args:
        v = eng.val(st, a)
        if isnda(v):
            hit = True
        elif v.op in ("list", "tuple", "nparr"):
            w = to_nda(eng, st, a)
            if w is not None:
                v = w
                hit = True
        X.append(v)
    if not hit:
        return None
    name = path[6:] if path.startswith("numpy.") else None
    if name is None:
        return None
    if name in ("sum", "any", "all", "count_nonzero", "prod", "min", "max", "amin", "amax", "argmin", "argmax", "mean") and isnda(X[0]):
        ax = kwval(eng, st, kw, "axis", cval(X[1]) if n > 1 and is_const(X[1]) else None)
        if ax == "?":
            return None
        return reduce_(name, X[0], ax)
    bops = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "mod": "Mod", "remainder": "Mod", "fmod": "Mod", "dot": "MatMult",
            "matmul": "MatMult", "bitwise_xor": "BitXor", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "power": "Pow", "floor_divide": "FloorDiv"}
    if name in bops and n == 2:
        return refuse(eng, st, "operands of different shape") if mismatch(bops[name], *X) and eng.exact else binop(bops[name], *X)
    if name in ("logical_xor", "logical_and", "logical_or") and n == 2:
        ys = [elementwise(truthy, x) if isnda(x) else truthy(x) for x in X]
        return binop({"logical_xor": "BitXor", "logical_and": "BitAnd", "logical_or": "BitOr"}[name], *ys)
    if name == "logical_not" and n == 1:
        from pyabs import neg

        return elementwise(lambda x: neg(truthy(x)), X[0])
    if name in ("equal", "not_equal", "less", "greater", "less_equal", "greater_equal") and n == 2:
        return compare({"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "greater": "Gt", "less_equal": "LtE", "greater_equal": "GtE"}[name], *X)
    if name == "transpose" and n == 1:
        return transpose(X[0])
    if name == "outer" and n == 2 and all(isnda(x) for x in X):
        return mk((len(items(X[0])), len(items(X[1]))), [pmul(num(a), num(b)) for a in items(X[0]) for b in items(X[1])])
    if name == "where" and n == 3:
        from algebra import ite

        return elementwise(lambda c, x, y: (x if cval(c) else y) if is_const(c) else T("ite", c, x, y), *X)
    if name in ("where", "nonzero") and n == 1:
        return nonzero(X[0])
    if name == "flatnonzero" and n == 1:
        r = nonzero(mk((len(items(X[0])),), items(X[0])))
        return None if r is None else r.args[0]
    if name == "argwhere" and n == 1:
        r = nonzero(X[0])
        return None if r is None else transpose(from_rows(r.args)) if shape(r.args[0])[0] else mk((0, len(shape(X[0]))), [])
    if name == "unique":
        ax = kwval(eng, st, kw, "axis")
        if set(kw) - {"axis"} or ax == "?":
            return None
        return unique(X[0], ax)
    if name in ("shape",):
        return T("tuple", *[K(k) for k in shape(X[0])])
    if name == "reshape" and n == 2:
        sh = shape_arg(eng, st, args[1])
        return None if sh is None else reshape(X[0], sh)
    if name in ("ravel",):
        return mk((len(items(X[0])),), items(X[0]))
    if name == "copyto":
        return None
    if name == "flip" and n == 1 and len(shape(X[0])) == 1:
        return mk(shape(X[0]), items(X[0])[::-1])
    if name in ("sort",) and n == 1 and consts(X[0]) and len(shape(X[0])) == 1:
        return mk(shape(X[0]), [K(v) for v in sorted(cval(e) for e in items(X[0]))])
    if name == "argsort" and n == 1 and consts(X[0]) and len(shape(X[0])) == 1:
        vs = [cval(e) for e in items(X[0])]
        return mk(shape(X[0]), [K(i) for i in sorted(range(len(vs)), key=lambda i: vs[i])])
    if name == "cumsum" and n == 1 and len(shape(X[0])) == 1:
        out, r = [], K(0)
        for e in items(X[0]):
            r = padd(r, num(e))
            out.append(r)
        return mk(shape(X[0]), out)
    if name == "tile" and n == 2 and len(shape(X[0])) == 1 and is_const(X[1]):
        return mk((shape(X[0])[0] * cval(X[1]),), list(items(X[0])) * cval(X[1]))
    return None


WIDTH = {"bool": 0, "int8": 1, "uint8": 1, "int16": 2, "int32": 4, "int64": 8, "uint64": 8, "float64": 9}


def dtname(dt):
    """Name of the element type an argument such as np.int8 or "int8" stands for."""
    if dt is None:
        return None
    nm = str(dt.args[0] if dt.op == "ext" else cval(dt) if is_const(dt) else "").split(".")[-1]
    nm = {"bool_": "bool", "int": "int64", "int_": "int64", "float": "float64"}.get(nm, nm)
    return nm if nm in WIDTH else None


def dt_of(eng, st, v):
    """Element type of a value, "weak" for a Python number, None when it is not known."""
    if v.op == "ref":
        o = st.heap.get(v.args[0])
        return o.dt if o is not None and o.kind == "arr" else None
    return "weak" if is_const(v) and isinstance(cval(v), (int, bool)) else None


def typed(eng, st, r, a, b):
    """Result of an arithmetic operation as an array object when the element types of both operands are known."""
    if not isnda(r):
        return r
    import pyext

    x, y = dt_of(eng, st, a), dt_of(eng, st, b)
    if x is None or y is None or (x == "weak" and y == "weak"):
        return r
    d = y if x == "weak" else x if y == "weak" else max(x, y, key=lambda k: WIDTH[k])
    if "bool" == d or {x, y} == {"int8", "uint8"}:
        return r
    return pyext.arr(eng, st, r, dt=d)


def cast(a, dt):
    if dt is None:
        return a
    nm = dt.args[0] if dt.op == "ext" else cval(dt) if is_const(dt) else ""
    nm = str(nm).split(".")[-1]

    def f(e):
        if nm in ("bool", "bool_"):
            return truthy(e)
        if is_const(e) and (nm.startswith(("int", "uint"))):
            try:
                return K(int(cval(e)))
            except (TypeError, ValueError):
                return e
        if is_const(e) and nm.startswith("float") and isinstance(cval(e), (int, float, bool)):
            return K(float(cval(e))) if not isinstance(cval(e), bool) else K(float(int(cval(e))))
        return e

    return mk(shape(a), [f(e) for e in items(a)])


def method(eng, st, rv, name, args, kw, node, recv_dt=None):
    """Method of an explicit array, or None."""
    import pyext

    n = len(args)
    V = [eng.val(st, a) for a in args]
    if name in ("sum", "any", "all", "prod", "min", "max", "argmin", "argmax", "mean"):
        ax = kwval(eng, st, kw, "axis", cval(V[0]) if n and is_const(V[0]) else None)
        if ax == "?":
            return None
        return reduce_(name, rv, ax)
    if name == "copy":
        return pyext.arr(eng, st, rv, dt=recv_dt)
    if name == "astype" and n == 1:
        return pyext.arr(eng, st, cast(rv, V[0]), dt=dtname(V[0]))
    if name == "transpose" and n == 0:
        return transpose(rv)
    if name == "dot" and n == 1:
        w = to_nda(eng, st, args[0])
        return None if w is None else matmul(rv, w)
    if name in ("flatten", "ravel") and n == 0:
        return pyext.arr(eng, st, mk((len(items(rv)),), items(rv)))
    if name == "reshape":
        sh = shape_arg(eng, st, args[0]) if n == 1 else tuple(cval(v) for v in V) if all(is_const(v) for v in V) else None
        return None if sh is None else reshape(rv, sh)
    if name == "tolist" and n == 0:
        return tolist(eng, st, rv)
    if name == "nonzero" and n == 0:
        return nonzero(rv)
    if name == "tobytes" and n == 0:
        if consts(rv):
            return K(f"{recv_dt or '?'}:".encode() + b"".join(str(int(cval(e))).encode() + b"," for e in items(rv)))
        return T("bytes", rv)
    if name == "item" and n == 0 and len(items(rv)) == 1:
        return items(rv)[0]
    if name in ("todense", "toarray", "squeeze", "tocsr") and n == 0:
        return rv
    return None


def tolist(eng, st, a):
    from pyabs import HObj

    return eng.new(st, HObj("list", segs=tuple(("item", tolist(eng, st, r) if isnda(r) else r) for r in rows(a))))


def attr(a, name):
    sh = shape(a)
    if name == "shape":
        return T("tuple", *[K(k) for k in sh])
    if name == "size":
        return K(len(items(a)))
    if name == "ndim":
        return K(len(sh))
    if name == "T":
        return transpose(a)
    if name in ("flat", "A"):
        return mk((len(items(a)),), items(a)) if name == "flat" else a
    return None
