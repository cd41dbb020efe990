"""Normal forms used to compare computed values with specifications."""
from __future__ import annotations

import terms
from terms import FALSE, K, NONE, T, TRUE, Term, cval, is_const, join, padd, pmod, pmul, subterms
from pyabs import conj, disj, eqt, ltt, neg, subst, boolish

# operators whose meaning the algebra knows completely: two different normal forms
# built from these only are different functions (up to the listed identities)
PURE = {"matmul", "mod", "T", "poly", "attr", "sym", "const", "vstack", "hstack", "list", "not", "eq", "and", "or",
        "any", "all", "tuple", "view", "lt", "zeros", "rank", "concat", "nparr", "sum"}


ARRAYS = {"matmul", "mod", "vstack", "hstack", "concat", "zeros", "nparr", "T"}


def is2(t):
    return is_const(t) and cval(t) == 2 and not isinstance(cval(t), bool)


def decision(paths):
    """[(facts dict, value term)] -> one boolean term equivalent to the path set, or None."""
    paths = [(dict(f), v) for f, v in paths]
    return _decide(paths, 0)


def _decide(paths, depth):
    vals = {v for _f, v in paths}
    if len(vals) == 1:
        return next(iter(vals))
    if depth > 12:
        return None
    common = None
    for f, _v in paths:
        ks = set(f)
        common = ks if common is None else common & ks
    cand = [k for k in common or () if len({f[k] for f, _v in paths}) == 2]
    if cand:
        k = min(cand, key=lambda t: t.uid)
        tp = [({a: b for a, b in f.items() if a is not k}, v) for f, v in paths if f[k]]
        fp = [({a: b for a, b in f.items() if a is not k}, v) for f, v in paths if not f[k]]
        a, b = _decide(tp, depth + 1), _decide(fp, depth + 1)
        if a is None or b is None:
            return None
        return ite(k, a, b)
    # early exit of a search loop: facts about some element -> existential
    ex = []
    rest = []
    for f, v in paths:
        w = [k for k in f if any(x.op in ("some", "someidx") for x in subterms(k))]
        if w:
            ex.append((f, v, w))
        else:
            rest.append((f, v))
    if ex and rest:
        base = _decide(rest, depth + 1)
        if base is None or not is_const(base):
            return None
        r = base
        for f, v, w in ex:
            if not is_const(v):
                return None
            c = TRUE
            for k in w:
                c = conj(c, k if f[k] else neg(k))
            some = [x for x in subterms(c) if x.op == "some"]
            if len({x.uid for x in some}) != 1 or any(x.op == "someidx" for x in subterms(c)):
                return None
            x = some[0]
            body = subst(c, {x: T("elem", x.args[0], 1)})
            e = T("any", T("list", T("comp", x.args[0], T("alt", T("conds"), body))))
            r = ite(e, v, r)
        return r
    return None


def ite(c, a, b):
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if a is TRUE:
        return disj(c, b)
    if b is FALSE:
        return conj(c, a)
    if a is FALSE:
        return conj(neg(c), b)
    if b is TRUE:
        return disj(neg(c), a)
    return T("ite", c, a, b)


def rowwise(t):
    """[f(row) for row in X] -> the array it denotes, for row-linear f."""
    if t.op in ("list", "nparr") and len(t.args) == 1:
        c = t.args[0]
        if c.op == "list" and t.op == "nparr":
            return rowwise(c)
        if c.op == "comp" and len(c.args) == 2 and c.args[1].op == "alt" and len(c.args[1].args) == 2:
            conds, body = c.args[1].args
            if conds.args:
                return None
            h = c.args[0]
            return _row(body, h)
    return None


def _row(body, h):
    """Array whose rows are `body` for each row of `h`."""
    if body.op == "elem" and body.args[0] is h:
        return h
    if body.op == "mod":
        a = _row(body.args[0], h)
        return None if a is None else pmod(a, body.args[1])
    if body.op == "matmul":
        a, b = body.args
        ea = a.op == "elem" and a.args[0] is h
        eb = b.op == "elem" and b.args[0] is h
        if ea and not _dep(b, h):
            return T("matmul", h, b)
        if eb and not _dep(a, h):
            return T("matmul", h, a)
        return None
    if body.op == "sum" and len(body.args) == 1 and body.args[0].op == "poly":
        p = body.args[0].args
        if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 2:
            a, b = p[0][0]
            if a.op == "elem" and a.args[0] is h and not _dep(b, h):
                return T("matmul", h, b)
            if b.op == "elem" and b.args[0] is h and not _dep(a, h):
                return T("matmul", h, a)
        return None
    if body.op == "sum" and len(body.args) == 1 and body.args[0].op in ("bitand",):
        a, b = body.args[0].args
        for x, y in ((a, b), (b, a)):
            if x.op == "elem" and x.args[0] is h and not _dep(y, h):
                return T("matmul", h, y)
        return None
    if body.op in ("eq", "not", "lt"):
        xs = []
        for a in body.args:
            if is_const(a):
                xs.append(a)
            else:
                r = _row(a, h)
                if r is None:
                    return None
                xs.append(r)
        return {"eq": lambda: eqt(*xs), "lt": lambda: ltt(*xs), "not": lambda: neg(xs[0])}[body.op]()
    return None


def _dep(t, h):
    return any(x.op == "elem" and x.args[0] is h for x in subterms(t))


def norm(t):
    """Normal form for comparison: vector products oriented, row loops vectorised, nonzero tests unified."""
    memo = {}

    def go(x):
        if x.uid in memo:
            return memo[x.uid]
        if x.op in ("const", "sym", "attr", "ref", "func", "ext", "class"):
            r = x
        elif x.op == "poly":
            r = K(0)
            for mono, c in x.args:
                p = K(c)
                for a in mono:
                    p = pmul(p, go(a))
                r = padd(r, p)
        else:
            args = tuple(go(a) if isinstance(a, Term) else a for a in x.args)
            r = rebuild(x.op, args)
        memo[x.uid] = r
        return r

    return go(t)


def rebuild(op, args):
    if op == "mod":
        return pmod(*args)
    if op == "eq":
        a, b = args
        for x, y in ((a, b), (b, a)):
            if y is K(1) and x.op == "len" and x.args[0].op == "set" and len(x.args[0].args) > 1:
                q = x.args[0].args
                return rebuild("and", tuple(eqt(q[0], z) for z in q[1:]))
        if is_const(b) and cval(b) in (0, 1) and a.op == "mod" and is2(a.args[1]):
            if cval(b) == 1:
                return T("odd", a.args[0])
            return neg(T("odd", a.args[0]))
        if is_const(b) and cval(b) in (0, 1) and not isinstance(cval(b), bool) and a.op == "odd":
            return a if cval(b) == 1 else neg(a)
        if b is K(0) and a.op in ("sum", "count_nonzero", "max") and len(a.args) == 1:
            return neg(T("any", cond_of(a.args[0])))
        return eqt(a, b)
    if op == "lt":
        a, b = args
        if is_const(a) and cval(a) == 0 and b.op in ("sum", "count_nonzero", "max") and len(b.args) == 1:
            return T("any", cond_of(b.args[0]))
        if is_const(b) and cval(b) == 1 and a.op in ("sum", "count_nonzero", "max") and len(a.args) == 1:
            return neg(T("any", cond_of(a.args[0])))
        if is_const(a) and cval(a) == 0 and b.op == "mod" and is2(b.args[1]):
            return T("odd", b.args[0])
        return ltt(a, b)
    if op == "not":
        a = args[0]
        return neg(a)
    if op in ("any", "all") and len(args) == 1:
        a = args[0]
        if a.op in ("list", "nparr"):
            r = rowwise(a)
            if r is not None:
                a = norm(r)
        a = cond_of(a)
        if op == "all":
            return neg(T("any", neg(a)))
        return T("any", a)
    if op in ("array_equal",):
        a, b = args
        for x, y in ((a, b), (b, a)):
            if y.op == "zeros":
                return neg(T("any", cond_of(x)))
        return T("array_equal", a, b)
    if op == "nparr" or op == "list":
        t = T(op, *args)
        r = rowwise(t)
        if r is not None:
            return norm(r)
        if op == "nparr" and args and args[0].op in ARRAYS:
            return args[0]
        return t
    if op == "matmul":
        a, b = args
        # v @ M.T == M @ v  (for a vector v; matrices are compared with their own spec)
        return T("matmul", a, b)
    if op == "and":
        r = TRUE
        for a in args:
            r = conj(r, a)
        return rank_chain(r)
    if op == "or":
        r = FALSE
        for a in args:
            r = disj(r, a)
        return r
    if op == "call" and args and args[0] == "ldpc.mod2.rank" and len(args) == 2:
        return T("rank", rowset(args[1]))
    if op == "view":
        return args[0]
    if op == "bool":
        return args[0]
    return T(op, *args)


def cond_of(a):
    """Value used as an (elementwise) condition."""
    if a.op == "mod" and is2(a.args[1]):
        return T("odd", a.args[0])
    return a


def rowset(m):
    """Rank only depends on the set of stacked rows."""
    if m.op in ("vstack", "concat") and m.args[0].op == "list":
        parts = {}
        for p in m.args[0].args:
            parts[p.uid] = p
        if len(parts) == 1:
            return next(iter(parts.values()))
        return T("rows", *sorted(parts.values(), key=lambda t: t.uid))
    return m


def rank_chain(t):
    """A conjunction of equalities is the set of values declared equal."""
    if t.op != "and":
        return t
    eqs = [a for a in t.args if a.op == "eq"]
    oth = [a for a in t.args if a.op != "eq"]
    groups = []
    for e in eqs:
        s = {e.args[0], e.args[1]}
        hit = [g for g in groups if g & s]
        for g in hit:
            s |= g
            groups.remove(g)
        groups.append(s)
    gs = [T("alleq", *sorted(g, key=lambda t: t.uid)) if len(g) > 2 else T("eq", *_eqo(g)) for g in groups]
    r = TRUE
    for x in [*oth, *gs]:
        r = conj(r, x)
    return r


def _eqo(g):
    a, b = sorted(g, key=lambda t: t.uid)
    e = eqt(a, b)
    return e.args


def pure(t):
    return all(x.op in PURE or x.op in ("odd", "rows", "alleq", "array_equal", "comp_") for x in subterms(t))


def has_parity(t):
    """The value went through a reduction modulo two."""
    return any((x.op == "mod" and is2(x.args[1])) or x.op == "odd" for x in subterms(t))
