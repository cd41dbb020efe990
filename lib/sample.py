"""Comparing two decision terms over GF(2) data by evaluating both on a grid of values of their leaves.

The terms come from the abstract interpretation of the source; nothing of the analysed program is run."""
import random

from terms import K, cval, is_const, show


class Unsupported(Exception):
    pass


def rank(rows):
    basis = {}
    for r in rows:
        v = int("".join(str(int(x) & 1) for x in r) or "0", 2)
        while v:
            h = v.bit_length()
            if h not in basis:
                basis[h] = v
                break
            v ^= basis[h]
    return len(basis)


def is_matrix(v):
    return isinstance(v, list) and (not v or isinstance(v[0], list))


def as_rows(v):
    if not isinstance(v, list):
        raise Unsupported("rows")
    return v if is_matrix(v) else [v]


def flat(v):
    if isinstance(v, list):
        for x in v:
            yield from flat(x)
    else:
        yield v


def each(f, *vs):
    if any(isinstance(v, list) for v in vs):
        n = {len(v) for v in vs if isinstance(v, list)}
        if len(n) != 1:
            raise Unsupported("shapes")
        return [each(f, *[v[i] if isinstance(v, list) else v for v in vs]) for i in range(n.pop())]
    return f(*vs)


def matmul(a, b):
    if is_matrix(a) and is_matrix(b):
        cols = [list(c) for c in zip(*b)]
        return [[sum(x * y for x, y in zip(r, c)) for c in cols] for r in a]
    if is_matrix(a):
        return [sum(x * y for x, y in zip(r, b, strict=True)) for r in a]
    if is_matrix(b):
        return [sum(x * y for x, y in zip(a, c, strict=True)) for c in zip(*b)]
    return sum(x * y for x, y in zip(a, b, strict=True))


def ev(t, env):
    if is_const(t):
        return cval(t)
    op, a = t.op, t.args
    if op in ("sym", "attr", "call"):
        name = show(t)
        if name in env:
            return env[name]
    if op in ("and", "or"):
        vs = [truth(ev(x, env)) for x in a]
        return all(vs) if op == "and" else any(vs)
    if op == "not":
        return each(lambda x: not x, ev(a[0], env))
    if op in ("any", "all", "count_nonzero", "sum") and len(a) == 1:
        vs = list(flat(ev(a[0], env)))
        return any(vs) if op == "any" else all(vs) if op == "all" else sum(map(bool, vs)) if op == "count_nonzero" else sum(vs)
    if op == "odd":
        return each(lambda x: bool(x % 2), ev(a[0], env))
    if op == "rank":
        return rank(as_rows(ev(a[0], env)))
    if op == "call" and a[0] == "ldpc.mod2.rank" and len(a) == 2:
        return rank(as_rows(ev(a[1], env)))
    if op == "rows":
        return [r for x in a for r in as_rows(ev(x, env))]
    if op in ("vstack", "concat") and len(a) == 1 and a[0].op == "list":
        return [r for x in a[0].args for r in as_rows(ev(x, env))]
    if op == "eq":
        return each(lambda x, y: x == y, ev(a[0], env), ev(a[1], env))
    if op == "alleq":
        vs = [ev(x, env) for x in a]
        return all(v == vs[0] for v in vs)
    if op == "lt":
        return each(lambda x, y: x < y, ev(a[0], env), ev(a[1], env))
    if op == "mod":
        return each(lambda x, y: x % y, ev(a[0], env), ev(a[1], env))
    if op == "matmul":
        return matmul(ev(a[0], env), ev(a[1], env))
    if op == "T":
        m = ev(a[0], env)
        return [list(c) for c in zip(*m)] if is_matrix(m) else m
    if op == "array_equal":
        return ev(a[0], env) == ev(a[1], env)
    if op == "len":
        return len(ev(a[0], env))
    if op in ("set", "fset") and a:
        return {repr(ev(x, env)) for x in a}
    if op == "poly":
        tot = 0
        for mono, c in a:
            v = c
            for x in mono:
                w = ev(x, env)
                v = each(lambda p, q: p * q, v, w)
            tot = each(lambda p, q: p + q, tot, v)
        return tot
    raise Unsupported(op)


def truth(v):
    if isinstance(v, list):
        raise Unsupported("truth of an array")
    return bool(v)


def kernel(rows, n):
    rows = [r[:] for r in rows]
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                rows[i] = [x ^ y for x, y in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    out = []
    for f in (c for c in range(n) if c not in piv):
        v = [0] * n
        v[f] = 1
        for i, c in enumerate(piv):
            v[c] = rows[i][f]
        out.append(v)
    return out


def combo(rnd, rows, n):
    v = [0] * n
    for r in rows:
        if rnd.random() < 0.5:
            v = [x ^ y for x, y in zip(v, r)]
    return v


def instances(vectors, extra=()):
    """Valid check matrices with errors inside and outside of their row spaces."""
    rnd = random.Random(11)
    for k in range(120):
        n = rnd.choice((3, 4, 5, 6, 7, 9, 24))
        hx = [[int(rnd.random() < 0.5) for _ in range(n)] for _ in range(rnd.randint(1, max(1, n // 2)))]
        ker = kernel(hx, n) or [[0] * n]
        hz = [combo(rnd, ker, n) for _ in range(rnd.randint(1, max(1, n // 2)))]
        if k % 5 == 0:
            hx, hz = hz, hx
        if k % 7 == 0 and all(sum(a & b for a, b in zip(r, s)) % 2 == 0 for r in hx for s in hx):
            hz = [combo(rnd, hx, n) for _ in hx]
        env = {"self.Hx": hx, "self.Hz": hz, "self.Lx": kernel(hz, n) or [[0] * n], "self.Lz": kernel(hx, n) or [[0] * n]}
        env["self.L"] = env["self.Lz"]
        gens = [r + [0] * n + [0] for r in hx] + [[0] * n + r + [0] for r in hz]
        env["self.generators"] = gens
        for e in extra:
            env[e] = rnd.choice((gens, [combo(rnd, gens, 2 * n + 1) for _ in gens], [[rnd.randint(0, 1) for _ in r] for r in gens]))
        last = None
        for name, kind in vectors.items():
            base = gens if kind == "pauli" else rnd.choice((hx, hz, env["self.Lx"], env["self.Lz"]))
            m = 2 * n + 1 if kind == "pauli" else n
            v = rnd.choice((combo(rnd, base, m), [rnd.randint(0, 1) for _ in range(m)], [int(i == k % m) for i in range(m)], [0] * m))
            if last is not None and rnd.random() < 0.6:
                v = [x ^ y for x, y in zip(last, combo(rnd, base, m))]
            env[name] = last = v
        yield env


def agree(t, spec, vectors, extra=()):
    """True / False / None (a term that cannot be evaluated)."""
    seen = set()
    for env in instances(vectors, extra):
        try:
            a, b = truth(ev(t, env)), truth(ev(spec, env))
        except (Unsupported, ValueError, TypeError, IndexError, ZeroDivisionError):
            return None
        seen.add(b)
        if a != b:
            return False
    return True if len(seen) == 2 else None
