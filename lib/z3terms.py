"""Truth value of an extracted z3 constraint term under an assignment of its Boolean variables."""
from __future__ import annotations

import time

from terms import cval, is_const


class Unmodelled(Exception):
    pass


def seq(args):
    """Operands of an n-ary connective: a list or the arguments themselves."""
    if len(args) == 1 and args[0].op in ("list", "tuple", "nparr", "nda"):
        a = args[0]
        if a.op == "nparr":
            a = a.args[0]
        return list(a.args[1:] if a.op == "nda" else a.args)
    return list(args)


def var_names(t, acc=None):
    acc = set() if acc is None else acc
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "call" and x.args[0] in ("z3.Bool", "z3.Int", "z3.BitVec"):
            acc.add(cval(x.args[1]))
            continue
        stack.extend(y for y in x.args if hasattr(y, "op"))
    return acc


def domains(t, acc=None):
    """{name: number of values} of the bit vectors in a term."""
    acc = {} if acc is None else acc
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "call" and x.args[0] == "z3.BitVec" and is_const(x.args[2]):
            acc[cval(x.args[1])] = 2 ** cval(x.args[2])
            continue
        stack.extend(y for y in x.args if hasattr(y, "op"))
    return acc


def conjuncts(t):
    """Split nested conjunctions, also below implications."""
    if t.op == "call" and t.args[0] == "z3.And" and len(t.args) >= 2:
        return [c for x in seq(t.args[1:]) for c in conjuncts(x)]
    if t.op in ("list", "tuple", "nparr", "nda"):
        return [c for x in seq((t,)) for c in conjuncts(x)]
    if t.op == "and":
        return [c for x in t.args for c in conjuncts(x)]
    if t.op == "call" and t.args[0] == "z3.Implies" and len(t.args) == 3:
        from terms import T

        cs = conjuncts(t.args[2])
        if len(cs) > 1:
            return [T("call", "z3.Implies", t.args[1], c) for c in cs]
    return [t]


def solutions(cons, limit=100000):
    """All satisfying assignments of a list of constraint terms (backtracking over small clauses)."""
    cl, dom = [], {}
    for t in cons:
        for c in conjuncts(t):
            domains(c, dom)
            cl.append((c, frozenset(var_names(c))))
    names = set().union(*[v for _c, v in cl]) if cl else set()
    order, left = [], list(dict.fromkeys(v for _c, v in sorted(cl, key=lambda x: len(x[1]))))
    have = set()
    while left:
        left = [v for v in left if v - have]
        if not left:
            break
        b = min(left, key=lambda v: len(v - have))
        for n in sorted(b - have):
            order.append(n)
            have.add(n)
    order += sorted(names - have)
    pos = {n: i for i, n in enumerate(order)}
    at = [[] for _ in order]
    for c, v in cl:
        if v:
            at[max(pos[n] for n in v)].append(c)
        elif not ev(c, {}):
            return
    env, n, steps = {}, 0, [0]
    end = time.monotonic() + 60

    def rec(i):
        nonlocal n
        steps[0] += 1
        if steps[0] > limit or (steps[0] & 255 == 0 and time.monotonic() > end):
            raise Unmodelled("too many assignments")
        if i == len(order):
            yield dict(env)
            return
        nm = order[i]
        for v in range(dom[nm]) if nm in dom else (False, True):
            env[nm] = v
            memo = {}
            if all(bool(ev(c, env, memo)) for c in at[i]):
                yield from rec(i + 1)
        del env[nm]

    yield from rec(0)


def ev(t, env, memo=None):
    memo = {} if memo is None else memo
    k = t.uid
    if k in memo:
        return memo[k]
    r = _ev(t, env, memo)
    memo[k] = r
    return r


def _ev(t, env, memo):
    if is_const(t):
        v = cval(t)
        if isinstance(v, (bool, int)):
            return v
        raise Unmodelled(str(v))
    if t.op == "call":
        name = t.args[0].split(".")[-1]
        a = t.args[1:]
        if any(x.op == "kw" for x in a):
            raise Unmodelled("keyword")
        if not t.args[0].startswith("z3."):
            raise Unmodelled(t.args[0])
        if name == "BitVec" and not is_const(t.args[2]):
            raise Unmodelled("width of a bit vector")
        if name in ("Bool", "Int", "BitVec"):
            n = cval(a[0])
            if n not in env:
                raise Unmodelled(n)
            return env[n]
        if name in ("BoolVal", "IntVal", "BitVecVal"):
            return ev(a[0], env, memo)
        if name == "And":
            return all(bool(ev(x, env, memo)) for x in seq(a))
        if name == "Or":
            return any(bool(ev(x, env, memo)) for x in seq(a))
        if name == "Not":
            return not ev(a[0], env, memo)
        if name == "Xor":
            return bool(ev(a[0], env, memo)) != bool(ev(a[1], env, memo))
        if name == "Implies":
            return (not ev(a[0], env, memo)) or bool(ev(a[1], env, memo))
        if name == "If":
            return ev(a[1] if ev(a[0], env, memo) else a[2], env, memo)
        if name in ("Sum", "Product"):
            vs = [int(ev(x, env, memo)) for x in seq(a)]
            if name == "Sum":
                return sum(vs)
            r = 1
            for v in vs:
                r *= v
            return r
        if name in ("PbGe", "PbLe", "PbEq"):
            tot = 0
            for p in seq(a[:1]):
                if p.op not in ("tuple", "list") or len(p.args) != 2:
                    raise Unmodelled("PB term")
                tot += int(bool(ev(p.args[0], env, memo))) * int(ev(p.args[1], env, memo))
            k = ev(a[1], env, memo)
            return {"PbGe": tot >= k, "PbLe": tot <= k, "PbEq": tot == k}[name]
        if name in ("AtMost", "AtLeast"):
            n = sum(bool(ev(x, env, memo)) for x in a[:-1])
            k = ev(a[-1], env, memo)
            return n <= k if name == "AtMost" else n >= k
        if name in ("ULT", "ULE", "UGT", "UGE"):
            x, y = ev(a[0], env, memo), ev(a[1], env, memo)
            return {"ULT": x < y, "ULE": x <= y, "UGT": x > y, "UGE": x >= y}[name]
        if name == "Distinct":
            vs = [ev(x, env, memo) for x in seq(a)]
            return len(set(vs)) == len(vs)
        raise Unmodelled(name)
    if t.op == "not":
        return not ev(t.args[0], env, memo)
    if t.op == "eq":
        return int(ev(t.args[0], env, memo)) == int(ev(t.args[1], env, memo))
    if t.op == "lt":
        if domains(t):
            raise Unmodelled("signed comparison of bit vectors")
        return ev(t.args[0], env, memo) < ev(t.args[1], env, memo)
    if t.op == "and":
        return all(bool(ev(x, env, memo)) for x in t.args)
    if t.op == "or":
        return any(bool(ev(x, env, memo)) for x in t.args)
    if t.op == "ite":
        return ev(t.args[1] if ev(t.args[0], env, memo) else t.args[2], env, memo)
    if t.op == "bool":
        return bool(ev(t.args[0], env, memo))
    if t.op == "poly":
        tot = 0
        for mono, c in t.args:
            v = c
            for x in mono:
                v *= int(ev(x, env, memo))
            tot += v
        return tot
    raise Unmodelled(t.op)
