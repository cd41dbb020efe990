"""Semantics of the parts of the C++ standard library the analysed sources use, over the values of cpp.py."""
from __future__ import annotations

from cpp import (DEFAULT, Bit, Cell, CppThrow, Enum, Ext, Iter, Lambda, Map, Obj, Ptr, Set, Stream, Undecided, Vec, between, clone, elements, elements_at,
                 hk, pair, rv, same, strip, targs, truth, ty, wrap)


def idx(v):
    v = rv(v)
    if isinstance(v, Enum):
        v = v.i
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    raise Undecided(f"index {type(v).__name__}")


def conv(it, v, elem):
    """A value stored as an element of the given type."""
    v = clone(rv(v))
    if elem:
        e = strip(elem)
        if isinstance(v, (int, float)) and not isinstance(v, Enum):
            if e in it.models:
                return it.models[e](it, [v])
            return wrap(v, e)
    return v


def emplace(it, elem, a):
    """An element constructed from arguments."""
    e = strip(elem or "")
    if len(a) == 1 and not isinstance(rv(a[0]), (int, float)):
        x = rv(a[0])
        if isinstance(x, Obj) or isinstance(x, (Ptr, Ext, Vec, Map, Set, str)):
            return clone(x)
    return clone(rv(it.make(e, a))) if e and not (len(a) == 1 and e not in it.models and e not in it.p.classes) else conv(it, a[0], elem)


def position(o, it):
    if isinstance(o, Vec):
        return it.i
    return it.i


def advance(it, k):
    """Move an iterator in place."""
    if isinstance(it.c, Vec):
        it.i += k
        return
    ks = it.c.keys()
    i = ks.index(it.i) if it.i in it.c.d else len(ks)
    i += k
    it.i = ks[i] if 0 <= i < len(ks) else None


def cells(o):
    return elements(o)


def vec_method(it, o, name, a):
    c = o.c
    if name in ("size", "length"):
        return len(c)
    if name == "empty":
        return not c
    if name == "at":
        i = idx(a[0])
        if not 0 <= i < len(c):
            raise CppThrow("std::out_of_range", f"index {i} of {len(c)} elements")
        return c[i]
    if name in ("begin", "cbegin"):
        return Iter(o, 0)
    if name in ("end", "cend"):
        return Iter(o, len(c))
    if name in ("rbegin", "crbegin"):
        return Iter(o, 0, True)
    if name in ("rend", "crend"):
        return Iter(o, len(c), True)
    if name in ("push_back", "push"):
        c.append(Cell(conv(it, a[0], o.elem)))
        return None
    if name == "emplace_back" or name == "emplace" and not (a and isinstance(rv(a[0]), Iter)):
        c.append(Cell(emplace(it, o.elem, a) if a else it.default(o.elem)))
        return c[-1]
    if name in ("front", "back", "top"):
        if not c:
            raise CppThrow("undefined", f"{name} of an empty container")
        return c[0] if name == "front" else c[-1]
    if name == "pop_back":
        if not c:
            raise CppThrow("undefined", "pop_back of an empty container")
        c.pop()
        return None
    if name in ("pop", "pop_front"):
        if not c:
            raise CppThrow("undefined", f"{name} of an empty container")
        c.pop(-1 if o.lifo and name == "pop" else 0)
        return None
    if name == "clear":
        c.clear()
        return None
    if name in ("reserve", "shrink_to_fit"):
        return None
    if name == "resize":
        n = idx(a[0])
        while len(c) > n:
            c.pop()
        while len(c) < n:
            c.append(Cell(conv(it, a[1], o.elem) if len(a) > 1 else it.default(o.elem)))
        return None
    if name == "assign":
        v = [rv(x) for x in a]
        src = [Cell(clone(x.v)) for x in (between(*v) if len(v) == 2 and isinstance(v[0], Iter) else elements(v[0]) if len(v) == 1 else [Cell(v[1])] * v[0])]
        c[:] = [Cell(clone(x.v)) for x in src]
        return None
    if name == "fill":
        for x in c:
            x.v = conv(it, a[0], o.elem)
        return None
    if name == "insert":
        p = rv(a[0]).i
        v = [rv(x) for x in a[1:]]
        if len(v) == 2 and isinstance(v[0], Iter):
            src = [Cell(clone(x.v)) for x in between(*v)]
        elif len(v) == 2 and isinstance(v[0], int):
            src = [Cell(conv(it, v[1], o.elem)) for _ in range(v[0])]
        elif len(v) == 1 and isinstance(v[0], Vec) and not (o.elem or "").startswith("std::vector"):
            src = [Cell(clone(x.v)) for x in v[0].c]
        else:
            src = [Cell(conv(it, v[0], o.elem))]
        c[p:p] = src
        return Iter(o, p)
    if name == "erase":
        p = rv(a[0]).i
        if len(a) == 2:
            del c[p:rv(a[1]).i]
        else:
            if not 0 <= p < len(c):
                raise CppThrow("undefined", "erase of an iterator past the end")
            del c[p]
        return Iter(o, p)
    if name == "data":
        raise Undecided("data()")
    if name == "capacity":
        return len(c)
    if name == "swap":
        x = rv(a[0])
        o.c, x.c = x.c, o.c
        return None
    raise Undecided(f"vector::{name}")


def assoc_method(it, o, name, a):
    m = isinstance(o, Map)
    if name == "size":
        return len(o.d)
    if name == "empty":
        return not o.d
    if name == "clear":
        o.d.clear()
        return None
    if name in ("count", "contains"):
        return int(hk(key(it, o, a[0])) in o.d)
    if name == "find":
        k = hk(key(it, o, a[0]))
        return Iter(o, k if k in o.d else None)
    if name in ("begin", "cbegin"):
        ks = o.keys()
        return Iter(o, ks[0] if ks else None)
    if name in ("end", "cend"):
        return Iter(o, None)
    if name == "at":
        k = hk(key(it, o, a[0]))
        if k not in o.d:
            raise CppThrow("std::out_of_range", "map::at")
        return o.d[k][1]
    if name in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
        if name == "emplace_hint" or name == "insert" and len(a) == 2 and isinstance(rv(a[0]), Iter) and not isinstance(rv(a[1]), Iter):
            r = assoc_method(it, o, "emplace" if name == "emplace_hint" else "insert", a[1:])
            return r.f["first"].v if isinstance(r, Obj) else r
        if not m:
            v = [rv(x) for x in a]
            if len(v) == 2 and isinstance(v[0], Iter):
                for c in between(*v):
                    o.d.setdefault(hk(c.v), clone(c.v))
                return None
            if len(v) == 1 and isinstance(v[0], Vec) and name == "insert" and not (o.elem or "").startswith(("std::vector", "std::array")):
                for c in v[0].c:
                    o.d.setdefault(hk(c.v), clone(c.v))
                return None
            x = emplace(it, o.elem, a) if name == "emplace" else conv(it, v[0], o.elem)
            k = hk(x)
            new = k not in o.d
            o.d.setdefault(k, x)
            return pair(Iter(o, k), new)
        v = [rv(x) for x in a]
        if len(v) == 2 and isinstance(v[0], Iter):
            for c in between(*v):
                p = [x.v for x in rv(c).f.values()]
                o.d.setdefault(hk(p[0]), (clone(p[0]), Cell(clone(p[1]))))
            return None
        if len(v) == 1 and isinstance(v[0], Obj):
            p = [x.v for x in v[0].f.values()]
            k0, val = clone(p[0]), clone(p[1])
        else:
            k0 = conv(it, v[0], o.elem[0] if o.elem else None)
            e = o.elem[1] if o.elem else None
            val = emplace(it, e, a[1:]) if len(a) > 1 else it.default(e)
        k = hk(k0)
        new = k not in o.d
        if new or name == "insert_or_assign":
            o.d[k] = (k0, Cell(val))
        return pair(Iter(o, k), new)
    if name == "erase":
        x = rv(a[0])
        if isinstance(x, Iter):
            ks = o.keys()
            if x.i not in o.d:
                raise CppThrow("undefined", "erase of an iterator past the end")
            n = ks[ks.index(x.i) + 1] if ks.index(x.i) + 1 < len(ks) else None
            del o.d[x.i]
            return Iter(o, n)
        k = hk(x)
        return int(o.d.pop(k, None) is not None)
    if name == "reserve":
        return None
    if name in ("rbegin", "rend"):
        raise Undecided(f"map::{name}")
    if name in ("lower_bound", "upper_bound") and o.ordered and not getattr(o, "greater", False):
        k = hk(key(it, o, a[0]))
        ks = o.keys()
        return Iter(o, next((x for x in ks if (x >= k if name == "lower_bound" else x > k)), None))
    if name == "merge":
        x = rv(a[0])
        for k in list(x.d):
            if k not in o.d:
                o.d[k] = x.d.pop(k)
        return None
    if name == "swap":
        x = rv(a[0])
        o.d, x.d = x.d, o.d
        return None
    raise Undecided(f"{'map' if m else 'set'}::{name}")


def key(it, o, x):
    e = (o.elem[0] if isinstance(o, Map) else o.elem) if o.elem else None
    return conv(it, x, e)


def str_method(it, s, name, a):
    if name in ("size", "length"):
        return len(s)
    if name == "empty":
        return not s
    if name in ("c_str", "str", "data"):
        return s
    if name == "substr":
        p = idx(a[0])
        if p > len(s):
            raise CppThrow("std::out_of_range", "substr")
        return s[p:p + idx(a[1])] if len(a) > 1 else s[p:]
    if name == "compare" and len(a) == 1:
        t = rv(a[0])
        return (s > t) - (s < t)
    if name in ("find", "rfind"):
        t = rv(a[0])
        t = chr(t) if isinstance(t, int) else t
        r = s.find(t, idx(a[1])) if name == "find" and len(a) > 1 else s.find(t) if name == "find" else s.rfind(t)
        return r if r >= 0 else 0xFFFFFFFFFFFFFFFF
    if name in ("back", "front") and s:
        return ord(s[-1] if name == "back" else s[0])
    raise Undecided(f"string::{name}")


def method(it, o, name, a):
    if name in ("count", "time_since_epoch") and not a and isinstance(o, (int, float)):
        return o  # a duration
    if isinstance(o, Vec):
        return vec_method(it, o, name, a)
    if isinstance(o, (Map, Set)):
        return assoc_method(it, o, name, a)
    if isinstance(o, str):
        return str_method(it, o, name, a)
    if isinstance(o, Stream):
        if name == "str":
            if a:
                o.s, o.pos, o.fail, o.eof = rv(a[0]), 0, False, False
                return None
            return o.s
        if name == "open" and hasattr(o, "open"):
            o.open(rv(a[0]))
            return None
        if name == "rdbuf" and not a:
            return o
        if name == "pubsetbuf":
            return o
        if name == "open" and it.files is not None:
            f = it.files.get(rv(a[0]))
            o.s, o.pos, o.fail, o.eof = f or "", 0, f is None, False
            return None
        if name == "close":
            return None
        if name == "is_open":
            return not o.fail or o.pos > 0
        if name in ("good", "operator bool"):
            return not o.fail if name == "operator bool" else not (o.fail or o.eof)
        if name == "fail":
            return o.fail
        if name == "eof":
            return o.eof
        if name == "clear":
            o.fail = o.eof = False
            return None
        raise Undecided(f"stream::{name}")
    if isinstance(o, Ptr):
        if name == "get":
            return o
        if name == "reset":
            o.to = rv(a[0]).to if a else None
            return None
        if name.startswith("operator bool"):
            return o.to is not None
        raise Undecided(f"pointer::{name}")
    if isinstance(o, Obj) and name == "what":
        return o.f["what"].v if "what" in o.f else ""
    if isinstance(o, Obj) and name == "operator=":
        x = rv(a[0])
        for k, c in clone(x).f.items():
            o.f[k] = c
        return o
    if isinstance(o, Lambda):
        return it.apply(o, a)
    if isinstance(o, Iter) and name == "base" and isinstance(o.c, Vec):
        return Iter(o.c, len(o.c.c) - o.i) if o.rev else o
    if isinstance(o, (bool, int, float, Bit)):
        if name.startswith("operator "):
            return o
    raise Undecided(f"method {name} of {type(o).__name__}")


def assign(it, c, v):
    if not isinstance(c, Cell):
        # an object addressed directly: overwrite its state
        if isinstance(c, Obj) and isinstance(v, Obj):
            n = clone(v)
            for k in n.f:
                if k in c.f:
                    assign(it, c.f[k], n.f[k].v)
                else:
                    c.f[k] = n.f[k]
            return c
        if isinstance(c, Vec) and isinstance(v, Vec):
            c.c = clone(v).c
            return c
        raise Undecided("assignment")
    x = clone(v)
    old = c.v
    if isinstance(old, Vec) and isinstance(x, Vec):
        x.elem = old.elem or x.elem
    if isinstance(old, Set) and isinstance(x, Vec):
        s = Set({}, old.elem, old.ordered)
        for e in x.c:
            s.d.setdefault(hk(e.v), conv(it, e.v, old.elem))
        x = s
    if isinstance(old, Map) and isinstance(x, Vec):
        s = Map({}, old.elem, old.greater, old.ordered)
        for e in x.c:
            p = list(rv(e).f.values())
            s.d.setdefault(hk(p[0]), (p[0].v, Cell(p[1].v)))
        x = s
    # containers and objects keep their identity, as references into them stay valid
    if isinstance(old, Obj) and isinstance(x, Obj) and old.cls == x.cls:
        for k in old.f:
            if k in x.f:
                old.f[k].v = x.f[k].v
        return c
    if isinstance(old, Vec) and isinstance(x, Vec):
        old.c = x.c
        return c
    c.v = x
    return c


def text(v):
    v = rv(v)
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, (int, str)):
        return str(v)
    if isinstance(v, float):
        return f"{v:g}"
    if isinstance(v, Enum):
        return v.n
    raise Undecided(f"output of {type(v).__name__}")


def operator(it, op, args, n):
    a = args[0]
    o = rv(a)
    if isinstance(o, Ext):
        r = o.method(it, op, args[1:])
        if r is not NotImplemented:
            return r
    if op == "operator->":
        return Ptr(it.deref(o)) if not isinstance(o, Ptr) else Ptr(o.to)
    if op == "operator*" and len(args) == 1:
        v = it.deref(o)
        return v if isinstance(v, Cell) else Cell(v)
    if op == "operator[]":
        i = args[1]
        if isinstance(o, Vec):
            i = idx(i)
            if not 0 <= i < len(o.c):
                raise CppThrow("undefined", f"index {i} of {len(o.c)} elements")
            return o.c[i]
        if isinstance(o, Map):
            k0 = key(it, o, i)
            k = hk(k0)
            if k not in o.d:
                o.d[k] = (k0, Cell(it.default(o.elem[1])))
            return o.d[k][1]
        if isinstance(o, str):
            return ord(o[idx(i)]) if idx(i) < len(o) else 0
        raise Undecided("subscript")
    if op == "operator()":
        return it.apply(o, args[1:], n)
    if op == "operator=":
        if isinstance(o, Ptr) and isinstance(a, Cell):
            x = rv(args[1])
            a.v = Ptr(x.to) if isinstance(x, Ptr) else x
            return a
        return assign(it, a, rv(args[1]))
    if op in ("operator==", "operator!="):
        r = same(o, args[1])
        return r if op == "operator==" else r.xor(True) if isinstance(r, Bit) else not r
    if op == "operator<<":
        if isinstance(o, Stream):
            x = args[1]
            if isinstance(rv(x), int) and len(n.get("inner", [])) == 3 and ty(n["inner"][2]) in ("char", "const char"):
                x = chr(rv(x))
            o.write(text(x) if not callable_end(x) else "\n")
            return a if isinstance(a, Cell) else o
        if isinstance(o, tuple) or o is None:
            return o
        if isinstance(o, int):
            return it.arith("<<", o, rv(args[1]), ty(n))
        raise Undecided("operator<<")
    if op == "operator>>" and isinstance(o, Stream) and isinstance(args[1], Cell):
        x = o.read(args[1].v)
        if x is not None:
            args[1].v = x
        elif isinstance(args[1].v, (int, float)) and not o.eof:
            args[1].v = 0
        return a if isinstance(a, Cell) else o
    if op == "operator!" and isinstance(o, Stream):
        return o.fail
    if op in ("operator++", "operator--"):
        k = 1 if op == "operator++" else -1
        if isinstance(o, Iter) and isinstance(a, Cell):
            old = clone(o)
            advance(o, k)
            return old if len(args) == 2 else a
        raise Undecided(op)
    if op in ("operator+", "operator-") and isinstance(o, Iter):
        x = rv(args[1])
        if isinstance(x, Iter):
            if isinstance(o.c, Vec):
                return o.i - x.i
            ks = o.c.keys()
            f = lambda y: ks.index(y.i) if y.i in y.c.d else len(ks)  # noqa: E731
            return f(o) - f(x)
        r = clone(o)
        advance(r, int(x) if op == "operator+" else -int(x))
        return r
    if op[8:] in ("+", "-", "*", "/", "%") and len(args) == 2 and isinstance(o, (int, float)) and isinstance(rv(args[1]), (int, float)):
        return it.arith(op[8:], o, rv(args[1]), "long")  # clocks and durations
    if op == "operator+=" and isinstance(o, Iter):
        advance(o, int(rv(args[1])))
        return a
    if op in ("operator+", "operator+="):
        x, y = o, rv(args[1])
        if isinstance(x, str) or isinstance(y, str):
            x = chr(x) if isinstance(x, int) else x
            y = chr(y) if isinstance(y, int) else y
            r = x + y
            if op == "operator+=":
                a.v = r
                return a
            return r
    if op in ("operator<", "operator>", "operator<=", "operator>="):
        x, y = o, rv(args[1])
        if isinstance(x, Iter) and isinstance(y, Iter) and isinstance(x.c, Vec):
            x, y = x.i, y.i
        else:
            x, y = hk(x), hk(y)
        return {"operator<": x < y, "operator>": x > y, "operator<=": x <= y, "operator>=": x >= y}[op]
    raise Undecided(f"{op} of {type(o).__name__}")


def callable_end(v):
    v = rv(v)
    return isinstance(v, tuple) and v[0] == "fn" and v[1] in ("endl", "flush")


def put(it, dst, x):
    """Write through an output iterator."""
    if isinstance(dst, tuple) and dst[0] == "inserter":
        dst[1].c.append(Cell(conv(it, x, dst[1].elem))) if isinstance(dst[1], Vec) else assoc_method(it, dst[1], "insert", [x])
    else:
        c = it.at_iter(dst)
        c.v = conv(it, x, dst.c.elem if isinstance(dst.c, Vec) else None)
        advance(dst, 1)


def span(first, k):
    """The given number of cells from an iterator on."""
    end = clone(first)
    advance(end, k)
    cs = between(first, end)
    if len(cs) != k:
        raise CppThrow("undefined", "range beyond the end of a container")
    return cs


def function(it, name, a, n):
    v = [rv(x) for x in a]
    if name in ("move", "forward", "as_const", "ref", "cref", "get") and len(a) == 1:
        return a[0]
    if name == "make_pair":
        return pair(clone(v[0]), clone(v[1]))
    if name in ("make_shared", "make_unique"):
        t = strip(ty(n))
        e = strip(targs(t)[0]) if targs(t) else None
        if e is None:
            raise Undecided(name)
        x = it.make(e, a)
        x = rv(x)
        return Ptr(x if isinstance(x, (Obj, Ext)) else Cell(x))
    if name in ("begin", "cbegin", "end", "cend", "size", "empty", "rbegin", "rend") and len(a) == 1:
        return it.invoke(v[0], name, [])
    if name == "getline" and len(v) in (2, 3) and isinstance(v[0], Stream) and isinstance(a[1], Cell):
        x = v[0].line(chr(v[2]) if len(v) == 3 and isinstance(v[2], int) else "\n")
        a[1].v = x if x is not None else ""
        return a[0]
    if name == "to_string":
        x = v[0]
        return f"{x:f}" if isinstance(x, float) else str(int(x))
    if name in ("min", "max") and len(v) == 2:
        k = [hk(x) for x in v]
        return a[0] if (k[0] <= k[1] if name == "min" else k[0] >= k[1]) else a[1]
    if name in ("min", "max") and len(v) == 1 and isinstance(v[0], Vec):
        return (min if name == "min" else max)(v[0].c, key=hk)
    if name in ("min_element", "max_element") and len(v) in (2, 3):
        cs = between(v[0], v[1])
        less = (lambda x, y: truth(rv(it.apply(v[2], [x, y])))) if len(v) == 3 else lambda x, y: hk(rv(x)) < hk(rv(y))  # noqa: E731
        best = 0
        for k in range(1, len(cs)):
            if less(cs[k], cs[best]) if name == "min_element" else less(cs[best], cs[k]):
                best = k
        r = clone(v[0])
        advance(r, best)
        return r
    if name == "clamp" and len(v) == 3:
        return v[1] if v[0] < v[1] else v[2] if v[0] > v[2] else v[0]
    if name in ("generate", "generate_n"):
        for c in between(v[0], v[1]) if name == "generate" else span(v[0], idx(v[1])):
            c.v = conv(it, it.apply(v[2], []), v[0].c.elem)
        return None
    if name in ("inner_product", "equal") and len(v) in (3, 4, 5, 6):
        pred = None
        if name == "equal" and not isinstance(v[-1], Iter):
            pred, v = v[-1], v[:-1]
        if name == "equal" and len(v) > 4 or name == "inner_product" and len(v) not in (4, 6):
            raise Undecided(name)
        xs = between(v[0], v[1])
        if name == "equal":
            if len(v) == 4:
                ys = between(v[2], v[3])
                if len(xs) != len(ys):
                    return False
            else:
                ys = span(v[2], len(xs))
            r = True
            for x, y in zip(xs, ys):
                s = same(x, y) if pred is None else rv(it.apply(pred, [x, y]))
                r = r and truth(s)
            return r
        x = v[3]
        for p, q in zip(xs, span(v[2], len(xs))):
            if len(v) == 6:
                x = wrap(rv(it.apply(v[4], [Cell(x), Cell(rv(it.apply(v[5], [p, q])))])), ty(n))
                continue
            x = it.arith("+", x, it.arith("*", rv(p), rv(q), ty(n)), ty(n))
        return x
    if name == "swap_ranges" and len(v) == 3:
        xs = between(v[0], v[1])
        for p, q in zip(xs, span(v[2], len(xs))):
            p.v, q.v = q.v, p.v
        return None
    if name == "iter_swap":
        p, q = it.at_iter(v[0]), it.at_iter(v[1])
        p.v, q.v = q.v, p.v
        return None
    if name in ("remove_if", "remove", "unique") and isinstance(v[0], Iter) and isinstance(v[0].c, Vec) and not v[0].rev:
        cs = between(v[0], v[1])
        keep = []
        for c in cs:
            if name == "unique":
                if len(v) != 2:
                    raise Undecided(name)
                drop = bool(keep) and truth(same(keep[-1], c))
            else:
                drop = truth(rv(it.apply(v[2], [c]))) if name == "remove_if" else truth(same(c, v[2]))
            if not drop:
                keep.append(c)
        for c, x in zip(cs, [clone(k.v) for k in keep]):
            c.v = x
        r = clone(v[0])
        advance(r, len(keep))
        return r
    if name in ("find_if_not",):
        r = clone(v[0])
        for c in between(v[0], v[1]):
            if not truth(rv(it.apply(v[2], [c]))):
                return r
            advance(r, 1)
        return r
    if name == "rotate" and len(v) == 3 and isinstance(v[0].c, Vec) and not v[0].rev:
        cs = between(v[0], v[2])
        k = v[1].i - v[0].i
        vals = [c.v for c in cs]
        for c, x in zip(cs, vals[k:] + vals[:k]):
            c.v = x
        return None
    if name in ("set_difference", "set_intersection", "set_union", "set_symmetric_difference") and len(v) == 5:
        x, y = ([clone(c.v) for c in between(v[k], v[k + 1])] for k in (0, 2))
        kx, ky = [hk(q) for q in x], [hk(q) for q in y]
        if kx != sorted(set(kx)) or ky != sorted(set(ky)):
            raise Undecided(f"{name} of an unsorted range")
        if name == "set_difference":
            out = [q for q in x if hk(q) not in ky]
        elif name == "set_intersection":
            out = [q for q in x if hk(q) in ky]
        elif name == "set_union":
            out = sorted(x + [q for q in y if hk(q) not in kx], key=hk)
        else:
            out = sorted([q for q in x if hk(q) not in ky] + [q for q in y if hk(q) not in kx], key=hk)
        for q in out:
            put(it, v[4], q)
        return None
    if name in ("binary_search", "lower_bound", "upper_bound") and len(v) == 3:
        cs = between(v[0], v[1])
        ks = [hk(c.v) for c in cs]
        if ks != sorted(ks):
            raise Undecided(f"{name} in an unsorted range")
        import bisect

        if name == "binary_search":
            return hk(v[2]) in ks
        r = clone(v[0])
        advance(r, (bisect.bisect_left if name == "lower_bound" else bisect.bisect_right)(ks, hk(v[2])))
        return r
    if name == "copy_if" and len(v) == 4:
        for c in between(v[0], v[1]):
            if truth(rv(it.apply(v[3], [c]))):
                put(it, v[2], clone(c.v))
        return None
    if name == "fill_n":
        for c in span(v[0], idx(v[1])):
            c.v = conv(it, v[2], v[0].c.elem)
        return None
    if name == "partial_sum" and len(v) == 3:
        x = None
        for c in between(v[0], v[1]):
            x = clone(c.v) if x is None else it.arith("+", x, c.v, ty(n) if "long" in ty(n) else "long")
            put(it, v[2], x)
        return None
    if name == "abs":
        return abs(v[0])
    if name in ("any_of", "all_of", "none_of", "for_each", "count_if", "find_if"):
        cs = between(v[0], v[1])
        if name == "for_each":
            for c in cs:
                it.apply(v[2], [c])
            return v[2]
        if name == "any_of":
            return any(truth(rv(it.apply(v[2], [c]))) for c in cs)
        if name == "all_of":
            return all(truth(rv(it.apply(v[2], [c]))) for c in cs)
        if name == "none_of":
            return not any(truth(rv(it.apply(v[2], [c]))) for c in cs)
        if name == "count_if":
            return sum(truth(rv(it.apply(v[2], [c]))) for c in cs)
        r = clone(v[0])
        for c in cs:
            if truth(rv(it.apply(v[2], [c]))):
                return r
            advance(r, 1)
        return r
    if name in ("find", "count") and len(v) == 3:
        cs = between(v[0], v[1])
        if name == "count":
            return sum(same(c, v[2]) for c in cs)
        r = clone(v[0])
        for c in cs:
            if same(c, v[2]):
                return r
            advance(r, 1)
        return r
    if name == "iota":
        x = v[2]
        for c in between(v[0], v[1]):
            c.v = wrap(x, v[0].c.elem or "")
            x += 1
        return None
    if name == "fill":
        for c in between(v[0], v[1]):
            c.v = conv(it, v[2], v[0].c.elem)
        return None
    if name in ("sort", "stable_sort"):
        import functools

        cs = between(v[0], v[1])
        vals = [c.v for c in cs]
        if len(v) > 2:
            lt = lambda x, y: truth(rv(it.apply(v[2], [Cell(x), Cell(y)])))  # noqa: E731
            vals.sort(key=functools.cmp_to_key(lambda x, y: -1 if lt(x, y) else 1 if lt(y, x) else 0))
        else:
            vals.sort(key=hk)
        for c, x in zip(cs, vals):
            c.v = x
        return None
    if name == "reverse":
        cs = between(v[0], v[1])
        vals = [c.v for c in cs][::-1]
        for c, x in zip(cs, vals):
            c.v = x
        return None
    if name in ("next", "prev"):
        r = clone(v[0])
        k = int(v[1]) if len(v) > 1 else 1
        advance(r, k if name == "next" else -k)
        return r
    if name == "advance":
        advance(v[0], idx(v[1]))
        return None
    if name == "includes" and len(v) == 4:
        x, y = ([hk(c.v) for c in between(v[k], v[k + 1])] for k in (0, 2))
        if x != sorted(x) or y != sorted(y):
            raise Undecided("includes of an unsorted range")
        return all(y.count(k) <= x.count(k) for k in y)
    if name == "distance":
        return operator(it, "operator-", [v[1], v[0]], n)
    if name == "accumulate":
        x = v[2]
        for c in between(v[0], v[1]):
            x = it.arith("+", x, c.v, ty(n)) if len(v) == 3 else rv(it.apply(v[3], [Cell(x), c]))
        return x
    if name == "transform" and len(v) == 5:
        src = between(v[0], v[1])
        for c, d in zip(src, span(v[2], len(src))):
            put(it, v[3], clone(rv(it.apply(v[4], [c, d]))))
        return None
    if name in ("copy", "transform", "move", "copy_n") and len(v) >= 3:
        name = "copy" if name == "move" else name
        src = between(v[0], v[1]) if name != "copy_n" else span(v[0], idx(v[1]))
        name = "copy" if name == "copy_n" else name
        dst = v[2] if name == "copy" or len(v) == 4 else None
        f = v[-1] if name == "transform" else None
        if dst is None or (name == "transform" and len(v) != 4):
            raise Undecided(name)
        for c in src:
            x = clone(rv(it.apply(f, [c]))) if f is not None else clone(c.v)
            put(it, dst, x)
        return None
    if name in ("back_inserter", "inserter"):
        return ("inserter", v[0])
    if name == "exchange":
        old = clone(v[0])
        assign(it, a[0], v[1])
        return old
    if name == "swap" and len(a) == 2:
        x, y = clone(v[0]), clone(v[1])
        assign(it, a[0], y)
        assign(it, a[1], x)
        return None
    if name == "tie":
        return Vec([x if isinstance(x, Cell) else Cell(x) for x in a])
    if name == "get" or name == "static_pointer_cast" or name == "dynamic_pointer_cast":
        raise Undecided(name)
    if name == "toString" and len(v) == 1 and isinstance(v[0], Enum):
        return v[0].n.lower()
    raise Undecided(f"function {name}")
