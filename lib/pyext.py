"""Canonical meaning of the external functions, methods and operators the code uses."""
from __future__ import annotations

import nda
import terms
from terms import FALSE, K, NONE, T, TRUE, Term, cval, is_const, join, padd, pmod, pmul

MUTATORS = {
    "append", "extend", "add", "update", "insert", "pop", "remove", "clear", "sort", "reverse", "setdefault",
    "discard", "fill", "popitem", "resize", "put", "itemset", "partition", "difference_update",
    "intersection_update", "symmetric_difference_update", "setdiff",
}
METHODS = MUTATORS | {
    "any", "all", "sum", "dot", "copy", "view", "astype", "transpose", "flatten", "ravel", "reshape", "tolist", "todense",
    "toarray", "nonzero", "items", "keys", "values", "get", "lower", "upper", "format", "join", "split", "startswith",
    "endswith", "index", "count", "tobytes", "mean", "std", "max", "min", "argmax", "argmin", "intersection", "union",
    "difference", "issubset", "symmetric_difference", "replace", "strip", "conj", "multiply", "item", "size_", "A1",
    "tocsr", "toarray", "issuperset", "isdisjoint", "squeeze",
}
STR_METHODS = {
    "split", "rsplit", "splitlines", "partition", "rpartition", "replace", "zfill", "rjust", "ljust", "center", "upper", "lower", "title", "strip", "rstrip", "lstrip",
    "index", "rindex", "find", "rfind", "count", "encode", "isdigit", "isalpha", "isalnum", "isnumeric", "isupper", "islower", "isspace", "isdecimal", "removeprefix",
    "removesuffix", "swapcase", "casefold", "capitalize",
}
STRIP_METHODS = {"astype", "tolist", "todense", "toarray", "item", "tocsr", "conj", "squeeze", "copy"}
IMPURE_PREFIX = ("numpy.random.", "random.", "secrets.", "time.", "uuid.")


def canon(path):
    if path == "np" or path.startswith("np."):
        path = "numpy" + path[2:]
    path = path.replace("numpy.core.", "numpy.").replace("scipy.sparse.csr.", "scipy.sparse.")
    return path


def transpose(t):
    if t.op == "T":
        return t.args[0]
    if t.op in ("hstack", "vstack") and t.args and t.args[0].op in ("list", "tuple"):
        other = "vstack" if t.op == "hstack" else "hstack"
        return T(other, T("list", *[transpose(a) for a in t.args[0].args]))
    return T("T", t)


def strip(t):
    """Remove representation-only wrappers."""
    while t.op in ("view",):
        t = t.args[0]
    return t


def concat_parts(parts):
    flat = []
    for p in parts:
        for x in p.args if p.op == "fstr" else (p,):
            if flat and is_const(flat[-1]) and is_const(x) and isinstance(cval(flat[-1]), str) and isinstance(cval(x), str):
                flat[-1] = K(cval(flat[-1]) + cval(x))
            elif is_const(x) and cval(x) == "":
                continue
            else:
                flat.append(x)
    if not flat:
        return K("")
    if len(flat) == 1 and is_const(flat[0]) and isinstance(cval(flat[0]), str):
        return flat[0]
    return T("fstr", *flat)


def matmul(a, b):
    return T("matmul", strip(a), strip(b))


def xor(a, b):
    return pmod(padd(a, b), K(2))


def _explicit(a):
    """A plain sequence used as the operand of an explicit array."""
    if a.op == "nparr":
        a = a.args[0]
    if a.op in ("list", "tuple") and all(x.op in ("const", "sym", "poly") for x in a.args):
        return nda.mk((len(a.args),), a.args)
    return a


def binop(op, a, b):
    if a.op == "nda" or b.op == "nda":
        r = nda.binop(op, _explicit(a), _explicit(b))
        return r if r is not None else T("binop", op, a, b)
    ca, cb = is_const(a), is_const(b)
    if ca and cb:
        x, y = cval(a), cval(b)
        try:
            if op == "Add":
                return K(x + y)
            if op == "Sub":
                return K(x - y)
            if op == "Mult":
                return K(x * y)
            if op == "Div":
                return K(x / y)
            if op == "FloorDiv":
                return K(x // y)
            if op == "Mod":
                return K(x % y)
            if op == "Pow":
                return K(x**y)
            if op == "BitXor":
                return K(x ^ y)
            if op == "BitAnd":
                return K(x & y)
            if op == "BitOr":
                return K(x | y)
            if op == "LShift":
                return K(x << y)
            if op == "RShift":
                return K(x >> y)
        except Exception:  # noqa: BLE001
            return T("binop", op, a, b)
    if op == "Add":
        if (ca and isinstance(cval(a), str)) or (cb and isinstance(cval(b), str)) or a.op == "fstr" or b.op == "fstr":
            return concat_parts([a, b])
        if a.op in ("tuple", "list") and b.op == a.op:
            return T(a.op, *a.args, *b.args)
        return padd(a, b)
    if op == "Sub":
        if a.op in ("set", "keys") or b.op in ("set", "keys"):
            return T("setminus", a, b)
        return padd(a, b, -1)
    if op == "Mult":
        return pmul(a, b)
    if op == "MatMult":
        return matmul(a, b)
    if op == "Mod":
        return pmod(a, b)
    if op == "BitXor":
        return xor(a, b)
    if op == "BitAnd" and (a is K(1) or b is K(1)):
        return pmod(b if a is K(1) else a, K(2))
    if op == "BitAnd":
        from pyabs import boolish, conj

        if boolish(a) and boolish(b):
            return conj(a, b)
        return T("bitand", *sorted((a, b), key=lambda t: t.uid))
    if op == "BitOr":
        from pyabs import boolish, disj

        if boolish(a) and boolish(b):
            return disj(a, b)
        return T("bitor", *sorted((a, b), key=lambda t: t.uid))
    if op == "FloorDiv":
        return T("floordiv", a, b)
    if op == "Div":
        if cb and isinstance(cval(b), (int, float)) and cval(b) not in (0, True):
            return pmul(a, K(1 / cval(b)))
        return T("div", a, b)
    if op == "Pow":
        if cb and isinstance(cval(b), int) and 0 <= cval(b) <= 3:
            r = K(1)
            for _ in range(cval(b)):
                r = pmul(r, a)
            return r
        return T("pow", a, b)
    return T("binop", op, a, b)


def arrayish(t):
    while t.op == "index" and t.args[0].op != "nparr":
        t = t.args[0]
    return t.op in ("hstack", "vstack", "zeros", "ones", "matmul", "nparr", "concat", "eye", "kron", "T", "upd")


def keyed(eng, st, seq, kw, node, last=False):
    """Items of a known sequence in the order of a key whose values are all constants, else None."""
    it = eng.known_items(st, seq)
    if it is None or len(it) > 300 or not all(is_const(eng.val(st, v)) for k, v in kw.items() if k == "reverse"):
        return None
    f = kw.get("key")
    ks = []
    for x in it:
        if f is None or f is NONE:
            v = eng.val(st, x)
        else:
            r = eng.call(st, f, [x], {}, node)
            if len(r) != 1 or r[0][0] is not st or st.exc is not None:
                return None
            v = eng.val(st, r[0][1])
        v = pykey(v)
        if v is None:
            return None
        ks.append(v)
    rev = "reverse" in kw and eng.val(st, kw["reverse"]) is TRUE
    try:
        o = sorted(range(len(it)), key=lambda i: ks[i], reverse=rev or last)
    except TypeError:
        return None
    return [it[i] for i in o]


def pykey(v):
    """Comparable Python value of a constant or a tuple of constants."""
    if is_const(v):
        return cval(v)
    if v.op in ("tuple", "list"):
        xs = [pykey(x) for x in v.args]
        return None if any(x is None for x in xs) else tuple(xs)
    return None


def arr(eng, st, v, cls=None, dt=None):
    from pyabs import HObj

    return eng.new(st, HObj("arr", val=v, cls=cls, dt=dt))


def kwterms(eng, st, kw):
    return [T("kw", k, eng.val(st, v)) for k, v in sorted(kw.items())]


def generic(eng, st, path, args, kw, node, impure=False):
    vs = [eng.val(st, a) for a in args]
    ks = kwterms(eng, st, kw)
    if impure:
        eng.uid += 1
        r = T("rand", path, *vs, *ks, K(eng.uid))
    else:
        r = T("call", path, *vs, *ks)
    eng.emit(st, "call", node, path=path, recv=None, args=vs, kw={k: eng.val(st, v) for k, v in kw.items()}, result=r, raw=list(args))
    return [(st, r)]


# constructors of external mutable objects: every call yields a different one
FRESH_OBJECTS = {
    "qiskit.AncillaRegister", "qiskit.ClassicalRegister", "qiskit.QuantumRegister", "qiskit.QuantumCircuit", "stim.Circuit",
    "qiskit.circuit.AncillaRegister", "qiskit.circuit.ClassicalRegister", "qiskit.circuit.QuantumRegister", "qiskit.circuit.QuantumCircuit",
    "z3.Solver", "z3.Optimize",
}
ARRAY_MAKERS = {"numpy.zeros": "zeros", "numpy.ones": "ones", "numpy.empty": "zeros", "numpy.full": "full"}
IDENT = {
    "numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "copy.copy", "copy.deepcopy", "numpy.asmatrix",
    "scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix", "scipy.sparse.csc_matrix", "numpy.int8", "numpy.int64", "numpy.int32",
    "numpy.uint8", "numpy.float64", "numpy.atleast_2d", "numpy.squeeze", "scipy.sparse.lil_matrix", "numpy.bool_",
}
FRESH_COPY = {"numpy.array", "numpy.copy", "copy.copy", "copy.deepcopy"}


def call_ext(eng, st, path, args, kw, node):
    from pyabs import HObj, boolish, conj, disj, eqt, ltt, neg, UNDEF

    if path.startswith("builtins."):
        try:
            r = call_builtin(eng, st, path[9:], args, kw, node)
        except (TypeError, ValueError) as e:
            if not eng.exact or kw or not args or path[9:] not in ("round", "int", "float", "abs", "divmod", "chr", "ord", "pow") or not all(is_const(a) for a in args):
                raise
            st.exc = T("exc", type(e).__name__)  # a plain function of plain values
            return [(st, UNDEF)]
        if r is not None:
            return r
    V = [eng.val(st, a) for a in args]
    n = len(V)
    if eng.model is not None:
        r = eng.model.call(eng, st, path, None, V, kw, node)
        if r is not None:
            return [(st, r)]
    if eng.explicit or any(v.op == "nda" for v in V):
        r = nda.call(eng, st, path, args, kw, node)
        if r is not None:
            return [(st, r)]
    if path in ("numpy.dot", "numpy.matmul") and n >= 2:
        return [(st, matmul(V[0], V[1]))]
    if path in ("numpy.mod", "numpy.remainder", "numpy.fmod") and n >= 2:
        return [(st, pmod(V[0], V[1]))]
    if path in ("numpy.logical_xor", "numpy.bitwise_xor") and n >= 2:
        return [(st, xor(V[0], V[1]))]
    if path == "operator.xor" and n == 2:
        return [(st, xor(V[0], V[1]))]
    if path in ("numpy.add",) and n >= 2:
        return [(st, padd(V[0], V[1]))]
    if path in ("numpy.subtract",) and n >= 2:
        return [(st, padd(V[0], V[1], -1))]
    if path in ("numpy.multiply",) and n >= 2:
        return [(st, pmul(V[0], V[1]))]
    if path in ("numpy.logical_not",) and n == 1:
        return [(st, neg(V[0]))]
    if path in ("numpy.logical_or", "numpy.bitwise_or") and n >= 2:
        return [(st, disj(V[0], V[1]) if boolish(V[0]) else T("bitor", *sorted(V[:2], key=lambda t: t.uid)))]
    if path in ("numpy.logical_and", "numpy.bitwise_and") and n >= 2:
        return [(st, conj(V[0], V[1]) if boolish(V[0]) else T("bitand", *sorted(V[:2], key=lambda t: t.uid)))]
    if path in ("numpy.equal",) and n == 2:
        return [(st, eqt(V[0], V[1]))]
    if path in ("numpy.not_equal",) and n == 2:
        return [(st, neg(eqt(V[0], V[1])))]
    if path in ("numpy.any", "numpy.all", "numpy.sum", "numpy.count_nonzero") and n >= 1:
        return [(st, reduce_(path.split(".")[1], V[0], V[1:], kw, eng, st))]
    if path == "numpy.transpose" and n == 1:
        return [(st, transpose(V[0]))]
    if path in ("numpy.vstack", "numpy.hstack") and n == 1:
        return [(st, stack(path[6:], V[0]))]
    if path == "numpy.concatenate" and n >= 1:
        ax = eng.val(st, kw["axis"]) if "axis" in kw else V[1] if n > 1 else K(0)
        if ax is K(1):
            return [(st, stack("hstack", V[0]))]
        if ax is K(0):
            return [(st, stack("concat", V[0]))]
    if path in ("numpy.append",) and n >= 2 and not kw:
        return [(st, T("concat", T("list", V[0], V[1])))]
    if path in ("numpy.append",) and n >= 2:
        ax = eng.val(st, kw["axis"]) if "axis" in kw else V[2] if n > 2 else NONE
        if ax is K(1):
            return [(st, stack("hstack", T("list", V[0], V[1])))]
        if ax is K(0):
            return [(st, stack("concat", T("list", V[0], V[1])))]
    if path in ("numpy.array_equal",) and n == 2:
        a, b = sorted(V, key=lambda t: t.uid)
        return [(st, TRUE if a is b else T("array_equal", a, b))]
    if path in ARRAY_MAKERS and n >= 1:
        return [(st, arr(eng, st, T(ARRAY_MAKERS[path], *V[: 2 if path == "numpy.full" else 1])))]
    if path in ("numpy.zeros_like", "numpy.empty_like") and n >= 1:
        return [(st, arr(eng, st, T("zeros", T("shape", V[0]))))]
    if path in ("numpy.ones_like",) and n >= 1:
        return [(st, arr(eng, st, T("ones", T("shape", V[0]))))]
    if path in ("numpy.eye", "numpy.identity") and n >= 1:
        return [(st, arr(eng, st, T("eye", V[0])))]
    if path in IDENT and n >= 1:
        if path == "copy.deepcopy" and args[0].op == "ref" and st.heap[args[0].args[0]].kind in ("list", "set", "dict", "obj"):
            o = st.heap[args[0].args[0]]
            return [(st, eng.new(st, o.but()))]
        if path.startswith("numpy.") and V[0].op in ("list", "tuple"):
            return [(st, arr(eng, st, T("nparr", T("list", *V[0].args))))]
        if (path in FRESH_COPY and kw.get("copy") is not K(False)) or path == "numpy.atleast_2d":
            return [(st, arr(eng, st, V[0]))]
        return [(st, V[0] if args[0].op != "ref" or st.heap[args[0].args[0]].kind != "arr" else args[0])]
    if path in ("numpy.shape",) and n == 1:
        return [(st, T("shape", V[0]))]
    if path in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero", "numpy.argwhere"):
        if path == "numpy.where" and n == 3:
            return [(st, T("where", *V))]
        return [(st, T("nonzero", V[0]))]
    if path == "itertools.product" and (not kw or list(kw) == ["repeat"] and is_const(kw["repeat"]) and isinstance(cval(kw["repeat"]), int)):
        its = list(args) if eng.explicit else list(V)
        return [(st, T("product", *its * (int(cval(kw["repeat"])) if kw else 1)))]
    if path == "itertools.count" and not kw and n <= 2 and eng.explicit:
        return [(st, T("count", V[0] if n else K(0), V[1] if n == 2 else K(1)))]
    if path == "itertools.chain.from_iterable" and n == 1:
        it = eng.known_items(st, args[0])
        if it is not None:
            path, args = "itertools.chain", it
    if path == "itertools.chain":
        ref = eng.new(st, HObj("list"))
        for a in args:
            eng.list_extend(st, ref, a, node)
        return [(st, ref)]
    if path == "functools.partial" and n >= 1:
        return [(st, T("partial", args[0], *args[1:], *[T("bindkw", k, v) for k, v in sorted(kw.items())]))] if "**" not in kw else generic(eng, st, path, args, kw, node)
    if path == "functools.reduce" and n in (2, 3) and not kw:
        it = eng.known_items(st, args[1])
        if it is None or not (it or n == 3) or len(it) > 300:
            return [(st, T("reduce", *V))]
        it = ([args[2]] if n == 3 else []) + list(it)
        states = [(st, it[0])]
        for x in it[1:]:
            states = [r for s, acc in states for r in ([(s, acc)] if s.exc is not None else eng.call(s, args[0], [acc, x], {}, node))]
        return states
    if path == "numpy.linalg.matrix_power" and n == 2:
        return [(st, T("mpow", *V))]
    if path == "numpy.kron" and n == 2:
        return [(st, T("kron", *V))]
    if n == 1 and is_const(V[0]) and isinstance(cval(V[0]), (int, float)) and not isinstance(cval(V[0]), bool):
        import math

        g = {"ceil": math.ceil, "floor": math.floor, "log2": math.log2, "sqrt": math.sqrt, "isinf": math.isinf, "isnan": math.isnan, "isfinite": math.isfinite}.get(path.split(".")[-1]) if path.split(".")[0] in ("math", "numpy") else None
        if g is not None:
            try:
                return [(st, K(g(cval(V[0]))))]
            except (ValueError, OverflowError):
                pass
    if path in ("math.ceil", "math.floor", "numpy.ceil", "numpy.floor") and n == 1:
        return [(st, T(path.split(".")[1], V[0]))]
    if path in ("numpy.log2", "numpy.log", "numpy.sqrt", "numpy.exp", "numpy.abs", "numpy.power"):
        return [(st, T("num", path, *V))]
    if path == "collections.defaultdict":
        if eng.explicit and n == 1 and V[0].op == "ext" and not kw:
            return [(st, eng.new(st, HObj("dict", fn=V[0])))]
        return [(st, eng.new(st, HObj("dict", closed=False)))]
    if path == "collections.Counter" and eng.explicit and not kw and n <= 1:
        items = eng.known_items(st, args[0]) if n else []
        keys = [eng.val(st, x) for x in items] if items is not None else None
        if keys is not None and all(is_const(k) or eng.exact and k.op == "tuple" for k in keys):
            segs = tuple((k, K(keys.count(k))) for k in dict.fromkeys(keys))
            return [(st, eng.new(st, HObj("dict", segs=segs, fn=T("ext", "collections.Counter"))))]
    if path in ("collections.deque",):
        return [(st, eng.new(st, HObj("list")) if n == 0 else generic(eng, st, path, args, kw, node)[0][1])]
    if path in FRESH_OBJECTS:
        eng.uid += 1
        r = T("new", path, *V, *kwterms(eng, st, kw), K(eng.uid))
        eng.emit(st, "call", node, path=path, recv=None, args=V, kw={k: eng.val(st, v) for k, v in kw.items()}, result=r, raw=list(args))
        return [(st, r)]
    if path in ("multiprocess.Process", "multiprocessing.Process", "threading.Thread") and "target" in kw:
        # the child's effects are those of the target (on the success side; a failing child leaves nothing behind)
        r = T("call", path, K(getattr(node, "lineno", 0)))
        given = eng.known_items(st, kw["args"]) if "args" in kw else []
        out = []
        if given is not None:
            for s2, _v in eng.call(st.fork(), kw["target"], list(given), {}, node):
                if s2.exc is None:
                    out.append((s2, r))
        return out or [(st, r)]
    if path.startswith(IMPURE_PREFIX) or path in ("os.urandom",):
        return generic(eng, st, path, args, kw, node, impure=True)
    if path.split(".")[-1] == "cast" and path.startswith("typing") and n == 2:
        return [(st, args[1])]
    return generic(eng, st, path, args, kw, node)


def stack(kind, v):
    if v.op == "nparr":
        v = v.args[0]
    if v.op == "tuple":
        v = T("list", *v.args)
    if v.op == "list":
        parts = []
        for a in v.args:
            if a.op == kind and a.args[0].op == "list":
                parts.extend(a.args[0].args)
            else:
                parts.append(strip(a))
        return T(kind, T("list", *parts))
    return T(kind, v)


def reduce_(name, v, rest, kw, eng, st):
    ax = None
    if "axis" in kw:
        ax = eng.val(st, kw["axis"])
    elif rest:
        ax = rest[0]
    v = strip(v)
    if ax is None or ax is NONE:
        return T(name, v)
    return T(name, v, ax)


def call_builtin(eng, st, name, args, kw, node):
    from pyabs import HObj, boolish, conj, disj, eqt, ltt, neg

    n = len(args)
    V = [eng.val(st, a) for a in args]
    if eng.model is not None and hasattr(eng.model, "builtin"):
        r = eng.model.builtin(eng, st, name, V, kw, node)
        if r is not None:
            return [(st, r)]
    if name == "len" and n == 1:
        if args[0].op == "ref" and st.heap[args[0].args[0]].kind == "obj":
            m = eng.prog.find_method(st.heap[args[0].args[0]].cls, "__len__")
            if m is not None:
                return eng.call_func(st, eng.func_term(m), [args[0]], {}, node)
        a = args[0]
        if a.op == "ref" and st.heap[a.args[0]].kind == "arr":
            a = V[0]
        return [(st, eng.length(st, a))]
    if name == "range":
        lo, hi, step = K(0), None, K(1)
        if n == 1:
            hi = V[0]
        elif n == 2:
            lo, hi = V
        elif n == 3:
            lo, hi, step = V
        if hi is not None:
            return [(st, T("range", lo, hi, step))]
    if name == "enumerate" and n >= 1:
        s = V[1] if n > 1 else eng.val(st, kw["start"]) if "start" in kw else K(0)
        return [(st, T("enumerate", keep(eng, st, args[0]), s))]
    if name == "zip":
        return [(st, T("zip", *[keep(eng, st, a) for a in args]))]
    if name == "reversed" and n == 1:
        return [(st, T("reversed", keep(eng, st, args[0])))]
    if name in ("list", "set", "frozenset", "tuple") and n <= 1:
        kind = "set" if "set" in name else "list"
        if name == "frozenset" and eng.exact:
            from pyabs import fset, ground

            it = [] if n == 0 else eng.known_items(st, args[0])
            it = None if it is None else [eng.val(st, x) for x in it]
            if it is not None and all(ground(x) for x in it):
                return [(st, fset(it))]
        if n == 0:
            return [(st, T("tuple") if name == "tuple" else eng.new(st, HObj(kind)))]
        items = eng.known_items(st, args[0])
        if name == "tuple":
            if items is not None:
                return [(st, T("tuple", *items))]
            return [(st, V[0])]
        ref = eng.new(st, HObj(kind))
        if items is not None and kind == "set":
            seen = []
            for x in items:
                if x not in seen:
                    seen.append(x)
            items = seen
            st.heap[ref.args[0]] = HObj(kind, segs=tuple(("item", x) for x in items))
            return [(st, ref)]
        eng.list_extend(st, ref, args[0], node)
        return [(st, ref)]
    if name == "dict" and n == 0:
        return [(st, eng.new(st, HObj("dict", segs=tuple((K(k), v) for k, v in kw.items()))))]
    if name == "dict" and n == 1 and not kw:
        a = args[0]
        if a.op == "ref" and st.heap[a.args[0]].kind == "dict":
            return [(st, eng.new(st, st.heap[a.args[0]].but()))]
        if a.op == "selfdict" and a.args[0].op == "ref":
            return [(st, field_dict(eng, st, a.args[0]))]
        ent = {}
        for x in eng.known_items(st, a) or [NONE]:
            x = eng.val(st, x)
            kv = x.args if x.op in ("tuple", "list") else None
            if kv is None or len(kv) != 2 or not is_const(kv[0]):
                break
            ent[kv[0]] = kv[1]
        else:
            return [(st, eng.new(st, HObj("dict", segs=tuple(ent.items()))))]
        return [(st, eng.new(st, HObj("dict", closed=False, segs=())))]
    if name in ("int", "bool", "float") and n == 1:
        v = V[0]
        if is_const(v) and not isinstance(cval(v), str):
            try:
                return [(st, K({"int": int, "bool": bool, "float": float}[name](cval(v))))]
            except Exception:  # noqa: BLE001
                return [(st, v)]
        if is_const(v) and isinstance(cval(v), str) and name == "int":
            try:
                return [(st, K(int(cval(v))))]
            except ValueError:
                return [(st, T("call", "builtins.int", v))]
        if name == "bool":
            v2 = eng.cond(st, args[0])
            k = eng.truth(st, v2)
            if k is not None:
                return [(st, K(k))]
            return [(st, v2)]
        if name == "int" and (v.op in ("div", "num", "pow", "ceil", "floor") or (v.op == "poly" and any(isinstance(c, float) for _m, c in v.args))):
            return [(st, T("int", v))]
        return [(st, v)]
    if name == "str" and n == 1:
        v = V[0]
        if is_const(v):
            return [(st, K(str(cval(v))))]
        return [(st, concat_parts([v]) if v.op == "fstr" else T("fstr", v))]
    if name == "round" and n in (1, 2) and not kw and all(is_const(v) and isinstance(cval(v), int | float) for v in V):
        return [(st, K(round(*[cval(v) for v in V])))]
    if name == "abs" and n == 1:
        if is_const(V[0]):
            return [(st, K(abs(cval(V[0]))))]
        return [(st, T("num", "abs", V[0]))]
    if name in ("min", "max", "sorted") and n == 1 and kw and set(kw) <= {"key", "reverse"}:
        it = keyed(eng, st, args[0], kw, node)
        if it:
            if name == "sorted":
                return [(st, eng.new(st, HObj("list", segs=tuple(("item", x) for x in it))))]
            return [(st, it[0] if name == "min" else keyed(eng, st, args[0], kw, node, last=True)[0])]
    if name in ("min", "max") and n >= 1 and not kw:
        if n >= 2 and all(is_const(v) for v in V):
            return [(st, K({"min": min, "max": max}[name](cval(v) for v in V)))]
        if n == 1:
            it = eng.known_items(st, args[0])
            if it and all(is_const(v) for v in it):
                return [(st, K({"min": min, "max": max}[name](cval(v) for v in it)))]
            return [(st, T(name, V[0]))]
        return [(st, T(name, *sorted(V, key=lambda t: t.uid)))]
    if name == "sum" and (n == 2 and not kw or n == 1 and list(kw) == ["start"]):
        start = V[1] if n == 2 else eng.val(st, kw["start"])
        it = eng.known_items(st, args[0])
        if it is None:
            return [(st, padd(start, T("sum", V[0])))]
        for x in it:
            start = padd(start, eng.val(st, x))
        return [(st, start)]
    if name in ("sum", "any", "all") and n == 1:
        it = eng.known_items(st, args[0])
        if it is not None:
            it = [eng.val(st, x) for x in it]
            if name == "sum":
                r = K(0)
                for x in it:
                    r = padd(r, x)
                return [(st, r)]
            r = FALSE if name == "any" else TRUE
            for x in it:
                c = eng.cond(st, x)
                r = disj(r, c) if name == "any" else conj(r, c)
            return [(st, r)]
        return [(st, T(name, V[0]))]
    if name == "sorted" and n >= 1:
        it = eng.known_items(st, args[0])
        if it is not None and all(is_const(x) for x in it) and not kw:
            try:
                return [(st, eng.new(st, HObj("list", segs=tuple(("item", K(x)) for x in sorted(cval(x) for x in it)))))]
            except TypeError:
                pass
        if eng.explicit and it is not None and not kw:
            ks = keyed(eng, st, args[0], kw, node)
            if ks is not None:
                return [(st, eng.new(st, HObj("list", segs=tuple(("item", x) for x in ks))))]
        return [(st, T("sorted", V[0], *kwterms(eng, st, kw)))]
    if name == "isinstance" and n == 2:
        v, c = args
        names = []
        for x in c.args if c.op == "tuple" else (c,):
            names.append(x)
        if v.op == "ref" and st.heap[v.args[0]].kind == "obj":
            oc = st.heap[v.args[0]].cls
            mro = {k.qual for k in eng.prog.mro(oc)}
            if all(x.op == "class" for x in names):
                return [(st, K(any(x.args[0] in mro for x in names)))]
        if is_const(v):
            pn = type(cval(v)).__name__
            if all(x.op in ("ext", "class") for x in names):
                return [(st, K(any(x.op == "ext" and x.args[0] == "builtins." + pn for x in names)))]
        if v.op == "ref":
            k = st.heap[v.args[0]].kind
            m = {"list": "builtins.list", "set": "builtins.set", "dict": "builtins.dict", "arr": "numpy.ndarray"}.get(k)
            if m and all(x.op in ("ext", "class") for x in names):
                return [(st, K(any(x.op == "ext" and x.args[0] == m for x in names)))]
        if V[0].op == "call" and str(V[0].args[0]).startswith("z3.") and all(x.op == "ext" and x.args[0].split(".")[0] in ("builtins", "numpy") for x in names):
            return [(st, K(False))]
        if V[0].op == "new" and all(x.op == "ext" and x.args[0].startswith("builtins.") for x in names):
            return [(st, K(False))]
        if (V[0].op == "nda" or arrayish(V[0])) and all(x.op in ("ext", "class") for x in names):
            return [(st, K(any(x.op == "ext" and x.args[0] == "numpy.ndarray" for x in names)))]
        return [(st, T("isinstance", V[0], V[1]))]
    if name == "hasattr" and n == 2 and is_const(V[1]):
        v = args[0]
        if v.op == "ref" and st.heap[v.args[0]].kind == "obj":
            o = st.heap[v.args[0]]
            return [(st, K(cval(V[1]) in o.fields or eng.prog.find_method(o.cls, cval(V[1])) is not None))]
        return [(st, T("hasattr", V[0], V[1]))]
    if name == "getattr" and n >= 2 and is_const(V[1]):
        return eng.getattr(st, args[0], cval(V[1]), node)
    if name == "setattr" and n == 3 and is_const(V[1]):
        eng.setattr(st, args[0], cval(V[1]), args[2], node)
        return [(st, NONE)]
    if name == "map" and n >= 2:
        import ast

        names = [f"$m{i}" for i in range(n - 1)]
        # [f(x) for x in it]
        fr = st.frame
        eng.uid += 1
        fid = eng.uid
        st.heap[fid] = HObj("frame", cls="comp-own", fields={"$f": args[0], **{f"$it{i}": a for i, a in enumerate(args[1:])}}, parent=fr)
        st.frame = fid
        if n == 2:
            tgt, it = ast.Name(names[0], ast.Store()), ast.Name("$it0", ast.Load())
        else:
            tgt = ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())
            it = ast.Call(ast.Name("zip", ast.Load()), [ast.Name(f"$it{i}", ast.Load()) for i in range(n - 1)], [])
        lc = ast.ListComp(
            elt=ast.Call(ast.Name("$f", ast.Load()), [ast.Name(x, ast.Load()) for x in names], []),
            generators=[ast.comprehension(target=tgt, iter=it, ifs=[], is_async=0)],
        )
        ast.copy_location(lc, node)
        ast.fix_missing_locations(lc)
        out = []
        for s, v in eng.eval(lc, st):
            s.frame = fr
            out.append((s, v))
        return out
    if name == "iter" and n == 1:
        return [(st, args[0])]
    if name == "next":
        eng.uid += 1
        v = args[0]
        it = eng.iter_norm(st, v)
        return [(st, T("next", V[0], K(eng.uid)))]
    if name == "open":
        r = generic(eng, st, "builtins.open", args, kw, node)
        return r
    if name == "slice":
        xs = [NONE, *V, NONE] if n == 1 else [*V, NONE] if n == 2 else V
        return [(st, T("slice", *xs))]
    if name == "type" and n == 1:
        c = eng.class_of(st, args[0])
        if c is not None:
            return [(st, T("class", c.qual))]
        return [(st, T("type", V[0]))]
    if name in ("print",):
        eng.emit(st, "call", node, path="builtins.print", recv=None, args=V, kw={}, result=NONE, raw=list(args))
        return [(st, NONE)]
    if name == "input":
        return generic(eng, st, "builtins.input", args, kw, node, impure=True)
    if name == "pow" and n == 2:
        return [(st, binop("Pow", V[0], V[1]))]
    if name == "divmod" and n == 2:
        return [(st, T("tuple", binop("FloorDiv", V[0], V[1]), binop("Mod", V[0], V[1])))]
    if name == "vars" and n == 1:
        return [(st, T("selfdict", args[0]))]
    if name.endswith(("Error", "Exception", "Warning")):
        return [(st, T("exc", "builtins." + name))]
    if name == "object":
        return [(st, eng.fresh("object"))]
    return None


def keep(eng, st, a):
    """Keep list references (known items) but dereference arrays."""
    if a.op == "ref" and st.heap[a.args[0]].kind == "arr":
        return eng.val(st, a)
    return a


def field_dict(eng, st, ref):
    """A copy of the attribute dictionary of an object."""
    from pyabs import HObj

    o = st.heap[ref.args[0]]
    return eng.new(st, HObj("dict", segs=tuple((K(k), v) for k, v in (o.fields or {}).items()), closed=o.closed))


def set_method(eng, st, recv, name, args):
    """Methods of sets whose elements are all known."""
    from pyabs import HObj

    x = eng.const_set(st, recv)
    ys = [eng.const_set(st, a, True) for a in args]
    if x is None or any(y is None for y in ys):
        return None
    if name in ("issubset", "issuperset", "isdisjoint") and len(ys) == 1:
        return K(getattr(set(x), name)(set(ys[0])))
    if name == "copy" and not ys and recv.op == "fset":
        return recv
    if name in ("union", "intersection", "difference", "symmetric_difference") and (len(ys) == 1 or name != "symmetric_difference"):
        r = recv if recv.op == "fset" else eng.new(st, HObj("set", segs=tuple(("item", i) for i in x)))
        for a in args:
            r = eng.set_op(st, name, r, a)
            if r is None:
                return None
        return r
    if name in ("difference_update", "intersection_update", "symmetric_difference_update") and len(ys) == 1 and recv.op == "ref":
        r = eng.set_op(st, name[: -len("_update")], recv, args[0])
        if r is not None:
            st.heap[recv.args[0]] = st.heap[r.args[0]]
            return NONE
    return None


def call_method(eng, st, recv, name, args, kw, node):
    from pyabs import HObj, boolish, eqt, neg, root_of, is_ref, upd_term

    V = [eng.val(st, a) for a in args]
    n = len(V)
    o = st.heap.get(recv.args[0]) if recv.op == "ref" else None
    kind = o.kind if o is not None else None
    rv = eng.val(st, recv)
    if is_const(rv) and type(cval(rv)) is int and name in ("bit_length", "bit_count") and n == 0 and not kw:
        return [(st, K(getattr(cval(rv), name)()))]
    if eng.model is not None:
        r = eng.model.call(eng, st, "." + name, rv, V, kw, node)
        if r is not None:
            return [(st, r)]
    if recv.op == "selfdict" and name == "copy" and n == 0 and recv.args[0].op == "ref":
        return [(st, field_dict(eng, st, recv.args[0]))]
    if recv.op == "selfdict" and recv.args[0].op == "ref" and name in ("items", "keys", "values", "get", "__getitem__", "__contains__"):
        recv = field_dict(eng, st, recv.args[0])
        o = st.heap[recv.args[0]]
        kind, rv = o.kind, eng.val(st, recv)
    if recv.op == "selfdict" and name == "update" and n == 1:
        b = recv.args[0]
        if args[0].op == "ref" and st.heap[args[0].args[0]].kind == "dict":
            for k, v in st.heap[args[0].args[0]].segs:
                if is_const(k):
                    eng.setattr(st, b, cval(k), v, node)
            if b.op == "ref" and not st.heap[args[0].args[0]].closed:
                st.heap[b.args[0]] = st.heap[b.args[0]].but(closed=False)
        elif b.op == "ref":
            st.heap[b.args[0]] = st.heap[b.args[0]].but(closed=False)
        for k, v in kw.items():
            eng.setattr(st, b, k, v, node)
        return [(st, NONE)]
    if rv.op == "call" and rv.args[0] in ("multiprocess.Manager", "multiprocessing.Manager") and name in ("list", "dict") and not n:
        return [(st, eng.new(st, HObj(name, segs=())))]
    # --- lists and sets on the heap
    if (recv.op == "fset" or kind == "set") and eng.exact:
        r = set_method(eng, st, recv, name, args)
        if r is not None:
            return [(st, r)]
    if kind in ("list", "set"):
        items = eng.known_items(st, recv)
        if name in ("append", "add", "appendleft") and n == 1:
            eng.list_append(st, recv, args[0])
            eng.emit(st, "append", node, base=recv, value=args[0])
            return [(st, NONE)]
        if name in ("extend", "update", "union", "difference", "intersection", "symmetric_difference") and n >= 1:
            if name in ("extend", "update"):
                for a in args:
                    eng.list_extend(st, recv, a, node)
                return [(st, NONE)]
            if n == 1:
                r = eng.set_op(st, name, recv, args[0])
                if r is not None:
                    return [(st, r)]
            if name == "union":
                r = eng.new(st, st.heap[recv.args[0]].but())
                for a in args:
                    eng.list_extend(st, r, a, node)
                return [(st, r)]
            return [(st, T("setop", name, rv, *V))]
        if name == "copy":
            return [(st, eng.new(st, o.but()))]
        if name == "pop":
            if items is not None and items:
                i = -1 if n == 0 else cval(V[0]) if is_const(V[0]) and isinstance(cval(V[0]), int) else None
                if i is not None and -len(items) <= i < len(items) and kind == "list":
                    x = items.pop(i)
                    st.heap[recv.args[0]] = o.but(segs=tuple(("item", y) for y in items))
                    return [(st, x)]
            vals = []
            for s in o.segs:
                vals.extend(eng.seg_elems(s))
            st.heap[recv.args[0]] = o.but(segs=(("mixed", join(vals)),) if vals else (("mixed", T("unknown")),), closed=False)
            eng.uid += 1
            x = join(vals) if vals and any(v.op in ("ref", "tuple") for v in vals) else T("popped", rv, K(eng.uid))
            return [(st, x)]
        if name == "insert" and n == 2:
            if items is not None and is_const(V[0]) and isinstance(cval(V[0]), int):
                items.insert(cval(V[0]), args[1])
                st.heap[recv.args[0]] = o.but(segs=tuple(("item", y) for y in items))
            else:
                vals = [args[1]]
                for s in o.segs:
                    vals.extend(eng.seg_vals(s))
                st.heap[recv.args[0]] = o.but(segs=(("mixed", join(vals)),))
            return [(st, NONE)]
        if name == "clear":
            st.heap[recv.args[0]] = o.but(segs=())
            return [(st, NONE)]
        if name in ("remove", "discard") and n == 1:
            if items is not None and args[0] in items:
                items.remove(args[0])
                st.heap[recv.args[0]] = o.but(segs=tuple(("item", y) for y in items))
            else:
                vals = []
                for s in o.segs:
                    vals.extend(eng.seg_vals(s))
                st.heap[recv.args[0]] = o.but(segs=(("mixed", join(vals)),) if vals else ())
            return [(st, NONE)]
        if name == "sort" and n == 0 and items is not None and eng.explicit:
            it = keyed(eng, st, recv, kw, node)
            if it is not None:
                st.heap[recv.args[0]] = o.but(segs=tuple(("item", y) for y in it))
                return [(st, NONE)]
        if name in ("sort", "reverse"):
            if name == "reverse" and items is not None:
                st.heap[recv.args[0]] = o.but(segs=tuple(("item", y) for y in items[::-1]))
            return [(st, NONE)]
        if name == "index" and n == 1 and items is not None:
            for i, x in enumerate(items):
                if x is args[0]:
                    return [(st, K(i))]
        return generic_method(eng, st, recv, name, args, kw, node)
    if kind == "dict":
        if name == "items" or name == "values":
            return [(st, T("dictitems" if name == "items" else "dictvalues", recv))]
        if name == "keys":
            return [(st, recv)]
        if name in ("get", "setdefault", "pop", "__getitem__", "__contains__") and n >= 1:
            from pyabs import samekey

            same = [(k, samekey(k, V[0])) for k, _ in o.segs]
            if any(r is None for _k, r in same):
                return generic_method(eng, st, recv, name, args, kw, node)
            V = [next((k for k, r in same if r), V[0]), *V[1:]]
        if name == "get" and n >= 1:
            for k, v in o.segs:
                if k is V[0]:
                    return [(st, v)]
            d = args[1] if n > 1 else NONE
            if is_const(V[0]) and o.closed and all(is_const(k) for k, _ in o.segs):
                return [(st, d)]
            if eng.exact and o.closed:
                from pyabs import ground

                if ground(V[0]) and all(ground(k) for k, _ in o.segs):
                    return [(st, d)]
            vals = [v for _k, v in o.segs]
            return [(st, join([*vals, d])) if vals and o.closed else (st, T("index", rv, V[0], d if not is_ref(d) else NONE))]
        if name == "setdefault" and n >= 1:
            for k, v in o.segs:
                if k is V[0]:
                    return [(st, v)]
            d = args[1] if n > 1 else NONE
            st.heap[recv.args[0]] = o.but(segs=(*o.segs, (V[0], d)))
            return [(st, d)]
        if name == "update" and n <= 1:
            ent = list(o.segs)
            closed = o.closed
            new = [(K(k), v) for k, v in kw.items()]
            if n == 1:
                if args[0].op == "selfdict" and args[0].args[0].op == "ref":
                    args = [field_dict(eng, st, args[0].args[0])]
                if args[0].op == "ref" and st.heap[args[0].args[0]].kind == "dict":
                    new = list(st.heap[args[0].args[0]].segs) + new
                    closed = closed and st.heap[args[0].args[0]].closed
                else:
                    pairs = [eng.val(st, x) for x in eng.known_items(st, args[0]) or [NONE]]
                    if all(x.op == "tuple" and len(x.args) == 2 and is_const(x.args[0]) for x in pairs):
                        new = [x.args for x in pairs] + new
                    else:
                        closed = False
            for k, v in new:
                ent = [(a, v if a is k else b) for a, b in ent] if any(a is k for a, _b in ent) else ent + [(k, v)]
            st.heap[recv.args[0]] = o.but(segs=tuple(ent), closed=closed)
            return [(st, NONE)]
        if name == "pop" and n >= 1:
            for k, v in o.segs:
                if k is V[0]:
                    st.heap[recv.args[0]] = o.but(segs=tuple((a, b) for a, b in o.segs if a is not k))
                    return [(st, v)]
            from pyabs import ground

            if eng.exact and o.closed and ground(V[0]) and all(ground(k) for k, _ in o.segs):
                if n > 1:
                    return [(st, V[1])]
                st.exc = T("exc", "KeyError")
                return [(st, T("undef"))]
        if name == "copy":
            return [(st, eng.new(st, o.but()))]
        return generic_method(eng, st, recv, name, args, kw, node)
    # --- strings
    if is_const(rv) and isinstance(cval(rv), str):
        s = cval(rv)
        if name in ("lower", "upper", "strip", "title", "capitalize") and n == 0:
            return [(st, K(getattr(s, name)()))]
        if name in ("startswith", "endswith") and n == 1 and is_const(V[0]):
            return [(st, K(getattr(s, name)(cval(V[0]))))]
        if name == "join" and n == 1:
            it = eng.known_items(st, args[0])
            if it is not None and all(is_const(x) for x in it):
                return [(st, K(s.join(str(cval(x)) for x in it)))]
            return [(st, T("strjoin", rv, V[0]))]
        if name in STR_METHODS and all(is_const(v) for v in V) and all(is_const(v) for v in kw.values()):
            try:
                r = getattr(s, name)(*[cval(v) for v in V], **{k: cval(v) for k, v in kw.items()})
            except (ValueError, IndexError, KeyError) as e:
                st.exc = T("exc", type(e).__name__)
                from pyabs import UNDEF
                return [(st, UNDEF)]
            except TypeError:
                return [(st, T("strm_" + name, rv, *V))]
            return [(st, eng.pyconst(r))]
        return [(st, T("strm_" + name, rv, *V))]
    # --- arrays and unknown values
    if rv.op == "nda":
        r = nda.method(eng, st, rv, name, args, kw, node, nda.dt_of(eng, st, recv))
        if r is not None:
            return [(st, r)]
    if name in ("any", "all", "sum", "max", "min", "item", "copy") and n == 0 and not kw and is_const(rv) and not isinstance(cval(rv), str):  # numpy scalars
        return [(st, K(bool(cval(rv))) if name in ("any", "all") else rv)]
    if name in ("any", "all", "sum") and not _is_objecty(eng, st, recv):
        return [(st, reduce_(name, rv, V, kw, eng, st))]
    if name == "dot" and n == 1:
        return [(st, matmul(rv, V[0]))]
    if name == "transpose" and n == 0:
        return [(st, transpose(rv))]
    if name == "view" and n == 0 and not kw:
        return [(st, recv)]
    if name == "copy" and n == 0:
        c = eng.class_of(st, recv)
        r = rv if recv.op != "ref" or kind == "arr" else recv
        return [(st, arr(eng, st, rv))]
    if name == "astype":
        return [(st, arr(eng, st, rv))]
    if name in STRIP_METHODS and n == 0:
        return [(st, rv)]
    if name in ("flatten",):
        order = eng.val(st, kw["order"]) if "order" in kw else V[0] if V else K("C")
        return [(st, T("flat", rv) if order is K("C") else T("flat", transpose(rv)) if order is K("F") else T("flat", rv, order))]
    if name in ("ravel", "reshape"):
        return [(st, T("reshape", rv, *V, *kwterms(eng, st, kw)))]
    if name == "nonzero" and n == 0:
        return [(st, T("nonzero", rv))]
    if name in ("items", "values", "keys") and n == 0:
        return [(st, T("dictitems" if name == "items" else "dictvalues" if name == "values" else "keys", rv))]
    if name in ("max", "min", "mean", "std", "argmax", "argmin") and not _is_objecty(eng, st, recv):
        return [(st, T(name, rv, *V, *kwterms(eng, st, kw)))]
    if name in ("lower", "upper", "strip") and n == 0:
        return [(st, T("strm_" + name, rv))]
    if name in ("startswith", "endswith") and n == 1:
        return [(st, T("strm", name, rv, V[0]))]
    if name in MUTATORS:
        r = root_of(rv)
        if r is not None:
            eng.emit(st, "mutate", node, root=r, how=name, recv=rv, args=V)
        if kind == "arr":
            if name == "fill":
                st.heap[recv.args[0]] = o.but(val=T("full", T("shape", rv), V[0]))
            else:
                st.heap[recv.args[0]] = o.but(val=T("mut", name, rv, *V))
            return [(st, NONE)]
        if name in ("append", "extend", "add", "update", "insert") and recv.op in ("attr", "sym"):
            eng.emit(st, "append", node, base=recv, value=args[-1] if args else NONE)
            eng.emit(st, "call", node, path="." + name, recv=rv, args=V, kw={k: eng.val(st, v) for k, v in kw.items()}, result=NONE, raw=list(args))
            return [(st, NONE)]
        return generic_method(eng, st, recv, name, args, kw, node, impure=name in ("pop", "popitem"))
    return generic_method(eng, st, recv, name, args, kw, node)


def _is_objecty(eng, st, recv):
    return recv.op == "ref" and st.heap[recv.args[0]].kind == "obj"


IMPURE_METHODS = {"random", "uniform", "normal", "choice", "integers", "randint", "read", "readline", "get_nowait", "binomial", "permutation", "standard_normal", "poisson", "recv", "check", "shuffle"}


def generic_method(eng, st, recv, name, args, kw, node, impure=False):
    rv = eng.val(st, recv)
    vs = [eng.val(st, a) for a in args]
    ks = kwterms(eng, st, kw)
    if impure or name in IMPURE_METHODS:
        eng.uid += 1
        r = T("rand", "." + name, rv, *vs, *ks, K(eng.uid))
    else:
        r = T("meth", name, rv, *vs, *ks)
    eng.emit(st, "call", node, path="." + name, recv=rv, args=vs, kw={k: eng.val(st, v) for k, v in kw.items()}, result=r, raw=list(args))
    return [(st, r)]
