"""Interprocedural abstract interpreter over Python ASTs.

Domain: hash-consed symbolic terms (global value numbering) for values, an abstract
heap for objects/lists/arrays created by the analysed code, and path facts (which
conditions hold on the current control-flow path).  Loops are summarised (two or
more abstract passes, modified locations widened to phi/fold terms); paths are kept
apart up to a limit and merged beyond it.  Nothing of the analysed code is executed.
"""
from __future__ import annotations

import ast
import builtins
import itertools
import math
import os
import time

import nda
import terms
from terms import FALSE, K, NONE, T, TRUE, Attr, Sym, Term, cval, is_const, join, mix, padd, pmod, pmul, subterms
from pymodel import AnalysisBroken, ClassInfo, FuncInfo, Module

UNDEF = T("undef")
BUILTINS = set(dir(builtins))


DEADLINE = [time.monotonic() + float(os.environ.get("VERIF_DEADLINE", "600"))]  # of the whole run


class TooBig(Exception):
    pass


# ------------------------------------------------------------------ events


class Ev:
    __slots__ = ("kind", "d", "node", "fn", "pc", "level")

    def __init__(self, kind, d, node, fn, pc, level):
        self.kind = kind
        self.d = d
        self.node = node
        self.fn = fn
        self.pc = pc
        self.level = level

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k) from None

    @property
    def where(self):
        return self.fn.where(self.node) if self.fn else "?"

    def __repr__(self):
        return f"<{self.kind} {self.d} @{self.where}>"


class Trace:
    """Persistent list of events; `ev` may also be ('loop', header, alts) / ('alts', [..])."""

    __slots__ = ("parent", "ev", "n")

    def __init__(self, parent, ev):
        self.parent = parent
        self.ev = ev
        self.n = (parent.n if parent else 0) + 1


def trace_list(tr, stop=None):
    out = []
    while tr is not None and tr is not stop:
        out.append(tr.ev)
        tr = tr.parent
    out.reverse()
    return out


class LoopEv:
    kind = "loop"

    def __init__(self, header, alts, node=None, fn=None):
        self.header = header
        self.alts = alts  # list of (cond facts, [events])
        self.node = node
        self.fn = fn

    def __repr__(self):
        return f"<loop {self.header} {self.alts}>"


class AltEv:
    kind = "alts"

    def __init__(self, alts):
        self.alts = alts  # list of (cond facts, [events])


def flat_events(evs):
    """All basic events in a (nested) trace, in order, alternatives concatenated."""
    for e in evs:
        if isinstance(e, (LoopEv, AltEv)):
            for _c, a in e.alts:
                yield from flat_events(a)
        else:
            yield e


# ------------------------------------------------------------------ heap


class HObj:
    __slots__ = ("kind", "cls", "fields", "segs", "val", "parent", "fn", "closed", "dt")

    def __init__(self, kind, cls=None, fields=None, segs=(), val=None, parent=None, fn=None, closed=True, dt=None):
        self.kind = kind
        self.dt = dt  # element type of an explicit array, when known
        self.cls = cls
        self.fields = fields
        self.segs = segs
        self.val = val
        self.parent = parent
        self.fn = fn
        self.closed = closed

    def but(self, **kw):
        o = HObj(self.kind, self.cls, self.fields, self.segs, self.val, self.parent, self.fn, self.closed, self.dt)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def same(self, o):
        return self is o or (
            self.kind == o.kind
            and self.cls is o.cls
            and self.segs == o.segs
            and self.val is o.val
            and self.parent == o.parent
            and self.closed == o.closed
            and self.dt == o.dt
            and (self.fields is o.fields or self.fields == o.fields)
        )


class State:
    __slots__ = ("heap", "pc", "trace", "frame", "exc", "ov", "level", "stack")

    def __init__(self):
        self.heap = {}
        self.pc = {}
        self.trace = None
        self.frame = None
        self.exc = None
        self.ov = {}
        self.level = 0
        self.stack = ()

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.trace = self.trace
        s.frame = self.frame
        s.exc = self.exc
        s.ov = dict(self.ov)
        s.level = self.level
        s.stack = self.stack
        return s


def is_ref(v):
    return v.op == "ref"


def mkattr(base, name):
    if base.op in ("sym", "attr"):
        return Attr(base, name)
    return T("getattr", base, name)


def ext(path):
    return T("ext", path)


def root_of(t):
    """The parameter/attribute a view expression is rooted in, or None for fresh values."""
    while True:
        if t.op in ("sym", "attr"):
            return t
        if t.op in ("index", "T", "elem", "view", "upd", "phi", "getattr"):
            if t.op == "index" and _fancy(t.args[1]):
                return None
            if t.op == "phi":
                t = t.args[2]
            else:
                t = t.args[0]
            continue
        return None


def _fancy(i):
    if i.op == "tuple":
        return any(_fancy(x) for x in i.args)
    return i.op in ("list", "comp", "call")


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val


# ------------------------------------------------------------------ engine


BASES = {"JSONDecodeError": ("ValueError",), "UnicodeDecodeError": ("ValueError",), "KeyError": ("LookupError",), "IndexError": ("LookupError",), "FileNotFoundError": ("OSError", "IOError"),
         "NotADirectoryError": ("OSError", "IOError"), "IsADirectoryError": ("OSError", "IOError"), "ZeroDivisionError": ("ArithmeticError",), "UnsupportedOperation": ("OSError", "ValueError")}


class Engine:
    def __init__(self, program, limit=48, inline=None, max_depth=10, unroll=40, max_steps=400000, prims=None, explicit=False, model=None):
        self.prog = program
        self.limit = limit
        self.explicit = explicit
        self.inline = inline or (lambda fi: True)
        self.max_depth = max_depth
        self.unroll = unroll
        self.steps = 0
        self.max_steps = max_steps
        self.began, self.max_seconds = time.monotonic(), 300
        self.uid = 0
        self.funcs = {}
        self.types = {}  # term -> ClassInfo
        self.events = []
        self.fnstack = []
        self.open_consts = {}  # constants of modules that are no literals
        self.prims = prims or {}
        self.model = model
        self.exact = False  # calls raise only where the model says so
        self.known = None  # facts about opaque values, assumed by the caller
        self.merged = 0
        self.functions_seen = set()
        import pyext

        self.ext = pyext

    # ---------------------------------------------------------- basics
    def new(self, st, obj):
        self.uid += 1
        i = self.uid
        st.heap[i] = obj
        return T("ref", i)

    def fresh(self, name):
        self.uid += 1
        return T("fresh", name, self.uid)

    def emit(self, st, kind, node, **d):
        e = Ev(kind, d, node, self.fnstack[-1] if self.fnstack else None, st.pc, st.level)
        st.trace = Trace(st.trace, e)
        self.events.append(e)
        return e

    def obj(self, st, ref):
        return st.heap[ref.args[0]]

    def setobj(self, st, ref, o):
        st.heap[ref.args[0]] = o

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooBig
        if self.steps & 255 == 0:
            t = time.monotonic()
            if t > DEADLINE[0] or t - self.began > self.max_seconds:
                raise TooBig

    # ---------------------------------------------------------- values
    def val(self, st, v, depth=0):
        """Pure term for a value: arrays and lists on the heap are dereferenced."""
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if o is None:
                return v
            if o.kind == "arr":
                return self.val(st, o.val, depth)
            if depth > 6:
                return v
            if o.kind in ("list", "set"):
                return self.segs_term(st, o.segs, o.kind, depth)
            if o.kind == "dict":
                return T("dict", *[T("kv", self.val(st, k, depth + 1), self.val(st, x, depth + 1)) for k, x in o.segs], *([] if o.closed else [T("kv", T("others"), T("others"))]))
            return v
        if v.op in ("tuple", "join") and any(isinstance(a, Term) and a.op in ("ref", "tuple") for a in v.args):
            a = tuple(self.val(st, x, depth + 1) for x in v.args)
            return join(a) if v.op == "join" else T(v.op, *a)
        return v

    def segs_term(self, st, segs, kind, depth=0):
        parts = []
        for s in segs:
            if s[0] == "item":
                parts.append(self.val(st, s[1], depth + 1))
            elif s[0] == "rep":
                alts = []
                for conds, ss in s[2]:
                    alts.append(T("alt", T("conds", *conds), *self._segs_items(st, ss, depth)))
                parts.append(T("comp", s[1], *alts))
            elif s[0] == "ext":
                parts.append(T("star", self.val(st, s[1], depth + 1)))
            else:
                parts.append(T("mixed", self.val(st, s[1], depth + 1)))
        if len(parts) == 1 and parts[0].op == "star":
            return parts[0].args[0]
        return T(kind, *parts)

    def _segs_items(self, st, segs, depth):
        return self.segs_term(st, segs, "list", depth).args if segs else ()

    def known_items(self, st, v):
        """The items of a sequence whose length is statically known, else None."""
        if self.model is not None and hasattr(self.model, "items"):
            r = self.model.items(self, st, v)
            if r is not None:
                return r
        if v.op in ("tuple", "fset"):
            return list(v.args)
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if o is None:
                return None
            if o.kind in ("list", "set") and all(s[0] == "item" for s in o.segs):
                return [s[1] for s in o.segs]
            if o.kind == "dict" and o.closed:
                return [k for k, _ in o.segs]
            if o.kind == "arr":
                return self.known_items(st, o.val)
            return None
        if v.op in ("list", "set") and all(a.op not in ("comp", "star", "mixed") for a in v.args):
            return list(v.args)
        if v.op == "new" and str(v.args[0]).endswith("Register") and len(v.args) > 2 and is_const(v.args[1]) and type(cval(v.args[1])) is int and 0 <= cval(v.args[1]) <= max(self.unroll, 64):
            return [T("index", v, K(i)) for i in range(cval(v.args[1]))]
        if v.op == "nparr":
            return self.known_items(st, v.args[0])
        if v.op == "nda":
            return nda.rows(v)
        if is_const(v) and isinstance(cval(v), str):
            return [K(c) for c in cval(v)]
        if v.op == "range" and all(is_const(a) and isinstance(cval(a), int) for a in v.args):
            r = range(*(cval(a) for a in v.args))
            if len(r) <= max(self.unroll, 300):
                return [K(i) for i in r]
        if v.op == "enumerate":
            it = self.known_items(st, v.args[0])
            if it is not None:
                return [T("tuple", padd(K(i), v.args[1]), x) for i, x in enumerate(it)]
        if v.op == "zip":
            its = [None if a.op == "count" else self.known_items(st, a) for a in v.args]
            if its and any(i is not None for i in its):
                n = min(len(i) for i in its if i is not None)
                its = [[padd(a.args[0], pmul(a.args[1], K(j))) for j in range(n)] if a.op == "count" else i for a, i in zip(v.args, its)]
            if its and all(i is not None for i in its):
                return [T("tuple", *xs) for xs in zip(*its)]
        if v.op == "product":
            its = [self.known_items(st, a) for a in v.args]
            if all(i is not None for i in its) and math.prod(len(i) for i in its) <= max(self.unroll, 300):
                return [T("tuple", *xs) for xs in itertools.product(*its)]
        if v.op == "reversed":
            it = self.known_items(st, v.args[0])
            if it is not None:
                return it[::-1]
        if v.op == "dictitems":
            b = v.args[0]
            if b.op == "ref":
                o = st.heap.get(b.args[0])
                if o is not None and o.kind == "dict" and o.closed:
                    return [T("tuple", k, x) for k, x in o.segs]
        if v.op == "dictvalues":
            b = v.args[0]
            if b.op == "ref":
                o = st.heap.get(b.args[0])
                if o is not None and o.kind == "dict" and o.closed:
                    return [x for _k, x in o.segs]
        return None

    # ---------------------------------------------------------- conditions
    def truth(self, st, t, depth=0):
        if is_const(t):
            return bool(cval(t))
        if depth > 8:
            return None
        if t in st.pc:
            return st.pc[t]
        if self.known is not None:
            r = self.known(t)
            if r is not None:
                return r
        op = t.op
        if op == "masked":
            return False
        if op == "not":
            r = self.truth(st, t.args[0], depth + 1)
            return None if r is None else not r
        if op == "and":
            rs = [self.truth(st, a, depth + 1) for a in t.args]
            if any(r is False for r in rs):
                return False
            return True if all(rs) else None
        if op == "or":
            rs = [self.truth(st, a, depth + 1) for a in t.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if op == "join":
            rs = {self.truth(st, a, depth + 1) for a in t.args}
            return rs.pop() if len(rs) == 1 else None
        if op == "nda" and len(t.args) == 2:
            return self.truth(st, t.args[1], depth + 1)
        if op == "ref":
            o = st.heap.get(t.args[0])
            if o is not None and o.kind in ("list", "set", "dict"):
                if any(s[0] == "item" for s in o.segs) if o.kind != "dict" else o.segs:
                    return True
                if not o.segs and o.closed:
                    return False
                return None
            return True if o is None or o.kind != "arr" else self.truth(st, self.val(st, t), depth + 1)
        if op in ("func", "class", "ext", "bound", "enum", "exc"):
            return True
        if op in ("tuple", "fset"):
            return bool(t.args)
        if op == "list" and all(a.op not in ("comp", "star", "mixed") for a in t.args):
            return bool(t.args)
        if op == "eq":
            a, b = t.args
            if self.distinct(a, b):
                return False
            for x, c in ((a, b), (b, a)):
                if is_const(c) or c.op == "enum":
                    for f, tv in st.pc.items():
                        if tv and f.op == "eq":
                            o = f.args[1] if f.args[0] is x else f.args[0] if f.args[1] is x else None
                            if o is not None and self.distinct(o, c):
                                return False
        if op == "is":
            x, c = t.args
            if c is NONE:
                if x.op == "join":
                    rs = {self.truth(st, T("is", a, c), depth + 1) for a in x.args}
                    return rs.pop() if len(rs) == 1 else None
                if self.nonnone(x):
                    return False
                if st.pc.get(x) is True:
                    return False
            elif is_const(x) and is_const(c):
                return cval(x) is cval(c)
        isn = st.pc.get(T("is", t, NONE))
        if isn:
            return False
        if op in ("eq", "lt", "mod", "poly"):
            s = self.subst_eqs(st, t)
            if s is not t:
                return self.truth(st, s, depth + 1)
        if op == "lt":
            a, b = t.args
            # bounds from facts lt(x, c)/lt(c, x) with constants
            return self.lt_facts(st, a, b)
        return None

    def lt_facts(self, st, a, b):
        lo, hi = self.bounds(st, padd(b, a, -1))
        if lo is not None and lo > 0:
            return True
        if hi is not None and hi <= 0:
            return False
        return None

    def bounds(self, st, t):
        """Integer-ish constant bounds of a linear term under the path facts."""
        lo = hi = 0
        for m, c in terms.to_poly(t).items():
            if m == ():
                l = h = c
            elif len(m) == 1:
                l, h = self.atom_bounds(st, m[0])
                l, h = (None if l is None else l * c, None if h is None else h * c)
                if c < 0:
                    l, h = h, l
            else:
                l = h = None
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        # direct facts on the whole linear form
        if lo is None or hi is None:
            for f, tv in st.pc.items():
                if f.op != "lt":
                    continue
                d = padd(f.args[1], f.args[0], -1)  # tv: d > 0 ; not tv: d <= 0
                k = padd(t, d, -1)
                if is_const(k):
                    if tv and lo is None:
                        lo = cval(k) + (1 if self.intlike(t) else 1e-9)
                    elif not tv and hi is None:
                        hi = cval(k)
                k = padd(t, d, 1)
                if is_const(k):
                    if tv and hi is None:
                        hi = cval(k) - (1 if self.intlike(t) else 1e-9)
                    elif not tv and lo is None:
                        lo = cval(k)
        return lo, hi

    def intlike(self, t):
        return all(isinstance(c, int) for c in terms.to_poly(t).values()) and all(
            a.op in ("len", "idx", "numq") for m in terms.to_poly(t) for a in m
        )

    def atom_bounds(self, st, a):
        lo = hi = None
        if a.op == "len":
            lo = 0
        elif a.op == "mod" and is_const(a.args[1]) and isinstance(cval(a.args[1]), (int, float)) and cval(a.args[1]) > 0:
            lo, hi = 0, cval(a.args[1]) - 1
        elif a.op == "idx":
            l, _ = self.bounds(st, a.args[0])
            _, h = self.bounds(st, a.args[1])
            if is_const(a.args[2]) and cval(a.args[2]) > 0:
                lo = l
                hi = None if h is None else h - 1
        one = 1 if a.op in ("len", "idx") else 1e-9
        for f, tv in st.pc.items():
            if f.op == "lt":
                x, y = f.args
                if x is a and is_const(y) and isinstance(cval(y), (int, float)):
                    if tv:
                        hi = min(hi, cval(y) - one) if hi is not None else cval(y) - one
                    else:
                        lo = max(lo, cval(y)) if lo is not None else cval(y)
                elif y is a and is_const(x) and isinstance(cval(x), (int, float)):
                    if tv:
                        lo = max(lo, cval(x) + one) if lo is not None else cval(x) + one
                    else:
                        hi = min(hi, cval(x)) if hi is not None else cval(x)
        return lo, hi

    def subst_eqs(self, st, t):
        m = {}
        for f, tv in st.pc.items():
            if tv and f.op == "eq":
                a, b = f.args
                if is_const(b) and not is_const(a) and isinstance(cval(b), (int, float)):
                    m[a] = b
                elif is_const(a) and not is_const(b) and isinstance(cval(a), (int, float)):
                    m[b] = a
        if not m:
            return t
        return subst(t, m)

    def distinct(self, a, b):
        if a is b:
            return False
        if is_const(a) and is_const(b):
            try:
                return cval(a) != cval(b)
            except Exception:  # noqa: BLE001
                return False
        if a.op == "enum" and b.op == "enum":
            return a.args[0] is b.args[0] or a.args[0] == b.args[0]
        if a.op == "enum" and is_const(b) and isinstance(cval(b), str):
            return len(a.args) > 2 and a.args[2] != cval(b)
        if b.op == "enum" and is_const(a):
            return self.distinct(b, a)
        return False

    def nonnone(self, x):
        return (
            (is_const(x) and cval(x) is not None)
            or x.op in MODEL_VALUES
            or x.op in ("ref", "tuple", "list", "func", "class", "bound", "enum", "poly", "mod", "matmul", "zeros",
                        "eq", "lt", "not", "and", "or", "fstr", "comp", "range", "len", "T", "idx", "vstack", "hstack",
                        "exc", "dict", "set", "upd", "sum", "any", "all", "index_", "rank", "obj", "array_equal", "nda", "new", "sp", "npmatrix",
                        "concat", "repeat", "reshape", "eye", "ones", "full", "kron", "div", "pow", "sorted", "num", "selfdict")
        )

    def assume(self, st, t, b):
        """Add the fact t == b; False when that contradicts what is known."""
        if t.op == "not":
            return self.assume(st, t.args[0], not b)
        k = self.truth(st, t)
        if k is not None:
            return k == b
        if t.op == "and" and b:
            return all(self.assume(st, a, True) for a in t.args)
        if t.op == "or" and not b:
            return all(self.assume(st, a, False) for a in t.args)
        pc = dict(st.pc)
        pc[t] = b
        st.pc = pc
        # unit propagation over known disjunctions / conjunctions
        for f, tv in list(pc.items()):
            if (f.op == "and" and not tv) or (f.op == "or" and tv):
                want = f.op == "or"
                open_ = [a for a in f.args if self.truth2(st, a) is None]
                if any(self.truth2(st, a) is want for a in f.args):
                    continue
                if len(open_) == 0 and f is not t:
                    return False
                if len(open_) == 1:
                    a = open_[0]
                    if not self.assume(st, a, want):
                        return False
        return True

    def truth2(self, st, t):
        if t.op == "not":
            r = self.truth2(st, t.args[0])
            return None if r is None else not r
        return self.truth(st, t)

    def branch(self, st, cond):
        """[(state, True/False)] for the feasible sides; `st` is consumed."""
        cond = self.cond(st, cond)
        k = self.truth(st, cond)
        if k is not None:
            return [(st, k)]
        if cond.op == "join":
            # path split over the alternatives of a merged value is not possible: keep both
            pass
        out = []
        s2 = st.fork()
        if self.assume(st, cond, True):
            out.append((st, True))
        if self.assume(s2, cond, False):
            out.append((s2, False))
        if not out:
            out.append((s2, False))
        return out

    def cond(self, st, v):
        """Normalise a value used as a condition."""
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if o is not None and o.kind in ("arr",):
                return self.val(st, v)
            if o is not None and o.kind in ("list", "set", "dict"):
                k = self.truth(st, v)
                if k is not None:
                    return K(k)
                return T("nonempty", self.val(st, v))
            return TRUE
        return v

    # ---------------------------------------------------------- names
    def lookup(self, st, name, node):
        f = st.frame
        first = True
        while f is not None:
            o = st.heap[f]
            v = o.fields.get(name)
            if v is not None:
                if v is UNDEF:
                    break
                return v
            if o.fn is not None and name in o.fn.locals and first:
                self.emit(st, "unbound", node, name=name)
                return self.fresh("unbound:" + name)
            if o.fn is not None:
                first = False
            f = o.parent
        fn = self.fnstack[-1] if self.fnstack else None
        m = fn.module if fn else None
        f = st.frame
        while f is not None and m is None:
            o = st.heap[f]
            if o.fn is not None:
                m = o.fn.module
            f = o.parent
        if m is not None:
            r = self.prog.lookup(m, name)
            if r is not None:
                return self.global_value(r)
        if name in BUILTINS or name in ("__file__", "__name__"):
            return ext("builtins." + name)
        self.emit(st, "unbound", node, name=name)
        return ext("?." + name)

    def global_value(self, r):
        if isinstance(r, FuncInfo):
            return self.func_term(r)
        if isinstance(r, ClassInfo):
            return T("class", r.qual)
        if isinstance(r, Module):
            return T("module", r.name)
        if r[0] == "ext":
            return ext(self.ext.canon(r[1]))
        _, m, n = r
        return self.module_const(m, n)

    def module_const(self, m, n):
        key = ("const", m.name, n)
        c = self.funcs.get(key)
        if c is None:
            self.funcs[key] = Sym(f"{m.name}.{n}")
            e = m.consts[n]
            try:
                v = ast.literal_eval(e)
                c = self.pyconst(v)
            except (ValueError, TypeError, SyntaxError):
                c = Sym(f"{m.name}.{n}")
                self.open_consts[f"{m.name}.{n}"] = (m, n)
            self.funcs[key] = c
        return c

    def pyconst(self, v):
        if isinstance(v, tuple):
            return T("tuple", *[self.pyconst(x) for x in v])
        if isinstance(v, list):
            return T("list", *[self.pyconst(x) for x in v])
        if isinstance(v, set):
            return T("set", *[self.pyconst(x) for x in sorted(v, key=repr)])
        if isinstance(v, dict):
            return T("dict", *[T("kv", self.pyconst(k), self.pyconst(x)) for k, x in v.items()])
        return K(v)

    def func_term(self, fi, frame=None):
        key = (fi.qual, frame, getattr(fi.node, "lineno", 0), getattr(fi.node, "col_offset", 0), fi.module.name)
        self.funcs[key] = (fi, frame)
        return T("func", key)

    def setname(self, st, name, v):
        o = st.heap[st.frame]
        # nonlocal / comprehension frames
        f = st.frame
        while True:
            o = st.heap[f]
            if o.fn is not None or o.parent is None or o.cls == "comp-own":
                break
            f = o.parent
        fl = dict(o.fields)
        fl[name] = v
        st.heap[f] = o.but(fields=fl)

    # ---------------------------------------------------------- typing
    def ann_class(self, module, ann):
        """ClassInfo named by an annotation (Optional and unions allowed)."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.ann_class(module, ast.parse(ann.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp):
            return self.ann_class(module, ann.left) or self.ann_class(module, ann.right)
        if isinstance(ann, ast.Subscript):
            if isinstance(ann.value, ast.Name) and ann.value.id in ("Optional", "Union"):
                if isinstance(ann.slice, ast.Tuple):
                    for e in ann.slice.elts:
                        r = self.ann_class(module, e)
                        if r:
                            return r
                    return None
                return self.ann_class(module, ann.slice)
            return None
        if isinstance(ann, ast.Name):
            r = self.prog.lookup(module, ann.id)
            return r if isinstance(r, ClassInfo) else None
        if isinstance(ann, ast.Attribute):
            r = None
            if isinstance(ann.value, ast.Name):
                m = self.prog.lookup(module, ann.value.id)
                if isinstance(m, Module):
                    r = self.prog.lookup(m, ann.attr)
            return r if isinstance(r, ClassInfo) else None
        return None

    def type_of(self, t):
        if t in self.types:
            return self.types[t]
        r = None
        if t.op == "attr":
            c = self.type_of(t.args[0])
            if c is not None:
                r = self.field_type(c, t.args[1])
        elif t.op in ("phi",):
            r = self.type_of(t.args[2])
        elif t.op == "elem":
            r = self.elem_type(t.args[0])
        if t.op in ("attr", "elem", "phi"):
            self.types[t] = r
        return r

    def elem_type(self, t):
        return None

    def field_type(self, c, name):
        for k in self.prog.mro(c):
            if name in k.ann:
                r = self.ann_class(k.module, k.ann[name])
                if r:
                    return r
            for m in k.methods.values():
                pann = {a.arg: a.annotation for a in m.node.args.posonlyargs + m.node.args.args + m.node.args.kwonlyargs}
                for n in ast.walk(m.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                        r = self.ann_class(k.module, n.annotation)
                        if r:
                            return r
                    if isinstance(n, ast.Assign) and any(
                        isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == "self"
                        for x in n.targets
                    ):
                        v = n.value
                        if isinstance(v, ast.Name) and v.id in pann:
                            r = self.ann_class(k.module, pann[v.id])
                            if r:
                                return r
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                            r = self.prog.lookup(k.module, v.func.id)
                            if isinstance(r, ClassInfo):
                                return r
        return None

    # ---------------------------------------------------------- attributes
    def getattr(self, st, base, name, node):
        """[(state, value)]"""
        op = base.op
        if self.exact and (op in ("ext", "module")) and base.args[0] in ("numpy", "math") and name in ("inf", "pi", "e"):
            return [(st, K(getattr(math, name)))]
        if op == "ref":
            o = st.heap[base.args[0]]
            if o.kind == "obj":
                if name in o.fields:
                    return [(st, o.fields[name])]
                c = o.cls
                r = self.class_member(st, c, base, name, node)
                if r is not None:
                    return r
                if name == "__class__":
                    return [(st, T("class", c.qual))]
                if name == "__dict__":
                    return [(st, T("selfdict", base))]
                if o.closed and not (self.prog.base_names(c) - {k.name for k in self.prog.mro(c)} - {"object", "ABC"}):
                    self.emit(st, "undef_attr", node, base=base, cls=c, name=name)
                    if self.exact:
                        st.exc = T("exc", "AttributeError")
                    return [(st, self.fresh(f"undef_attr:{name}"))]
                return [(st, T("getattr", base, name))]
            if o.kind == "arr":
                return self.getattr_term(st, self.val(st, base), name, node, ref=base)
            return [(st, T("method", base, name))]
        if op == "module":
            r = self.prog.lookup(self.prog.modules[base.args[0]], name)
            if r is None:
                return [(st, ext(base.args[0] + "." + name))]
            return [(st, self.global_value(r))]
        if op == "ext":
            q = self.ext.canon(base.args[0] + "." + name)
            return [(st, NONE if q == "numpy.newaxis" else ext(q))]
        if op == "class":
            c = self.class_by_qual(base.args[0])
            m = self.prog.find_method(c, name)
            if m is not None:
                if m.is_classmethod:
                    return [(st, T("bound", base, self.func_term(m)))]
                return [(st, self.func_term(m))]
            a = self.prog.find_class_attr(c, name)
            if a is not None:
                if self.is_enum(c):
                    return [(st, self.enum_member(a[0], name, a[1]))]
                return self.class_const(st, a[0], name, a[1])
            if name in ("__name__", "__qualname__"):
                return [(st, K(c.name))]
            if self.prog.find_class_attr(c, name) is None and self.is_enum(c) and name not in ("__members__",):
                self.emit(st, "undef_attr", node, base=base, cls=c, name=name)
            return [(st, T("getattr", base, name))]
        if op == "super":
            c = self.class_by_qual(base.args[0])
            selfv = base.args[1]
            start = False
            scls = self.class_of(st, selfv) or c
            for k in self.prog.mro(scls):
                if start and name in k.methods:
                    return [(st, T("bound", selfv, self.func_term(k.methods[name])))]
                if k is c or k.qual == c.qual:
                    start = True
            return [(st, T("getattr", base, name))]
        if op == "enum":
            if name == "value":
                return [(st, K(base.args[2]) if len(base.args) > 2 else T("getattr", base, name))]
            if name == "name":
                return [(st, K(base.args[1]))]
            c = self.class_by_qual(base.args[0])
            m = self.prog.find_method(c, name)
            if m is not None:
                return [(st, T("bound", base, self.func_term(m)))]
            return [(st, T("method", base, name))]
        if op == "join" and any(a.op in ("ref", "class", "enum") for a in base.args):
            out = []
            for a in base.args:
                s2 = st.fork()
                out.extend(self.getattr(s2, a, name, node))
            return out
        return self.getattr_term(st, base, name, node)

    def getattr_term(self, st, base, name, node, ref=None):
        key = (base, name)
        if key in st.ov:
            return [(st, st.ov[key])]
        if self.model is not None:
            r = self.model.attr(self, st, base, name)
            if r is not None:
                return [(st, r)]
        if self.exact and base is NONE and not name.startswith("__"):
            st.exc = T("exc", "AttributeError")
            return [(st, T("undef"))]
        c = self.type_of(base)
        if c is not None:
            r = self.class_member(st, c, base, name, node)
            if r is not None:
                return r
        if base.op == "nda":
            r = nda.attr(base, name)
            if r is not None:
                return [(st, r)]
        if name == "T":
            return [(st, self.ext.transpose(base))]
        if name == "shape":
            return [(st, T("shape", base))]
        if name in self.ext.METHODS or name in self.ext.MUTATORS:
            if c is None:
                return [(st, T("method", ref or base, name))]
        if name == "flat" or name == "A":
            return [(st, T("view", base))]
        return [(st, mkattr(base, name))]

    def class_of(self, st, v):
        if v.op == "ref":
            o = st.heap[v.args[0]]
            return o.cls if o.kind == "obj" else None
        return self.type_of(v)

    def class_member(self, st, c, base, name, node):
        m = self.prog.find_method(c, name)
        if m is not None:
            if m.is_property:
                return self.call_func(st, self.func_term(m), [base], {}, node)
            if m.is_static:
                return [(st, self.func_term(m))]
            if m.is_classmethod:
                return [(st, T("bound", T("class", c.qual), self.func_term(m)))]
            return [(st, T("bound", base, self.func_term(m)))]
        a = self.prog.find_class_attr(c, name)
        if a is not None and base.op == "ref":
            return self.class_const(st, a[0], name, a[1])
        if a is not None and name not in self._instance_fields(c):
            return self.class_const(st, a[0], name, a[1])
        return None

    def _instance_fields(self, c):
        key = ("ifields", c.qual)
        r = self.funcs.get(key)
        if r is None:
            r = set()
            for k in self.prog.mro(c):
                if k.is_dataclass:
                    r |= set(k.ann)
                for m in k.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                            r.add(n.attr)
            self.funcs[key] = r
        return r

    def class_const(self, st, c, name, expr):
        try:
            return [(st, self.pyconst(ast.literal_eval(expr)))]
        except (ValueError, TypeError, SyntaxError):
            return [(st, T("classattr", c.qual, name))]

    def class_by_qual(self, q):
        m, _, n = q.rpartition(".")
        return self.prog.modules[m].classes[n]

    def is_enum(self, c):
        return bool({"Enum", "IntEnum", "StrEnum", "Flag"} & self.prog.base_names(c))

    def enum_member(self, c, name, expr):
        try:
            v = ast.literal_eval(expr)
            return T("enum", c.qual, name, v)
        except (ValueError, TypeError, SyntaxError):
            return T("enum", c.qual, name)

    def setattr(self, st, base, name, v, node):
        if base.op == "ref":
            o = st.heap[base.args[0]]
            if o.kind == "obj":
                fl = dict(o.fields)
                fl[name] = v
                st.heap[base.args[0]] = o.but(fields=fl)
                self.emit(st, "setattr", node, base=base, name=name, value=v)
                return
        if base.op == "join":
            for a in base.args:
                self.setattr(st, a, name, v, node)
            return
        st.ov[(base, name)] = v
        self.emit(st, "setattr", node, base=base, name=name, value=v)

    # ---------------------------------------------------------- merging
    def merge_vals(self, vals):
        return join(vals)

    def merge(self, states):
        states = self.dedupe(states, loose=True)
        if len(states) == 1:
            return states[0]
        self.merged += 1
        s0 = states[0]
        r = s0.fork()
        pcs = [s.pc for s in states]
        r.pc = {k: v for k, v in s0.pc.items() if all(p.get(k) is v for p in pcs)}
        ids = set()
        for s in states:
            ids |= set(s.heap)
        r.heap = {}
        for i in ids:
            objs = [s.heap[i] for s in states if i in s.heap]
            o = objs[0]
            if all(x.same(o) for x in objs):
                r.heap[i] = o
                continue
            if o.kind == "obj" or o.kind == "frame":
                names = {}
                for x in objs:
                    for n in x.fields:
                        names[n] = 1
                fl = {}
                for n in names:
                    vs = [x.fields[n] for x in objs if n in x.fields]
                    fl[n] = join(vs)
                r.heap[i] = o.but(fields=fl, closed=all(x.closed for x in objs))
            elif o.kind == "arr":
                r.heap[i] = o.but(val=join([x.val for x in objs]))
            elif o.kind in ("list", "set"):
                r.heap[i] = o.but(segs=self.merge_segs([x.segs for x in objs]))
            elif o.kind == "dict":
                ent = {}
                for x in objs:
                    for k, v in x.segs:
                        ent.setdefault(k, []).append(v)
                r.heap[i] = o.but(segs=tuple((k, join(v)) for k, v in ent.items()), closed=False)
        keys = {}
        for s in states:
            for k in s.ov:
                keys[k] = 1
        r.ov = {}
        for k in keys:
            vs = []
            for s in states:
                vs.append(s.ov[k] if k in s.ov else mkattr(k[0], k[1]) if isinstance(k[1], str) else k[0])
            r.ov[k] = join(vs)
        r.trace = self.merge_traces(states, r.pc)
        return r

    def merge_segs(self, segss):
        n = min(len(s) for s in segss)
        i = 0
        while i < n and all(s[i] == segss[0][i] for s in segss):
            i += 1
        pre = segss[0][:i]
        vals = []
        for s in segss:
            for x in s[i:]:
                vals.extend(self.seg_vals(x))
        if not vals:
            return pre
        return (*pre, ("mixed", join(vals)))

    def seg_vals(self, x):
        if x[0] == "rep":
            out = []
            for _c, ss in x[2]:
                for y in ss:
                    out.extend(self.seg_vals(y))
            return out
        return [x[1]]

    def merge_traces(self, states, pc):
        trs = [s.trace for s in states]
        if all(t is trs[0] for t in trs):
            return trs[0]
        nodes = list(trs)
        while not all(t is nodes[0] for t in nodes):
            m = max((t.n if t else 0) for t in nodes)
            nodes = [t.parent if t is not None and t.n == m else t for t in nodes]
        anc = nodes[0]
        alts = []
        for s in states:
            c = tuple((k, v) for k, v in s.pc.items() if pc.get(k) is not v)
            alts.append((c, trace_list(s.trace, anc)))
        return Trace(anc, AltEv(alts))

    def dedupe(self, states, loose=False):
        """Join states that differ in nothing (loose: in nothing but the facts known)."""
        if len(states) < 2:
            return states
        out = []
        for s in states:
            for o in out:
                if (
                    o.trace is s.trace
                    and o.exc is s.exc
                    and o.level == s.level
                    and (loose or self.compl(o.pc, s.pc))
                    and o.ov == s.ov
                    and self.heap_eq(o, s)
                ):
                    o.pc = {k: v for k, v in o.pc.items() if s.pc.get(k) is v}
                    break
            else:
                out.append(s)
        return out

    def compl(self, p, q):
        """Equal facts, or facts that only differ in one complementary atom."""
        if p is q or p == q:
            return True
        if len(p) != len(q):
            return False
        d = [k for k in p if q.get(k) is not p[k]]
        return len(d) == 1 and d[0] in q

    def heap_eq(self, a, b):
        if len(a.heap) != len(b.heap):
            return False
        for i, o in a.heap.items():
            x = b.heap.get(i)
            if x is None or not (x is o or x.same(o)):
                return False
        return True

    def cap(self, outs):
        """Keep the number of fall-through states below the limit."""
        nxt = [o for o in outs if o.kind == "next"]
        if len(nxt) <= 1:
            return outs
        rest = [o for o in outs if o.kind != "next"]
        sts = self.dedupe([o.st for o in nxt])
        if len(sts) > self.limit:
            sts = self.dedupe(sts, loose=True)
        if len(sts) > self.limit:
            sts = self.partial_merge(sts)
        return [Out("next", s) for s in sts] + self.cap_rest(rest)

    def cap_rest(self, rest):
        by = {}
        for o in rest:
            by.setdefault(o.kind, []).append(o)
        out = []
        for k, os in by.items():
            if len(os) <= self.limit * 2:
                out.extend(os)
                continue
            if k == "raise":
                g = {}
                for o in os:
                    g.setdefault(o.st.exc, []).append(o)
                for e, xs in g.items():
                    m = self.merge([x.st for x in xs])
                    m.exc = e
                    out.append(Out(k, m, xs[0].val))
            elif k == "return":
                g = {}
                for o in os:
                    g.setdefault(o.val, []).append(o)
                for v, xs in g.items():
                    out.append(Out(k, self.merge([x.st for x in xs]), v))
            else:
                out.append(Out(k, self.merge([x.st for x in os])))
        return out

    def partial_merge(self, sts):
        """Merge the states that agree on the current frame first; all of them if still too many."""
        g = {}
        for s in sts:
            fr = s.heap[s.frame]
            g.setdefault(tuple(sorted((k, v.uid) for k, v in fr.fields.items())), []).append(s)
        ms = [self.merge(v) for v in g.values()]
        if len(ms) > self.limit:
            # merge pairwise by recency to keep some correlation
            ms = [self.merge(ms)]
        return ms

    # ---------------------------------------------------------- statements
    def block(self, stmts, st):
        outs = [Out("next", st)]
        for s in stmts:
            res = []
            for o in outs:
                if o.kind != "next":
                    res.append(o)
                else:
                    res.extend(self.stmt(s, o.st))
            outs = self.cap(res)
            if not any(o.kind == "next" for o in outs):
                break
        return outs

    def stmt(self, s, st):
        self.tick()
        h = getattr(self, "s_" + type(s).__name__, None)
        if h is None:
            self.emit(st, "unsupported", s, what=type(s).__name__)
            return [Out("next", st)]
        return h(s, st)

    def wrap(self, res):
        """[(state, value)] -> outcomes, raising states separated."""
        return [Out("raise", st, st.exc) if st.exc is not None else Out("next", st) for st, _v in res]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [Out("next", st)]
        return self.wrap(self.eval(s.value, st))

    def s_Pass(self, s, st):
        return [Out("next", st)]

    def s_Import(self, s, st):
        fn = self.fnstack[-1]
        for n, p in fn.module.import_names(s).items():
            r = self.prog.resolve(p)
            self.setname(st, n, self.global_value(r) if r is not None else ext(self.ext.canon(p)))
        return [Out("next", st)]

    s_ImportFrom = s_Import

    def s_Global(self, s, st):
        return [Out("next", st)]

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st):
        fn = self.fnstack[-1]
        fi = FuncInfo(s, fn.module, parent=fn)
        self.setname(st, s.name, self.func_term(fi, st.frame))
        return [Out("next", st)]

    def s_ClassDef(self, s, st):
        self.setname(st, s.name, ext("local." + s.name))
        return [Out("next", st)]

    def s_Return(self, s, st):
        if s.value is None:
            return [Out("return", st, NONE)]
        out = []
        for s2, v in self.eval(s.value, st):
            if s2.exc is not None:
                out.append(Out("raise", s2, s2.exc))
            else:
                out.append(Out("return", s2, v))
        return out

    def s_Break(self, s, st):
        return [Out("break", st)]

    def s_Continue(self, s, st):
        return [Out("continue", st)]

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setname(st, t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                for s2, b in self.eval(t.value, st):
                    self.emit(s2, "mutate", s, root=root_of(self.val(s2, b)), how="del")
                    self.delete_item(s2, b, t, s)
        return [Out("next", st)]

    def delete_item(self, st, b, t, node):
        """del b[i] for a dictionary with known keys; anything else leaves a dictionary or list with unknown contents."""
        if b.op != "ref" or st.heap[b.args[0]].kind not in ("dict", "list"):
            return
        o = st.heap[b.args[0]]
        r = self.eval(t.slice, st)
        i = self.val(*r[0]) if len(r) == 1 and not isinstance(t.slice, ast.Slice) else None
        if o.kind == "dict" and i is not None and is_const(i) and o.closed and all(is_const(k) for k, _ in o.segs):
            if not any(k is i for k, _ in o.segs):
                self.emit(st, "key_error", node, base=b, index=i)
            st.heap[b.args[0]] = o.but(segs=tuple((k, v) for k, v in o.segs if k is not i))
        elif o.kind == "list" and i is not None and is_const(i) and isinstance(cval(i), int) and all(x[0] == "item" for x in o.segs) and -len(o.segs) <= cval(i) < len(o.segs):
            items = list(o.segs)
            del items[cval(i)]
            st.heap[b.args[0]] = o.but(segs=tuple(items))
        elif o.kind == "dict":
            st.heap[b.args[0]] = o.but(closed=False)

    def s_Raise(self, s, st):
        if s.exc is None:
            e = T("exc", "reraise")
            st.exc = e
            return [Out("raise", st, e)]
        out = []
        for s2, v in self.eval(s.exc, st):
            if s2.exc is None:
                name = "?"
                if v.op == "class":
                    name = v.args[0]
                elif v.op == "ext":
                    name = v.args[0]
                elif v.op == "exc":
                    name = v.args[0]
                s2.exc = T("exc", name)
                self.emit(s2, "raise", s, exc=name)
            out.append(Out("raise", s2, s2.exc))
        return out

    def s_Assert(self, s, st):
        out = []
        for s2, b in self.eval_cond(s.test, st):
            if s2.exc is not None:
                out.append(Out("raise", s2, s2.exc))
            elif b:
                out.append(Out("next", s2))
            else:
                s2.exc = T("exc", "builtins.AssertionError")
                self.emit(s2, "raise", s, exc="builtins.AssertionError")
                out.append(Out("raise", s2, s2.exc))
        return out

    def s_Assign(self, s, st):
        out = []
        for s2, v in self.eval(s.value, st):
            if s2.exc is not None:
                out.append(Out("raise", s2, s2.exc))
                continue
            sts = [s2]
            for t in s.targets:
                nx = []
                for x in sts:
                    nx.extend(self.assign(t, v, x, s))
                sts = nx
            for x in sts:
                out.append(Out("raise", x, x.exc) if x.exc is not None else Out("next", x))
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [Out("next", st)]
        out = []
        for s2, v in self.eval(s.value, st):
            if s2.exc is not None:
                out.append(Out("raise", s2, s2.exc))
                continue
            for x in self.assign(s.target, v, s2, s):
                out.append(Out("raise", x, x.exc) if x.exc is not None else Out("next", x))
        return out

    def s_AugAssign(self, s, st):
        out = []
        load = _as_load(s.target)
        for s2, (cur, rhs) in self.evals2(load, s.value, st):
            if s2.exc is not None:
                out.append(Out("raise", s2, s2.exc))
                continue
            # in-place list extension
            if cur.op == "ref" and isinstance(s.op, ast.Add) and s2.heap[cur.args[0]].kind == "list":
                self.list_extend(s2, cur, rhs, s)
                out.append(Out("next", s2))
                continue
            if isinstance(s.op, ast.BitOr) and self.is_dict(s2, cur):
                self.ext.call_method(self, s2, cur, "update", [rhs], {}, s)
                out.append(Out("next", s2))
                continue
            if cur.op == "ref" and s2.heap[cur.args[0]].kind == "set" or cur.op == "fset":
                name = {"Sub": "difference", "BitOr": "union", "BitAnd": "intersection", "BitXor": "symmetric_difference"}.get(type(s.op).__name__)
                r = self.set_op(s2, name, cur, rhs) if name else None
                if r is not None:
                    if cur.op == "ref":  # in place
                        s2.heap[cur.args[0]] = s2.heap[r.args[0]]
                        out.append(Out("next", s2))
                    else:
                        for x in self.assign(s.target, r, s2, s):
                            out.append(Out("raise", x, x.exc) if x.exc is not None else Out("next", x))
                    continue
            if cur.op == "ref" and s2.heap[cur.args[0]].kind == "arr":
                nv = self.binop(s2, s.op, self.val(s2, cur), self.val(s2, rhs), s)
                o = s2.heap[cur.args[0]]
                r = root_of(self.val(s2, o.val)) if o.cls == "view" else None
                if r is not None:
                    self.emit(s2, "mutate", s, root=r, how="augassign", value=nv)
                s2.heap[cur.args[0]] = o.but(val=nv)
                out.append(Out("next", s2))
                continue
            nv = self.binop(s2, s.op, self.val(s2, cur), self.val(s2, rhs), s)
            r = root_of(cur)
            if r is not None and not isinstance(s.target, ast.Subscript):
                self.emit(s2, "inplace", s, root=r, target=type(s.target).__name__, value=nv, cur=cur)
            for x in self.assign(s.target, nv, s2, s):
                out.append(Out("raise", x, x.exc) if x.exc is not None else Out("next", x))
        return out

    def s_If(self, s, st):
        outs = []
        for s2, b in self.eval_cond(s.test, st):
            if s2.exc is not None:
                outs.append(Out("raise", s2, s2.exc))
            else:
                outs.extend(self.block(s.body if b else s.orelse, s2))
        return self.cap(outs)

    def s_With(self, s, st):
        outs = [Out("next", st)]
        for it in s.items:
            nx = []
            for o in outs:
                if o.kind != "next":
                    nx.append(o)
                    continue
                for s2, v in self.eval(it.context_expr, o.st):
                    if s2.exc is not None:
                        nx.append(Out("raise", s2, s2.exc))
                        continue
                    self.emit(s2, "with", s, value=v)
                    if it.optional_vars is not None:
                        for x in self.assign(it.optional_vars, v, s2, s):
                            nx.append(Out("next", x))
                    else:
                        nx.append(Out("next", s2))
            outs = nx
        res = []
        for o in outs:
            if o.kind != "next":
                res.append(o)
            else:
                res.extend(self.block(s.body, o.st))
        return self.cap(res)

    def s_Try(self, s, st):
        entry = st.fork()
        body = self.block(s.body, st)
        res = []
        raised = [o for o in body if o.kind == "raise"]
        nexts = [o for o in body if o.kind == "next"]
        res.extend(o for o in body if o.kind not in ("raise", "next"))
        # normal completion
        for o in nexts:
            if s.orelse:
                res.extend(self.block(s.orelse, o.st))
            else:
                res.append(o)
        # implicit exceptions of calls inside the body
        pool = [entry] + [o.st.fork() for o in body if o.kind in ("next", "return", "raise")] if not self.exact else []
        for p in pool:
            p.exc = None
        for h in s.handlers:
            sts = [self.merge([p.fork() for p in pool])] if pool else []
            for o in raised:
                if self.exc_match(h, o.st.exc):
                    x = o.st.fork()
                    x.exc = None
                    sts.append(x)
            for x in sts:
                if h.name:
                    self.setname(x, h.name, self.fresh("exc"))
                self.emit(x, "handler", h, type=ast.unparse(h.type) if h.type else "")
                res.extend(self.block(h.body, x))
        for o in raised:
            if not any(self.exc_match(h, o.st.exc) for h in s.handlers):
                res.append(o)
        if s.finalbody:
            out = []
            for o in res:
                exc = o.st.exc
                o.st.exc = None
                for f in self.block(s.finalbody, o.st):
                    if f.kind == "next":
                        f.st.exc = exc
                        out.append(Out(o.kind, f.st, o.val))
                    else:
                        out.append(f)
            res = out
        return self.cap(res)

    def exc_match(self, h, exc):
        if h.type is None:
            return True
        names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
        en = str(exc.args[0]).split(".")[-1]
        for n in names:
            x = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else "?"
            if x in (en, "Exception", "BaseException") or x in BASES.get(en, ()):
                return True
            c = None
            fn = self.fnstack[-1]
            r = self.prog.lookup(fn.module, x) if fn else None
            if isinstance(r, ClassInfo):
                c = r
            try:
                ec = self.class_by_qual(str(exc.args[0]))
            except (KeyError, ValueError):
                ec = None
            if ec is not None:
                if c is not None and c in self.prog.mro(ec):
                    return True
                if x in self.prog.base_names(ec):
                    return True
        return False

    def s_Match(self, s, st):
        chain = None
        tmp = f"$match{s.lineno}"
        orelse = []
        for c in reversed(s.cases):
            test = self._pattern(c.pattern, tmp)
            if test is None:
                test = ast.Constant(True)
            if c.guard is not None:
                test = ast.BoolOp(ast.And(), [test, c.guard])
            node = ast.If(test=test, body=c.body, orelse=orelse)
            ast.copy_location(node, s)
            ast.fix_missing_locations(node)
            orelse = [node]
        out = []
        for s2, v in self.eval(s.subject, st):
            if s2.exc is not None:
                out.append(Out("raise", s2, s2.exc))
                continue
            self.setname(s2, tmp, v)
            out.extend(self.block(orelse, s2))
        return out

    def _pattern(self, p, tmp):
        n = ast.Name(tmp, ast.Load())
        if isinstance(p, ast.MatchValue):
            return ast.Compare(n, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(n, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [self._pattern(x, tmp) for x in p.patterns])
        return None

    # ---------------------------------------------------------- loops
    def s_For(self, s, st):
        out = []
        for s2, it in self.eval(s.iter, st):
            if s2.exc is not None:
                out.append(Out("raise", s2, s2.exc))
                continue
            out.extend(self.for_loop(s, s2, it))
        return self.cap(out)

    def for_loop(self, s, st, it):
        it = self.iter_norm(st, it)
        items = self.known_items(st, it)
        if items is not None and len(items) <= max(self.unroll, 0):
            src = it.args[0] if it.op == "enumerate" else it
            live = self.exact and src.op == "ref" and st.heap[src.args[0]].kind == "list"
            return self.unrolled(s, st, items, (it, src.args[0]) if live else None)
        if self.explicit and it.op == "count" and isinstance(s.iter, ast.Call):
            return self.counting(s, st, it)
        if self.explicit and (items is not None or self.too_long(st, it)):
            raise TooBig("loop too long")
        seg = self.single_rep(st, it)
        header = self.val(st, it)
        elem = self.elem_of(st, it, st.level + 1)

        def run(x):
            o = []
            for y in self.assign(s.target, elem, x, s):
                o.extend(self.block(s.body, y))
            return o

        return self.sym_loop(s, st, header, run, s.orelse)

    def too_long(self, st, v):
        """A sequence of known length that is not enumerated."""
        if v.op == "range":
            return all(is_const(a) for a in v.args)
        if v.op in ("enumerate", "reversed"):
            return self.too_long(st, v.args[0])
        if v.op in ("zip", "product"):
            return all(self.known_items(st, a) is not None or self.too_long(st, a) for a in v.args)
        return False

    def single_rep(self, st, it):
        return None

    def iter_norm(self, st, it):
        if it.op == "nparr":
            return it.args[0]
        if it.op == "ref":
            o = st.heap[it.args[0]]
            if o.kind == "arr":
                return self.iter_norm(st, o.val)
        return it

    def elem_of(self, st, it, level):
        """Generic element of an iterable."""
        if it.op == "range":
            return T("idx", it.args[0], it.args[1], it.args[2], level)
        if it.op == "enumerate":
            base = it.args[0]
            ln = self.length(st, base)
            return T("tuple", padd(T("idx", K(0), ln, K(1), level), it.args[1]), self.elem_of(st, base, level))
        if it.op == "zip":
            return T("tuple", *[self.elem_of(st, a, level) for a in it.args])
        if it.op == "product":
            return T("tuple", *[self.elem_of(st, a, level) for a in it.args])
        if it.op == "reversed":
            return self.elem_of(st, it.args[0], level)
        if it.op == "ref":
            o = st.heap[it.args[0]]
            if o.kind == "dict":
                if o.segs:
                    return join([k for k, _ in o.segs])
            if o.kind in ("list", "set"):
                vals = []
                for sg in o.segs:
                    vals.extend(self.seg_elems(sg))
                if vals:
                    if any(v.op in ("tuple", "ref", "enum", "func", "class") for v in vals) or all(is_const(v) for v in vals):
                        return self.join_tuples(vals)
                    return T("elem", self.val(st, it), level)
            if o.kind == "arr":
                return self.elem_of(st, o.val, level)
            return T("elem", self.val(st, it), level)
        if it.op == "dictitems":
            b = it.args[0]
            if b.op == "ref" and st.heap[b.args[0]].kind == "dict" and st.heap[b.args[0]].segs:
                es = st.heap[b.args[0]].segs
                return self.join_tuples([T("tuple", k, v) for k, v in es])
            v = self.val(st, b)
            return T("tuple", T("elem", T("keys", v), level), T("elem", T("dictvalues", v), level))
        if it.op == "dictvalues":
            b = it.args[0]
            if b.op == "ref" and st.heap[b.args[0]].kind == "dict" and st.heap[b.args[0]].segs:
                return join([v for _k, v in st.heap[b.args[0]].segs])
        if it.op == "tuple":
            return self.join_tuples(list(it.args))
        if it.op in ("list", "set") and it.args and all(is_const(a) for a in it.args):
            return join(it.args)
        return T("elem", self.val(st, it), level)

    def join_tuples(self, vals):
        if all(v.op == "tuple" and len(v.args) == len(vals[0].args) for v in vals) and vals[0].op == "tuple":
            return T("tuple", *[join([v.args[i] for v in vals]) for i in range(len(vals[0].args))])
        return join(vals)

    def seg_elems(self, sg):
        if sg[0] == "rep":
            out = []
            for _c, ss in sg[2]:
                for y in ss:
                    out.extend(self.seg_elems(y))
            return out
        if sg[0] == "ext":
            return [T("elem", sg[1], 0)]
        return [sg[1]]

    def length(self, st, v):
        items = self.known_items(st, v)
        if items is not None:
            isset = v.op == "set" or (v.op == "ref" and st.heap[v.args[0]].kind == "set")
            if not isset or len(items) < 2:
                return K(len(items))
            if all(ground(i) for i in items):
                return K(len({i.uid for i in items}))
            items = sorted({self.val(st, i) for i in items}, key=lambda t: t.uid)
            return K(1) if len(items) == 1 else T("len", T("set", *items))
        if v.op == "ref":
            o = st.heap[v.args[0]]
            if o.kind in ("list", "set") and len(o.segs) == 1 and o.segs[0][0] == "rep" and o.kind == "list":
                alts = o.segs[0][2]
                if len(alts) == 1 and len(alts[0][1]) == 1 and alts[0][1][0][0] == "item":
                    h = o.segs[0][1]
                    if h.op == "range":
                        return T("len", h) if not (h.args[0] is K(0) and h.args[2] is K(1)) else h.args[1]
                    return self.len_term(h)
            return self.len_term(self.val(st, v))
        if v.op == "range" and v.args[0] is K(0) and v.args[2] is K(1):
            return v.args[1]
        return self.len_term(v)

    def len_term(self, v):
        if v.op == "enumerate":
            return self.len_term(v.args[0])
        if v.op == "range" and v.args[0] is K(0) and v.args[2] is K(1):
            return v.args[1]
        if v.op in ("list", "tuple") and all(a.op not in ("comp", "star", "mixed") for a in v.args):
            return K(len(v.args))
        if v.op == "nparr":
            return self.len_term(v.args[0])
        if v.op == "zeros" and v.args:
            sh = v.args[0]
            if sh.op == "tuple":
                return sh.args[0]
            if not is_const(sh) or isinstance(cval(sh), int):
                return sh
        return T("len", v)

    def unrolled(self, s, st, items, live=None):
        states = [st]
        outs = []
        ended = []
        first = st.heap[live[1]] if live is not None else None
        for i in itertools.count():
            if live is None and i >= len(items):
                break
            if i > max(self.unroll, len(items)):
                raise TooBig("loop too long")
            nxt = []
            for y in states:
                cur = items
                if live is not None and y.heap[live[1]] is not first:  # the list is changed while it is iterated over
                    cur = self.known_items(y, live[0])
                    if cur is None:
                        raise TooBig("changed while iterated")
                if i >= len(cur):
                    ended.append(y)
                    continue
                x = cur[i]
                for z in self.assign(s.target, x, y, s):
                    for o in self.block(s.body, z):
                        if o.kind in ("next", "continue"):
                            nxt.append(Out("next", o.st))
                        elif o.kind == "break":
                            outs.append(Out("next", o.st))
                        else:
                            outs.append(o)
            states = [o.st for o in self.cap(nxt)]
            if not states:
                break
        for y in [*ended, *states]:
            if s.orelse:
                outs.extend(self.block(s.orelse, y))
            else:
                outs.append(Out("next", y))
        return self.cap(outs)

    def counting(self, s, st, it):
        """`for i in itertools.count(a, b)`: iterations until every path has left the loop."""
        states, outs = [st], []
        for n in range(self.unroll + 1):
            nxt = []
            for y in states:
                for z in self.assign(s.target, padd(it.args[0], pmul(it.args[1], K(n))), y, s):
                    for o in self.block(s.body, z):
                        if o.kind in ("next", "continue"):
                            nxt.append(Out("next", o.st))
                        else:
                            outs.append(Out("next", o.st) if o.kind == "break" else o)
            states = [o.st for o in self.cap(nxt)]
            if not states:
                return self.cap(outs)
        raise TooBig("loop too long")

    # -- symbolic loops
    def diff(self, pre, sts):
        """Locations of `pre` changed in any of `sts`: set of keys."""
        locs = set()
        for s in sts:
            for i, o in pre.heap.items():
                n = s.heap.get(i)
                if n is o or n is None:
                    continue
                if o.kind in ("frame", "obj"):
                    for k, v in n.fields.items():
                        if o.fields.get(k) is not v:
                            locs.add((o.kind, i, k))
                    if n.closed != o.closed:
                        locs.add((o.kind, i, None))
                elif o.kind == "arr":
                    if n.val is not o.val:
                        locs.add(("arr", i, None))
                elif o.kind in ("list", "set"):
                    if n.segs != o.segs:
                        locs.add(("list", i, None))
                elif o.kind == "dict":
                    if n.segs != o.segs:
                        locs.add(("dict", i, None))
            for k, v in s.ov.items():
                if pre.ov.get(k) is not v:
                    locs.add(("ov", k, None))
        return locs

    def getloc(self, st, loc):
        kind, i, k = loc
        if kind in ("frame", "obj"):
            o = st.heap.get(i)
            return o.fields.get(k) if o is not None and k is not None else None
        if kind == "arr":
            return st.heap[i].val if i in st.heap else None
        if kind == "ov":
            return st.ov.get(i, mkattr(*i) if isinstance(i[1], str) else i[0])
        return None

    def setloc(self, st, loc, v):
        kind, i, k = loc
        if kind in ("frame", "obj"):
            if k is None:
                return
            o = st.heap[i]
            fl = dict(o.fields)
            fl[k] = v
            st.heap[i] = o.but(fields=fl)
        elif kind == "arr":
            st.heap[i] = st.heap[i].but(val=v)
        elif kind == "ov":
            st.ov[i] = v

    def sym_loop(self, s, st, header, run, orelse, exit_cond=None, post=None):
        pre = st
        level = pre.level + 1
        ends = None
        locs = set()
        phis = {}
        ev_mark = len(self.events)
        for _round in range(4):
            del self.events[ev_mark:]
            w = pre.fork()
            w.level = level
            w.trace = None
            self.widen(pre, w, locs, ends or [], level, header, phis)
            outs = run(w)
            ends = [o.st for o in outs if o.kind in ("next", "continue")]
            allst = [o.st for o in outs]
            new = self.diff(pre, ends)
            if new <= locs:
                break
            locs |= new
        exits = []
        loopalts = []
        for e in ends:
            loopalts.append((self.delta(pre, e), trace_list(e.trace)))
        lev = LoopEv(header, loopalts, s, self.fnstack[-1] if self.fnstack else None)
        base_tr = Trace(pre.trace, lev) if any(a[1] for a in loopalts) else pre.trace
        res = []
        for o in outs:
            if o.kind in ("next", "continue"):
                continue
            x = o.st
            x.level = pre.level
            x.trace = self.append_trace(base_tr, trace_list(x.trace))
            x.pc = self.witness(x.pc, level, pre.pc)
            if o.kind == "break":
                res.append(Out("next", x))
            elif o.kind == "exit":
                exits.append(x)
            else:
                res.append(Out(o.kind, x, o.val))
        if exit_cond is None:
            ex = pre.fork()
            ex.trace = base_tr
            self.loop_exit(pre, ex, locs, ends, level, header, phis)
            exits.append(ex)
        else:
            exits.extend(exit_cond(self, pre, locs, ends, level, header, phis, base_tr))
        for x in exits:
            if post is not None:
                post(x)
            if orelse:
                res.extend(self.block(orelse, x))
            else:
                res.append(Out("next", x))
        return self.cap(res)

    def append_trace(self, tr, evs):
        for e in evs:
            tr = Trace(tr, e)
        return tr

    def delta(self, pre, e):
        return tuple(sorted(((k, v) for k, v in e.pc.items() if pre.pc.get(k) is not v), key=lambda kv: kv[0].uid))

    def drop_level(self, pc, level, pre):
        out = {}
        for k, v in pc.items():
            if k in pre and pre[k] is v:
                out[k] = v
            elif not mentions_level(k, level):
                out[k] = v
        return out

    def witness(self, pc, level, pre):
        """Facts about the iteration a loop was left in hold for some element of the range."""
        out = {}
        m = None
        for k, v in pc.items():
            if (k in pre and pre[k] is v) or not mentions_level(k, level):
                out[k] = v
                continue
            if any(x.op == "phi" and x.args[0] == level for x in subterms(k)):
                continue
            if m is None:
                self.uid += 1
                wid = self.uid
                m = {}
            for x in subterms(k):
                if x.op == "elem" and x.args[1] == level:
                    m[x] = T("some", x.args[0], wid)
                elif x.op == "idx" and x.args[3] == level:
                    m[x] = T("someidx", *x.args[:3], wid)
            out[subst(k, m)] = v
        return out

    def widen(self, pre, w, locs, ends, level, header, phis):
        # objects created in an earlier iteration stay reachable through the widened locations
        for e in ends:
            for h, o in e.heap.items():
                w.heap.setdefault(h, o)
        for loc in sorted(locs, key=repr):
            kind, i, k = loc
            if kind == "list":
                sg = self.rep_segs(pre, ends, i, header, phis.get(loc))
                w.heap[i] = w.heap[i].but(segs=sg, closed=False)
                phis[loc] = sg[-1] if sg and sg[-1][0] == "rep" and sg[:-1] == pre.heap[i].segs else None
                continue
            if kind == "dict":
                w.heap[i] = w.heap[i].but(segs=self.rep_dict(pre, ends, i), closed=False)
                continue
            init = self.getloc(pre, loc)
            upd = [self.getloc(e, loc) for e in ends]
            upd = [u for u in upd if u is not None]
            if init is None:
                continue  # defined inside the loop only
            if any(isinstance(u, tuple) for u in (init, *upd)):
                raise TooBig("a model's record changes in a loop without a known length")
            name = k if isinstance(k, str) else (str(i) if kind == "arr" else i[1] if kind == "ov" else "?")
            old = phis.get(loc)
            uj = join(upd) if upd else init
            if old is not None:
                uj = strip_phi(uj, old)
            vals = join([init, uj]) if uj is not None else init
            if all(is_const(v) or v.op in ("ref", "enum", "func", "class", "bound") for v in terms.alts(vals)) and len(terms.alts(vals)) <= 6:
                w_v = vals
                phis[loc] = w_v
            else:
                w_v = T("phi", level, str(name), init, uj if uj is not None else init)
                phis[loc] = w_v
            self.setloc(w, loc, w_v)

    def rep_segs(self, pre, ends, i, header, own=None):
        p = pre.heap[i].segs
        alts = []
        for e in ends:
            if i not in e.heap:
                continue
            sg = e.heap[i].segs
            n = len(p)
            if sg[:n] == p:
                tail = sg[n:]
                if tail and own is not None and tail[0] == own:
                    tail = tail[1:]
                d = self.delta(pre, e)
                conds = tuple(T("not", k) if not v else k for k, v in d)
                alts.append((conds, tail))
            else:
                vals = []
                for x in p:
                    vals.extend(self.seg_vals(x))
                for e2 in ends:
                    if i in e2.heap:
                        for x in e2.heap[i].segs:
                            vals.extend(self.seg_vals(x))
                return (("mixed", join(vals)),) if vals else (("mixed", T("unknown")),)
        if not any(t for _c, t in alts):
            return p
        alts = simplify_alts(alts)
        return (*p, ("rep", header, tuple(alts)))

    def rep_dict(self, pre, ends, i):
        ent = {}
        for o in [pre, *ends]:
            if i in o.heap:
                for k, v in o.heap[i].segs:
                    ent.setdefault(k, []).append(v)
        return tuple((k, join(v)) for k, v in ent.items())

    def loop_exit(self, pre, ex, locs, ends, level, header, phis):
        for loc in sorted(locs, key=repr):
            kind, i, k = loc
            if kind == "list":
                ex.heap[i] = ex.heap[i].but(segs=self.rep_segs(pre, ends, i, header, phis.get(loc)), closed=False)
                continue
            if kind == "dict":
                ex.heap[i] = ex.heap[i].but(segs=self.rep_dict(pre, ends, i), closed=False)
                continue
            init = self.getloc(pre, loc)
            upd = [self.getloc(e, loc) for e in ends]
            upd = [u for u in upd if u is not None]
            if not upd:
                continue
            # keep the heap objects created in the loop reachable
            for e in ends:
                for h, o in e.heap.items():
                    ex.heap.setdefault(h, o)
            phi = phis.get(loc)
            uj = join(upd)
            if init is None:
                self.setloc(ex, loc, uj)
                continue
            if phi is not None and phi.op == "phi":
                if uj is phi:
                    v = init
                elif any(x is phi for x in subterms(uj)):
                    v = T("fold", level, header, phi, init, uj)
                else:
                    v = join([init, uj])
            else:
                v = join([init, uj])
            self.setloc(ex, loc, v)
        for e in ends:
            for h, o in e.heap.items():
                ex.heap.setdefault(h, o)

    def s_While(self, s, st):
        states = [st]
        outs = []
        const_test = isinstance(s.test, ast.Constant)
        upd = getattr(s, "update", None)  # C for-loops
        if not const_test or self.explicit:
            n = 0
            heads = []
            while states and n <= self.unroll:
                if self.exact and len(states) == 1 and n >= self.unroll - 2:
                    heads.append((states[0].frame, dict(states[0].heap), dict(states[0].ov)))
                nxt = []
                symb = []
                for x in states:
                    probe = x.fork()
                    mark = len(self.events)
                    r = self.eval_cond(s.test, probe)
                    if len(r) == 1 and r[0][0].exc is None and (n > 0 or r[0][1] is False or self.explicit or self._counting(s)):
                        x2, b = r[0]
                        if not b:
                            outs.extend(self.block(s.orelse, x2) if s.orelse else [Out("next", x2)])
                            continue
                        for o in self.block(s.body, x2):
                            if o.kind in ("next", "continue"):
                                if upd:
                                    nxt.extend(self.block(upd, o.st))
                                else:
                                    nxt.append(Out("next", o.st))
                            elif o.kind == "break":
                                outs.append(Out("next", o.st))
                            else:
                                outs.append(o)
                    else:
                        del self.events[mark:]
                        symb.append(x)
                for x in symb:
                    outs.extend(self.sym_while(s, x))
                states = [o.st for o in self.cap(nxt) if o.kind == "next"]
                n += 1
            if states and self.explicit:
                if len(states) == 1 and len(heads) == 3 and all(a[0] == b[0] and a[2] == b[2] and all(k in b[1] and b[1][k].same(v) for k, v in a[1].items()) for a, b in zip(heads, heads[1:])):
                    # nothing has changed from one iteration to the next: the loop never ends
                    states[0].exc = T("exc", "NonTermination")
                    return self.cap([*outs, Out("raise", states[0], states[0].exc)])
                raise TooBig("loop too long")
            for x in states:
                outs.extend(self.sym_while(s, x))
            return self.cap(outs)
        return self.cap(self.sym_while(s, st))

    def _counting(self, s):
        """The loop test compares something with a value: worth unrolling when constant."""
        return any(isinstance(n, ast.Compare) for n in ast.walk(s.test))

    def sym_while(self, s, st):
        ind = self.induction(s, st)
        level = st.level + 1
        upd = getattr(s, "update", None)
        if ind is not None:
            v, lo, hi, step, incl = ind
            hi2 = padd(hi, K(1)) if incl else hi
            header = T("range", lo, hi2, K(step))
            elem = T("idx", lo, hi2, K(step), level)

            def run(x):
                self.setname(x, v, elem)
                outs = []
                for o in self.block(s.body, x):
                    if upd and o.kind in ("next", "continue"):
                        outs.extend(self.block(upd, o.st))
                    else:
                        outs.append(o)
                return outs

            return self.sym_loop(s, st, header, run, s.orelse, post=lambda x: self.setname(x, v, hi2))
        header = T("while", getattr(s, "lineno", 0), level)

        def run(x):
            outs = []
            for s2, b in self.eval_cond(s.test, x):
                if s2.exc is not None:
                    outs.append(Out("raise", s2, s2.exc))
                elif b:
                    for o in self.block(s.body, s2):
                        if upd and o.kind in ("next", "continue"):
                            outs.extend(self.block(upd, o.st))
                        else:
                            outs.append(o)
                # the test failing ends the loop: handled by exit_cond
            return outs

        def exit_cond(eng, pre, locs, ends, level, header, phis, base_tr):
            ex = pre.fork()
            ex.trace = base_tr
            eng.loop_exit(pre, ex, locs, ends, level, header, phis)
            out = []
            if isinstance(s.test, ast.Constant) and s.test.value:
                return out
            for s2, b in eng.eval_cond(s.test, ex):
                if s2.exc is None and not b:
                    out.append(s2)
            return out

        return self.sym_loop(s, st, header, run, s.orelse, exit_cond=exit_cond)

    def induction(self, s, st):
        """Recognise `while v < E: ...; v += c` (and C for-loops) as a counted loop."""
        t = s.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(l, ast.Name) and isinstance(op, (ast.Lt, ast.LtE, ast.NotEq)):
            v, e, incl = l.id, r, isinstance(op, ast.LtE)
        elif isinstance(r, ast.Name) and isinstance(op, (ast.Gt, ast.GtE)):
            v, e, incl = r.id, l, isinstance(op, ast.GtE)
        else:
            return None
        if any(isinstance(n, ast.Name) and n.id == v for n in ast.walk(e)):
            return None
        upd = getattr(s, "update", None)
        assigns = []
        for b in [*s.body, *(upd or [])]:
            for n in ast.walk(b):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == v:
                    assigns.append((n, b))
                elif isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store):
                    if not any(n is a.target for a, _ in assigns):
                        par = [x for x in ast.walk(b) if isinstance(x, ast.AugAssign) and x.target is n]
                        if not par:
                            return None
        if len(assigns) != 1:
            return None
        a, b = assigns[0]
        last = (upd or s.body)[-1]
        if a is not b or b is not last or not isinstance(a.op, ast.Add):
            return None
        if not (isinstance(a.value, ast.Constant) and isinstance(a.value.value, int) and a.value.value > 0):
            return None
        if not upd and any(isinstance(n, ast.Continue) for x in s.body for n in ast.walk(x)):
            return None
        try:
            lo = self.lookup(st.fork(), v, s)
            mark = len(self.events)
            res = self.eval(e, st.fork())
            del self.events[mark:]
        except TooBig:
            raise
        if len(res) != 1:
            return None
        # the bound must not change in the body
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        for x in s.body:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Store):
                    return None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    if n.func.value.id in names and n.func.attr in self.ext.MUTATORS:
                        return None
        return v, lo, self.val(st, res[0][1]), a.value.value, incl

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v)
            return [st]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            items = self.known_items(st, v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items is not None and not star and len(items) == n:
                vals = items
            elif items is not None and star:
                i = star[0]
                tail = n - i - 1
                vals = items[:i] + [T("list", *items[i : len(items) - tail])] + items[len(items) - tail :]
            elif v.op == "join" and all(a.op == "tuple" and len(a.args) == n for a in v.args):
                vals = [join([a.args[i] for a in v.args]) for i in range(n)]
            else:
                pv = self.val(st, v)
                vals = [self.index(st, pv, K(i)) for i in range(n)]
            sts = [st]
            for e, x in zip(t.elts, vals):
                nx = []
                for y in sts:
                    nx.extend(self.assign(e, x, y, node))
                sts = nx
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for s2, b in self.eval(t.value, st):
                if s2.exc is None:
                    self.setattr(s2, b, t.attr, v, node)
                out.append(s2)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s2, (b, i) in self.evals2(t.value, t.slice, st):
                if s2.exc is None:
                    self.store(s2, t.value, b, i, v, node)
                out.append(s2)
            return out
        self.emit(st, "unsupported", node, what="assign " + type(t).__name__)
        return [st]

    def store(self, st, bexpr, b, i, v, node):
        """b[i] = v"""
        if b.op == "ref":
            o = st.heap[b.args[0]]
            if o.kind == "list":
                iv = self.val(st, i)
                items = self.known_items(st, b)
                if items is not None and is_const(iv) and isinstance(cval(iv), int) and -len(items) <= cval(iv) < len(items):
                    items[cval(iv)] = v
                    st.heap[b.args[0]] = o.but(segs=tuple(("item", x) for x in items))
                else:
                    vals = [v]
                    for sg in o.segs:
                        vals.extend(self.seg_vals(sg))
                    st.heap[b.args[0]] = o.but(segs=(("mixed", join(vals)),))
                self.emit(st, "store", node, base=b, index=iv, value=v)
                return
            if o.kind == "dict":
                ent = list(o.segs)
                kv = self.val(st, i)
                for j, (k, _x) in enumerate(ent):
                    if k is kv or samekey(k, kv):
                        ent[j] = (k, v)
                        break
                else:
                    ent.append((kv, v))
                st.heap[b.args[0]] = o.but(segs=tuple(ent))
                self.emit(st, "store", node, base=b, index=kv, value=v)
                return
            if o.kind == "arr":
                iv = self.val(st, i)
                self.emit(st, "store", node, base=b, old=o.val, index=iv, value=self.val(st, v))
                r = root_of(o.val) if o.cls == "view" else None
                if r is not None:
                    self.emit(st, "mutate", node, root=r, how="store", index=iv, value=self.val(st, v))
                vv = self.val(st, v)
                nv = nda.store(o.val, iv, nda.to_nda(self, st, v) or vv if vv.op in ("list", "tuple", "nparr") else vv) if o.val.op == "nda" else None
                if nv is None and self.exact and o.val.op == "nda" and nda.outside(o.val, iv):
                    st.exc = T("exc", "IndexError")
                st.heap[b.args[0]] = o.but(val=nv if nv is not None else upd_term(o.val, iv, vv))
                return
            if o.kind == "obj":
                m = self.prog.find_method(o.cls, "__setitem__")
                if m is not None:
                    self.call_func(st, self.func_term(m), [b, i, v], {}, node)
                return
        bv = self.val(st, b)
        iv = self.val(st, i)
        vv = self.val(st, v)
        r = root_of(bv)
        self.emit(st, "store", node, base=b, old=bv, index=iv, value=vv)
        if r is not None:
            self.emit(st, "mutate", node, root=r, how="store", index=iv, value=vv)
        nv = nda.store(bv, iv, vv) if bv.op == "nda" else None
        self.rebind(st, bexpr, bv, nv if nv is not None else upd_term(bv, iv, vv))

    def rebind(self, st, bexpr, old, nv):
        """Reflect an in-place change of the value `old` named by `bexpr`."""
        if isinstance(bexpr, ast.Name):
            f = st.frame
            while f is not None:
                o = st.heap[f]
                if bexpr.id in o.fields:
                    fl = dict(o.fields)
                    fl[bexpr.id] = nv
                    st.heap[f] = o.but(fields=fl)
                    break
                f = o.parent
            # aliases of an attribute value: `x = self.f; x[i] = v`
            if old.op == "attr":
                st.ov[(old.args[0], old.args[1])] = nv
            return
        if isinstance(bexpr, ast.Attribute):
            for s2, b in self.eval(bexpr.value, st.fork()):
                if b.op == "ref" and st.heap.get(b.args[0]) is not None and st.heap[b.args[0]].kind == "obj":
                    o = st.heap[b.args[0]]
                    fl = dict(o.fields)
                    fl[bexpr.attr] = nv
                    st.heap[b.args[0]] = o.but(fields=fl)
                else:
                    st.ov[(b, bexpr.attr)] = nv
                break
            return
        if isinstance(bexpr, ast.Subscript):
            # nested store a[i][j] = v
            mark = len(self.events)
            r = self.evals2(bexpr.value, bexpr.slice, st.fork())
            del self.events[mark:]
            if r:
                _s, (b, i) = r[0]
                iv = self.val(st, i)
                if b.op == "ref" and st.heap[b.args[0]].kind in ("list", "dict", "arr"):
                    o = st.heap[b.args[0]]
                    if o.kind == "arr":
                        w = nda.store(o.val, iv, nv) if o.val.op == "nda" else None
                        st.heap[b.args[0]] = o.but(val=w if w is not None else upd_term(o.val, iv, nv))
                    elif o.kind == "dict":
                        st.heap[b.args[0]] = o.but(segs=tuple((k, nv if k is iv else x) for k, x in o.segs))
                    else:
                        st.heap[b.args[0]] = o.but(segs=tuple((sg[0], join([sg[1], nv])) if sg[0] == "item" else sg for sg in o.segs))
                else:
                    self.rebind(st, bexpr.value, self.val(st, b), upd_term(self.val(st, b), iv, nv))

    # ---------------------------------------------------------- expressions
    def eval(self, e, st):
        self.tick()
        if st.exc is not None:
            return [(st, UNDEF)]
        h = getattr(self, "e_" + type(e).__name__, None)
        if h is None:
            self.emit(st, "unsupported", e, what=type(e).__name__)
            return [(st, self.fresh("unsupported"))]
        return h(e, st)

    def evals(self, es, st):
        """Evaluate several expressions left to right: [(state, [values])]."""
        res = [(st, [])]
        for e in es:
            nx = []
            for s, vs in res:
                if s.exc is not None:
                    nx.append((s, [*vs, UNDEF]))
                    continue
                for s2, v in self.eval(e, s):
                    nx.append((s2, [*vs, v]))
            res = nx
            if len(res) > self.limit * 4:
                raise TooBig
        return res

    def evals2(self, a, b, st):
        return [(s, (v[0], v[1])) for s, v in self.evals([a, b], st)]

    def eval_cond(self, e, st):
        """[(state, bool)] with the condition assumed on each side."""
        if st.exc is not None:
            return [(st, False)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, (not b)) if s.exc is None else (s, b) for s, b in self.eval_cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            res = [(st, is_and)]
            done = []
            for x in e.values:
                nx = []
                for s, _b in res:
                    for s2, b2 in self.eval_cond(x, s):
                        if s2.exc is not None:
                            done.append((s2, b2))
                        elif b2 is is_and:
                            nx.append((s2, b2))
                        else:
                            done.append((s2, b2))
                res = nx
            out = done + res
            if len(out) > 4:
                # identical effects: merge the sides by outcome
                t = [s for s, b in out if s.exc is None and b]
                f = [s for s, b in out if s.exc is None and not b]
                ex = [(s, b) for s, b in out if s.exc is not None]
                out = ex
                for grp, b in ((t, True), (f, False)):
                    if grp:
                        g = self.dedupe(grp)
                        out.extend((x, b) for x in g)
            return out
        out = []
        for s, v in self.eval(e, st):
            if s.exc is not None:
                out.append((s, False))
            else:
                out.extend(self.branch(s, v))
        return out

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, (str, int, float, bool, bytes, complex)) or v is None:
            return [(st, K(v))]
        return [(st, T("ellipsis"))]

    def e_Name(self, e, st):
        v = self.lookup(st, e.id, e)
        if self.exact and st.exc is None and isinstance(e.ctx, ast.Load) and (v.op == "ext" and v.args[0] == "?." + e.id and self.bound_nowhere(e.id) or v.op == "fresh" and v.args[0] == "unbound:" + e.id):
            st.exc = T("exc", "NameError")
            return [(st, T("undef"))]
        if self.exact and st.exc is None and v.op == "sym" and v.args[0] in self.open_consts:
            return self.const_value(st, v, e)
        return [(st, v)]

    def const_value(self, st, v, node):
        """The value of a constant of a module whose expression is no literal, evaluated once per path."""
        key = (K("#const"), v.args[0])
        if key in st.ov:
            return [(st, st.ov[key])]
        m, n = self.open_consts[v.args[0]]
        if not hasattr(m, "stored_names"):
            m.stored_names = [x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)] + [y for x in ast.walk(m.tree) if isinstance(x, ast.Global) for y in x.names]
        body = m.consts[n]
        if len(self.fnstack) > 40 or sum(1 for x in m.stored_names if x == n) != 1:
            return [(st, v)]
        args = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        fi = FuncInfo(ast.copy_location(ast.Lambda(args=args, body=body), body), m)
        mark = len(self.events)
        s = st.fork()
        s.ov = dict(s.ov)
        s.ov[key] = v  # a definition in terms of itself
        try:
            res = self.run_func(s, fi, {}, None, node)
        except TooBig:
            res = []
        if len(res) != 1 or res[0][0].exc is not None or res[0][1] is UNDEF:
            del self.events[mark:]
            return [(st, v)]
        s, r = res[0]
        s.ov = dict(s.ov)
        s.ov[key] = r
        return [(s, r)]

    def bound_nowhere(self, name):
        """Whether neither the module nor an enclosing function of the running one binds this name."""
        fn = self.fnstack[-1] if self.fnstack else None
        if fn is None or isinstance(fn.node, ast.Lambda):
            return False
        if "<locals>" in fn.qual:  # any binding in the file may be one of an enclosing function
            for n in ast.walk(fn.module.tree):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and n.id == name or isinstance(n, ast.arg) and n.arg == name or isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name or isinstance(n, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and n.name == name or isinstance(n, ast.alias) and name in (n.asname, n.name.split(".")[0]):
                    return False
        if not hasattr(fn.module, "all_bound"):
            s = set()

            def go(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        s.add(c.name)
                        continue
                    if isinstance(c, ast.Name) and not isinstance(c.ctx, ast.Load):
                        s.add(c.id)
                    elif isinstance(c, ast.alias):
                        s.add("*" if c.name == "*" else (c.asname or c.name).split(".")[0])
                    elif isinstance(c, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and c.name:
                        s.add(c.name)
                    go(c)

            go(fn.module.tree)
            for n in ast.walk(fn.module.tree):
                if isinstance(n, ast.Global):
                    s.update(n.names)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec"):
                    s.add("*")
            fn.module.all_bound = s
        return name not in fn.module.all_bound and "*" not in fn.module.all_bound

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.eval(e.value, st):
            if s.exc is None:
                self.setname(s, e.target.id, v)
            out.append((s, v))
        return out

    def e_Attribute(self, e, st):
        out = []
        for s, b in self.eval(e.value, st):
            if s.exc is not None:
                out.append((s, UNDEF))
            else:
                out.extend(self.getattr(s, b, e.attr, e))
        return out

    def e_Tuple(self, e, st):
        return [(s, self.seq(s, "tuple", e.elts, v)) for s, v in self.evals([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st)]

    def seq(self, st, kind, elts, vals):
        segs = []
        for x, v in zip(elts, vals):
            if isinstance(x, ast.Starred):
                it = self.known_items(st, v)
                if it is not None:
                    segs.extend(("item", y) for y in it)
                elif v.op == "ref" and st.heap[v.args[0]].kind in ("list", "set"):
                    segs.extend(st.heap[v.args[0]].segs)
                else:
                    segs.append(("ext", self.val(st, v)))
            else:
                segs.append(("item", v))
        if kind == "tuple":
            if all(s[0] == "item" for s in segs):
                return T("tuple", *[s[1] for s in segs])
            return self.new(st, HObj("list", segs=tuple(segs)))
        return self.new(st, HObj(kind, segs=tuple(segs)))

    def e_List(self, e, st):
        return [(s, self.seq(s, "list", e.elts, v)) for s, v in self.evals([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st)]

    def e_Set(self, e, st):
        return [(s, self.seq(s, "set", e.elts, v)) for s, v in self.evals([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st)]

    def e_Dict(self, e, st):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        out = []
        for s, vals in self.evals(exprs, st):
            ent = []
            closed = True
            j = 0
            for k, _v in zip(e.keys, e.values):
                if k is None:
                    src = vals[j]
                    j += 1
                    if src.op == "selfdict" and src.args[0].op == "ref":
                        src = self.ext.field_dict(self, s, src.args[0])
                    if src.op == "ref" and s.heap[src.args[0]].kind == "dict":
                        for kk, vv in s.heap[src.args[0]].segs:
                            ent = [(a, b) for a, b in ent if a is not kk] + [(kk, vv)]
                        closed = closed and s.heap[src.args[0]].closed
                    else:
                        closed = False
                        ent.append((T("star", self.val(s, src)), T("elem", self.val(s, src), 0)))
                else:
                    kk = self.val(s, vals[j])
                    ent = [(a, b) for a, b in ent if a is not kk] + [(kk, vals[j + 1])]
                    j += 2
            out.append((s, self.new(s, HObj("dict", segs=tuple(ent), closed=closed))))
        return out

    def e_JoinedStr(self, e, st):
        parts = []
        exprs = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                exprs.append(v.value)
        out = []
        for s, vals in self.evals(exprs, st):
            j = 0
            parts = []
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    parts.append(self.val(s, vals[j]))
                    j += 1
                else:
                    parts.append(K(v.value))
            if self.model is not None and hasattr(self.model, "string"):
                parts = [self.model.string(p) or p for p in parts]
            text = self.formatted(e, parts) if all(is_const(p) for p in parts) else None
            if text is not None:
                out.append((s, K(text)))
            else:
                out.append((s, self.ext.concat_parts(parts)))
        return out

    @staticmethod
    def formatted(e, parts):
        """The text of an f-string whose values are all known, or None."""
        text = ""
        for v, p in zip(e.values, parts):
            x = cval(p)
            if isinstance(v, ast.FormattedValue):
                spec = ""
                if v.format_spec is not None:
                    if not all(isinstance(q, ast.Constant) for q in v.format_spec.values):
                        return None
                    spec = "".join(str(q.value) for q in v.format_spec.values)
                if v.conversion != -1:
                    x = {"r": repr, "s": str, "a": ascii}[chr(v.conversion)](x)
                try:
                    x = format(x, spec)
                except (ValueError, TypeError):
                    return None
            text += str(x)
        return text

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_UnaryOp(self, e, st):
        out = []
        for s, v in self.eval(e.operand, st):
            if s.exc is not None:
                out.append((s, UNDEF))
                continue
            if isinstance(e.op, ast.Not):
                out.append((s, neg(self.cond(s, v))))
                continue
            v = self.val(s, v)
            if v.op == "nda":
                out.append((s, nda.elementwise(lambda x, o=e.op: pmul(K(-1), nda.num(x)) if isinstance(o, ast.USub) else x if isinstance(o, ast.UAdd) else neg(x), v)))
            elif isinstance(e.op, ast.USub):
                out.append((s, pmul(K(-1), v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, neg(v) if v.op in ("eq", "lt", "not", "any", "all") else T("invert", v)))
        return out

    def is_dict(self, st, v):
        return v.op == "ref" and st.heap[v.args[0]].kind == "dict"

    def e_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.evals2(e.left, e.right, st):
            if s.exc is not None:
                out.append((s, UNDEF))
                continue
            # list concatenation / repetition
            if isinstance(e.op, ast.Add):
                r = self.list_concat(s, a, b)
                if r is not None:
                    out.append((s, r))
                    continue
            if isinstance(e.op, ast.Mult):
                r = self.list_repeat(s, a, b) or self.list_repeat(s, b, a)
                if r is not None:
                    out.append((s, r))
                    continue
            if isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
                r = self.set_op(s, {"Sub": "difference", "BitOr": "union", "BitAnd": "intersection", "BitXor": "symmetric_difference"}[type(e.op).__name__], a, b)
                if r is not None:
                    out.append((s, r))
                    continue
            if isinstance(e.op, ast.BitOr):
                a, b = (self.ext.field_dict(self, s, x.args[0]) if x.op == "selfdict" and x.args[0].op == "ref" else x for x in (a, b))
            if isinstance(e.op, ast.BitOr) and self.is_dict(s, a) and self.is_dict(s, b):
                r = self.new(s, s.heap[a.args[0]].but())
                self.ext.call_method(self, s, r, "update", [b], {}, e)
                out.append((s, r))
                continue
            if isinstance(e.op, ast.Mod) and is_const(a) and isinstance(cval(a), str):
                out.append((s, T("fstr", a, self.val(s, b))))
                continue
            if self.exact and nda.mismatch(type(e.op).__name__, self.val(s, a), self.val(s, b)):
                out.append((s, nda.refuse(self, s, "operands of different shape")))
                continue
            r = self.binop(s, e.op, self.val(s, a), self.val(s, b), e)
            out.append((s, nda.typed(self, s, r, a, b) if self.explicit else r))
        return out

    def list_concat(self, st, a, b):
        if a.op == "tuple" and b.op == "tuple":
            return T("tuple", *a.args, *b.args)
        la = a.op == "ref" and st.heap[a.args[0]].kind == "list"
        lb = b.op == "ref" and st.heap[b.args[0]].kind == "list"
        if not (la or lb):
            return None
        segs = []
        for x, isl in ((a, la), (b, lb)):
            if isl:
                segs.extend(st.heap[x.args[0]].segs)
            elif x.op == "list":
                segs.extend(("item", y) for y in x.args)
            else:
                segs.append(("ext", self.val(st, x)))
        return self.new(st, HObj("list", segs=tuple(segs)))

    def const_set(self, st, v, anyseq=False):
        """The constants of a set whose elements are all known, or None."""
        isset = v.op in ("set", "fset") or (v.op == "ref" and st.heap[v.args[0]].kind == "set")
        if not isset and not anyseq:
            return None
        items = self.known_items(st, v)
        if items is None:
            return None
        items = [self.val(st, i) for i in items]
        if not all(ground(i) for i in items):
            return None
        return dict.fromkeys(items)

    def set_op(self, st, name, a, b):
        x = self.const_set(st, a)
        if x is None:
            return None
        y = self.const_set(st, b, True)
        if y is None:
            return None
        if name == "difference":
            r = [i for i in x if i not in y]
        elif name == "union":
            r = [*x, *(i for i in y if i not in x)]
        elif name == "intersection":
            r = [i for i in x if i in y]
        else:
            r = [i for i in x if i not in y] + [i for i in y if i not in x]
        if a.op == "fset":
            return fset(r)
        return self.new(st, HObj("set", segs=tuple(("item", i) for i in r)))

    def list_repeat(self, st, a, n):
        if a.op == "ref" and st.heap[a.args[0]].kind == "list":
            items = self.known_items(st, a)
            nv = self.val(st, n)
            if items is not None and is_const(nv) and isinstance(cval(nv), int) and len(items) * cval(nv) <= 300:
                return self.new(st, HObj("list", segs=tuple(("item", x) for x in items * cval(nv))))
            if items is not None and len(items) == 1:
                h = T("range", K(0), nv, K(1))
                return self.new(st, HObj("list", segs=(("rep", h, (((), (("item", items[0]),)),)),)))
            return self.new(st, HObj("list", segs=(("ext", T("repeat", self.val(st, a), nv)),)))
        if a.op == "tolist":
            return T("repeat", a.args[0], self.val(st, n))
        return None

    def binop(self, st, op, a, b, node):
        if self.model is not None and hasattr(self.model, "binop"):
            r = self.model.binop(self, st, type(op).__name__, a, b)
            if r is not None:
                return r
        if self.exact and is_const(a) and is_const(b) and (isinstance(cval(a), str) or isinstance(cval(b), str)):
            name, x, y = type(op).__name__, cval(a), cval(b)
            if not (name == "Mod" and isinstance(x, str) or name == "Add" and isinstance(y, str) and isinstance(x, str) or name == "Mult" and (isinstance(x, int) or isinstance(y, int))):
                st.exc = T("exc", "TypeError")
        return self.ext.binop(type(op).__name__, a, b)

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        return self._boolop(e.values, st, is_and)

    def _boolop(self, values, st, is_and):
        out = []
        for s, v in self.eval(values[0], st):
            if s.exc is not None or len(values) == 1:
                out.append((s, v))
                continue
            c = self.cond(s, v)
            k = self.truth(s, c)
            if k is not None:
                if k is is_and:
                    out.extend(self._boolop(values[1:], s, is_and))
                else:
                    out.append((s, v))
                continue
            # evaluate the rest under the assumption, then combine without forking
            s2 = s.fork()
            if not self.assume(s2, c, is_and):
                out.append((s, v))
                continue
            tr0 = s2.trace
            rest = self._boolop(values[1:], s2, is_and)
            if len(rest) == 1 and rest[0][0].exc is None:
                x, w = rest[0]
                wv = self.cond(x, w)
                if boolish(c) or boolish(wv):
                    x.pc = s.pc
                    out.append((x, conj(c, wv) if is_and else disj(c, wv)))
                    continue
            # value-returning and/or, or a forking right-hand side: fork
            s3 = s
            if self.assume(s3, c, not is_and):
                out.append((s3, v if not boolish(c) else K(not is_and)))
            out.extend(rest)
        return out

    def e_Compare(self, e, st):
        out = []
        for s, vals in self.evals([e.left, *e.comparators], st):
            if s.exc is not None:
                out.append((s, UNDEF))
                continue
            cs = []
            for op, a, b in zip(e.ops, vals, vals[1:]):
                cs.append(self.compare(s, type(op).__name__, a, b))
            r = cs[0]
            for c in cs[1:]:
                r = conj(r, c)
            out.append((s, r))
        return out

    def compare(self, st, op, a, b):
        if op in ("In", "NotIn"):
            r = self.contains(st, a, b)
            return neg(r) if op == "NotIn" else r
        if op in ("Is", "IsNot"):
            if a.op == "ref" and b.op == "ref":
                r = K(a is b) if st.heap[a.args[0]].kind != "arr" else T("is", a, b)
            elif b is NONE or a is NONE:
                x = b if a is NONE else a
                x2 = x if x.op != "ref" else x
                if self.nonnone(x2):
                    r = K(False)
                elif x is NONE:
                    r = K(True)
                else:
                    r = T("is", x, NONE)
            elif a is b:
                r = TRUE
            elif a.op == "enum" and b.op == "enum":
                r = K(a is b)
            elif b.op == "enum" or a.op == "enum":
                r = eqt(a, b)
            else:
                a, b = self.val(st, a), self.val(st, b)
                r = K(a is b) if is_const(a) and is_const(b) and (a in (TRUE, FALSE) or b in (TRUE, FALSE)) else T("is", a, b)
            return neg(r) if op == "IsNot" else r
        if self.exact:
            x, y = self.const_set(st, a), self.const_set(st, b)
            if x is not None and y is not None:
                x, y = set(x), set(y)
                return K({"Eq": x == y, "NotEq": x != y, "Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
        a, b = self.val(st, a), self.val(st, b)
        if hasattr(self.model, "compare"):
            r = self.model.compare(self, st, op, a, b)
            if r is not None:
                return r
        if a.op == "nda" or b.op == "nda":
            r = nda.compare(op, nda.to_nda(self, st, a) or a, nda.to_nda(self, st, b) or b)
            if r is not None:
                return r
        if op == "Eq":
            return eqt(a, b)
        if op == "NotEq":
            return neg(eqt(a, b))
        if op == "Lt":
            return ltt(a, b)
        if op == "Gt":
            return ltt(b, a)
        if op == "LtE":
            return neg(ltt(b, a))
        return neg(ltt(a, b))

    def contains(self, st, a, b):
        if b.op == "ref" and st.heap[b.args[0]].kind == "dict" and st.heap[b.args[0]].closed:
            items = [k for k, _ in st.heap[b.args[0]].segs]
        else:
            items = self.known_items(st, b)
        av = self.val(st, a)
        if items is not None and (len(items) <= 64 and is_const(av) or len(items) <= 8 or self.explicit and ground(av)):
            if is_const(b) and not (is_const(av) or True):
                pass
            rs = [eqt(av, self.val(st, x)) for x in items]
            if is_const(b) and isinstance(cval(b), str):
                if is_const(av):
                    return K(cval(av) in cval(b))
                return T("in", av, b)
            r = FALSE
            for x in rs:
                r = disj(r, x)
            return r
        return T("in", av, self.val(st, b))

    def e_IfExp(self, e, st):
        out = []
        for s, b in self.eval_cond(e.test, st):
            if s.exc is not None:
                out.append((s, UNDEF))
            else:
                out.extend(self.eval(e.body if b else e.orelse, s))
        return out

    def e_Subscript(self, e, st):
        out = []
        for s, (b, i) in self.evals2(e.value, e.slice, st):
            if s.exc is not None:
                out.append((s, UNDEF))
            else:
                out.append((s, self.subscript(s, b, i, e)))
        return out

    def e_Slice(self, e, st):
        xs = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        return [(s, T("slice", *[self.val(s, x) for x in v])) for s, v in self.evals(xs, st)]

    def subscript(self, st, b, i, node):
        if b.op == "selfdict" and b.args[0].op == "ref":
            b = self.ext.field_dict(self, st, b.args[0])
        if b.op == "ref":
            o = st.heap[b.args[0]]
            if o.kind == "list":
                iv = self.val(st, i)
                items = self.known_items(st, b)
                if items is not None:
                    if is_const(iv) and isinstance(cval(iv), int):
                        if -len(items) <= cval(iv) < len(items):
                            return items[cval(iv)]
                        self.emit(st, "index_error", node, base=b, index=iv)
                        if self.exact:
                            st.exc = T("exc", "IndexError")
                        return self.fresh("index_error")
                    if iv.op == "slice" and all(is_const(a) for a in iv.args):
                        sl = slice(*(cval(a) for a in iv.args))
                        return self.new(st, HObj("list", segs=tuple(("item", x) for x in items[sl])))
                    if items and iv.op != "slice" and any(x.op in ("ref", "tuple", "func", "enum") for x in items):
                        return self.join_tuples(items)
                if iv.op == "slice":
                    return self.new(st, HObj("list", segs=(("ext", T("index", self.val(st, b), iv)),)))
                if any(sg[0] == "rep" for sg in o.segs) or o.segs:
                    vals = []
                    for sg in o.segs:
                        vals.extend(self.seg_elems(sg))
                    if vals and any(v.op in ("ref", "func", "class", "bound") for v in vals):
                        return self.join_tuples(vals)
                    r = self.index_rep(st, o, iv)
                    if r is not None:
                        return r
                return self.index(st, self.val(st, b), iv)
            if o.kind == "dict":
                iv = self.val(st, i)
                for k, v in o.segs:
                    if k is iv or samekey(k, iv):
                        return v
                if any(samekey(k, iv) is None for k, _ in o.segs):
                    return T("index", self.val(st, b), iv)
                if o.fn is not None and o.closed and not is_const(iv) and not (self.exact and ground(iv)):  # an entry may be created under an unknown key
                    o = o.but(closed=False)
                    st.heap[b.args[0]] = o
                if o.segs and not is_const(iv) and not (self.exact and o.closed and ground(iv) and all(ground(k) for k, _ in o.segs)) or (o.segs and not o.closed and not all(is_const(k) for k, _ in o.segs)):
                    return join([v for _k, v in o.segs])
                if (is_const(iv) or self.exact and ground(iv)) and o.closed and all(is_const(k) or self.exact and ground(k) for k, _ in o.segs):
                    if o.fn is not None and o.fn.op == "ext":  # defaultdict
                        if o.fn.args[0] == "collections.Counter":  # reading a missing entry does not create it
                            return K(0)
                        d = {"builtins.list": "list", "builtins.set": "set", "builtins.dict": "dict"}.get(o.fn.args[0])
                        d = self.new(st, HObj(d)) if d else K(0) if o.fn.args[0] == "builtins.int" else None
                        if d is not None:
                            st.heap[b.args[0]] = o.but(segs=(*o.segs, (iv, d)))
                            return d
                    self.emit(st, "key_error", node, base=b, index=iv)
                if self.exact and o.closed and o.fn is None and ground(iv) and all(ground(k) for k, _ in o.segs):
                    st.exc = T("exc", "KeyError")
                return T("index", self.val(st, b), iv)
            if o.kind == "arr":
                iv = self.val(st, i)
                full = lambda x: x.op == "slice" and all(a is NONE for a in x.args)
                if full(iv) or (iv.op == "tuple" and iv.args and all(full(x) for x in iv.args)):
                    return b  # a view of all of it
                return self.index(st, self.val(st, b), iv)
            if o.kind == "obj":
                m = self.prog.find_method(o.cls, "__getitem__")
                if m is not None:
                    r = self.call_func(st, self.func_term(m), [b, i], {}, node)
                    return r[0][1]
        if b.op == "join" and any(a.op == "ref" for a in b.args):
            return join([self.subscript(st, a, i, node) for a in b.args])
        return self.index(st, self.val(st, b), self.val(st, i))

    def index_rep(self, st, o, iv):
        """xs[i] for xs = [f(elem) for elem in S] is f(S[i])."""
        if len(o.segs) == 1 and o.segs[0][0] == "rep":
            h, alts = o.segs[0][1], o.segs[0][2]
            if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == "item" and iv.op != "slice":
                v = self.val(st, alts[0][1][0][1])
                lv = None
                for x in subterms(v):
                    if x.op == "idx" and x.args[:3] == h.args[:3] and h.op == "range":
                        return subst(v, {x: padd(h.args[0], iv) if h.args[0] is not K(0) else iv}) if h.args[2] is K(1) else None
                    if x.op == "elem" and x.args[0] is h:
                        lv = x
                if lv is not None:
                    return subst(v, {lv: self.index(st, h, iv)})
        return None

    def index(self, st, b, i):
        if self.model is not None:
            r = self.model.index(self, st, b, i)
            if r is not None:
                return r
        if b.op == "nda":
            r = nda.index(b, i)
            if r is None and is_const(i) and isinstance(cval(i), int):
                self.emit(st, "index_error", None, base=b, index=i)
            if r is None and self.exact and nda.outside(b, i):
                st.exc = T("exc", "IndexError")
            return r if r is not None else T("index", b, i)
        if b.op == "nparr":
            r = self.index(st, b.args[0], i)
            return r if r.op != "index" or r.args[0] is not b.args[0] else T("index", b, i)
        if b.op == "join":
            return join([self.index(st, a, i) for a in b.args])
        if b.op in ("tuple", "list") and all(a.op not in ("comp", "star", "mixed") for a in b.args):
            if is_const(i) and isinstance(cval(i), int) and -len(b.args) <= cval(i) < len(b.args):
                return b.args[cval(i)]
            if self.exact and b.op == "tuple" and is_const(i) and isinstance(cval(i), int):
                st.exc = T("exc", "IndexError")
            if i.op == "slice" and all(is_const(a) for a in i.args):
                return T(b.op, *b.args[slice(*(cval(a) for a in i.args))])
        if b.op == "dict":
            for kv in b.args:
                if kv.args[0] is i:
                    return kv.args[1]
        if b.op == "shape" and i is K(0):
            return self.len_term(b.args[0])
        if b.op == "shape" and b.args[0].op == "zeros" and b.args[0].args[0].op == "tuple" and is_const(i):
            sh = b.args[0].args[0].args
            if isinstance(cval(i), int) and -len(sh) <= cval(i) < len(sh):
                return sh[cval(i)]
        if is_const(b) and isinstance(cval(b), str):
            try:
                if is_const(i) and isinstance(cval(i), int):
                    return K(cval(b)[cval(i)])
                if i.op == "slice" and all(is_const(a) for a in i.args):
                    return K(cval(b)[slice(*(cval(a) for a in i.args))])
            except IndexError:
                pass
        if b.op == "upd":
            if b.args[1] is i:
                return b.args[2]
            if is_const(b.args[1]) and is_const(i) and type(cval(i)) is type(cval(b.args[1])) is int and (cval(i) >= 0) == (cval(b.args[1]) >= 0):
                return self.index(st, b.args[0], i)
        if i.op == "slice" and all(a is NONE for a in i.args):
            return T("view", b) if b.op != "view" else b
        if i.op == "idx" and i.args[0] is K(0) and i.args[2] is K(1):
            hi = i.args[1]
            if hi is self.len_term(b):
                return T("elem", b, i.args[3])
        return T("index", b, i)

    def e_Lambda(self, e, st):
        fi = FuncInfo(e, self.fnstack[-1].module, parent=self.fnstack[-1])
        return [(st, self.func_term(fi, st.frame))]

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        out = []
        for s, v in self.eval(e.value, st) if e.value is not None else [(st, NONE)]:
            if s.exc is None:
                fr = s.frame
                while fr is not None and "$yield" not in s.heap[fr].fields:
                    fr = s.heap[fr].parent
                if fr is not None:
                    self.list_append(s, s.heap[fr].fields["$yield"], v)
            out.append((s, NONE))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for s, v in self.eval(e.value, st):
            if s.exc is None:
                fr = s.frame
                if "$yield" in s.heap[fr].fields:
                    self.list_extend(s, s.heap[fr].fields["$yield"], v, e)
            out.append((s, NONE))
        return out

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    # comprehensions -> loops appending to a fresh list
    def comp(self, e, st, kind):
        acc = self.new(st, HObj("dict" if kind == "dict" else kind, segs=()))
        self.uid += 1
        fid = self.uid
        outer = st.frame
        st.heap[fid] = HObj("frame", cls="comp-own", fields={}, parent=outer, fn=None)
        st.frame = fid
        elts = (e.key, e.value) if kind == "dict" else (e.elt,)
        body = [_Append(acc, elts, kind)]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), e)]
            body = [ast.copy_location(ast.For(target=g.target, iter=g.iter, body=body, orelse=[]), e)]
        outs = self.block(body, st)
        res = []
        for o in outs:
            o.st.frame = outer
            if o.kind == "raise":
                res.append((o.st, UNDEF))
            else:
                res.append((o.st, acc))
        if len(res) > 8:
            ok = [s for s, v in res if s.exc is None]
            bad = [(s, v) for s, v in res if s.exc is not None]
            res = bad[:4] + ([(self.merge(ok), acc)] if ok else [])
        return res

    def first_of(self, e, default, st):
        """next(generator expression[, default])."""
        self.uid += 1
        fid, outer = self.uid, st.frame
        st.heap[fid] = HObj("frame", cls="comp-own", fields={}, parent=outer, fn=None)
        st.frame = fid
        body = [ast.copy_location(ast.Return(value=e.elt), e)]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), e)]
            body = [ast.copy_location(ast.For(target=g.target, iter=g.iter, body=body, orelse=[]), e)]
        res = []
        for o in self.block(body, st):
            o.st.frame = outer
            if o.kind == "return":
                res.append((o.st, o.val))
            elif o.kind == "raise":
                res.append((o.st, UNDEF))
            elif default is not None:
                res.extend(self.eval(default, o.st))
            else:
                o.st.exc = T("exc", "StopIteration")
                res.append((o.st, UNDEF))
        return res

    def s__Append(self, s, st):
        out = []
        for s2, vs in self.evals(list(s.elts), st):
            if s2.exc is not None:
                out.append(Out("raise", s2, s2.exc))
                continue
            if s.kind == "dict":
                o = self.obj(s2, s.acc)
                k = self.val(s2, vs[0])
                ent = [(a, b) for a, b in o.segs if a is not k] + [(k, vs[1])]
                self.setobj(s2, s.acc, o.but(segs=tuple(ent)))
            else:
                self.list_append(s2, s.acc, vs[0])
            out.append(Out("next", s2))
        return out

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    # ---------------------------------------------------------- lists
    def list_append(self, st, ref, v):
        o = st.heap[ref.args[0]]
        if o.kind == "set":
            # set insertion of an element already known to be in
            if any(s[0] == "item" and s[1] is v for s in o.segs):
                return
        st.heap[ref.args[0]] = o.but(segs=(*o.segs, ("item", v)))

    def list_extend(self, st, ref, v, node):
        o = st.heap[ref.args[0]]
        items = self.known_items(st, v)
        if items is not None:
            if o.kind == "set":  # no element twice
                items = [x for x in dict.fromkeys(items) if not any(g[0] == "item" and g[1] is x for g in o.segs)]
            segs = tuple(("item", x) for x in items)
        elif v.op == "ref" and st.heap[v.args[0]].kind in ("list", "set"):
            segs = st.heap[v.args[0]].segs
        else:
            segs = (("ext", self.val(st, v)),)
        st.heap[ref.args[0]] = o.but(segs=(*o.segs, *segs))

    # ---------------------------------------------------------- calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fn = self.fnstack[-1]
            f = fn
            while f.cls is None and f.parent is not None:
                f = f.parent
            if f.cls is not None:
                p = f.params[0] if f.params else None
                v = self.lookup(st, p, e) if p else NONE
                return [(st, T("super", f.cls.qual, v))]
        if self.explicit and isinstance(e.func, ast.Name) and e.func.id == "next" and 1 <= len(e.args) <= 2 and not e.keywords:
            a0 = e.args[0]
            if isinstance(a0, ast.Call) and isinstance(a0.func, ast.Name) and a0.func.id == "iter" and len(a0.args) == 1:
                a0 = ast.copy_location(ast.GeneratorExp(elt=ast.Name("$x", ast.Load()), generators=[ast.comprehension(target=ast.Name("$x", ast.Store()), iter=a0.args[0], ifs=[], is_async=0)]), e)
                ast.fix_missing_locations(a0)
            if isinstance(a0, ast.GeneratorExp) and self.lookup(st, "next", e).op == "ext":
                return self.first_of(a0, e.args[1] if len(e.args) == 2 else None, st)
        exprs = [e.func]
        for a in e.args:
            exprs.append(a.value if isinstance(a, ast.Starred) else a)
        for k in e.keywords:
            exprs.append(k.value)
        out = []
        for s, vals in self.evals(exprs, st):
            if s.exc is not None:
                out.append((s, UNDEF))
                continue
            f = vals[0]
            args = []
            for a, v in zip(e.args, vals[1:]):
                if isinstance(a, ast.Starred):
                    it = self.known_items(s, v)
                    if it is not None:
                        args.extend(it)
                    else:
                        args.append(T("star", self.val(s, v)))
                else:
                    args.append(v)
            kw = {}
            for k, v in zip(e.keywords, vals[1 + len(e.args) :]):
                if k.arg is None:
                    if v.op == "selfdict" and v.args[0].op == "ref":
                        v = self.ext.field_dict(self, s, v.args[0])
                    if v.op == "ref" and s.heap[v.args[0]].kind == "dict" and all(is_const(x) for x, _ in s.heap[v.args[0]].segs):
                        for x, y in s.heap[v.args[0]].segs:
                            kw[cval(x)] = y
                    else:
                        kw["**"] = v
                else:
                    kw[k.arg] = v
            out.extend(self.call(s, f, args, kw, e))
        return out

    def call(self, st, f, args, kw, node):
        op = f.op
        if op == "func":
            return self.call_func(st, f, args, kw, node)
        if op == "bound":
            return self.call(st, f.args[1], [f.args[0], *args], kw, node)
        if op == "class":
            return self.instantiate(st, f, args, kw, node)
        if op == "ext":
            return self.ext.call_ext(self, st, f.args[0], args, kw, node)
        if op == "method":
            return self.ext.call_method(self, st, f.args[0], f.args[1], args, kw, node)
        if op in ("attr", "getattr"):
            return self.ext.call_method(self, st, f.args[0], f.args[1], args, kw, node)
        if op == "partial":
            bound = {a.args[0]: a.args[1] for a in f.args[1:] if a.op == "bindkw"}
            return self.call(st, f.args[0], [*(a for a in f.args[1:] if a.op != "bindkw"), *args], {**bound, **kw}, node)
        if op == "join" and all(a.op in ("func", "bound", "class", "ext") for a in f.args):
            out = []
            for a in f.args:
                s2 = st.fork()
                out.extend(self.call(s2, a, args, kw, node))
            return out
        if op == "ref" and st.heap[f.args[0]].kind == "obj":
            m = self.prog.find_method(st.heap[f.args[0]].cls, "__call__")
            if m is not None:
                return self.call_func(st, self.func_term(m), [f, *args], kw, node)
        vs = [self.val(st, a) for a in args]
        r = T("app", f, *vs, *[T("kw", k, self.val(st, v)) for k, v in sorted(kw.items())])
        self.emit(st, "call", node, path="<dynamic>", recv=f, args=vs, kw={k: self.val(st, v) for k, v in kw.items()}, result=r, raw=args)
        return [(st, r)]

    def bind_params(self, st, fi, args, kw, node):
        """Parameter environment; None when the call does not match."""
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        kw = dict(kw)
        if any(x.op == "star" for x in pos):
            i = next(j for j, x in enumerate(pos) if x.op == "star")
            src = pos[i].args[0]
            missing = len(names) - (len(pos) - 1)
            rest = pos[i + 1 :]
            pos = pos[:i] + [T("index", src, K(j)) for j in range(max(missing, 0))] + rest
        for n, v in zip(names, pos):
            env[n] = v
        extra = pos[len(names) :]
        if a.vararg:
            env[a.vararg.arg] = T("tuple", *extra)
        for p in names + [k.arg for k in a.kwonlyargs]:
            if p in kw:
                env[p] = kw.pop(p)
        star = kw.pop("**", None)
        if a.kwarg:
            env[a.kwarg.arg] = self.new(st, HObj("dict", segs=tuple((K(k), v) for k, v in kw.items()), closed=star is None))
        defaults = dict(zip(names[len(names) - len(a.defaults) :], a.defaults))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[k.arg] = d
        for p in names + [k.arg for k in a.kwonlyargs]:
            if p not in env:
                if p in defaults:
                    env[p] = self.default_value(st, fi, defaults[p])
                elif star is not None:
                    env[p] = T("index", self.val(st, star), K(p))
                else:
                    env[p] = self.fresh("missing:" + p)
        return env

    def default_value(self, st, fi, e):
        try:
            v = ast.literal_eval(e)
            if isinstance(v, (list, dict, set)):
                return self.pyconst(v)
            return self.pyconst(v)
        except (ValueError, TypeError, SyntaxError):
            self.fnstack.append(fi)
            try:
                r = self.eval(e, st.fork())
                return self.val(r[0][0], r[0][1])
            finally:
                self.fnstack.pop()

    def call_func(self, st, f, args, kw, node):
        fi, cframe = self.funcs[f.args[0]]
        prim = self.prims.get(fi.qual)
        if prim is not None:
            r = prim(self, st, args, kw, node)
            if r is not None:
                return r
        depth = sum(1 for x in st.stack if x == fi.qual)
        if not self.inline(fi) or len(st.stack) >= self.max_depth or depth >= (6 if self.explicit else 1) or fi.is_abstract:
            vs = [self.val(st, a) for a in args]
            r = T("call", fi.qual, *vs, *[T("kw", k, self.val(st, v)) for k, v in sorted(kw.items())])
            self.emit(st, "call", node, path=fi.qual, recv=None, args=vs, kw={k: self.val(st, v) for k, v in kw.items()}, result=r, raw=args)
            return [(st, r)]
        self.emit(st, "enter", node, fn_name=fi.qual, args=list(args))
        env = self.bind_params(st, fi, args, kw, node)
        return self.run_func(st, fi, env, cframe, node)

    def run_func(self, st, fi, env, cframe=None, node=None):
        """Inline `fi` with parameter environment `env`: [(state, value)]."""
        self.functions_seen.add(fi.qual)
        self.uid += 1
        fid = self.uid
        outer, ostack = st.frame, st.stack
        gen = None
        fields = dict(env)
        for p in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
            v = env.get(p.arg)
            if v is not None and p.annotation is not None and v.op in ("sym", "attr", "elem", "index") and self.types.get(v) is None:
                c = self.ann_class(fi.module, p.annotation)
                if c is not None and not self.is_enum(c):
                    self.types[v] = c
        st.heap[fid] = HObj("frame", fields=fields, parent=cframe, fn=fi)
        if fi.is_generator:
            gen = self.new(st, HObj("list"))
            st.heap[fid].fields["$yield"] = gen
        st.frame = fid
        st.stack = (*ostack, fi.qual)
        self.fnstack.append(fi)
        try:
            if isinstance(fi.node, ast.Lambda):
                outs = []
                for s, v in self.eval(fi.node.body, st):
                    outs.append(Out("raise", s, s.exc) if s.exc is not None else Out("return", s, v))
            else:
                outs = self.block(fi.node.body, st)
        finally:
            self.fnstack.pop()
        res = []
        for o in outs:
            s = o.st
            s.frame = outer
            s.stack = ostack
            if o.kind == "raise":
                res.append((s, UNDEF))
            elif o.kind == "return":
                res.append((s, gen if gen is not None else o.val))
            else:
                res.append((s, gen if gen is not None else NONE))
            if len(s.heap) > 60 and fid in s.heap and not self._captured(s, fid):
                del s.heap[fid]
        return self.compact(res)

    def _captured(self, s, fid):
        return any(o.parent == fid for o in s.heap.values() if o.kind == "frame") or any(
            isinstance(k, tuple) and len(k) > 1 and k[1] == fid for k in self.funcs
        )

    def compact(self, res):
        """Merge call results that agree on value and effects; bound their number."""
        if len(res) <= 1:
            return res
        groups = {}
        for s, v in res:
            groups.setdefault((v, s.exc), []).append(s)
        out = []
        for (v, exc), ss in groups.items():
            ss = self.dedupe(ss)
            lim = max(2, self.limit // 2)
            if len(ss) > lim:
                ss = self.dedupe(ss, loose=True)
            if len(ss) > lim:
                m = self.merge(ss)
                m.exc = exc
                ss = [m]
            out.extend((s, v) for s in ss)
        if len(out) > self.limit:
            ok = [(s, v) for s, v in out if s.exc is None]
            bad = [(s, v) for s, v in out if s.exc is not None]
            if ok:
                v = join([x for _s, x in ok])
                ok = [(self.merge([s for s, _v in ok]), v)]
            out = ok + bad[: self.limit]
        return out

    def instantiate(self, st, f, args, kw, node):
        c = self.class_by_qual(f.args[0])
        ext_bases = self.prog.base_names(c)
        if self.is_enum(c):
            v = self.val(st, args[0]) if args else NONE
            if is_const(v):
                for k in self.prog.mro(c):
                    for n, e in k.attrs.items():
                        try:
                            if ast.literal_eval(e) == cval(v):
                                return [(st, T("enum", k.qual, n, cval(v)))]
                        except (ValueError, TypeError, SyntaxError):
                            pass
            if v.op == "enum":
                return [(st, v)]
            return [(st, T("enumof", c.qual, v))]
        if any(b.endswith(("Error", "Exception", "Warning")) for b in ext_bases) or c.name.endswith(("Error", "Exception")):
            return [(st, T("exc", c.qual))]
        o = self.new(st, HObj("obj", cls=c, fields={}, closed=True))
        self.emit(st, "new", node, cls=c.qual, args=[self.val(st, a) for a in args], kw={k: self.val(st, v) for k, v in kw.items()}, ref=o)
        init = self.prog.find_method(c, "__init__")
        if init is None:
            names = []
            dflt = {}
            for k in reversed(self.prog.mro(c)):
                if k.is_dataclass:
                    for n in k.ann:
                        names.append(n)
                        if n in k.attrs:
                            dflt[n] = k.attrs[n]
            fl = {}
            for n, v in zip(names, args):
                fl[n] = v
            fl.update(kw)
            for n, e in dflt.items():
                if n not in fl and isinstance(e, ast.Call) and isinstance(e.func, ast.Name | ast.Attribute) and (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) == "field":
                    kws = {k.arg: k.value for k in e.keywords}
                    if "default_factory" in kws:
                        fac = self.default_value(st, FuncInfo(ast.parse("def f(): pass").body[0], c.module), kws["default_factory"])
                        r = self.call(st, fac, [], {}, node)
                        if len(r) != 1 or r[0][0] is not st:
                            raise TooBig("default factory")
                        fl[n] = r[0][1]
                    elif "default" in kws:
                        fl[n] = self.default_value(st, FuncInfo(ast.parse("def f(): pass").body[0], c.module), kws["default"])
                    continue
                if n not in fl:
                    fl[n] = self.default_value(st, FuncInfo(ast.parse("def f(): pass").body[0], c.module), e)
            self.setobj(st, o, self.obj(st, o).but(fields=fl))
            post = self.prog.find_method(c, "__post_init__")
            if post is not None:
                return [(s, o if s.exc is None else UNDEF) for s, _v in self.call_func(st, self.func_term(post), [o], {}, node)]
            return [(st, o)]
        if not self.inline(init) or len(st.stack) >= self.max_depth:
            vs = [self.val(st, a) for a in args]
            r = T("obj", c.qual, *vs, *[T("kw", k, self.val(st, v)) for k, v in sorted(kw.items())])
            self.types[r] = c
            return [(st, r)]
        return [(s, o if s.exc is None else UNDEF) for s, _v in self.call_func(st, self.func_term(init), [o, *args], kw, node)]

    # ---------------------------------------------------------- entry points
    def start(self, fi, selfv=None, args=None, state=None):
        """Analyse a function with symbolic parameters: [(state, value)]."""
        try:
            return self._start(fi, selfv, args, state)
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, ZeroDivisionError) as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            # a construct the interpreter does not model: the obligations on this function stay undecided
            raise TooBig(f"{type(e).__name__} in the interpreter: {e}") from e

    def _start(self, fi, selfv=None, args=None, state=None):
        st = state or State()
        env = {}
        a = fi.node.args
        ps = a.posonlyargs + a.args
        given = args or {}
        for i, p in enumerate(ps):
            if p.arg in given:
                env[p.arg] = given[p.arg]
                continue
            if i == 0 and fi.cls is not None and not fi.is_static:
                if selfv is not None:
                    env[p.arg] = selfv
                else:
                    v = T("class", fi.cls.qual) if fi.is_classmethod else Sym("self")
                    self.types.setdefault(v, fi.cls)
                    env[p.arg] = v
                continue
            v = Sym(p.arg)
            env[p.arg] = v
            c = self.ann_class(fi.module, p.annotation)
            if c is not None and not self.is_enum(c):
                self.types[v] = c
        for p in a.kwonlyargs:
            env[p.arg] = given.get(p.arg, Sym(p.arg))
        if a.vararg:
            env[a.vararg.arg] = given.get(a.vararg.arg, Sym(a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = given.get(a.kwarg.arg, Sym(a.kwarg.arg))
        return self.run_func(st, fi, env)


def ground(t):
    """Made of constants only."""
    return is_const(t) or (t.op in ("tuple", "qubit") and all(not isinstance(a, Term) or ground(a) for a in t.args))


class _Append(ast.stmt):
    _fields = ()

    def __init__(self, acc, elts, kind):
        self.acc = acc
        self.elts = elts
        self.kind = kind
        self.lineno = getattr(elts[0], "lineno", 0)


# ------------------------------------------------------------------ term helpers


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    return t


# term operators of library models that are never None
MODEL_VALUES = {"cliargs"}

BOOL_OPS = {"eq", "lt", "not", "and", "or", "is", "in", "isinstance", "any", "all", "nonempty", "array_equal", "strm"}


def boolish(t):
    return t.op in BOOL_OPS or (is_const(t) and isinstance(cval(t), bool))


def neg(t):
    if is_const(t):
        return K(not cval(t))
    if t.op == "not":
        return t.args[0]
    return T("not", t)


def conj(a, b):
    if is_const(a):
        return b if cval(a) else a
    if is_const(b):
        return a if cval(b) else b
    xs = {}
    for t in (a, b):
        for x in t.args if t.op == "and" else (t,):
            xs[x.uid] = x
    if len(xs) == 1:
        return a
    return T("and", *sorted(xs.values(), key=lambda t: t.uid))


def disj(a, b):
    if is_const(a):
        return a if cval(a) else b
    if is_const(b):
        return b if cval(b) else a
    xs = {}
    for t in (a, b):
        for x in t.args if t.op == "or" else (t,):
            xs[x.uid] = x
    if len(xs) == 1:
        return a
    return T("or", *sorted(xs.values(), key=lambda t: t.uid))


def ground(t):
    """A constant, or a tuple of constants."""
    return is_const(t) or t.op == "enum" or t.op in ("tuple", "fset") and all(ground(x) for x in t.args)


def fset(items):
    """A frozen set of known elements."""
    return T("fset", *sorted(set(items), key=lambda t: t.uid))


def samekey(a, b):
    """Whether an enum member and a constant are one key; None: unknown."""
    if (a.op == "enum") == (b.op == "enum"):
        return False
    e, c = (a, b) if a.op == "enum" else (b, a)
    if not is_const(c):
        return False
    if len(e.args) < 3:
        return None
    return e.args[2] == cval(c) and isinstance(cval(c), (str, int))


def eqt(a, b):
    if is_const(a) and is_const(b):
        try:
            return K(bool(cval(a) == cval(b)))
        except Exception:  # noqa: BLE001
            return T("eq", a, b)
    if a is b and a.op not in ("fresh", "call", "join", "mix"):
        return TRUE
    if a.op == "enum" and b.op == "enum" or a.op == "fset" and b.op == "fset":
        return K(a is b)
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args) or any(x is not y and is_const(x) and is_const(y) and eqt(x, y) is FALSE for x, y in zip(a.args, b.args)):
            return FALSE
        if all(eqt(x, y) is TRUE for x, y in zip(a.args, b.args)):
            return TRUE
    if a.op == "ext" and b.op == "ext" and a is not b and {a.args[0], b.args[0]} <= {"z3.sat", "z3.unsat", "z3.unknown"}:
        return FALSE
    if a.op == "enum" and is_const(b) or b.op == "enum" and is_const(a):
        e, c = (a, b) if a.op == "enum" else (b, a)
        if len(e.args) > 2 and isinstance(cval(c), str):
            return K(e.args[2] == cval(c))
    if is_const(a) and not is_const(b):
        a, b = b, a
    elif not is_const(b) and a.uid > b.uid:
        a, b = b, a
    # x == True / x == False
    if is_const(b) and isinstance(cval(b), bool) and boolish(a):
        return a if cval(b) else neg(a)
    # linear forms: move constants to the right
    if is_const(b) and isinstance(cval(b), (int, float)) and not isinstance(cval(b), bool) and a.op == "poly":
        p = dict(a.args)
        c = p.pop((), None)
        if c is not None:
            return T("eq", terms.from_poly(p), K(cval(b) - c))
    return T("eq", a, b)


def ltt(a, b):
    if is_const(a) and is_const(b):
        try:
            return K(bool(cval(a) < cval(b)))
        except Exception:  # noqa: BLE001
            return T("lt", a, b)
    d = padd(b, a, -1)
    if is_const(d) and isinstance(cval(d), (int, float)):
        return K(cval(d) > 0)
    for x, y, s in ((a, b, 1), (b, a, -1)):
        if is_const(y) and isinstance(cval(y), (int, float)) and x.op == "poly":
            p = dict(x.args)
            c = p.pop((), None)
            if c is not None:
                nx = terms.from_poly(p)
                ny = K(cval(y) - c)
                return T("lt", nx, ny) if s == 1 else T("lt", ny, nx)
    return T("lt", a, b)


def upd_term(base, i, v):
    if base.op == "upd" and base.args[1] is i:
        base = base.args[0]
    return T("upd", base, i, v)


def strip_phi(v, phi):
    xs = [a for a in terms.alts(v) if a is not phi]
    if not xs:
        return None
    return join(xs)


def mentions_level(t, level):
    for x in subterms(t):
        if x.op == "elem" and x.args[1] == level:
            return True
        if x.op == "idx" and x.args[3] == level:
            return True
        if x.op == "phi" and x.args[0] == level:
            return True
    return False


def simplify_alts(alts):
    """Merge alternatives that only differ in irrelevant conditions."""
    out = []
    by = {}
    for c, s in alts:
        by.setdefault(s, []).append(c)
    for s, cs in by.items():
        if len(by) == 1:
            out.append(((), s))
            continue
        common = [x for x in cs[0] if all(x in d for d in cs)]
        out.append((tuple(common), s))
    out.sort(key=lambda a: repr(a))
    return out


def subst(t, m):
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if x.uid in memo:
            return memo[x.uid]
        if x.op in ("const", "sym", "ref", "func", "class", "ext"):
            r = x
        elif x.op == "poly":
            r = K(0)
            for mono, c in x.args:
                p = K(c)
                for a in mono:
                    p = pmul(p, go(a))
                r = padd(r, p)
        else:
            args = tuple(go(a) if isinstance(a, Term) else a for a in x.args)
            if args == x.args:
                r = x
            elif x.op == "eq":
                r = eqt(*args)
            elif x.op == "lt":
                r = ltt(*args)
            elif x.op == "not":
                r = neg(args[0])
            elif x.op == "mod":
                r = pmod(*args)
            elif x.op == "and":
                r = TRUE
                for a in args:
                    r = conj(r, a)
            elif x.op == "or":
                r = FALSE
                for a in args:
                    r = disj(r, a)
            else:
                r = T(x.op, *args)
        memo[x.uid] = r
        return r

    return go(t)
