"""Constant propagation over the C++ sources: clang's typed syntax tree, evaluated where all operands are known.

Values are integers (wrapped to their type), booleans, floats, strings, enumerators, containers, objects and pointers;
what the evaluator has no model for raises Undecided. Library types the project builds on are given by models."""
from __future__ import annotations

import concurrent.futures
import functools
import json
import os
import re
import subprocess

CLANG = next((c for c in ("/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(c)), "clang++")
HERE = os.path.dirname(os.path.abspath(__file__))
CORE = "/opt/deps/mqt_core-2.7.0/include/mqt-core"


class Undecided(Exception):
    pass


class Split(Undecided):
    """A branch on a bit that is not known: the caller tries both values."""

    def __init__(self, var):
        super().__init__(f"the value of {var}")
        self.var = var


class Bit:
    """A bit as a polynomial over GF(2) in named unknown bits: the set of its monomials."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = frozenset(t)

    @staticmethod
    def of(v):
        if isinstance(v, Bit):
            return v
        if isinstance(v, (bool, int)) and v in (0, 1):
            return Bit([frozenset()] if v else [])
        raise Undecided("a number as a bit")

    @staticmethod
    def var(name):
        return Bit([frozenset([name])])

    def norm(self):
        return False if not self.t else True if self.t == {frozenset()} else self

    def xor(self, o):
        return Bit(self.t ^ Bit.of(o).t).norm()

    def land(self, o):
        r = set()
        for a in self.t:
            for b in Bit.of(o).t:
                r ^= {a | b}
        return Bit(r).norm()

    def lor(self, o):
        return Bit.of(self.xor(o)).xor(self.land(o))

    def split(self):
        raise Split(min(min(self.t - {frozenset()}, key=sorted)))

    __bool__ = __index__ = __int__ = __hash__ = split

    def __eq__(self, o):
        return isinstance(o, Bit) and self.t == o.t

    def __repr__(self):
        return "+".join(sorted("*".join(sorted(m)) or "1" for m in self.t)) or "0"


def boolean(v):
    return v if isinstance(v, Bit) else truth(v)


class CppThrow(Exception):
    def __init__(self, kind, what=""):
        super().__init__(f"{kind}: {what}")
        self.kind, self.what = kind, what


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Enum:
    __slots__ = ("t", "n", "i")

    def __init__(self, t, n, i=None):
        self.t, self.n, self.i = t, n, i

    def __eq__(self, o):
        return isinstance(o, Enum) and self.n == o.n and (self.t.split("::")[-1] == o.t.split("::")[-1])

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"{self.t}::{self.n}"


class Obj:
    def __init__(self, cls, f=None, tu=None):
        self.cls, self.f, self.tu = cls, f or {}, tu

    def __repr__(self):
        return f"{self.cls}{{{', '.join(f'{k}={c.v!r}' for k, c in self.f.items())}}}"


class Vec:
    """vector, array, initializer_list, deque, queue, stack"""

    def __init__(self, cells, elem=None, lifo=False):
        self.c, self.elem, self.lifo = cells, elem, lifo

    def __repr__(self):
        return repr([c.v for c in self.c])


# the order in which unordered containers are traversed: insertion, ascending or descending
UNORDERED = "insertion"


def unordered(d):
    return list(d) if UNORDERED == "insertion" else sorted(d, reverse=UNORDERED == "descending")


class Map:
    def __init__(self, d=None, elem=None, greater=False, ordered=True, multi=False):
        self.d, self.elem, self.greater, self.ordered = d if d is not None else {}, elem, greater, ordered

    def keys(self):
        if not self.ordered and len(self.d) > 1:
            return unordered(self.d)
        return sorted(self.d, reverse=self.greater)


class Set:
    def __init__(self, d=None, elem=None, ordered=True):
        self.d, self.elem, self.ordered = d if d is not None else {}, elem, ordered

    def keys(self):
        return sorted(self.d) if self.ordered else unordered(self.d)


class Ptr:
    __slots__ = ("to",)

    def __init__(self, to):
        self.to = to


class Iter:
    """Position in a container."""

    def __init__(self, c, i, rev=False):
        self.c, self.i, self.rev = c, i, rev


class Lambda:
    def __init__(self, node, env, this, tu):
        self.node, self.env, self.this, self.tu = node, env, this, tu


FUNCTORS = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "modulus": "%", "bit_xor": "^", "bit_and": "&", "bit_or": "|", "equal_to": "==", "not_equal_to": "!=", "less": "<",
            "greater": ">", "less_equal": "<=", "greater_equal": ">=", "logical_and": "&&", "logical_or": "||", "negate": "-", "logical_not": "!", "bit_not": "~"}


class Functor:
    """A function object of <functional>."""

    def __init__(self, op, t):
        self.op, self.t = op, t

    def __call__(self, it, args):
        v = [rv(x) for x in args]
        if self.op in ("&&", "||"):
            x, y = boolean(v[0]), boolean(v[1])
            if isinstance(x, Bit) or isinstance(y, Bit):
                return Bit.of(x).land(y) if self.op == "&&" else Bit.of(x).lor(y)
            return (x and y) if self.op == "&&" else (x or y)
        if self.op == "!":
            return Bit.of(v[0]).xor(True) if isinstance(v[0], Bit) else not truth(v[0])
        if len(v) == 1:
            if self.op == "-" and isinstance(v[0], (int, float)):
                return wrap(-v[0], self.t)
            raise Undecided("a function object")
        if self.op in ("<", ">", "<=", ">=") and not all(isinstance(x, (int, float, str)) for x in v):
            x, y = (hk(x) for x in v)
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[self.op]
        return it.arith(self.op, *v, self.t)


class Fun:
    def __init__(self, decl, tu):
        self.decl, self.tu = decl, tu


class Ext:
    """Base of modelled library objects: method(interp, name, args)."""

    cls = "?"

    def method(self, it, name, args):
        raise Undecided(f"{self.cls}::{name}")

    def field(self, name):
        raise Undecided(f"{self.cls}.{name}")


def sync(msg):
    raise Undecided(msg)


# ---------------------------------------------------------------- syntax trees


def docs(s):
    d, i, out = json.JSONDecoder(), 0, []
    while True:
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            return out
        o, i = d.raw_decode(s, i)
        out.append(o)


class Parse(Exception):
    pass


def dump(repo, src, flt, extra=()):
    core = CORE
    cmd = [CLANG, "-x", "c++", "-std=c++17", "-fsyntax-only", "-w", "-DMQT_CORE_IR_STATIC_DEFINE", f"-I{repo}/include",
           f"-I{core}", f"-I{HERE}/cppstub", *extra, "-Xclang", "-ast-dump=json", "-Xclang", f"-ast-dump-filter={flt}", src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0 or not r.stdout.strip():
        raise Parse(f"{os.path.basename(src)} ({flt}): {r.stderr.strip()[:400]}")
    return docs(r.stdout)


class TU:
    def __init__(self, name, roots):
        self.name, self.roots = name, roots
        self.ids = {}


class Program:
    """jobs: [(source, [filters])]"""

    def __init__(self, repo, jobs, extra=()):
        self.repo = repo
        self.classes = {}  # qualified name -> record
        self.funcs = {}  # (class or namespace, name) -> [Fun] with bodies
        self.enums = {}
        self.aliases = {}
        self.globals = {}
        self.tus = []
        self.sources = list(dict.fromkeys(s for s, _ in jobs))
        self.extra = extra
        self.tried = set()
        self.loaded = set()
        tasks = [(src, f) for src, fs in jobs for f in fs]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda t: dump(repo, os.path.join(repo, t[0]), t[1], extra), tasks))
        for (src, f), roots in zip(tasks, res):
            tu = TU(f"{src}:{f}", roots)
            self.tus.append(tu)
            self.file = None
            for r in roots:
                self.enter(tu, r, "", None)
        for tu in self.tus:
            for r in tu.roots:
                self.attach(tu, r, "")

    def enter(self, tu, n, scope, parent):
        k = n.get("kind")
        if "id" in n:
            tu.ids[n["id"]] = (n, scope)
        name = n.get("name")
        if k == "NamespaceDecl":
            q = f"{scope}::{name}" if scope else name or ""
            for c in n.get("inner", []):
                self.enter(tu, c, q, n)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and name:
            q = f"{scope}::{name}" if scope else name
            if n.get("completeDefinition") and q not in self.classes:
                self.classes[q] = (n, tu)
            for c in n.get("inner", []):
                self.enter(tu, c, q, n)
            return
        if k == "EnumDecl":
            q = f"{scope}::{name}" if scope and name else name or scope
            v = -1
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    e = const_value(c)
                    v = v + 1 if e is None else e
                    tu.ids[c["id"]] = (c, q)
                    self.enums.setdefault(q, {})[c["name"]] = v
            return
        if k in ("TypeAliasDecl", "TypedefDecl") and name:
            t = n.get("type", {})
            self.aliases[f"{scope}::{name}" if scope else name] = t.get("desugaredQualType", t.get("qualType"))
        if k == "VarDecl" and name:
            self.globals[f"{scope}::{name}" if scope else name] = (n, tu)
        for c in n.get("inner", []):
            self.enter(tu, c, scope, n)

    def attach(self, tu, n, scope):
        k, name = n.get("kind"), n.get("name")
        if k == "NamespaceDecl":
            q = f"{scope}::{name}" if scope else name or ""
        elif k == "CXXRecordDecl" and name:
            q = f"{scope}::{name}" if scope else name
        else:
            q = scope
        if k in ("CXXMethodDecl", "CXXConstructorDecl", "FunctionDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            body = any(c.get("kind") == "CompoundStmt" for c in n.get("inner", []))
            owner = q
            pid = n.get("parentDeclContextId")
            if pid and pid in tu.ids:
                d, s = tu.ids[pid]
                if d.get("kind") in ("CXXRecordDecl", "NamespaceDecl"):
                    owner = f"{s}::{d.get('name')}" if s else d.get("name")
            elif k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") and q not in self.classes:
                owner = next((c for c in self.classes if self.mangled(c, n)), q)
            n["_owner"] = owner
            if body or n.get("explicitlyDefaulted"):
                lst = self.funcs.setdefault((owner, name), [])
                if body and not any(f.decl.get("mangledName") == n.get("mangledName") and n.get("mangledName") for f in lst):
                    lst.append(Fun(n, tu))
        for c in n.get("inner", []):
            if isinstance(c, dict):
                self.attach(tu, c, q)

    def load(self, name):
        """Definitions of a name that no job asked for: a helper, a type or a constant of the analysed files."""
        if name in self.tried or not re.fullmatch(r"[A-Za-z_]\w*", name or ""):
            return False
        self.tried.add(name)
        define = re.compile(rf"^[ \t]*(?:[\w:<>,&*\[\]]+[ \t&*]+)+(?:\w+::)*{name}\s*\([^;{{}}]*\)[^;(){{}}]*\{{|\b(?:struct|class|enum)\s+(?:class\s+)?{name}\b[^;(]*\{{|^[^(){{}};\n]*\b(?:constexpr|const|static|using)\b[^(){{}};\n]*\b{name}(?:\[[^\]]*\])*\s*[={{]", re.M)
        if not hasattr(self, "headers"):
            inc = os.path.join(self.repo, "include")
            self.headers = []
            for r, _, fs in os.walk(inc):
                for f in sorted(fs):
                    with open(os.path.join(r, f), encoding="utf-8", errors="replace") as fh:
                        self.headers.append(fh.read())
        found = False
        for src in self.sources:
            with open(os.path.join(self.repo, src), encoding="utf-8", errors="replace") as fh:
                text = fh.read()
            texts = [t for t in [text, *self.headers] if define.search(t)]
            if not texts or found and text not in texts:
                continue
            try:
                roots = dump(self.repo, os.path.join(self.repo, src), name, self.extra)
            except Parse:
                continue
            tu = TU(f"{src}:{name}", [r for r in roots if r.get("name") == name and any(t.encode()[o : o + len(name)] == name.encode() for o in [r.get("loc", {}).get("offset")] if o is not None for t in texts)])
            if not tu.roots:
                continue
            found = True
            self.tus.append(tu)
            for r in tu.roots:
                self.enter(tu, r, "", None)
                if r["name"] in self.classes:
                    self.loaded.add(r["name"])
            for r in tu.roots:
                self.attach(tu, r, "")
        if found:
            Program.bases.cache_clear()
        return found

    @staticmethod
    def mangled(cls, n):
        m = "".join(f"{len(p)}{p}" for p in cls.split("::"))
        return m in n.get("mangledName", "")

    @functools.lru_cache(maxsize=None)
    def bases(self, q):
        n, _ = self.classes.get(q, ({}, None))
        out = []
        for b in n.get("bases", []):
            t = b["type"].get("desugaredQualType", b["type"]["qualType"])
            out.append(self.resolve(t, q))
        return out

    def resolve(self, t, scope=""):
        t = strip(t)
        parts = scope.split("::")
        for i in range(len(parts), -1, -1):
            q = "::".join([*parts[:i], t]).lstrip(":")
            if q in self.classes:
                return q
        last = t.split("::")[-1]
        if t not in self.aliases and t not in self.enums:
            self.load(last)
        if last in self.loaded and (t in (last, f"(anonymous namespace)::{last}") or last not in self.aliases):
            return last
        return t

    def mro(self, q):
        out = [q]
        for b in self.bases(q):
            out += self.mro(b)
        return out

    def find(self, cls, name, nargs=None, sig=None):
        for c in self.mro(cls):
            fs = self.funcs.get((c, name), [])
            if not fs:
                if (c, name) in self.funcs:
                    continue
                continue
            if sig is not None and len(fs) > 1:
                m = [f for f in fs if f.decl["type"]["qualType"] == sig]
                if len(m) == 1:
                    return m[0]
            if nargs is not None and len(fs) > 1:
                m = [f for f in fs if arity(f.decl)[0] <= nargs <= arity(f.decl)[1]]
                if len(m) == 1:
                    return m[0]
                raise Undecided(f"overloads of {c}::{name}")
            return fs[0]
        return None

    def where(self, f):
        return f.decl.get("loc", {}).get("line")

    def where_text(self, f):
        """file:line of a definition"""
        src = f.tu.name.split(":")[0]
        ln = line_of(f.decl)
        fl = file_of(f.decl) or src
        fl = os.path.relpath(fl, self.repo) if os.path.isabs(fl) else fl
        return f"{fl}:{ln}" if ln else fl


def line_of(n):
    l = n.get("loc", {})
    for x in (l, l.get("expansionLoc", {}), l.get("spellingLoc", {}), n.get("range", {}).get("begin", {})):
        if "line" in x:
            return x["line"]
    return None


def file_of(n):
    l = n.get("loc", {})
    return l.get("file")


def params(d):
    return [c for c in d.get("inner", []) if isinstance(c, dict) and c.get("kind") == "ParmVarDecl"]


def arity(d):
    ps = [c for c in d.get("inner", []) if c.get("kind") == "ParmVarDecl"]
    return sum(1 for p in ps if "init" not in p), len(ps)


def const_value(n):
    for c in n.get("inner", []):
        if c.get("kind") == "ConstantExpr" and "value" in c:
            return int(c["value"])
        v = const_value(c)
        if v is not None:
            return v
    return None


def strip(t):
    t = t.strip()
    while True:
        o = t
        for p in ("const ", "volatile ", "struct ", "class ", "enum ", "typename "):
            if t.startswith(p):
                t = t[len(p):]
        for s in (" const", "&&", "&", " "):
            if t.endswith(s):
                t = t[: -len(s)]
        t = t.strip()
        if t == o:
            return t


def ty(n):
    t = n.get("type", {})
    return t.get("desugaredQualType", t.get("qualType", ""))


def targs(t):
    """Template arguments of a type."""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:-1]:
        if ch in "<({":
            d += 1
        if ch in ">)}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return [*out, cur.strip()] if cur.strip() else out


U32 = {"unsigned int", "Qubit", "qc::Qubit", "std::uint32_t", "uint32_t", "ecc::Qubit"}
U64 = {"unsigned long", "std::size_t", "size_t", "QubitCount", "ecc::QubitCount", "std::uint64_t", "uint64_t", "qc::Bit", "Bit", "unsigned long long", "size_type", "std::vector::size_type"}
I32 = {"int", "std::int32_t"}
I64 = {"long", "long long", "std::ptrdiff_t", "difference_type", "std::int64_t"}


def wrap(v, t):
    t = strip(t)
    if isinstance(v, (Bit, Enum)) and (t != "bool" or isinstance(v, Bit)):
        return v
    if t == "bool":
        return truth(v)
    if t in U32:
        return int(v) & 0xFFFFFFFF
    if t in U64:
        return int(v) & 0xFFFFFFFFFFFFFFFF
    if t in ("unsigned char", "std::uint8_t", "uint8_t"):
        return int(v) & 0xFF
    if t in ("unsigned short", "std::uint16_t"):
        return int(v) & 0xFFFF
    if t in I32:
        v = int(v) & 0xFFFFFFFF
        return v - (1 << 32) if v >> 31 else v
    if t in I64:
        v = int(v) & 0xFFFFFFFFFFFFFFFF
        return v - (1 << 64) if v >> 63 else v
    if t in ("double", "float", "fp", "qc::fp"):
        return float(v)
    return v


def truth(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Bit):
        v.split()
    if isinstance(v, (int, float)):
        return v != 0
    if isinstance(v, Ptr):
        return v.to is not None
    if isinstance(v, Enum):
        if v.i is None:
            raise Undecided("truth of an enumerator")
        return v.i != 0
    if v is None:
        return False
    raise Undecided(f"truth of {type(v).__name__}")


def hk(v):
    """Key of a value in an ordered container."""
    if isinstance(v, Bit):
        v.split()
    if isinstance(v, Cell):
        v = v.v
    if isinstance(v, (bool, int, float, str, tuple)):
        return v
    if isinstance(v, Enum):
        return (v.i if v.i is not None else 0, v.n)
    if isinstance(v, Obj):
        return tuple(hk(c.v) for c in v.f.values())
    if isinstance(v, Vec):
        return tuple(hk(c.v) for c in v.c)
    if isinstance(v, Ptr):
        return getattr(v.to, "serial", id(v.to))
    raise Undecided(f"key {type(v).__name__}")


def clone(v):
    if isinstance(v, Obj):
        return Obj(v.cls, {k: Cell(clone(c.v)) for k, c in v.f.items()}, v.tu)
    if isinstance(v, Vec):
        return Vec([Cell(clone(c.v)) for c in v.c], v.elem, v.lifo)
    if isinstance(v, Map):
        m = Map({k: (a, Cell(clone(c.v))) for k, (a, c) in v.d.items()}, v.elem, v.greater, v.ordered)
        return m
    if isinstance(v, Set):
        return Set({k: clone(x) for k, x in v.d.items()}, v.elem, v.ordered)
    if isinstance(v, Ptr):
        return Ptr(v.to)
    if isinstance(v, Iter):
        return Iter(v.c, v.i, v.rev)
    return v


def rv(x):
    return x.v if isinstance(x, Cell) else x


def pair(a, b, cls="std::pair"):
    return Obj(cls, {"first": Cell(a), "second": Cell(b)})


def parts(v):
    """Components for structured bindings."""
    v = rv(v)
    if isinstance(v, Obj):
        return list(v.f.values())
    if isinstance(v, Vec):
        return v.c
    raise Undecided("structured binding")


def elements(v):
    """The cells a range-for visits."""
    v = rv(v)
    if isinstance(v, Vec):
        return v.c
    if isinstance(v, Set):
        return [Cell(v.d[k]) for k in v.keys()]
    if isinstance(v, Map):
        return [Cell(Obj("std::pair", {"first": Cell(v.d[k][0]), "second": v.d[k][1]})) for k in v.keys()]
    if isinstance(v, Ext):
        return v.elements()
    raise Undecided(f"iteration over {type(v).__name__}")


class Interp:
    def __init__(self, prog, steps=4_000_000):
        self.p = prog
        self.steps = steps
        self.seen = set()
        self.console = {}
        self.statics = {}
        self.models = {}  # type name -> constructor(args)
        self.functions = {}  # free function name -> f(interp, args)
        self.files = None  # text files that can be read
        self.typed = None  # constructor of objects by type: f(type, args)
        self.variables = {}  # library variables
        self.reftypes = {}  # types of the functions referred to
        self.hooks = {}  # (class, method) -> f(interp, this, args)
        self.depth = 0
        self.serial = 0

    # -- types

    def default(self, t, scope=""):
        t = strip(t)
        a = self.p.aliases.get(t)
        if t in ("bool",):
            return False
        if t in U32 | U64 | I32 | I64 or t in ("unsigned char", "char", "std::uint8_t", "unsigned short"):
            return 0
        if t in ("double", "float", "fp"):
            return 0.0
        if t.endswith("*") or t.startswith(("std::shared_ptr", "std::unique_ptr", "std::weak_ptr")):
            return Ptr(None)
        if t in ("std::ifstream", "std::basic_ifstream<char>"):
            return Stream("", True)
        if t in ("std::string", "std::basic_string<char>") or t.startswith("std::basic_string<"):
            return ""
        m = re.search(r"\[(\d+)\]$", t)
        if m:
            return Vec([Cell(self.default(t[: m.start()])) for _ in range(int(m.group(1)))], t[: m.start()].strip())
        args = targs(t)
        base = t.split("<")[0]
        if base in ("std::vector", "std::initializer_list", "std::deque", "std::queue", "std::stack", "std::list"):
            return Vec([], args[0] if args else None, base == "std::stack")
        if base == "std::array":
            n = int(re.sub(r"[uUlL]+$", "", args[1])) if re.match(r"\d+", args[1]) else None
            if n is None:
                raise Undecided(f"type {t}")
            return Vec([Cell(self.default(args[0])) for _ in range(n)], args[0])
        if base in ("std::map", "std::unordered_map"):
            return Map({}, args[:2], greater=len(args) > 2 and "greater" in args[2], ordered=base == "std::map")
        if base in ("std::set", "std::unordered_set"):
            return Set({}, args[0] if args else None, ordered=base == "std::set")
        if base in ("std::pair",):
            return pair(self.default(args[0]), self.default(args[1]))
        if t in self.models or base in self.models:
            return self.models[t if t in self.models else base](self, [])
        q = self.p.resolve(t, scope)
        if q in self.p.classes:
            return self.construct(q, [])
        if t in self.p.enums:
            return Enum(t, next((n for n, v in self.p.enums[t].items() if v == 0), "?"), 0)
        if a and strip(a) != t:
            return self.default(a, scope)
        if base in ("std::chrono::duration", "std::chrono::time_point"):
            return 0
        raise Undecided(f"default of {t}")

    # -- construction

    def fields(self, q):
        n, tu = self.p.classes[q]
        return [(c, tu) for c in n.get("inner", []) if c.get("kind") == "FieldDecl"]

    def blank(self, q):
        o = Obj(q, {})
        self.serial += 1
        o.serial = self.serial
        for c in reversed(self.p.mro(q)):
            if c in self.p.classes:
                for f, tu in self.fields(c):
                    o.f[f["name"]] = Cell(None)
        return o

    def field_default(self, o, f, tu, cls):
        init = [c for c in f.get("inner", []) if isinstance(c, dict) and "kind" in c and not c["kind"].endswith(("Attr", "Comment"))]
        if f.get("hasInClassInitializer") and init:
            return self.copy(self.eval(init[-1], {}, o, tu), ty(f))
        return self.default(ty(f), cls)

    def copy(self, v, t=""):
        v = rv(v)
        if isinstance(v, (Obj, Vec, Map, Set, Iter)):
            return clone(v)
        return wrap(v, t) if t and isinstance(v, (int, float)) else v

    def construct(self, q, args, o=None, sig=None):
        """A new object of a class of the project."""
        o = o if o is not None else self.blank(q)
        n, ctu = self.p.classes[q]
        name = n.get("name")
        if len(args) == 1 and isinstance(rv(args[0]), Obj) and rv(args[0]).cls == q:
            return clone(rv(args[0]))
        fs = self.p.funcs.get((q, name), [])
        m = [f for f in fs if f.decl["type"]["qualType"] == sig] if sig else []
        if not m:
            m = [f for f in fs if arity(f.decl)[0] <= len(args) <= arity(f.decl)[1]]
        if len(m) > 1:
            m = [f for f in m if all(self.fits(rv(v), d) for v, d in zip(args, params(f.decl)))]
        if len(m) > 1:
            raise Undecided(f"constructors of {q}")
        done = set()
        if m:
            f = m[0]
            env = self.bind(f, args, o)
            inits = [c for c in f.decl.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]
            if not any("baseInit" in c for c in inits) and not args:
                # an implicit constructor whose initialisers are not spelled out
                for b in self.p.bases(q):
                    if b in self.p.classes:
                        self.construct(b, [], o)
            for c in inits:
                if "anyInit" in c:
                    fd = c["anyInit"]
                    e = c["inner"][0] if c.get("inner") else None
                    if e is not None and e.get("kind") != "CXXDefaultInitExpr":
                        o.f[fd["name"]] = Cell(self.copy(self.eval(e, env, o, f.tu), ty(fd)))
                        done.add(fd["name"])
                    else:
                        self.init_field(o, q, fd["name"])
                        done.add(fd["name"])
                elif "baseInit" in c:
                    b = self.p.resolve(strip(c["baseInit"].get("desugaredQualType", c["baseInit"]["qualType"])), q)
                    e = c["inner"][0]
                    while e.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr"):
                        e = e["inner"][0]
                    ba = [self.eval(x, env, o, f.tu) for x in e.get("inner", [])] if e.get("kind") == "CXXConstructExpr" else []
                    if b in self.p.classes:
                        self.construct(b, ba, o, sig=e.get("ctorType", {}).get("qualType"))
                elif c.get("inner"):
                    raise Undecided(f"initialisation in {q}")
        else:
            if args and not self.aggregate(q):
                raise Undecided(f"constructor of {q} with {len(args)} arguments")
            for b in self.p.bases(q):
                if b in self.p.classes:
                    self.construct(b, [], o)
            for (fd, _tu), a in zip(self.fields(q), args):
                if a is DEFAULT:
                    continue
                o.f[fd["name"]] = Cell(self.copy(a, ty(fd)))
                done.add(fd["name"])
        for fd, tu in self.fields(q):
            if fd["name"] not in done:
                self.init_field(o, q, fd["name"])
        if m:
            body = [c for c in m[0].decl.get("inner", []) if c.get("kind") == "CompoundStmt"]
            if body:
                self.seen.add(f"{q}::{name}")
                try:
                    self.exec(body[0], env, o, m[0].tu)
                except Return:
                    pass
        return o

    def fits(self, v, d):
        """Can the value be passed for the parameter (overload resolution by kind of value)?"""
        t = strip(d.get("type", {}).get("desugaredQualType") or d.get("type", {}).get("qualType", ""))
        t = strip(self.p.aliases.get(t, t))
        if isinstance(v, str):
            return "string" in t or "char" in t
        if isinstance(v, (Vec, Set, Map)):
            return "vector" in t or "array" in t or "set<" in t or "map<" in t or "Mat" in t or "Vec" in t
        if isinstance(v, Obj):
            return self.p.resolve(t) == v.cls or v.cls.split("::")[-1] in t
        if isinstance(v, Enum):
            return not any(x in t for x in ("string", "vector", "set<", "map<"))
        if isinstance(v, (bool, int, float)):
            return not any(x in t for x in ("string", "vector", "set<", "map<", "<")) and self.p.resolve(t) not in self.p.classes
        return True

    def aggregate(self, q):
        n, _ = self.p.classes[q]
        return n.get("definitionData", {}).get("isAggregate", False)

    def init_field(self, o, q, name):
        for fd, tu in self.fields(q):
            if fd["name"] == name:
                try:
                    o.f[name] = Cell(self.field_default(o, fd, tu, q))
                except Undecided:
                    o.f[name] = Cell(None)
                return

    # -- calls

    def bind(self, f, args, this):
        env = {}
        ps = [c for c in f.decl.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        for i, p in enumerate(ps):
            t = p.get("type", {}).get("qualType", "")
            if i < len(args) and args[i] is not DEFAULT:
                a = args[i]
                if t.rstrip().endswith("&"):
                    env[p["id"]] = a if isinstance(a, Cell) else Cell(a)
                else:
                    env[p["id"]] = Cell(self.copy(a, ty(p)))
            else:
                init = [c for c in p.get("inner", []) if "kind" in c]
                if not init:
                    raise Undecided(f"default argument of {f.decl.get('name')}")
                env[p["id"]] = Cell(self.copy(self.eval(init[-1], env, this, f.tu), ty(p)))
        return env

    def call(self, f, args, this):
        q = f.decl.get("_owner", "")
        self.seen.add(f"{q}::{f.decl['name']}" if q else f.decl["name"])
        self.depth += 1
        if self.depth > 60:
            raise Undecided("recursion")
        try:
            env = self.bind(f, args, this)
            body = [c for c in f.decl["inner"] if c.get("kind") == "CompoundStmt"][0]
            try:
                self.exec(body, env, this, f.tu)
            except Return as r:
                t = f.decl["type"]["qualType"]
                return r.v if t.split("(")[0].rstrip().endswith("&") else self.copy(r.v, "")
            return None
        finally:
            self.depth -= 1

    def run(self, o, name, args=(), nargs=None):
        """Call a method of an object of the project."""
        f = self.p.find(o.cls, name, len(args))
        if f is None:
            raise Undecided(f"{o.cls}::{name} has no definition")
        return self.call(f, list(args), o)

    # -- statements

    def exec(self, n, env, this, tu):
        self.steps -= 1
        if self.steps < 0:
            raise Undecided("too many steps")
        k = n.get("kind")
        if k is None or k == "NullStmt":
            return
        if k == "AttributedStmt":
            return self.exec([c for c in n.get("inner", []) if not c.get("kind", "").endswith("Attr")][-1], env, this, tu)
        if k == "CompoundStmt":
            for c in n.get("inner", []):
                self.exec(c, env, this, tu)
        elif k == "DeclStmt":
            for c in n.get("inner", []):
                self.declare(c, env, this, tu)
        elif k == "IfStmt":
            inner = list(n["inner"])
            if n.get("hasInit"):
                self.exec(inner.pop(0), env, this, tu)
            if n.get("hasVar"):
                self.exec(inner.pop(0), env, this, tu)
            c = truth(rv(self.eval(inner[0], env, this, tu)))
            if c:
                self.exec(inner[1], env, this, tu)
            elif n.get("hasElse"):
                self.exec(inner[2], env, this, tu)
        elif k == "ForStmt":
            init, _var, cond, inc, body = n["inner"]
            if init:
                self.exec(init, env, this, tu)
            while not cond or truth(rv(self.eval(cond, env, this, tu))):
                try:
                    self.exec(body, env, this, tu)
                except Break:
                    break
                except Continue:
                    pass
                if inc:
                    self.eval(inc, env, this, tu)
        elif k == "WhileStmt":
            inner = n["inner"]
            while True:
                if n.get("hasVar"):
                    self.exec(inner[0], env, this, tu)
                if not truth(rv(self.eval(inner[-2], env, this, tu))):
                    break
                try:
                    self.exec(inner[-1], env, this, tu)
                except Break:
                    break
                except Continue:
                    pass
        elif k == "DoStmt":
            while True:
                try:
                    self.exec(n["inner"][0], env, this, tu)
                except Break:
                    break
                except Continue:
                    pass
                if not truth(rv(self.eval(n["inner"][1], env, this, tu))):
                    break
        elif k == "CXXForRangeStmt":
            inner = n["inner"]
            if inner[0]:
                self.exec(inner[0], env, this, tu)
            rng = inner[1]["inner"][0]["inner"][-1]
            v = self.eval(rng, env, this, tu)
            dv = inner[-2]["inner"][0]
            for c in list(elements(v)):
                self.bind_var(dv, c, env)
                try:
                    self.exec(inner[-1], env, this, tu)
                except Break:
                    break
                except Continue:
                    pass
        elif k == "ReturnStmt":
            raise Return(self.eval(n["inner"][0], env, this, tu) if n.get("inner") else None)
        elif k == "BreakStmt":
            raise Break
        elif k == "ContinueStmt":
            raise Continue
        elif k == "SwitchStmt":
            self.switch(n, env, this, tu)
        elif k in ("CaseStmt", "DefaultStmt"):
            self.exec(n["inner"][-1], env, this, tu)
        elif k == "CXXTryStmt":
            try:
                self.exec(n["inner"][0], env, this, tu)
            except CppThrow as e:
                if len(n["inner"]) < 2:
                    raise
                h = n["inner"][1]
                self.handlers(n["inner"][1:], e, env, this, tu)
        elif k == "StaticAssertDecl":
            return
        else:
            self.eval(n, env, this, tu)

    def handlers(self, hs, e, env, this, tu):
        for h in hs:
            v = h["inner"][0]
            t = strip(ty(v)) if v and v.get("kind") == "VarDecl" else None
            if t is None or t == e.kind or t in ("std::exception", "exception") or t.split("::")[-1] == e.kind.split("::")[-1]:
                if t is not None:
                    env[v["id"]] = Cell(Obj("exception", {"what": Cell(e.what)}))
                self.exec(h["inner"][-1], env, this, tu)
                return
        raise e

    def switch(self, n, env, this, tu):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.exec(inner.pop(0), env, this, tu)
        if n.get("hasVar"):
            self.exec(inner.pop(0), env, this, tu)
        v = rv(self.eval(inner[0], env, this, tu))
        body = inner[1]["inner"] if inner[1].get("kind") == "CompoundStmt" else [inner[1]]
        start, default, flat = None, None, []
        for s in body:
            while s.get("kind") in ("CaseStmt", "DefaultStmt"):
                if s["kind"] == "CaseStmt":
                    c = rv(self.eval(s["inner"][0], env, this, tu))
                    if start is None and same(c, v):
                        start = len(flat)
                else:
                    default = len(flat)
                s = s["inner"][-1] if s["inner"] else {}
            flat.append(s)
        i = start if start is not None else default
        if i is None:
            return
        try:
            for s in flat[i:]:
                self.exec(s, env, this, tu)
        except Break:
            pass

    def bind_var(self, dv, c, env):
        t = dv.get("type", {}).get("qualType", "")
        ref = t.rstrip().endswith("&")
        c = c if ref and isinstance(c, Cell) else Cell(self.copy(c, ty(dv)))
        if dv["kind"] == "DecompositionDecl":
            bs = [b for b in dv.get("inner", []) if b.get("kind") == "BindingDecl"]
            for b, x in zip(bs, parts(c)):
                env[b["id"]] = x
        env[dv["id"]] = c

    def declare(self, d, env, this, tu):
        k = d.get("kind")
        if k in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl", "EnumDecl", "CXXRecordDecl"):
            return
        if k not in ("VarDecl", "DecompositionDecl"):
            raise Undecided(f"declaration {k}")
        static = d.get("storageClass") == "static"
        if static and (tu.name, d["id"]) in self.statics:
            env[d["id"]] = self.statics[(tu.name, d["id"])]
            return
        init = [c for c in d.get("inner", []) if isinstance(c, dict) and c.get("kind") and c["kind"] not in ("BindingDecl",) and not c["kind"].endswith(("Attr", "Comment"))]
        if "init" in d and init:
            self.bind_var(d, self.eval(init[-1], env, this, tu), env)
        else:
            env[d["id"]] = Cell(self.default(ty(d)))
        if static:
            self.statics[(tu.name, d["id"])] = env[d["id"]]

    # -- expressions

    def eval(self, n, env, this, tu):
        self.steps -= 1
        if self.steps < 0:
            raise Undecided("too many steps")
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Undecided(f"expression {k}")
        return m(n, env, this, tu)

    def one(self, n, env, this, tu):
        return self.eval(n["inner"][0], env, this, tu)

    e_ExprWithCleanups = e_ParenExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_FullExpr = one

    def e_MaterializeTemporaryExpr(self, n, env, this, tu):
        v = self.one(n, env, this, tu)
        return v if isinstance(v, Cell) else Cell(v)

    def e_CXXStdInitializerListExpr(self, n, env, this, tu):
        return rv(self.one(n, env, this, tu))

    def e_IntegerLiteral(self, n, env, this, tu):
        return int(n["value"])

    def e_CharacterLiteral(self, n, env, this, tu):
        return int(n["value"])

    def e_FloatingLiteral(self, n, env, this, tu):
        return float(n["value"])

    def e_CXXBoolLiteralExpr(self, n, env, this, tu):
        return bool(n["value"])

    def e_StringLiteral(self, n, env, this, tu):
        try:
            return json.loads(n["value"])
        except ValueError:
            return n["value"].strip('"')

    def e_UserDefinedLiteral(self, n, env, this, tu):
        f = self.eval(n["inner"][0], env, this, tu)
        f = rv(f)
        if isinstance(f, Ptr):
            f = rv(f.to)
        args = self.args(n["inner"][1:], env, this, tu)
        if isinstance(f, tuple) and f[0] == "fn" and f[1] in self.functions:
            return self.functions[f[1]](self, args, n)
        raise Undecided("user-defined literal")

    def e_CXXNullPtrLiteralExpr(self, n, env, this, tu):
        return Ptr(None)

    def e_GNUNullExpr(self, n, env, this, tu):
        return Ptr(None)

    def e_CXXThisExpr(self, n, env, this, tu):
        return Ptr(this)

    def e_CXXDefaultArgExpr(self, n, env, this, tu):
        return self.one(n, env, this, tu) if n.get("inner") else DEFAULT

    def e_CXXDefaultInitExpr(self, n, env, this, tu):
        raise Undecided("default member initialiser")

    def e_ImplicitValueInitExpr(self, n, env, this, tu):
        return self.default(ty(n))

    def e_CXXScalarValueInitExpr(self, n, env, this, tu):
        return self.default(ty(n))

    def e_UnaryExprOrTypeTraitExpr(self, n, env, this, tu):
        raise Undecided("sizeof")

    def e_LambdaExpr(self, n, env, this, tu):
        return Lambda(n, env, this, tu)

    def e_DeclRefExpr(self, n, env, this, tu):
        r = n["referencedDecl"]
        i = r["id"]
        if i in env:
            return env[i]
        k = r["kind"]
        if k == "EnumConstantDecl":
            t = strip(r.get("type", {}).get("qualType", ty(n)))
            q = tu.ids.get(i, (None, None))[1] or t
            return Enum(q, r["name"], self.p.enums.get(q, {}).get(r["name"]))
        if k in ("FunctionDecl", "CXXMethodDecl"):
            self.reftypes[i] = r.get("type", {}).get("qualType")
            return ("fn", r["name"], i, tu)
        if k in ("VarDecl", "VarTemplateSpecializationDecl"):
            d = tu.ids.get(i, (None, None))
            node, t2, scope = (d[0], tu, d[1]) if d[0] is not None else (None, None, "")
            if node is not None and not any(c.get("kind") for c in node.get("inner", []) if isinstance(c, dict) and not c.get("kind", "").endswith(("Attr", "Comment"))):
                node = None
            if node is None:
                g = lambda: [v for q, v in self.p.globals.items() if q.split("::")[-1] == r["name"] and v[0].get("init")]  # noqa: E731
                c = g() or (self.p.load(r["name"]) and g()) or []
                if len(c) == 1:
                    node, t2 = c[0]
            if node is None and r["name"] in self.variables:
                return self.variables[r["name"]]
            if node is None and r["name"] in ("cout", "cerr", "clog") and "stream" in ty(n):
                return self.console.setdefault(r["name"], Stream())
            if node is None:
                raise Undecided(f"variable {r['name']}")
            cell = t2.ids.setdefault(("value", node["id"]), None)
            if cell is None:
                init = [c for c in node.get("inner", []) if isinstance(c, dict) and c.get("kind") and not c["kind"].endswith(("Attr", "Comment"))]
                cell = Cell(self.copy(self.eval(init[-1], {}, None, t2), ty(node)))
                if "const" in node.get("type", {}).get("qualType", "") or node.get("constexpr"):
                    t2.ids[("value", node["id"])] = cell
                else:
                    raise Undecided(f"global variable {r['name']}")
            return cell
        if k == "BindingDecl" or k == "ParmVarDecl":
            raise Undecided(f"binding {r.get('name')}")
        raise Undecided(f"reference to {k} {r.get('name')}")

    def deref(self, v):
        v = rv(v)
        if isinstance(v, Ptr):
            if v.to is None:
                raise CppThrow("null", "null pointer dereferenced")
            return v.to
        if isinstance(v, Iter):
            return self.at_iter(v)
        return v

    def at_iter(self, it):
        if isinstance(it.c, Vec):
            if not 0 <= it.i < len(it.c.c):
                raise CppThrow("range", "iterator dereferenced outside its container")
            return it.c.c[len(it.c.c) - 1 - it.i if it.rev else it.i]
        ks = it.c.keys()
        if it.i is None or it.i not in it.c.d:
            raise CppThrow("range", "iterator dereferenced outside its container")
        return elements_at(it.c, it.i)

    def e_MemberExpr(self, n, env, this, tu):
        b = self.eval(n["inner"][0], env, this, tu)
        o = self.deref(b) if n.get("isArrow") else rv(b)
        o = rv(o)
        name = n.get("name", "")
        if n.get("type", {}).get("qualType") == "<bound member function type>":
            return ("method", o, name, n)
        if isinstance(o, Obj):
            if name in o.f:
                return o.f[name]
            d = tu.ids.get(n.get("referencedMemberDecl"))
            if d and d[0].get("kind") == "VarDecl":
                return self.static_member(d, tu)
        if isinstance(o, Ext):
            return o.field(name)
        raise Undecided(f"member {name} of {type(o).__name__}")

    def static_member(self, d, tu):
        node = d[0]
        init = [c for c in node.get("inner", []) if isinstance(c, dict) and c.get("kind") and not c["kind"].endswith(("Attr", "Comment"))]
        return Cell(self.copy(self.eval(init[-1], {}, None, tu), ty(node)))

    def e_ImplicitCastExpr(self, n, env, this, tu):
        k = n.get("castKind")
        v = self.eval(n["inner"][0], env, this, tu)
        if k == "LValueToRValue":
            return rv(v)
        if k in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "FunctionToPointerDecay", "ArrayToPointerDecay", "BuiltinFnToFnPtr", "ConstructorConversion", "UserDefinedConversion", "BaseToDerived", "LValueBitCast", "BaseToDerivedMemberPointer", "DerivedToBaseMemberPointer"):
            return v
        v = rv(v)
        if k == "IntegralCast":
            return wrap(v, ty(n))
        if k in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return boolean(v)
        if k in ("IntegralToFloating", "FloatingCast"):
            return float(v)
        if k == "FloatingToIntegral":
            return wrap(int(v), ty(n))
        if k == "ToVoid":
            return None
        if k == "NullToPointer":
            return Ptr(None)
        raise Undecided(f"cast {k}")

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXFunctionalCastExpr(self, n, env, this, tu):
        return self.e_ImplicitCastExpr(n, env, this, tu)

    def e_CXXDynamicCastExpr(self, n, env, this, tu):
        v = rv(self.one(n, env, this, tu))
        t = strip(ty(n)).rstrip("*").strip()
        t = strip(t)
        o = rv(v.to) if isinstance(v, Ptr) else v
        if o is None:
            return Ptr(None)
        if isinstance(o, Ext):
            return Ptr(o) if o.isa(t) else Ptr(None)
        if isinstance(o, Obj):
            return Ptr(o) if any(c == t or c.endswith("::" + t) for c in self.p.mro(o.cls)) else Ptr(None)
        raise Undecided("dynamic_cast")

    def e_ConditionalOperator(self, n, env, this, tu):
        a, b, c = n["inner"]
        return self.eval(b if truth(rv(self.eval(a, env, this, tu))) else c, env, this, tu)

    def e_UnaryOperator(self, n, env, this, tu):
        op = n["opcode"]
        if op == "&" and "::*" in n.get("type", {}).get("qualType", ""):
            d = n["inner"][0]
            while d.get("kind") == "ParenExpr":
                d = d["inner"][0]
            r = d.get("referencedDecl", {})
            if r.get("kind") in ("CXXMethodDecl", "FieldDecl"):
                return ("member", r["kind"], r["name"], n["type"]["qualType"])
            raise Undecided("pointer to a member")
        c = self.eval(n["inner"][0], env, this, tu)
        if op == "&":
            v = rv(c)
            return Ptr(v if isinstance(v, (Obj, Ext)) else c)
        if op == "*":
            v = self.deref(c)
            return v if isinstance(v, Cell) else Cell(v)
        if op in ("++", "--"):
            if not isinstance(c, Cell):
                raise Undecided("increment of a value")
            old = c.v
            c.v = wrap(old + (1 if op == "++" else -1), ty(n))
            return old if n.get("isPostfix") else c
        v = rv(c)
        if op == "!":
            return v.xor(True) if isinstance(v, Bit) else not truth(v)
        if op == "-":
            return wrap(-v, ty(n))
        if op == "~":
            return wrap(~v, ty(n))
        if op == "+":
            return v
        raise Undecided(f"operator {op}")

    def e_BinaryOperator(self, n, env, this, tu):
        op = n["opcode"]
        a, b = n["inner"]
        if op in ("&&", "||"):
            x = boolean(rv(self.eval(a, env, this, tu)))
            if isinstance(x, Bit):
                if not pure(b):
                    x.split()
                try:
                    y = boolean(rv(self.eval(b, env, this, tu)))
                except CppThrow:
                    x.split()
                return x.land(y) if op == "&&" else x.lor(y)
            if op == "&&" and not x or op == "||" and x:
                return x
            return boolean(rv(self.eval(b, env, this, tu)))
        if op == ",":
            self.eval(a, env, this, tu)
            return self.eval(b, env, this, tu)
        if op == "=":
            c = self.eval(a, env, this, tu)
            v = self.copy(self.eval(b, env, this, tu), ty(a))
            if not isinstance(c, Cell):
                raise Undecided("assignment to a value")
            c.v = v
            return c
        return self.arith(op, rv(self.eval(a, env, this, tu)), rv(self.eval(b, env, this, tu)), ty(n))

    def arith(self, op, x, y, t):
        if isinstance(x, Bit) or isinstance(y, Bit):
            a, b = (x, y) if isinstance(x, Bit) else (y, x)
            if not (isinstance(b, Bit) or isinstance(b, (bool, int)) and b in (0, 1)):
                a.split()
            if op in ("^", "!="):
                return a.xor(b)
            if op == "==":
                return Bit.of(a.xor(b)).xor(True)
            if op in ("&", "*"):
                return a.land(b)
            if op == "|":
                return a.lor(b)
            a.split()
        if op in ("==", "!="):
            r = same(x, y)
            return r if op == "==" else not r
        if isinstance(x, Enum) and isinstance(x.i, int):
            x = x.i
        if isinstance(y, Enum) and isinstance(y.i, int):
            y = y.i
        if not isinstance(x, (int, float, str)) or not isinstance(y, (int, float, str)):
            raise Undecided(f"{type(x).__name__} {op} {type(y).__name__}")
        if op in ("<", ">", "<=", ">="):
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op in ("/", "%"):
            if y == 0:
                raise CppThrow("division", "division by zero") if isinstance(x, int) else Undecided("division by zero")
            if isinstance(x, float) or isinstance(y, float):
                r = x / y
            else:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if op == "/" else x - q * y
        elif op == "&":
            r = int(x) & int(y)
        elif op == "|":
            r = int(x) | int(y)
        elif op == "^":
            r = int(x) ^ int(y)
        elif op == "<<":
            r = x << y
        elif op == ">>":
            r = x >> y
        else:
            raise Undecided(f"operator {op}")
        return wrap(r, t)

    def e_CompoundAssignOperator(self, n, env, this, tu):
        c = self.eval(n["inner"][0], env, this, tu)
        v = rv(self.eval(n["inner"][1], env, this, tu))
        ct = n.get("computeResultType", {})
        r = self.arith(n["opcode"][:-1], rv(c), v, ct.get("desugaredQualType", ct.get("qualType", ty(n))))
        c.v = wrap(r, ty(n))
        return c

    def e_ArraySubscriptExpr(self, n, env, this, tu):
        a = rv(self.eval(n["inner"][0], env, this, tu))
        i = rv(self.eval(n["inner"][1], env, this, tu))
        if isinstance(a, Vec) and 0 <= i < len(a.c):
            return a.c[i]
        raise Undecided("subscript")

    def e_InitListExpr(self, n, env, this, tu):
        t = strip(ty(n))
        inner = n.get("array_filler") or n.get("inner", [])
        vals = [DEFAULT if c["kind"] == "CXXDefaultInitExpr" else self.eval(c, env, this, tu) for c in inner if c.get("kind") not in (None,)]
        base = t.split("<")[0]
        if base == "std::array":
            d = self.default(t)
            if len(vals) == 1 and isinstance(rv(vals[0]), Vec):
                for c, x in zip(d.c, rv(vals[0]).c):
                    c.v = self.copy(x)
                return d
            for c, x in zip(d.c, vals):
                c.v = self.copy(x)
            return d
        if re.search(r"\[\d*\]$", t):
            e = t[: t.rindex("[")].strip()
            k = re.search(r"\[(\d*)\]$", t).group(1)
            out = [Cell(self.copy(x)) for x in vals]
            while k and len(out) < int(k):
                out.append(Cell(self.default(e)))
            return Vec(out, e)
        q = self.p.resolve(t)
        if q in self.p.classes:
            return self.construct(q, vals)
        if base in ("std::pair",):
            return pair(*[self.copy(v) for v in vals])
        if len(vals) == 1 and (t in U32 | U64 | I32 | I64 or t in ("bool", "double") or t.endswith("*")):
            return self.copy(vals[0], t)
        if not vals:
            return self.default(t)
        if t in self.models:
            return self.models[t](self, vals)
        raise Undecided(f"initialiser of {t}")

    def e_CXXConstructExpr(self, n, env, this, tu):
        t = strip(ty(n))
        args = [self.eval(c, env, this, tu) for c in n.get("inner", [])]
        while args and args[-1] is DEFAULT:
            args.pop()
        return self.make(t, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def make(self, t, args, n=None):
        if self.typed is not None:
            r = self.typed(t, args)
            if r is not NotImplemented:
                return r
        if t not in self.models and strip(self.p.aliases.get(t) or t) != t:
            return self.make(strip(self.p.aliases[t]), args, n)
        base = t.split("<")[0]
        v = [rv(a) for a in args]
        if base == "std::initializer_list" and (not v or len(v) == 1 and isinstance(v[0], Vec)):
            return v[0] if v else Vec([], (targs(t) or [None])[0])
        if base in ("std::vector", "std::deque", "std::queue", "std::stack", "std::list"):
            e = targs(t)
            if not v:
                return Vec([], e[0] if e else None, base == "std::stack")
            if len(v) == 1 and isinstance(v[0], Vec):
                return Vec([Cell(clone(c.v)) for c in v[0].c], e[0] if e else v[0].elem)
            if len(v) == 1 and isinstance(v[0], int):
                return Vec([Cell(self.default(e[0])) for _ in range(v[0])], e[0])
            if len(v) == 2 and isinstance(v[0], Iter):
                return Vec([Cell(clone(c.v)) for c in between(v[0], v[1])], e[0] if e else None)
            if len(v) == 2 and isinstance(v[0], int):
                return Vec([Cell(clone(v[1])) for _ in range(v[0])], e[0])
            raise Undecided(f"construction of {t}")
        if base in ("std::set", "std::unordered_set"):
            e = targs(t)
            s = Set({}, e[0] if e else None, ordered=base == "std::set")
            src = between(*v) if len(v) == 2 and isinstance(v[0], Iter) else elements(v[0]) if v and isinstance(v[0], (Vec, Set)) else [] if not v else None
            if src is None:
                raise Undecided(f"construction of {t}")
            for c in src:
                x = clone(c.v)
                if e and strip(e[0]) in self.models and not isinstance(x, Obj):
                    x = self.models[strip(e[0])](self, [x])
                s.d.setdefault(hk(x), x)
            return s
        if base in ("std::map", "std::unordered_map"):
            m = self.default(t)
            if v and isinstance(v[0], Map):
                return clone(v[0])
            for c in elements(v[0]) if v else []:
                p = parts(c)
                m.d.setdefault(hk(p[0]), (clone(p[0].v), Cell(clone(p[1].v))))
            return m
        if base == "std::pair":
            if not v:
                return self.default(t)
            e = targs(t)
            if len(v) == 1 and isinstance(v[0], Obj):
                p = parts(v[0])
                return pair(*[wrap(clone(x.v), y) if isinstance(x.v, (int, float)) else clone(x.v) for x, y in zip(p, e)])
            if len(v) == 2:
                return pair(*[self.copy(x, strip(y)) for x, y in zip(v, e)])
        if base == "std::array" and not v:
            return self.default(t)
        if base == "std::array" and len(v) == 1 and isinstance(v[0], Vec):
            return clone(v[0])
        if base in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr"):
            if not v:
                return Ptr(None)
            return Ptr(v[0].to) if isinstance(v[0], Ptr) else sync("pointer construction")
        if base in ("std::basic_string", "std::string"):
            if not v:
                return ""
            if isinstance(v[0], str):
                return v[0]
            if len(v) == 2 and isinstance(v[0], int):
                return chr(v[1]) * v[0] if isinstance(v[1], int) else v[1] * v[0]
            raise Undecided("string construction")
        if base in ("std::basic_stringstream", "std::basic_ostringstream", "std::stringstream", "std::ostringstream", "std::basic_istringstream"):
            return Stream(v[0] if v and isinstance(v[0], str) else "")
        if base in ("std::basic_ifstream", "std::ifstream"):
            if getattr(self, "files", None) is None:
                raise Undecided("a file")
            if not v:
                return Stream("", True)
            f = self.files.get(v[0]) if isinstance(v[0], str) else None
            return Stream(f or "", f is None)
        if base.split("::")[-1] in ("runtime_error", "invalid_argument", "QFRException", "logic_error", "out_of_range", "QeccException", "exception", "bad_function_call"):
            if base not in self.p.classes and self.p.resolve(base) not in self.p.classes:
                return Obj(base, {"what": Cell(v[0] if v else "")})
        if t in self.models or base in self.models:
            return self.models[t if t in self.models else base](self, args)
        if base.startswith("(lambda"):
            return v[0]
        if base[5:] in FUNCTORS and base.startswith("std::") and not v:
            e = (targs(t) or ["void"])[0]
            return Functor(FUNCTORS[base[5:]], "long" if e == "void" else e)
        if base == "std::istream_iterator":
            return input_range(v[0] if v else None, (targs(t) or ["?"])[0])
        if base.startswith("std::function") and v:
            return v[0]
        if v and isinstance(v[0], Iter) and len(v) == 1:
            return clone(v[0])
        q = self.p.resolve(t)
        if q in self.p.classes:
            return self.construct(q, args, sig=n.get("ctorType", {}).get("qualType") if n else None)
        if len(v) == 1 and (isinstance(v[0], Obj) and (v[0].cls == t or v[0].cls.endswith("::" + t) or t.endswith("::" + v[0].cls)) or isinstance(v[0], Ext)):
            return clone(v[0])
        raise Undecided(f"construction of {t}")

    def e_CXXNewExpr(self, n, env, this, tu):
        v = self.eval(n["inner"][0], env, this, tu) if n.get("inner") else None
        if v is None:
            raise Undecided("new")
        return Ptr(v if isinstance(v, (Obj, Ext)) else Cell(v))

    def e_CXXThrowExpr(self, n, env, this, tu):
        if not n.get("inner"):
            raise CppThrow("rethrow", "")
        v = rv(self.one(n, env, this, tu))
        w = v.f["what"].v if isinstance(v, Obj) and "what" in v.f else next((c.v for c in v.f.values() if isinstance(c.v, str)), "") if isinstance(v, Obj) else str(v)
        raise CppThrow(v.cls if isinstance(v, Obj) else type(v).__name__, w)

    def args(self, ns, env, this, tu):
        return [self.eval(c, env, this, tu) for c in ns]

    def e_CXXMemberCallExpr(self, n, env, this, tu):
        callee = n["inner"][0]
        while callee.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            callee = callee["inner"][0]
        if callee.get("kind") != "MemberExpr":
            raise Undecided("member call through a pointer")
        m = self.eval(callee, env, this, tu)
        _k, o, name, mn = m
        args = self.args(n["inner"][1:], env, this, tu)
        base = mn["inner"][0]
        qualified = base.get("kind") == "ImplicitCastExpr" and base.get("castKind") in ("UncheckedDerivedToBase", "DerivedToBase") and base["inner"][0].get("kind") == "CXXThisExpr"
        static = None
        if qualified and isinstance(o, Obj):
            b = self.p.resolve(strip(strip(ty(base)).rstrip("*")))
            d = self.p.resolve(strip(strip(ty(base["inner"][0])).rstrip("*")))
            f = self.p.find(d, name, len(args)) if d in self.p.classes else None
            if f is not None and f.decl.get("_owner") != b and b in self.p.classes and f.decl.get("_owner") not in self.p.mro(b):
                static = b
        return self.invoke(o, name, args, mn, tu, static)

    def invoke(self, o, name, args, mn=None, tu=None, static=None):
        if isinstance(o, Obj):
            h = self.hooks.get((o.cls, name)) or self.hooks.get(("*", name))
            if h is not None:
                return h(self, o, args)
            cls = static or o.cls
            if cls in self.p.classes:
                sig = None
                if mn is not None and tu is not None:
                    d = tu.ids.get(mn.get("referencedMemberDecl"))
                    sig = d[0]["type"]["qualType"] if d and "type" in d[0] else None
                nargs = len([a for a in args if a is not DEFAULT])
                f = self.p.find(cls, name, len(args), sig)
                if f is not None and name == "operator=" and (f.decl.get("isImplicit") or f.decl.get("explicitlyDefaulted")) and len(args) == 1:
                    import cpplib

                    return cpplib.assign(self, o, rv(args[0]))
                if f is not None:
                    return self.call(f, args, o)
                if name.startswith("operator") or name == "what":
                    return self.method(o, name, args)
                raise Undecided(f"{cls}::{name} has no definition")
        if isinstance(o, Ext):
            return o.method(self, name, [a for a in args if a is not DEFAULT])
        return self.method(o, name, [a for a in args if a is not DEFAULT], mn)

    def method(self, o, name, a, mn=None):
        """Methods of library containers."""
        import cpplib

        return cpplib.method(self, o, name, a)

    def e_CXXOperatorCallExpr(self, n, env, this, tu):
        ref = n["inner"][0]
        while ref.get("kind") == "ImplicitCastExpr":
            ref = ref["inner"][0]
        op = ref.get("referencedDecl", {}).get("name", "")
        args = self.args(n["inner"][1:], env, this, tu)
        o = rv(args[0])
        if op == "operator=" and isinstance(o, Obj) and all(f.decl.get("isImplicit") or f.decl.get("explicitlyDefaulted") for c in self.p.mro(o.cls) for f in self.p.funcs.get((c, op), [])):
            import cpplib

            return cpplib.operator(self, op, args, n)
        if isinstance(o, Obj) and o.cls in self.p.classes and self.p.find(o.cls, op, len(args) - 1):
            return self.invoke(o, op, args[1:])
        fs = self.p.funcs.get(("", op), []) or [f for (s, nm), l in self.p.funcs.items() if nm == op for f in l if f.decl["kind"] == "FunctionDecl"]
        fs = [f for f in fs if arity(f.decl)[1] == len(args) and f.decl["type"]["qualType"] == ref.get("type", {}).get("qualType")]
        if len(fs) == 1:
            return self.call(fs[0], args, None)
        import cpplib

        return cpplib.operator(self, op, args, n)

    def e_CallExpr(self, n, env, this, tu):
        f = self.eval(n["inner"][0], env, this, tu)
        f = rv(f)
        args = self.args(n["inner"][1:], env, this, tu)
        return self.apply(f, args, n)

    def apply(self, f, args, n=None):
        if isinstance(f, Lambda):
            return self.call_lambda(f, args)
        if isinstance(f, Functor):
            return f(self, args)
        if isinstance(f, Ptr):
            f = rv(f.to)
        if isinstance(f, tuple) and f[0] == "fn":
            _t, name, i, tu = f
            if name in self.functions:
                r = self.functions[name](self, args, n)
                if r is not NotImplemented:
                    return r
            d = tu.ids.get(i)
            owner = sig = None
            if d is not None and "type" in d[0]:
                owner = d[0].get("_owner", d[1])
                sig = d[0]["type"]["qualType"]
            c = [x for (o, nm), l in self.p.funcs.items() if nm == name and (owner is None or o == owner) for x in l]
            if d is not None and len(c) > 1:
                c = [x for x in c if x.decl["type"]["qualType"] == sig] or c
            if d is not None and len(c) > 1:
                c = [x for x in c if arity(x.decl)[0] <= len(args) <= arity(x.decl)[1]]
            if d is None and n is not None:
                # declared in a part of the program read separately: the signature decides
                ref = n["inner"][0]
                while ref.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                    ref = ref["inner"][0]
                t = ref.get("referencedDecl", {}).get("type", {}).get("qualType")
                c = [x for x in c if signature(x.decl["type"]["qualType"]) == signature(t)]
            if d is None and n is None and len(c) > 1:
                c = [x for x in c if signature(x.decl["type"]["qualType"]) == signature(self.reftypes.get(i))]
            if len(c) == 1:
                return self.call(c[0], args, None)
            if not c and self.p.load(name):
                return self.apply(f, args, n)
            import cpplib

            return cpplib.function(self, name, [a for a in args if a is not DEFAULT], n)
        raise Undecided("call")

    def generic(self, rec, args):
        """The instantiation of a generic lambda for the arguments of a call."""
        t = [c for c in rec["inner"] if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()"]
        ms = [c for c in (t[0].get("inner", []) if t else []) if c.get("kind") == "CXXMethodDecl"][1:]
        if len(ms) > 1:
            ms = [m for m in ms if len(params(m)) == len(args) and all(self.fits(rv(a), d) for a, d in zip(args, params(m)))]
        if len(ms) != 1:
            raise Undecided("instantiation of a generic lambda")
        return ms[0]

    def call_lambda(self, f, args):
        rec = f.node["inner"][0]
        op = next((c for c in rec["inner"] if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"), None)
        if op is None:
            op = self.generic(rec, args)
        fun = Fun(op, f.tu)
        env = dict(f.env)
        env.update(self.bind(fun, args, f.this))
        body = next((c for c in op.get("inner", []) if c.get("kind") == "CompoundStmt"), None) or f.node["inner"][-1]
        try:
            self.exec(body, env, f.this, f.tu)
        except Return as r:
            return r.v
        return None


class Default:
    pass


DEFAULT = Default()


def signature(t):
    """A function type without the top-level const of its parameters, which declarations may leave out."""
    if not t or "(" not in t:
        return t
    i, j = t.index("("), t.rindex(")")
    ps, depth, cur = [], 0, ""
    for ch in t[i + 1:j]:
        depth += ch in "<([" or -(ch in ">)]")
        if ch == "," and not depth:
            ps.append(cur.strip())
            cur = ""
        else:
            cur += ch
    ps.append(cur.strip())
    ps = [p[6:] if p.startswith("const ") and not p.endswith(("*", "&")) else p.removesuffix(" const") for p in ps]
    return f"{t[:i]}({', '.join(ps)}){t[j + 1:]}"


class Stream:
    """A text stream: what was written to it, or what remains to be read from it."""

    def __init__(self, s="", fail=False):
        self.s = s
        self.pos = 0
        self.fail = fail
        self.eof = False

    def write(self, s):
        self.s += s

    def line(self, delim="\n"):
        if self.fail or self.pos >= len(self.s):
            self.fail = self.eof = True
            return None
        i = self.s.find(delim, self.pos)
        r = self.s[self.pos:] if i < 0 else self.s[self.pos:i]
        self.eof = i < 0
        self.pos = len(self.s) if i < 0 else i + 1
        return r

    def read(self, old):
        """Formatted input of a value of the kind of the old one; None if there is none."""
        while self.pos < len(self.s) and self.s[self.pos] in " \t\n\r\v\f":
            self.pos += 1
        if self.fail or self.pos >= len(self.s):
            self.fail = self.eof = True
            return None
        if isinstance(old, str):
            m = re.compile(r"\S+").match(self.s, self.pos)
        elif isinstance(old, float):
            m = re.compile(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+)").match(self.s, self.pos)
        else:
            m = re.compile(r"[+-]?\d+").match(self.s, self.pos)
        if not m:
            self.fail = True
            return None
        self.pos = m.end()
        self.eof = self.pos >= len(self.s)
        if isinstance(old, bool) and m.group() not in ("0", "1"):
            self.fail = True
            return None
        return m.group() if isinstance(old, str) else float(m.group()) if isinstance(old, float) else int(m.group())


def pure(n):
    """An expression without calls that could change something, increments and assignments."""
    if n.get("kind") in ("CompoundAssignOperator", "LambdaExpr") or n.get("kind") == "BinaryOperator" and n.get("opcode") == "=":
        return False
    if n.get("kind") == "UnaryOperator" and n.get("opcode") in ("++", "--"):
        return False
    if n.get("kind") == "CXXMemberCallExpr" and not (n["inner"][0].get("name") in ("at", "size", "front", "back", "begin", "end", "find", "count", "empty", "get", "operator bool")):
        return False
    if n.get("kind") == "CallExpr":
        return False
    return all(pure(c) for c in n.get("inner", []) if isinstance(c, dict))


def same(x, y):
    x, y = rv(x), rv(y)
    if isinstance(x, Bit) or isinstance(y, Bit):
        a, b = (x, y) if isinstance(x, Bit) else (y, x)
        r = Bit.of(a.xor(b)).xor(True)
        return r
    if isinstance(x, Enum) or isinstance(y, Enum):
        if isinstance(x, Enum) and isinstance(y, Enum):
            return x == y
        e, i = (x, y) if isinstance(x, Enum) else (y, x)
        if e.i is None:
            raise Undecided("comparison of an enumerator with a number")
        return e.i == int(i)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.to is y.to
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        p, q = (x, y) if isinstance(x, Ptr) else (y, x)
        return p.to is q or (q == 0 and p.to is None)
    if isinstance(x, Iter) and isinstance(y, Iter):
        return x.i == y.i if at_end(x, y) is None else at_end(x, y)
    if isinstance(x, (Obj, Vec)) and isinstance(y, (Obj, Vec)):
        return hk(x) == hk(y)
    if isinstance(x, Set) and isinstance(y, Set):
        return set(x.d) == set(y.d)
    if isinstance(x, Map) and isinstance(y, Map):
        return set(x.d) == set(y.d) and all(same(x.d[k][1], y.d[k][1]) for k in x.d)
    return x == y


def elements_at(c, k):
    if isinstance(c, Set):
        return Cell(c.d[k])
    return Cell(Obj("std::pair", {"first": Cell(c.d[k][0]), "second": c.d[k][1]}))


def input_range(stream, t):
    """The values a stream iterator of the type runs over, from the first; the end iterator without a stream."""
    if stream is None:
        return Iter(None, None)
    if not isinstance(stream, Stream) or strip(t) not in ("int", "double", "bool", "std::string", "unsigned int", "long", "unsigned long", "std::size_t", "std::uint64_t"):
        raise Undecided("a stream iterator")
    old = "" if strip(t) == "std::string" else 0.0 if strip(t) == "double" else False if strip(t) == "bool" else 0
    out = []
    while (x := stream.read(old)) is not None:
        out.append(Cell(x))
    return Iter(Vec(out, t), 0)


def at_end(x, y):
    """Comparison with the end of a stream, or None."""
    if x.c is None or y.c is None:
        a, b = (z.c is None or z.i >= len(z.c.c) for z in (x, y))
        return a == b
    return None


def between(a, b):
    """Cells between two iterators."""
    if b.c is None and a.c is not b.c:
        return a.c.c[a.i:]
    if a.c is None:
        return []
    if a.c is not b.c:
        raise Undecided("iterators of different containers")
    if isinstance(a.c, Vec):
        if a.rev:
            return [a.c.c[len(a.c.c) - 1 - k] for k in range(a.i, b.i)]
        return a.c.c[a.i:b.i]
    ks = a.c.keys()
    i = ks.index(a.i) if a.i in a.c.d else len(ks)
    j = ks.index(b.i) if b.i in b.c.d else len(ks)
    return [elements_at(a.c, k) for k in ks[i:j]]
