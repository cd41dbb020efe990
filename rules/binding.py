"""P32: what the Python module makes of the C++ classes, functions and enumerations."""
from __future__ import annotations

import json
import re

import cpp
import simul
import uf
import wrapper
from cpp import Bit, Cell, CppThrow, Enum, Ext, Fun, Lambda, Obj, Ptr, Undecided, Vec, clone, rv
from pymodel import AnalysisBroken
from uf import CSS, RING, STEANE, mat, ones, out, syndrome, vec

SRC = "src/python/bindings.cpp"
INIT = "pybind11_init_pyqecc"
JOBS = [*simul.JOBS, *[j for j in uf.UFJOBS if j not in simul.JOBS], (SRC, [INIT])]
EXPORTED = ["Code", "Decoder", "DecodingResult", "DecodingResultStatus", "DecodingRunInformation", "GrowthVariant", "UFDecoder", "UFHeuristic", "apply_ecc",
            "sample_iid_pauli_err", "DecodingSimulator", "DecoderType"]
NAMES = {"GrowthVariant": {"ALL_COMPONENTS": "AllComponents", "INVALID_COMPONENTS": "InvalidComponents", "SINGLE_SMALLEST": "SingleSmallest",
                           "SINGLE_RANDOM": "SingleRandom", "SINGLE_QUBIT_RANDOM": "SingleQubitRandom"},
         "DecoderType": {"UF_HEURISTIC": "UfHeuristic", "ORIGINAL_UF": "UfDecoder"},
         "DecodingResultStatus": {"SUCCESS": "SUCCESS", "FAILURE": "FAILURE"}}


class PyError(Exception):
    """A Python exception of the call itself: no such attribute, no such overload."""


def arguments(t):
    """The comma-separated parts of a parameter or template list."""
    ps, depth, cur = [], 0, ""
    for ch in t:
        depth += ch in "<([" or -(ch in ">)]")
        if ch == "," and not depth:
            ps.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return [*ps, *([cur.strip()] if cur.strip() and cur.strip() != "void" else [])]


def parameters(t):
    """The parameter types of a (member) function pointer or function type."""
    m = re.match(r".*?\((?:[\w:<>, ]+::)?\*\)\s*\((.*)\)[^)]*$", t) or re.match(r"[^(]*\((.*)\)[^)]*$", t)
    if m is None:
        raise Undecided("parameters of " + t)
    return arguments(m[1])


class Overload:
    def __init__(self, kind, f, types, args, static=False):
        self.kind, self.f, self.types, self.names, self.static = kind, f, types, args, static


class Other(Ext):
    """Options of a definition that do not decide which operation it is: policies, documentation, call guards."""

    cls = "pybind11"

    def method(self, it, name, args):
        raise Undecided(f"pybind11: {name}")


class Class(Ext):
    cls = "pybind11::class_"

    def __init__(self, m, name, cpp_name, base, enum):
        self.m, self.name, self.cpp, self.base, self.enum = m, name, cpp_name, base, enum
        self.over, self.props, self.values, self.inits = {}, {}, {}, []

    def add(self, name, o):
        if name in self.props:
            raise Undecided(f"{name} defined twice")
        self.over.setdefault(name, []).append(o)

    def method(self, it, name, args):
        v = [rv(a) for a in args]
        if name in ("def", "def_static"):
            if isinstance(v[0], Overload):
                v[0].names = named(v[1:])
                self.inits.append(v[0])
                return self
            if not isinstance(v[0], str):
                return self
            self.add(v[0], overload(it, v[1], v[2:], name == "def_static"))
            return self
        if name in ("def_readwrite", "def_readonly") and isinstance(v[0], str):
            if not (isinstance(v[1], tuple) and v[1][:2] == ("member", "FieldDecl")):
                raise Undecided("an attribute that is no field")
            self.props[v[0]] = (v[1][2], name == "def_readwrite")
            return self
        if name in ("def_property", "def_property_readonly") and isinstance(v[0], str):
            self.props[v[0]] = (overload(it, v[1], [], False), overload(it, v[2], [], False) if name == "def_property" else False)
            return self
        if name == "value" and self.enum and isinstance(v[0], str) and isinstance(v[1], Enum):
            if v[0] in self.values:
                raise PyError(f"the value {v[0]} of {self.name} is defined twice")
            self.values[v[0]] = v[1]
            return self
        if name == "export_values" and not v and self.enum:
            for k, x in self.values.items():
                self.m.put(k, x)
            return self
        raise Undecided(f"{name} of a class of the module")


class Module(Ext):
    cls = "pybind11::module_"

    def __init__(self):
        self.names, self.hidden = {}, []

    def put(self, name, v):
        if name in self.names and self.names[name] is not v:
            self.hidden.append(name)
        self.names[name] = v

    def method(self, it, name, args):
        v = [rv(a) for a in args]
        if name == "def" and isinstance(v[0], str):
            o = overload(it, v[1], v[2:], True)
            old = self.names.get(v[0])
            if isinstance(old, list):
                old.append(o)
            else:
                self.put(v[0], [o])
            return self
        if name == "attr" and len(v) == 1 and isinstance(v[0], str):
            return Attr(self, v[0])
        if name == "doc":
            return Attr(self, None)
        raise Undecided(f"{name} of the module")


class Attr(Ext):
    cls = "accessor"

    def __init__(self, m, name):
        self.m, self.name = m, name

    def method(self, it, name, args):
        if name == "operator=" and len(args) == 1:
            if self.name is not None:
                self.m.put(self.name, rv(args[0]))
            return self
        raise Undecided(f"{name} of an attribute")


def named(v):
    """[(name, default)] of the arguments named in a definition."""
    out = []
    for x in v:
        if isinstance(x, wrapper.Py) and x.kind == "arg":
            out.append((x.value, None))
        elif isinstance(x, wrapper.Py) and x.kind == "argument":
            out.append((x.value[0], (x.value[1],)))
    return out


def overload(it, f, rest, static):
    f = rv(f.to) if isinstance(f, Ptr) else f
    if isinstance(f, tuple) and f[:2] == ("member", "CXXMethodDecl"):
        return Overload("method", f, parameters(f[3]), named(rest), static)
    if isinstance(f, tuple) and f[0] == "fn":
        t = it.reftypes.get(f[2])
        if not t:
            raise Undecided(f"type of {f[1]}")
        return Overload("function", f, parameters(t), named(rest), static)
    if isinstance(f, Lambda):
        op = next((c for c in f.node["inner"][0]["inner"] if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"), None)
        if op is None:
            raise Undecided("a generic lambda")
        return Overload("function", f, [uf.pt(p) for p in cpp.params(op)], named(rest), static)
    raise Undecided(f"definition by a {type(f).__name__}")


class Cast(Ext):
    """py::overload_cast<...>"""

    cls = "overload_cast"

    def method(self, it, name, args):
        if name == "operator()" and args:
            return rv(args[0])
        raise Undecided(name)


def typed(it, t, args):
    b = t.split("<")[0]
    last = b.split("::")[-1]
    if last in ("class_", "enum_") and b.split("::")[0] in ("py", "pybind11", "class_", "enum_"):
        v = [rv(a) for a in args]
        if len(v) == 1 and isinstance(v[0], Class):
            return v[0]
        if len(v) < 2 or not isinstance(v[0], Module) or not isinstance(v[1], str):
            raise Undecided("definition of a class inside another")
        ts = [cpp.strip(x) for x in arguments(t[t.index("<") + 1 : t.rindex(">")])]
        bases = [x for x in ts[1:] if "_ptr<" not in x]
        if it.light:
            return Class(v[0], v[1], ts[0], bases[0] if bases else None, last == "enum_")
        c = Class(v[0], v[1], it.p.resolve(ts[0]) if last == "class_" else enumeration(it, ts[0]), it.p.resolve(bases[0]) if bases else None, last == "enum_")
        v[0].put(v[1], c)
        return c
    if b in ("py::arg", "pybind11::arg", "arg", "pybind11::arg_v", "arg_v", "py::arg_v"):
        v = [rv(a) for a in args]
        return wrapper.Py("arg", v[0]) if len(v) == 1 and isinstance(v[0], str) else v[0] if len(v) == 1 else wrapper.Py("argument", (v[0], v[1])) if len(v) >= 2 else NotImplemented
    if last == "constructor" and "initimpl" in b or b.endswith("initimpl::factory"):
        return rv(args[0]) if args else NotImplemented
    if b.split("::")[0] in ("py", "pybind11") and last in ("return_value_policy", "keep_alive", "call_guard", "doc", "is_operator", "name", "module_local", "prepend", "arithmetic"):
        return Other()
    return NotImplemented


def enumeration(it, t):
    c = [k for k in it.p.enums if k == t or k.split("::")[-1] == t.split("::")[-1]]
    return c[0] if len(c) == 1 else t


def initializer(it, a, n):
    """py::init<...>() and py::init(factory)"""
    v = [rv(x) for x in a]
    if v:
        return overload(it, v[0], [], True)
    t = n.get("type", {}).get("qualType", "") if n else ""
    if "constructor<" not in t:
        return NotImplemented
    t = n["type"].get("desugaredQualType", t)
    return Overload("constructor", None, arguments(t[t.index("constructor<") + len("constructor<") : t.rindex(">")]), [], True)


class Session(uf.Gf2):
    """The module as its initialisation defines it, and Python programs that use it."""

    def __init__(self, rep, jobs=JOBS, classes=("Code", "Decoder", "UFDecoder", "UFHeuristic", "DecodingResult", "DecodingRunInformation", "DecodingSimulator"), light=False):
        self.light = light
        super().__init__(rep, jobs, list(classes), wrapper.INC)
        fs = self.p.funcs.get(("", INIT), [])
        if len(fs) != 1:
            raise AnalysisBroken("the definition of the Python module was not found")
        self.f = fs[0]
        it = self.world()
        self.m = Module()
        self.broken = None
        try:
            it.call(self.f, [self.m], None)
        except PyError as e:
            self.broken = ("throw", str(e))
        except (Undecided, CppThrow) as e:
            self.broken = ("undecided", str(e))
            self.why[str(e)] = 1
        self.classes = {c.cpp: c for c in self.m.names.values() if isinstance(c, Class)}

    def world(self, files=None):
        it = super().interp(steps=3_000_000)
        wrapper.install(it)
        it.light = self.light
        it.typed = lambda t, a: typed(it, t, a)
        it.functions["init"] = initializer
        it.variables.update(overload_cast=Cast(), const_=Other())
        for t in ("nlohmann::basic_json", "nlohmann::json", "json", "basic_json", "nlohmann::detail::json_ref", "json_ref"):
            it.models[t] = simul.construct_json
        it.files = files or {}
        it.seen = set()
        return it

    # -- values

    def kind(self, t):
        t = re.sub(r"\bconst\b|&|\bstd::|(?:__cxx11|pybind11|py)::", " ", t).strip()
        t = re.sub(r"\s+", "", re.sub(r",\s*allocator<.*?>(?=\s*[,>])", "", t)) if "<" in t else t
        while t in self.p.aliases:
            t = re.sub(r"\bstd::|\s", "", cpp.strip(self.p.aliases[t]))
        if "vector<vector<bool" in t or t == "gf2Mat":
            return "mat"
        if "vector<bool" in t or t == "gf2Vec":
            return "vec"
        if t.startswith("vector<"):
            return "ints"
        if "string" in t or "char*" in t.replace(" ", ""):
            return "str"
        if t in ("double", "float"):
            return "num"
        if t in ("object", "handle"):
            return "py"
        if t == "bool":
            return "bool"
        e = [k for k in self.p.enums if k.split("::")[-1] == t.split("::")[-1]]
        if e:
            return ("enum", e[0])
        q = self.p.resolve(t)
        if q in self.p.classes:
            return ("class", q)
        if re.fullmatch(r"(u?int\d*_t|size_t|unsigned.*|int|long.*|short|char)", t):
            return "int"
        raise Undecided(f"parameter of type {t}")

    def accepts(self, k, v):
        if k == "mat":
            return isinstance(v, Vec) and all(isinstance(rv(c), Vec) for c in v.c)
        if k in ("vec", "ints"):
            return isinstance(v, Vec) and all(not isinstance(rv(c), (Vec, str)) for c in v.c) and (k == "ints" or all(isinstance(rv(c), (bool, Bit)) for c in v.c))
        if k == "str":
            return isinstance(v, str)
        if k == "num":
            return isinstance(v, (int, float))
        if k == "int":
            return isinstance(v, int) and v >= 0
        if k == "bool":
            return isinstance(v, bool)
        if k == "py":
            return isinstance(v, wrapper.Py)
        if k[0] == "enum":
            return isinstance(v, Enum) and v.t.split("::")[-1] == k[1].split("::")[-1]
        return isinstance(v, Obj) and k[1] in self.p.mro(v.cls)

    def bound(self, o, args, kw, self_first):
        """The arguments of a call in the order of the parameters, or None if the overload does not take them."""
        types = o.types
        out = list(args)
        skip = 1 if self_first else 0
        names = dict((n, (i + skip, d)) for i, (n, d) in enumerate(o.names))
        want = len(types) + (1 if o.kind == "method" else 0)
        vals = dict(enumerate(out))
        for k, v in kw.items():
            if k not in names or names[k][0] in vals:
                return None
            vals[names[k][0]] = v
        for i, d in names.values():
            if i not in vals and d is not None:
                vals[i] = d[0]
        if sorted(vals) != list(range(want)):
            return None
        vals = [vals[i] for i in range(want)]
        rest = vals[1:] if o.kind == "method" else vals
        for i, (t, v) in enumerate(zip(types, rest)):
            k = self.kind(t)
            if not self.accepts(k, v):
                return None
            rest[i] = float(v) if k == "num" else v if isinstance(v, (Obj, Ext)) else clone(v)
        return [vals[0], *rest] if o.kind == "method" else rest

    def apply(self, it, o, args, cls=None):
        if o.kind == "method":
            this, rest = rv(args[0]), args[1:]
            if not isinstance(this, Obj):
                raise PyError("called without an object")
            name, sig = o.f[2], o.f[3]
            f = None
            for c in self.p.mro(this.cls):
                fs = [x for x in self.p.funcs.get((c, name), []) if len(cpp.params(x.decl)) == len(o.types)]
                if len(fs) > 1:
                    m = [x for x in fs if [self.kind(uf.pt(p)) for p in cpp.params(x.decl)] == [self.kind(t) for t in o.types]]
                    fs = m if len(m) == 1 else [x for x in fs if ("const" in sig.rsplit(")", 1)[-1]) == ("const" in x.decl["type"]["qualType"].rsplit(")", 1)[-1])]
                if len(fs) == 1:
                    f = fs[0]
                    break
                if fs:
                    raise Undecided(f"overloads of {name}")
            if f is None:
                raise Undecided(f"{name} has no definition")
            return it.call(f, rest, this)
        if o.kind == "function":
            return it.apply(o.f, args)
        fs = self.p.funcs.get((cls, cls), [])
        if not args:
            return it.construct(cls, [])
        ks = [self.kind(t) for t in o.types]
        fs = [f for f in fs if [self.kind(uf.pt(p)) for p in cpp.params(f.decl)] == ks]
        if len(fs) != 1:
            raise Undecided(f"constructor of {cls}")
        return it.construct(cls, args, sig=fs[0].decl["type"]["qualType"])

    def overloads(self, it, os, args, kw, self_first=False, cls=None):
        for o in os:
            a = self.bound(o, args, kw, self_first and (o.kind == "method" or not o.static))
            if a is not None:
                return self.apply(it, o, a, cls)
        raise PyError("no overload takes these arguments")

    # -- Python programs

    def cls(self, name):
        c = self.m.names.get(name)
        if not isinstance(c, Class):
            raise PyError(f"{name} is no class of the module")
        return c

    def mro(self, c):
        while c is not None:
            yield c
            c = self.classes.get(c.base) if c.base else None

    def new(self, it, name, *args):
        c = self.cls(name)
        if c.enum and args and isinstance(args[0], int):
            for v in self.p.enums.get(c.cpp, {}).items():
                if v[1] == args[0]:
                    return Enum(c.cpp, v[0], v[1])
            raise Undecided("a number that is no enumerator")
        return self.overloads(it, c.inits, list(args), {}, cls=c.cpp)

    def attr(self, o, name):
        c = self.classes.get(o.cls)
        if c is None:
            raise PyError(f"{o.cls} is no class of the module")
        for k in self.mro(c):
            if name in k.over:
                return "method", k.over[name]
            if name in k.props:
                return "prop", k.props[name]
        raise PyError(f"{c.name} has no attribute {name}")

    def call(self, it, o, name, *args, **kw):
        o = rv(o)
        kind, x = self.attr(o, name)
        if kind != "method":
            raise PyError(f"{name} is no method")
        first = not all(k.static for k in x)
        return self.overloads(it, x, [o, *args] if first else list(args), kw, first)

    def get(self, it, o, name):
        o = rv(o)
        kind, x = self.attr(o, name)
        if kind != "prop":
            raise PyError(f"{name} is no attribute")
        if isinstance(x[0], Overload):
            return self.overloads(it, [x[0]], [o], {}, True)
        if x[0] not in o.f:
            raise Undecided(f"field {x[0]}")
        return o.f[x[0]]

    def set(self, it, o, name, v):
        o = rv(o)
        kind, x = self.attr(o, name)
        if kind != "prop" or x[1] is False:
            raise PyError(f"{name} cannot be set")
        if isinstance(x[1], Overload):
            return self.overloads(it, [x[1]], [o, v], {}, True)
        fd = next((f for f, _t in self.p_fields(o.cls) if f["name"] == x[0]), None)
        if fd is not None and not self.accepts(self.kind(uf.pt(fd)), rv(v)):
            raise PyError(f"{name} does not take the value")
        o.f[x[0]].v = clone(rv(v))
        return None

    def p_fields(self, cls):
        return cpp.Interp(self.p).fields(cls)

    def function(self, it, name, *args, **kw):
        x = self.m.names.get(name)
        if not isinstance(x, list):
            raise PyError(f"{name} is no function of the module")
        return self.overloads(it, x, list(args), kw)

    def value(self, cls, name):
        c = self.cls(cls)
        if not c.enum or name not in c.values:
            raise PyError(f"{cls} has no value {name}")
        return c.values[name]

    def at(self):
        loc = self.f.decl.get("loc", {})
        loc = loc.get("expansionLoc", loc)
        return f"{SRC}:{loc.get('line', 1)}"


class Judge:
    def __init__(self, s, rep):
        self.s, self.rep, self.n = s, rep, 0

    def case(self, rule, construct, program, want):
        """want: a value, or a function that says what is wrong with the result"""
        self.n += 1
        s = self.s
        it = s.world()
        try:
            got = s.attempt(lambda: program(it))
        except PyError as e:
            got = ("throw", str(e))
        s.seen |= it.seen
        w = s.at()
        if got is None:
            self.rep.judge(None, rule, construct, w, "", "undecided")
            return
        if got[0] == "throw":
            self.rep.judge(False, rule, construct, w, f"raises {got[1]}"[:200], None)
            return
        if callable(want):
            try:
                msg = want(got[1])
            except Undecided as e:
                self.rep.judge(None, rule, construct, w, "", str(e))
                return
            except (KeyError, TypeError, IndexError) as e:
                msg = f"gives {got[1]} ({e})"
            self.rep.judge(not msg, rule, construct, w, msg or "", "as named")
            return
        self.rep.judge(got[1] == want, rule, construct, w, f"gives {got[1]}, not {want}"[:300], str(want)[:80])


def result(v):
    v = rv(v)
    if isinstance(v, simul.Json):
        return v.v
    return out(v)


def digits(t):
    return [int(x) for x in re.findall(r"[01]", t)] if isinstance(t, str) else t


def exports(s, rep):
    j = 0
    for n in EXPORTED:
        j += 1
        rep.judge(n in s.m.names, "exported-name", n, s.at(), f"the module has no {n}", "defined")
    for n in sorted(set(s.m.hidden)):
        rep.judge(False, "exported-name", n, s.at(), f"{n} is defined twice in the module: the later definition hides the other", None)
    if not s.m.hidden:
        rep.judge(True, "exported-name", "names of the module", s.at(), "", f"{len(s.m.names)} names")
    return j + 1


def enums(s, J):
    for cls, vals in NAMES.items():
        c = s.m.names.get(cls)
        if not isinstance(c, Class) or not c.enum:
            continue
        decl = s.p.enums.get(c.cpp, {})
        if not decl:
            continue
        want = {k: e for k, e in vals.items() if e in decl}
        # enumerators that were added: bound under a name that makes them
        for e in sorted(set(decl) - set(vals.values())):
            J.case("enumeration", f"{cls}: {e}", lambda it, e=e, c=c: [k for k, x in c.values.items() if x.n == e], lambda r, e=e: None if r else f"{e} has no name in Python")
        for name, e in want.items():
            what = f"{cls}.{name}"
            J.case("enumeration", what, lambda it, cls=cls, name=name: s.value(cls, name).n, e)
            J.case("enumeration", f"{cls}({name!r})", lambda it, cls=cls, name=name: rv(s.new(it, cls, name)).n, e)
            if decl[e] is not None:
                J.case("enumeration", f"{cls}('{decl[e]}')", lambda it, cls=cls, e=e, decl=decl: rv(s.new(it, cls, str(decl[e]))).n, e)
        for name, x in c.values.items():
            if name not in vals:
                J.case("enumeration", f"{cls}({name!r})", lambda it, cls=cls, name=name: rv(s.new(it, cls, name)).n, x.n)
        for name, v in s.m.names.items():
            if isinstance(v, Enum) and name in vals and vals[name] != v.n and name not in s.m.hidden:
                J.rep.judge(False, "enumeration", name, s.at(), f"pyqecc.{name} is {v.n}", None)

        def bad(it, cls=cls):
            try:
                return rv(s.new(it, cls, "no such name")).n
            except CppThrow:
                return "refused"

        J.case("enumeration", f"{cls}('no such name')", bad, "refused")


def codes(s, J):
    def text(m):
        return "\n".join(" ".join(map(str, r)) for r in m)

    for name, (X, Z) in CSS.items():
        n = len(X[0])
        for how in ("matrices", "files"):
            files = {"dir/x.txt": text(X), "dir/z.txt": text(Z)}

            def make(it, how=how, X=X, Z=Z, files=files):
                it.files = files
                return s.new(it, "Code", mat(X), mat(Z)) if how == "matrices" else s.new(it, "Code", "dir/x.txt", "dir/z.txt")

            c = f"the {name} code from {how}"
            J.case("code", f"{c}: checks", lambda it, make=make: (lambda o: (result(s.call(it, o, "getHx")), result(s.call(it, o, "getHz"))))(make(it)), (X, Z))
            J.case("code", f"{c}: n", lambda it, make=make: result(s.get(it, make(it), "n")), n)
            es = [[int(i == j) for i in range(n)] for j in range(n)][:4] + [[1] * n, [i % 2 for i in range(n)]]
            for e in es[:: 1 if how == "matrices" else 3]:
                J.case("code", f"{c}: get_x_syndrome({e})", lambda it, make=make, e=e: result(s.call(it, make(it), "get_x_syndrome", vec(e))), syndrome(Z, e))
                f = e[1:] + e[:1]
                J.case("code", f"{c}: get_syndrome({e}, {f})", lambda it, make=make, e=e, f=f: result(s.call(it, make(it), "get_syndrome", vec(e), vec(f))), syndrome(Z, e) + syndrome(X, f))
            bx, bz = uf.reduce(X), uf.reduce(Z)
            for e in [*X[:2], *Z[:2], es[-1], es[0]]:
                J.case("code", f"{c}: is_stabilizer({e}, {Z[-1]})", lambda it, make=make, e=e, Z=Z: result(s.call(it, make(it), "is_stabilizer", vec(e), vec(Z[-1]))), int(uf.inside(bx, e)))
                J.case("code", f"{c}: is_stabilizer({X[-1]}, {e})", lambda it, make=make, e=e, X=X: result(s.call(it, make(it), "is_stabilizer", vec(X[-1]), vec(e))), int(uf.inside(bz, e)))
                J.case("code", f"{c}: is_stabilizer({e})", lambda it, make=make, e=e: result(s.call(it, make(it), "is_stabilizer", vec(e))), int(uf.inside(bx, e)))
                J.case("code", f"{c}: is_stabilizer({X[-1] + e})", lambda it, make=make, e=e, X=X: result(s.call(it, make(it), "is_stabilizer", vec(X[-1] + e))), int(uf.inside(bz, e)))

                def xstab(it, make=make, e=e):
                    o = make(it)
                    return result(s.call(it, o, "is_x_stabilizer", vec(e))), result(it.run(o, "isXStabilizer", [vec(e)]))

                J.case("code", f"{c}: is_x_stabilizer({e})", xstab, lambda r: None if r[0] == r[1] else f"gives {r[0]}, the code says {r[1]}")

            def texts(it, make=make):
                o = make(it)
                a, b = s.call(it, o, "json"), it.run(o, "to_json", [])
                c, d = s.call(it, o, "__repr__"), it.run(o, "toString", [])
                return (result(a), rv(c)) == (result(b), rv(d))

            J.case("code", f"{c}: json and repr", texts, True)

        def swap(it, X=X, Z=Z):
            o = s.new(it, "Code", mat(X), mat(X))
            s.call(it, o, "setHz", mat(Z))
            a = result(s.call(it, o, "getHx")), result(s.call(it, o, "getHz"))
            o = s.new(it, "Code", mat(Z), mat(Z))
            s.call(it, o, "setHx", mat(X))
            return a, (result(s.call(it, o, "getHx")), result(s.call(it, o, "getHz")))

        J.case("code", f"the checks of the {name} code set one by one", swap, ((X, Z), (X, Z)))
    for name, H in (("Steane", STEANE), ("ring", RING)):
        for how in ("matrix", "file"):
            def one(it, H=H, how=how):
                it.files = {"h.txt": text(H)}
                o = s.new(it, "Code", mat(H) if how == "matrix" else "h.txt")
                return result(s.call(it, o, "getHz")), result(s.get(it, o, "n")), [result(s.call(it, o, "get_x_syndrome", vec(e))) for e in H]

            J.case("code", f"one {name} matrix from a {how}", one, (H, len(H[0]), [syndrome(H, e) for e in H]))

    def numbers(it):
        o = s.new(it, "Code", mat(STEANE))
        for a, v in (("n", 11), ("k", 12), ("d", 13)):
            s.set(it, o, a, v)
        return [result(s.get(it, o, a)) for a in ("n", "k", "d")], [result(it.run(o, g, [])) for g in ("getN", "getK") if s.p.find("Code", g)]

    J.case("code", "n, k and d set and read", numbers, lambda r: None if r[0] == [11, 12, 13] and r[1] == [11, 12][: len(r[1])] else f"gives {r}")
    J.case("code", "Code()", lambda it: rv(s.new(it, "Code")).cls, "Code")


def results(s, J):
    VALUES = {"decoding_time": (41, "decodingTime"), "estim_vec_idxs": (uf.ints([5, 2]), None), "estimate": (vec([1, 0, 1, 1]), None)}

    def filled(it):
        r = s.new(it, "DecodingResult")
        for k, (v, _f) in VALUES.items():
            s.set(it, r, k, v)
        return r

    J.case("result", "attributes of a result set and read", lambda it: (lambda r: {k: result(s.get(it, r, k)) for k in VALUES})(filled(it)), {k: result(v) for k, (v, _) in VALUES.items()})

    def js(it):
        return result(s.call(it, filled(it), "json")), rv(s.call(it, filled(it), "__repr__"))

    def jcheck(r):
        d, t = r
        if d.get("decodingTime(ms)") != 41 or digits(d.get("estimate")) != [1, 0, 1, 1]:
            return f"json gives {d}"
        return None if json.loads(t) == d else f"repr gives {t}"

    J.case("result", "json and repr of a result", js, jcheck)
    cases = [("SUCCESS", "success"), ("FAILURE", "failure")]
    KEYS = ("physicalErrR", "codeSize", "error", "syndrome", "status", "result")

    def args(it, k, status):
        r = filled(it)
        a = [0.125, 17, vec([1, 1, 0]), vec([0, 1, 0, 1])]
        if status:
            e = [x for x in s.cls("DecodingResultStatus").values.values() if x.n == status]
            a.append(e[0] if e else Enum(s.cls("DecodingResultStatus").cpp, status, s.p.enums[s.cls("DecodingResultStatus").cpp][status]))
        return [*a, r]

    def info(it, o):
        d = {k: s.get(it, o, k) for k in KEYS}
        r = rv(d.pop("result"))
        st = rv(d.pop("status"))
        return {k: result(v) for k, v in d.items()}, getattr(st, "n", st), {k: result(s.get(it, r, k)) for k in VALUES}

    base = ({"physicalErrR": 0.125, "codeSize": 17, "error": [1, 1, 0], "syndrome": [0, 1, 0, 1]},)
    res = {k: result(v) for k, (v, _) in VALUES.items()}
    for st, word in cases:
        J.case("run-information", f"constructed with {st}", lambda it, st=st: info(it, s.new(it, "DecodingRunInformation", *args(it, 6, st))), (*base, st, res))

        def setall(it, st=st):
            o = s.new(it, "DecodingRunInformation")
            for k, v in zip(KEYS, args(it, 6, st)):
                s.set(it, o, k, v)
            return info(it, o)

        J.case("run-information", f"attributes set to {st}", setall, (*base, st, res))

        def texts(it, st=st):
            o = s.new(it, "DecodingRunInformation", *args(it, 6, st))
            return result(s.call(it, o, "json")), rv(s.call(it, o, "__repr__"))

        def check(r, word=word):
            d, t = r
            want = {"physicalErrRate": 0.125, "codeSize": 17, "error": [1, 1, 0], "syndrome": [0, 1, 0, 1], "decodingStatus": word}
            got = {k: digits(d.get(k)) if isinstance(w, list) else d.get(k) for k, w in want.items()}
            if got != want or digits(d.get("decodingResult", {}).get("estimate")) != [1, 0, 1, 1]:
                return f"json gives {d}"
            return None if json.loads(t) == d else f"repr gives {t}"

        J.case("run-information", f"json and repr with {st}", texts, check)
    J.case("run-information", "constructed without a status", lambda it: (lambda r: (r[0], r[2]))(info(it, s.new(it, "DecodingRunInformation", *args(it, 5, None)))), (*base, res))


def decoding(s, J):
    H = STEANE
    n = len(H[0])
    for cls in ("UFHeuristic", "UFDecoder"):
        for g in NAMES["GrowthVariant"]:
            def growth(it, cls=cls, g=g):
                d = s.new(it, cls)
                s.call(it, d, "set_growth", s.value("GrowthVariant", g))
                a = rv(s.get(it, d, "growth")).n, rv(it.run(rv(d), "getGrowth", [])).n
                d = s.new(it, cls)
                s.set(it, d, "growth", s.value("GrowthVariant", g))
                return [*a, rv(s.get(it, d, "growth")).n, rv(it.run(rv(d), "getGrowth", [])).n]

            J.case("decoder", f"{cls}: growth {g}", growth, lambda r, g=g: None if set(r) == {NAMES["GrowthVariant"][g]} else f"gives {r}")
        for e in [[int(i == k) for i in range(n)] for k in (0, 3, 6)] + [[0] * n]:
            sy = syndrome(H, e)

            def decode(it, cls=cls, sy=sy):
                code = s.new(it, "Code", mat(H))
                d = s.new(it, cls)
                s.call(it, d, "set_code", code)
                s.call(it, d, "decode", vec(sy))
                r = s.get(it, d, "result")
                v = result(s.get(it, r, "estimate")), result(s.get(it, r, "estim_vec_idxs")), result(s.get(it, r, "decoding_time"))
                ran = {c for c in ("UFHeuristic", "UFDecoder") if f"{c}::decode" in it.seen}
                again = None
                if cls == "UFHeuristic":
                    s.call(it, d, "reset")
                    s.call(it, d, "decode", vec(syndrome(H, [0] * n)))
                    again = result(s.get(it, s.get(it, d, "result"), "estimate"))
                return v, ran, again

            def check(r, sy=sy, cls=cls):
                (est, idx, _t), ran, again = r
                if ran != {cls}:
                    return f"decoded by {sorted(ran)}"
                if len(est) != n or syndrome(H, est) != sy:
                    return f"the estimate {est} does not explain the syndrome {sy}"
                if sorted(idx) != ones(est):
                    return f"the indices {idx} are not those of {est}"
                if again is not None and any(again):
                    return f"{again} for no syndrome after a reset"
                return None

            J.case("decoder", f"{cls}: decoding {sy}", decode, check)
        J.case("decoder", f"{cls} is a Decoder", lambda it, cls=cls: any(c.name == "Decoder" for c in s.mro(s.cls(cls))), True)

    def css(it):
        X, Z = CSS["Shor"]
        d = s.new(it, "UFHeuristic")
        s.call(it, d, "set_code", s.new(it, "Code", mat(X), mat(Z)))
        c = rv(rv(it.run(rv(d), "getCode", [])).to)
        return result(s.call(it, c, "getHx")), result(s.call(it, c, "getHz"))

    J.case("decoder", "the code of a decoder", css, tuple(CSS["Shor"]))

    def setres(it):
        out = []
        for cls in ("Decoder", "UFHeuristic", "UFDecoder"):
            d, r = s.new(it, cls), s.new(it, "DecodingResult")
            s.set(it, r, "decoding_time", 5)
            s.set(it, d, "result", r)
            out.append(result(s.get(it, s.get(it, d, "result"), "decoding_time")))
        return out

    J.case("decoder", "the result of a decoder set and read", setres, [5, 5, 5])


def simulation(s, J):
    text = iter("abcdefgh")
    for name, target in (("simulate_wer", "simulateWER"), ("simulate_avg_runtime", "simulateAverageRuntime")):
        sig = ["str", "str", "num", "num", "int", "code", "num", "type"] if name == "simulate_wer" else ["str", "str", "num", "int", "str", "int", "type"]
        for how in ("class", "instance"):
            def run(it, name=name, target=target, sig=sig, how=how):
                log = []
                for t in ("simulateWER", "simulateAverageRuntime"):
                    it.functions[t] = lambda i, a, n, t=t: log.append((t, [rv(x) for x in a]))
                args = []
                for k, x in enumerate(sig):
                    args.append({"str": f"file{k}", "num": 0.5 + k, "int": 10 + k, "type": s.value("DecoderType", "ORIGINAL_UF")}.get(x) if x != "code" else s.new(it, "Code", mat(STEANE)))
                c = s.cls("DecodingSimulator")
                if how == "instance":
                    s.call(it, s.new(it, "DecodingSimulator"), name, *args)
                else:
                    k, x = next((k for k in s.mro(c) if name in k.over), None), None
                    if k is None:
                        raise PyError(f"DecodingSimulator has no {name}")
                    s.overloads(it, k.over[name], args, {})
                return log == [(target, args)] or [log[:1] and log[0][0], len(log)]

            J.case("simulator", f"{name} through the {how}", run, True)
    del text


def sampling(s, J):
    for n in (0, 1, 4, 9):
        for p in (0.0, 1.0, 1, 0):
            J.case("sampling", f"sample_iid_pauli_err({n}, {p})", lambda it, n=n, p=p: result(s.function(it, "sample_iid_pauli_err", n, p)), [int(p)] * n)


def schemes(s, J):
    circ = wrapper.Py("str", "dir/file.qasm")

    def want(c, f):
        return lambda r: None if r == repr(([("file", "dir/file.qasm"), (c, f)], "OpenQASM2")) else f"gives {r}"

    def text(r):
        r = rv(r)
        if not isinstance(r, wrapper.Py) or r.kind != "dict":
            raise Undecided("result")
        return dict(r.value).get("circ")

    for c in wrapper.SCHEMES:
        J.case("apply-ecc", f"apply_ecc(file, {c!r})", lambda it, c=c: text(s.function(it, "apply_ecc", circ, c)), want(c, 100))
        J.case("apply-ecc", f"apply_ecc(file, {c!r}, 7)", lambda it, c=c: text(s.function(it, "apply_ecc", circ, c, 7)), want(c, 7))
        J.case("apply-ecc", f"apply_ecc(circuit_name=, ecc_name={c!r}, ecc_frequency=3)",
               lambda it, c=c: text(s.function(it, "apply_ecc", ecc_name=c, ecc_frequency=3, circuit_name=circ)), want(c, 3))


def p32(rep):
    s = Session(rep)
    if s.broken:
        rep.judge(None if s.broken[0] == "undecided" else False, "exported-name", "the module", s.at(), s.broken[1], s.broken[1])
        if s.broken[0] == "undecided":
            return
    n = exports(s, rep)
    J = Judge(s, rep)
    for part in (enums, codes, results, decoding, simulation, sampling, schemes):
        try:
            part(s, J)
        except PyError as e:
            rep.judge(False, "exported-name", part.__name__, s.at(), str(e), None)
    rep.count("uses of the module", n + J.n, 150)
    s.close()
