"""Rules for result accounting and data files (P17) and reproducibility from the seed (P18)."""

from __future__ import annotations

import itertools
import math
import os.path
from pathlib import PurePosixPath

import analog
import ft
import prep
from analog import AN, Decoders, Ev2, Obj, fnw, snap
from common import *
from ft import K, M, opt
from pyabs import HObj, Out, State, TooBig, flat_events, trace_list
from terms import NONE, T, Term, Sym, cval, is_const, show
from teval import ShapeError, Unsupported

S = Sym
DU, SU = AN + "utils.data_utils", AN + "utils.simulation_utils"


# ---------------------------------------------------------------- a file tree as known data


def seq(eng, st, items):
    return eng.new(st, HObj("list", segs=tuple(("item", x) for x in items)))


class Files:
    """pathlib, os.path and json over a given tree: directories are dicts, files are a decoded document, a text (not JSON) or None (empty)."""

    KEY = T("files")
    CWD = "/work"

    def __init__(self, tree):
        self.tree = tree

    # paths
    def absolute(self, p):
        return os.path.normpath(os.path.join(self.CWD, p))

    def files(self, st):
        return st.ov.get((self.KEY, "#tree"), self.tree)

    def node(self, st, p):
        """The entry at the path, or KeyError."""
        x = self.files(st)
        for part in PurePosixPath(self.absolute(p)).parts[1:]:
            if not isinstance(x, dict):
                raise KeyError(p)
            x = x[part]
        return x

    def put(self, st, p, v):
        parts = PurePosixPath(self.absolute(p)).parts[1:]

        def go(x, i):
            x = dict(x)
            x[parts[i]] = v if i == len(parts) - 1 else go(x.get(parts[i], {}), i + 1)
            return x

        st.ov = dict(st.ov)
        st.ov[(self.KEY, "#tree")] = go(self.files(st), 0)

    def log(self, st, *entry):
        st.ov = dict(st.ov)
        st.ov[(self.KEY, "#log")] = (*st.ov.get((self.KEY, "#log"), ()), entry)

    @classmethod
    def written(cls, st):
        return st.ov.get((cls.KEY, "#log"), ())

    def string(self, v):
        if v.op == "ext" and v.args[0] in ("os.pardir", "os.curdir", "os.sep", "os.path.pardir", "os.path.sep"):
            return K(getattr(os, v.args[0].split(".")[-1]))
        return v.args[0] if v.op == "path" else None

    def binop(self, eng, st, op, a, b):
        if op == "Div" and "path" in (a.op, b.op):
            x, y = (self.string(v) or v for v in (a, b))
            if all(is_const(v) and isinstance(cval(v), str) for v in (x, y)):
                return T("path", K(str(PurePosixPath(cval(x)) / cval(y))))
        return None

    def raises(self, st, name):
        st.exc = T("exc", name)
        return T("undef")

    def exists(self, st, p):
        try:
            return self.node(st, p)
        except KeyError:
            return False

    def attr(self, eng, st, b, name):
        if b.op != "path":
            return None
        p = PurePosixPath(cval(b.args[0]))
        if name in ("suffix", "name", "stem"):
            return K(getattr(p, name))
        if name == "parent":
            return T("path", K(str(p.parent)))
        if name == "parts":
            return T("tuple", *map(K, p.parts))
        return None

    def index(self, eng, st, b, i):
        return None

    def items(self, eng, st, v):
        """A text file read line by line; its lines are documents."""
        if v.op == "file":
            x = self.exists(st, cval(v.args[0]))
            if x not in (None, False) and not isinstance(x, dict) and is_const(x) and isinstance(cval(x), str):  # plain text
                return [K(s) for s in cval(x).splitlines(keepends=True)]
            return [T("text", d) for d in x.args] if x not in (None, False) and not isinstance(x, dict) and x.op == "lines" else None
        return None

    def entries(self, st, p):
        x = self.exists(st, p)
        return list(x) if isinstance(x, dict) else None

    def builtin(self, eng, st, name, V, kw, node):
        f = eng.val(st, kw["file"]) if name == "print" and kw.get("file") is not None else NONE
        if f.op == "file" and len(V) == 1:
            v = eng.val(st, V[0])
            return self.write(eng, st, f, v.args[0] if v.op == "json" else v)
        if name == "str" and len(V) == 1:
            return self.string(V[0])
        if name == "open" and V:
            return self.open(st, self.string(V[0]) or V[0], V[1:], kw)
        if name == "next" and V and V[0].op == "list" and V[0].args:
            return None
        if name == "sorted" and V and V[0].op in ("list", "tuple") and all(v.op == "path" for v in V[0].args) and "key" not in kw:
            return seq(eng, st, sorted(V[0].args, key=lambda v: PurePosixPath(cval(v.args[0]))))
        if name == "list" and len(V) == 1 and V[0].op in ("list", "tuple") and any(v.op == "path" for v in V[0].args):
            return seq(eng, st, V[0].args)
        return None

    def open(self, st, p, V, kw):
        mode = kw.get("mode", V[0] if V else K("r"))
        if not (is_const(p) and is_const(mode)):
            return None
        p, mode = cval(p), cval(mode)
        x = self.exists(st, p)
        if isinstance(x, dict):
            return self.raises(st, "IsADirectoryError")
        if "r" in mode and x is False:
            return self.raises(st, "FileNotFoundError")
        if "x" in mode and x is not False:
            return self.raises(st, "FileExistsError")
        if ("w" in mode or "x" in mode or "a" in mode) and not self.home(st, p):
            return self.raises(st, "FileNotFoundError")
        if "w" in mode:
            self.put(st, p, None)
        return T("file", K(self.absolute(p)), K(mode))

    def home(self, st, p):
        """The directory of the path exists."""
        return isinstance(self.exists(st, os.path.dirname(self.absolute(p))), dict)

    def read(self, st, p):
        x = self.exists(st, p)
        if x is False or isinstance(x, dict):
            return self.raises(st, "FileNotFoundError")
        return T("text", x) if x is not None else K("")

    def loads(self, eng, st, v):
        if v.op == "text" and v.args[0].op != "lines":
            return self.fresh(eng, st, v.args[0])
        return self.raises(st, "json.decoder.JSONDecodeError")

    def fresh(self, eng, st, t):
        """A new mutable object for the decoded document."""
        if t.op == "jdict":
            return eng.new(st, HObj("dict", segs=tuple((p.args[0], self.fresh(eng, st, p.args[1])) for p in t.args)))
        if t.op == "jlist":
            return eng.new(st, HObj("list", segs=tuple(("item", self.fresh(eng, st, v)) for v in t.args)))
        return t

    def write(self, eng, st, f, v):
        if "r" in cval(f.args[1]) and "+" not in cval(f.args[1]):
            return self.raises(st, "UnsupportedOperation")
        self.log(st, cval(f.args[0]), cval(f.args[1]), v)
        self.put(st, cval(f.args[0]), T("written"))
        return NONE

    def call(self, eng, st, path, recv, V, kw, node):
        last = path.split(".")[-1]
        if recv is None:
            if path in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
                xs = [self.string(v) or v for v in V]
                if all(is_const(x) and isinstance(cval(x), str) for x in xs):
                    return T("path", K(str(PurePosixPath(*[cval(x) for x in xs]))))
                return None
            if path == "json.load" and V and V[0].op == "file":
                x = self.exists(st, cval(V[0].args[0]))
                return self.loads(eng, st, T("text", x) if x not in (None, False) and not isinstance(x, dict) else K(""))
            if path == "json.loads" and V:
                return self.loads(eng, st, V[0]) if V[0].op == "text" or V[0] is K("") else None
            if path == "json.dump" and len(V) > 1 and V[1].op == "file":
                return self.write(eng, st, V[1], snap(eng, st, V[0]))
            if path == "json.dumps" and V:
                return T("json", snap(eng, st, V[0]))
            if path.startswith("os.") and V and last in ("listdir", "isdir", "isfile", "exists", "join", "basename", "dirname", "abspath", "realpath", "normpath", "splitext", "fspath"):
                xs = [self.string(v) or v for v in V]
                if not all(is_const(x) and isinstance(cval(x), str) for x in xs):
                    return None
                xs = [cval(x) for x in xs]
                if last == "listdir":
                    e = self.entries(st, xs[0])
                    return seq(eng, st, [K(x) for x in e]) if e is not None else self.raises(st, "FileNotFoundError")
                if last in ("isdir", "isfile", "exists"):
                    return self.test(st, xs[0], last)
                if last in ("abspath", "realpath"):
                    return K(self.absolute(xs[0]))
                if last == "fspath":
                    return K(xs[0])
                r = getattr(os.path, last)(*xs)
                return T("tuple", *map(K, r)) if isinstance(r, tuple) else K(r)
            if path in ("os.makedirs", "os.mkdir") and V:
                x = self.string(V[0]) or V[0]
                if not (is_const(x) and isinstance(cval(x), str)):
                    return None
                if self.exists(st, cval(x)) is False:
                    if path == "os.mkdir" and not self.home(st, cval(x)):
                        return self.raises(st, "FileNotFoundError")
                    self.put(st, cval(x), {})
                elif path == "os.mkdir" or kw.get("exist_ok", V[2] if len(V) > 2 else K(False)) is K(False):
                    return self.raises(st, "FileExistsError")
                return NONE
            if path == "os.remove":
                return None
            return None
        name = path[1:]
        if recv.op == "file":
            if name in ("__enter__",):
                return recv
            if name in ("close", "flush", "__exit__"):
                return NONE
            if name == "write" and V:
                return self.write(eng, st, recv, V[0].args[0] if V[0].op == "json" else V[0])
            if name == "readlines":
                x = self.items(eng, st, recv)
                return seq(eng, st, x) if x is not None else None
            if name == "read":
                return self.read(st, cval(recv.args[0]))
            return None
        if recv.op == "text" and name in ("strip", "rstrip", "lstrip"):
            return recv
        if recv.op != "path":
            return None
        p = cval(recv.args[0])
        pp = PurePosixPath(p)
        if name in ("iterdir", "glob"):
            e = self.entries(st, p)
            if e is None:
                return self.raises(st, "FileNotFoundError")
            if name == "glob":
                pat = cval(V[0]) if V and is_const(V[0]) else None
                if not isinstance(pat, str) or "/" in pat or "**" in pat:
                    return None
                e = [x for x in e if PurePosixPath(x).match(pat)]
            return seq(eng, st, [T("path", K(str(pp / x))) for x in e])
        if name in ("is_dir", "is_file", "exists"):
            return self.test(st, p, name)
        if name in ("resolve", "absolute"):
            return T("path", K(self.absolute(p)))
        if name == "joinpath":
            xs = [self.string(v) or v for v in V]
            return T("path", K(str(pp.joinpath(*[cval(x) for x in xs])))) if all(is_const(x) for x in xs) else None
        if name in ("with_suffix", "with_name", "with_stem") and len(V) == 1 and is_const(V[0]):
            return T("path", K(str(getattr(pp, name)(cval(V[0])))))
        if name == "as_posix" or name == "__str__" or name == "__fspath__":
            return K(p)
        if name == "open":
            return self.open(st, K(p), V, kw)
        if name == "mkdir":
            if self.exists(st, p) is False:
                if not self.home(st, p) and kw.get("parents", V[1] if len(V) > 1 else K(False)) in (K(False), K(None)):
                    return self.raises(st, "FileNotFoundError")
                self.put(st, p, {})
            elif kw.get("exist_ok", V[2] if len(V) > 2 else K(False)) is K(False):
                return self.raises(st, "FileExistsError")
            return NONE
        if name == "touch":
            ok = kw.get("exist_ok", V[1] if len(V) > 1 else K(True))
            if self.exists(st, p) is False:
                if not self.home(st, p):
                    return self.raises(st, "FileNotFoundError")
                self.put(st, p, None)
            elif ok is not K(True):
                return self.raises(st, "FileExistsError")
            self.log(st, self.absolute(p), "touch", NONE)
            return NONE
        if name == "write_text" and V:
            self.put(st, p, None)
            return self.write(eng, st, T("file", K(self.absolute(p)), K("w")), V[0].args[0] if V[0].op == "json" else V[0])
        if name == "read_text":
            return self.read(st, p)
        return None

    def test(self, st, p, what):
        x = self.exists(st, p)
        return K(x is not False if what == "exists" else isinstance(x, dict) if "dir" in what else x is not False and not isinstance(x, dict))


class Chain:
    """The first model that knows the operation."""

    def __init__(self, *models):
        self.models = models
        for name in ("string", "binop", "builtin", "items", "compare"):
            if any(hasattr(m, name) for m in models):
                setattr(self, name, lambda *a, name=name: self.ask(name, *a))

    def ask(self, name, *a):
        for m in self.models:
            r = getattr(m, name)(*a) if hasattr(m, name) else None
            if r is not None:
                return r
        return None

    def attr(self, *a):
        return self.ask("attr", *a)

    def index(self, *a):
        return self.ask("index", *a)

    def call(self, *a):
        return self.ask("call", *a)


def jdoc(x):
    """A Python document as decoded JSON."""
    if isinstance(x, dict):
        return T("jdict", *[T("pair", K(k), jdoc(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return T("jlist", *[jdoc(v) for v in x])
    return K(x) if x is not None else NONE


# ---------------------------------------------------------------- reference arithmetic


def rates(succ, runs, k):
    """(logical error rate, its error bar, word error rate, admissible error bars of it)."""
    ler = 1 - succ / runs
    eb = math.sqrt((1 - ler) * ler / runs)
    wer = 1 - (1 - ler) ** (1 / k)
    # propagated error bar; the published reference implementation evaluates the derivative at the error bar instead of at the rate
    bars = []
    for x in (ler, eb):
        try:
            bars.append(eb * (1 - x) ** (1 / k - 1) / k)
        except ZeroDivisionError:
            bars.append(math.inf)
    return ler, eb, wer, bars


def near(a, b):
    return isinstance(a, (int, float)) and (a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)))


def number(v):
    """The number a term of constants denotes, or None."""
    if is_const(v):
        x = cval(v)
        return x if isinstance(x, (int, float)) and not isinstance(x, bool) else None
    try:
        return Ev2({}, {})(v)
    except (Unsupported, ShapeError, ZeroDivisionError, OverflowError, TypeError, ValueError, RecursionError):
        return None


def is_rates(vals, want):
    """Do four terms denote the rates?"""
    got = [number(v) for v in vals]
    if None in got or any(isinstance(x, complex) for x in got):
        return None
    return all(near(g, w) for g, w in zip(got[:3], want[:3])) and any(near(got[3], w) for w in want[3])


def document(v):
    """A Python document of a term: dicts and lists of numbers, strings and terms."""
    if v.op in ("dict", "jdict"):
        out = {}
        for p in v.args:
            if not is_const(p.args[0]):
                raise Unsupported("key")
            out[cval(p.args[0])] = document(p.args[1])
        return out
    if v.op in ("list", "tuple", "jlist"):
        return [document(x) for x in v.args]
    x = number(v)
    if x is not None:
        return x
    return cval(v) if is_const(v) else v


def evaluate(rep, fi, args, model=None, **kw):
    """One run of the function on known data: (state, value) or None with the reason."""
    eng = Engine(program(), **{"explicit": True, "unroll": 30, "limit": 60, "max_steps": 60000, **kw}, model=model)
    eng.exact = True
    st = State()
    try:
        res = eng.start(fi, args=prep.with_defaults(fi, args(eng, st)), state=st)
    except (TooBig, RecursionError) as e:
        return None, f"too large {e}"
    rep.analysed(*eng.functions_seen, fi.qual)
    if len(res) != 1:
        return None, f"{len(res)} paths"
    s, v = res[0]
    for e in flat_events(trace_list(s.trace)):
        if e.kind == "unbound":
            return None, f"raises UnboundLocalError: {e.d['name']}"
    if s.exc is not None:
        return None, "raises " + str(s.exc.args[0])
    return (s, snap(eng, s, v)), ""


COUNTS = [(3, 4), (9, 10), (10, 10), (0, 5), (57, 60), (1, 2), (999, 1000)]


def p17(rep):
    rate_rules(rep)
    convergence(rep)
    run_rules(rep)


def p19(rep):
    merging(rep)
    paths_rule(rep)
    loading(rep)


def rate_rules(rep):
    n = 0
    for mod, name, params in ((DU, "calculate_error_rates", True), (DU, "_update_error_rates", False)):
        fi = opt(mod, name) if name.startswith("_") else fn(mod, name)
        if fi is None:
            continue
        for succ, runs in COUNTS:
            for k in (1, 2, 5):
                def args(eng, st, succ=succ, runs=runs, k=k):
                    return dict(zip(fi.params, (K(succ), K(runs), eng.new(st, HObj("dict", segs=((K("n"), K(7 + k)), (K("k"), K(k))))) if params else K(k))))

                r, why = evaluate(rep, fi, args)
                what = f"{name}: {succ} successes in {runs} runs, k={k}"
                if r is None:
                    rep.judge(False if why.startswith("raises") and succ else None, "error-rates", what, fi.where(), why, why)
                    continue
                v = r[1]
                ok = is_rates(v.args, rates(succ, runs, k)) if v.op in ("tuple", "list") and len(v.args) == 4 else None
                n += ok is not None
                rep.judge(ok, "error-rates", what, fi.where(), f"the rates are not (1-s/r, sqrt(p(1-p)/r), 1-(1-p)^(1/k), its error bar): {show(v)[:200]}", show(v)[:80])
    rep.count("error rate evaluations", n, 20)
    fi = fn(DU, "replace_inf")
    for lst in ([1.0, 2.0, math.inf], [math.inf, math.inf, 0.0], [0.5], [], [-math.inf, 1]):
        r, why = evaluate(rep, fi, lambda eng, st: {fi.params[0]: eng.new(st, HObj("list", segs=tuple(("item", K(x)) for x in lst)))})
        want = ["i" if math.isinf(x) else x for x in lst]
        got = document(r[1]) if r is not None else None
        ok = (got == want if isinstance(got, list) and all(isinstance(x, (int, float, str)) for x in got) else None) if r is not None else (False if why.startswith("raises") else None)
        rep.judge(ok, "bias-output", f"replace_inf({lst})", fi.where(), f"infinite entries become 'i', the others stay: {got} {why}", str(got))


def convergence(rep):
    """is_converged: both relative error bars below the precision, an error bar of zero never."""
    n = 0

    def side(succ, runs, k, prec):
        _l, _e, wer, bars = rates(succ, runs, k)
        rs = {bool(b != 0.0 and b / wer < prec) for b in bars if not math.isinf(b)}
        return rs.pop() if len(rs) == 1 else None

    cases = [(sx, sz, r, k, p) for r in (10, 100, 1000) for sx, sz in ((r // 2, r // 2), (r - 1, r // 2), (r // 2, r - 1), (r, r // 2), (r, r), (r // 2, r), (9 * r // 10, 8 * r // 10))
             for k in (1, 3) for p in (0.05, 0.4, 2.0)]
    fi, one = fn(DU, "is_converged"), opt(DU, "_check_convergence")
    for sx, sz, r, k, p in cases:
        a, b = side(sx, r, k, p), side(sz, r, k, p)
        if a is None or b is None:
            continue

        def params(eng, st, k=k):
            return eng.new(st, HObj("dict", segs=((K("n"), K(9)), (K("k"), K(k)))))

        for f, args, want in ((fi, (K(sx), K(sz), K(r)), a and b), (one, (K(sx), K(r)), a)):
            if f is None or len(f.params) != len(args) + 2:
                continue
            res, why = evaluate(rep, f, lambda eng, st, f=f, args=args: dict(zip(f.params, (*args, params(eng, st), K(p)))))
            v = res[1] if res is not None else None
            got = (bool(cval(v)) if is_const(v) else False if v is NONE else None) if v is not None else None
            n += got is not None
            rep.judge((got == want) if got is not None else (False if why.startswith("raises") else None), "convergence", f"{f.name}: {[cval(x) for x in args]} k={k} precision={p}", f.where(),
                      f"a result counts as converged exactly if its relative error bars are below the precision: got {got}, expected {want} {why}", why)
    rep.count("convergence decisions", n, 60)


# ---------------------------------------------------------------- merging


def shot(runs, x=None, z=None, k=2, **extra):
    d = {"code_K": k, "code_N": 9, "nr_runs": runs, "pers": 0.1, "codename": "code", **extra}
    for s, c in (("x", x), ("z", z)):
        if c is not None:
            l, e, w, b = rates(c, runs, k)
            d.update({f"{s}_ler": l, f"{s}_ler_eb": e, f"{s}_wer": w, f"{s}_wer_eb": b[0], f"{s}_success_cnt": c})
    return d


def merged(data, sides, runs_key):
    """What the merged data must say: {key: number or list of admissible numbers}; None: nothing to merge."""
    out = {}
    for s in sides:
        d = [x for x in data if f"{s}_success_cnt" in x]
        if not d:
            continue
        runs, succ = sum(x["nr_runs"] for x in d), sum(x[f"{s}_success_cnt"] for x in d)
        l, e, w, b = rates(succ, runs, d[0]["code_K"])
        out.update({runs_key(s): runs, f"{s}_success_cnt": succ, f"{s}_ler": l, f"{s}_ler_eb": e, f"{s}_wer": w, f"{s}_wer_eb": b})
        out.update({k: d[0][k] for k in ("code_K", "code_N", "pers", "codename")})
    return out


def says(got, want):
    """True/False/None and the first key that differs."""
    if not isinstance(got, dict):
        return None, "not a dictionary"
    if not want:
        return not got, "empty"
    for k, w in want.items():
        if k not in got:
            return False, f"{k} is missing"
        g = got[k]
        if isinstance(g, Term):
            return None, k
        ok = any(near(g, x) for x in w) if isinstance(w, list) else near(g, w) if isinstance(w, (int, float)) else g == w
        if not ok:
            return False, f"{k} is {g}, expected {w}"
    return True, ""


BOTH = [shot(10, 5, 6), shot(20, 11, 19), shot(30, 30, 14)]
XS, ZS = [shot(10, x=5), shot(20, x=11)], [shot(40, z=6), shot(20, z=19), shot(5, z=1)]
nr = lambda _s: "nr_runs"
sided = lambda s: f"{s}_runs"
FOLDERS = {"both": BOTH, "single": BOTH[:1], "x": XS, "z": ZS, "disjoint": [XS[0], *ZS, XS[1]], "mixed": [BOTH[0], XS[1], ZS[0], BOTH[1]], "mixed2": [ZS[0], BOTH[0], XS[0]], "none": []}


def merging(rep):
    n = 0
    for name, sides, key, folders in (("merge_datasets", "xz", nr, ("both", "single", "none")), ("_merge_datasets_x", "x", nr, tuple(FOLDERS)), ("_merge_datasets_z", "z", nr, tuple(FOLDERS))):
        fi = opt(DU, name) if name.startswith("_") else fn(DU, name)
        if fi is None:
            continue
        for f in folders:
            model = Files({})
            r, why = evaluate(rep, fi, lambda eng, st: {fi.params[0]: model.fresh(eng, st, jdoc(FOLDERS[f]))}, model=model)
            ok, msg = outcome(r, why, lambda v: says(v, merged(FOLDERS[f], sides, key)))
            n += ok is not None
            rep.judge(ok, "merged-data", f"{name}: {f}", fi.where(), f"merged counts are the sums over the data sets, rates those of the sums: {msg}", msg)
    rep.count("data set merges", n, 10)
    n = 0
    for name, sides, key, folders in (("merge_json_files", "xz", nr, ("both", "single", "none")), ("merge_json_files_x", "x", nr, tuple(FOLDERS)), ("merge_json_files_z", "z", nr, tuple(FOLDERS)),
                                      ("merge_json_files_xz", "xz", sided, tuple(FOLDERS))):
        fi = fn(DU, name)
        for root in ("results/exp/code", "/data/res/code", "code", "results/../results/exp/code/", "/code"):
            for fs in ([folders[0], "none"], list(folders)) if root == "results/exp/code" else ([folders[0]],):
                dirs = {f"per_{i}": {"notes.txt": T("lines"), "broken.json": T("lines"), **{f"id_{j}.json": jdoc(d) for j, d in enumerate(FOLDERS[f])}, "empty.json": None} for i, f in enumerate(fs)}
                model = Files({})
                st = State()
                target = model.absolute(root)
                model.put(st, root, {"READ.ME": T("lines"), **dirs, "summary.txt": T("lines"), "old.json": jdoc(shot(1, 1, 1))})
                model.tree = model.files(st)
                r, why = evaluate(rep, fi, lambda eng, st: {fi.params[0]: K(root)}, model=model, max_steps=200000)
                want = [m for m in (merged(FOLDERS[f], sides, key) for f in fs) if m]
                where = f"{name}({root!r}): {len(fs)} folders"
                if r is None:
                    rep.judge(False if why.startswith("raises") else None, "merged-file", where, fi.where(), f"merging fails: {why}", why)
                    continue
                log = [e for e in Files.written(r[0]) if e[1] != "touch"]
                n += 1
                if not log:
                    rep.judge(False if closed_world(r[0]) else None, "merged-file", where, fi.where(), "no file is written", "no output")
                    continue
                file = target + ".json"
                ok = {e[0] for e in log} == {file} and len(log) == 1
                rep.judge(ok, "merged-file", f"{where}: location", fi.where(), f"the result belongs to {file}, written: {[e[0] for e in log]}", "")
                ok, msg = matches(log[-1][2], want)
                rep.judge(ok, "merged-file", f"{where}: contents", fi.where(), f"one entry per folder with data, with the sums of its readable data sets: {msg}", msg)
    rep.count("folder merges", n, 20)


def outcome(r, why, test):
    if r is None:
        return (False if why.startswith("raises") else None), why
    try:
        return test(document(r[1]))
    except Unsupported as x:
        return None, str(x)


def matches(v, want):
    try:
        got = document(v)
    except Unsupported as x:
        return None, str(x)
    if not isinstance(got, list) or not all(isinstance(x, dict) for x in got):
        return None, "not a list"
    if len(got) != len(want):
        return False, f"{len(got)} entries instead of {len(want)}"
    left, worst = list(want), ""
    for g in got:
        rs = [(says(g, w), w) for w in left]
        for (ok, msg), w in rs:
            if ok:
                left.remove(w)
                break
        else:
            if any(ok is None for (ok, _m), _w in rs):
                return None, "unknown entry"
            return False, rs[0][0][1] if rs else worst
    return True, ""


SIMULATORS = [("AtdSimulator", "simulators.analog_tannergraph_decoding", "single_sample"), ("SingleShotSimulator", "simulators.simulation", "_single_sample"), ("QssSimulator", "simulators.quasi_single_shot_v2", "_single_sample")]
SEQ = T("samples")


class Sampling:
    """The simulator with known shots: outcome i of the sequence is (x success, z success), with known iteration counts."""

    def __init__(self, cname, outcomes, side="X"):
        self.cname, self.outcomes, self.side = cname, outcomes, side
        self.its = [(3 + 2 * i, 4 + 5 * i) for i in range(len(outcomes))]

    def set(self, st, obj, name, f):
        o = st.heap[obj.args[0]]
        old = o.fields.get(name)
        if old is None:
            return
        st.heap = {**st.heap, obj.args[0]: o.but(fields={**o.fields, name: f(old)})}

    def sample(self, eng, st, args, kw, node):
        i = st.ov.get((SEQ, "#n"), 0)
        st.ov = dict(st.ov)
        st.ov[(SEQ, "#n")] = i + 1
        if i >= len(self.outcomes):
            raise TooBig("more samples than asked for")
        x, z = self.outcomes[i]
        a, b = self.its[i]
        add = lambda k: lambda old: K(cval(old) + k) if is_const(old) else T("it")
        if self.cname == "AtdSimulator":
            self.set(st, args[0], "x_bp_iterations", add(a))
            self.set(st, args[0], "z_bp_iterations", add(b))
            return [(st, T("tuple", K(bool(x)), K(bool(z))))]
        if self.cname == "SingleShotSimulator":
            self.set(st, args[0], "x_bp_iters", lambda old: K(a))
            self.set(st, args[0], "z_bp_iters", lambda old: K(b))
            return [(st, T("tuple", K(not x), K(not z)))]
        self.set(st, args[0], "bp_iterations", add(a))
        return [(st, K(int(x)))]

    def expected(self, n, returned=False):
        """What must be said after n shots."""
        out = {"nr_runs": n, "code_K": 2, "code_N": 9}
        sides = {"x": 0, "z": 1} if self.cname != "QssSimulator" else {"z" if self.side == "X" else "x": 0}
        for s, j in sides.items():
            c = sum(o[j] for o in self.outcomes[:n])
            l, e, w, b = rates(c, n, 2)
            out.update({f"{s}_success_cnt": c, f"{s}_ler": l, f"{s}_ler_eb": e, f"{s}_wer": w, f"{s}_wer_eb": b})
            it = sum(x[j] for x in self.its[:n]) / n
            if self.cname == "AtdSimulator":
                out[f"{s}_bp_iterations"] = it
            elif self.cname == "SingleShotSimulator":
                out[f"avg_{s}_bp_iter" + ("s" if returned else "")] = it
            else:
                out["avg_bp_iterations"] = it
        return out


def simulator(rep, c, smp, interval, mod):
    prims = {}
    q = "mqt.qecc." + DU
    for name in ("is_converged", "_check_convergence"):
        f = program().module(q).functions.get(name)
        if f is not None:
            prims[f.qual] = lambda eng, st, args, kw, node, f=f: [(st, T("conv", K(f.name), *[eng.val(st, x) for x in dict(zip(f.params, args), **kw).values()]))]
    cp = program().module(q).functions.get("create_outpath")
    if cp is not None:
        prims[cp.qual] = lambda eng, st, args, kw, node: [(st, K("results/out.json"))]
    m = program().find_method(c, [x[2] for x in SIMULATORS if x[0] == c.name][0])
    if m is None:
        return None
    prims[m.qual] = smp.sample
    ws = [x for n in ("build_multiround_pcm",) for x in [program().module("mqt.qecc." + analog.MEM).functions.get(n)] if x is not None]
    for w in ws:
        prims[w.qual] = lambda eng, st, args, kw, node: [(st, T("multiround", *[snap(eng, st, x) for x in (*args, *kw.values())][:2]))]
    o = Obj(rep, c, prims=prims, model=Chain(Files({"work": {"results": {"out.json": None}}}), Decoders()), limit=200, unroll=16, explicit=True)
    o.eng.exact = True
    o.eng.unroll = max(o.eng.unroll, 40)
    st = o.states[0]
    new = lambda *kv: o.eng.new(st, HObj("dict", segs=tuple((K(k), v) for k, v in kv)))
    params = new(("n", K(9)), ("k", K(2)))
    bias = o.eng.new(st, HObj("list", segs=tuple(("item", K(x)) for x in (1.0, math.inf, 0.5))))
    common = {"codename": K("code"), "seed": K(7), "bias": bias, "bp_params": S("bp_params"), "code_params": params}
    opts = new(("save_interval", K(interval)), ("eb_precision", K(0.25)))
    if c.name == "AtdSimulator":
        args = {**common, "hx": S("hx"), "lx": S("lx"), "hz": S("hz"), "lz": S("lz"), "data_err_rate": S("per"), "sigma": S("sigma"), "syndr_err_rate": NONE, "output_path": K("results/out.json")}
    elif c.name == "SingleShotSimulator":
        args = {**common, "per": S("per"), "ser": S("ser"), "single_stage": K(True), "x_meta": K(False), "z_meta": K(False), "sus_th_depth": K(1), "hx": S("hx"), "hz": S("hz"), "mx": NONE, "mz": NONE, "lz": S("lz"), "lx": S("lx")}
    else:
        args = {**common, "pcm": S("pcm"), "per": S("per"), "ser": S("ser"), "logicals": S("logicals"), "check_side": K(smp.side), "repetitions": K(2), "rounds": K(1), "outpath": K("results/out.json")}
    init = program().find_method(c, "__init__")
    if init is not None and init.node.args.kwarg is not None:
        args[init.node.args.kwarg.arg] = opts
    o.call("__init__", args)
    return o


OUTCOMES = [((1, 1),), ((0, 1),), ((1, 0), (1, 1)), ((0, 0), (1, 0)), ((1, 0), (0, 1), (1, 1)), ((0, 1), (0, 0), (0, 1)), ((1, 1), (1, 1), (1, 1), (1, 0)), ((0, 1), (1, 0), (1, 1), (0, 1), (1, 1))]


def run_rules(rep):
    n = 0
    for cname, mod, _m in SIMULATORS:
        c = cls(AN + mod, cname)
        where = fnw(c, "run")
        for side in ("X", "Z") if cname == "QssSimulator" else ("X",):
            for outcomes in OUTCOMES:
                for interval in (1, 2, 3):
                    smp = Sampling(cname, outcomes, side)
                    tag = f"{cname}{' ' + side if cname == 'QssSimulator' else ''}: shots {['+-'[1 - x] + '+-'[1 - z] for x, z in outcomes]}, saving every {interval}"
                    o = simulator(rep, c, smp, interval, mod)
                    if o is None or o.why:
                        rep.judge(False if o is not None and o.raised else None, "run-statistics", tag, where, f"the simulator cannot be set up: {o and o.why}", o.why if o else "no sampling method")
                        continue
                    n += one_run(rep, o, c, smp, tag, where)
    rep.count("simulation runs", n, 60)


def one_run(rep, o, c, smp, tag, where):
    m = program().find_method(c, "run")
    total = len(smp.outcomes)
    try:
        res = o.eng.start(m, selfv=o.obj, args=prep.with_defaults(m, {m.params[1]: K(total)}), state=o.states[0])
    except (TooBig, RecursionError) as e:
        rep.judge(None, "run-statistics", tag, where, "", str(e))
        return 0
    rep.analysed(*o.eng.functions_seen, m.qual)
    done = 0
    for s, v in res:
        conv = [(t, b) for t, b in s.pc.items() if t.op == "conv"]
        stray = [t for t in s.pc if t.op != "conv"]
        bad = [e for e in flat_events(trace_list(s.trace)) if e.kind in ("undef_attr", "unbound")]
        if s.exc is not None or bad:
            why = bad[0].kind + " " + bad[0].d["name"] if bad else "raises " + str(s.exc.args[0])
            rep.judge(False if not stray else None, "run-statistics", tag, where, f"the run fails: {why}", why)
            continue
        ran = s.ov.get((SEQ, "#n"), 0)
        # stopping
        true = [t for t, b in conv if b]
        early = ran < total
        ok, msg = True, ""
        for t in conv_args(conv):
            if t is None:
                ok, msg = None, "convergence test"
                break
            name, succ, runs, prec = t
            if not (1 <= runs <= ran):
                ok, msg = False, f"convergence judged for {runs} runs after {ran}"
                break
            w = [sum(x[j] for x in smp.outcomes[:runs]) for j in range(2)]
            if tuple(succ) != tuple(w if name == "is_converged" else w[:1]) or prec != 0.25:
                ok, msg = False, f"convergence judged on {succ} successes in {runs} runs with precision {prec}, there were {w}"
                break
        if ok and any(t and t[2] < ran for t in conv_args([(t, True) for t in true])):
            ok, msg = False, f"the run goes on to {ran} shots after it has converged"
        if ok and early:
            done_at = [t for t in conv_args([(t, True) for t in true]) if t and t[2] == ran]
            if stray or not true and not conv:
                ok, msg = (None, "other branch") if stray else (False, f"the run stops after {ran} of {total} shots without having converged")
            elif not done_at:
                ok, msg = False, f"the run stops after {ran} of {total} shots without having converged"
        rep.judge(ok, "run-length", f"{tag}; {len(true)} converged", where, f"a run takes all samples unless the result has converged: {msg}", msg)
        if not ran:
            continue
        done += 1
        try:
            got = document(snap(o.eng, s, v))
        except Unsupported as x:
            rep.judge(None, "run-statistics", tag, where, "", str(x))
            continue
        want = smp.expected(ran, returned=True)
        ok, msg = says(got, want)
        rep.judge(ok, "run-statistics", f"{tag}; {len(true)} converged: returned", where, f"the returned statistics are not those of the {ran} shots taken: {msg}", msg)
        log = [e for e in Files.written(s) if e[1] != "touch"]
        if not log:
            rep.judge(False if closed_world(s) else None, "run-output", tag, where, "the run stores no result", "nothing recognised as written")
            continue
        for k, (file, mode, doc) in enumerate(log):
            final = k == len(log) - 1
            try:
                d = document(doc)
            except Unsupported as x:
                rep.judge(None, "run-output", tag, where, "", str(x))
                continue
            at = d.get("nr_runs") if isinstance(d, dict) else None
            if not isinstance(at, int):
                rep.judge(None, "run-output", tag, where, "", "nr_runs")
                continue
            if not 1 <= at <= ran or final and at != ran:
                ok, msg = False, f"the file speaks of {at} runs, {ran} were taken"
            else:
                ok, msg = says(d, smp.expected(at))
                if ok and not file.endswith("/results/out.json"):
                    ok, msg = False, f"written to {file}"
                if ok and d.get("bias") != [1.0, "i", 0.5]:
                    ok, msg = (False if not isinstance(d.get("bias"), Term) else None), f"the bias [1, inf, 0.5] is stored as {d.get('bias')}"
                if ok and mode not in ("w", "wt", "w+"):
                    ok, msg = False, f"opened with mode {mode}"
            rep.judge(ok, "run-output", f"{tag}; {len(true)} converged: file {k + 1} of {len(log)}", where, f"the stored statistics are not those of the shots taken: {msg}", msg)
    return done


def closed_world(s):
    """No call on the path is unknown to the models, so a file that was not seen to be written was not written."""
    calls = [e for e in flat_events(trace_list(s.trace)) if e.kind == "call"]
    return all(str(e.d.get("path")).startswith(("locale.", "numpy.", "scipy.", "math.", "time.", "builtins.print", "builtins.len", "builtins.float", "builtins.int", "builtins.str", "builtins.list", "builtins.dict")) for e in calls)


def conv_args(conv):
    """(name, success counts, runs, precision) of each convergence test with known arguments."""
    out = []
    for t, _b in conv:
        a = [number(x) for x in t.args[1:]]
        k = 2 if cval(t.args[0]) == "is_converged" else 1
        ok = len(a) == k + 3 and all(isinstance(x, int) for x in a[:k + 1]) and a[-1] is not None
        out.append((cval(t.args[0]), a[:k], a[k], a[-1]) if ok else None)
    return out


# ---------------------------------------------------------------- P19: result files


BASE = {"x_meta": False, "z_meta": False, "bias": [1.0, 2.0, 3.0], "codename": "code", "single_stage": True, "rounds": 3, "repetitions": 2, "data_err_rate": 0.05, "syndr_err_rate": 0.02}
SIGMA = {**{k: v for k, v in BASE.items() if k != "syndr_err_rate"}, "sigma": 0.3}
SIGMAS = {**{k: v for k, v in BASE.items() if k != "syndr_err_rate"}, "x_sigma": 0.3, "z_sigma": 0.4}
DEPTH = {**{k: v for k, v in BASE.items() if k != "rounds"}, "sus_th_depth": 3}
PATHS = {
    "base": BASE, "x meta checks": {**BASE, "x_meta": True}, "z meta checks": {**BASE, "z_meta": True}, "other bias": {**BASE, "bias": [1.0, 2.0, 4.0]}, "swapped bias": {**BASE, "bias": [3.0, 2.0, 1.0]}, "other x bias": {**BASE, "bias": [7.0, 2.0, 3.0]}, "other y bias": {**BASE, "bias": [1.0, 7.0, 3.0]}, "other z bias": {**BASE, "bias": [1.0, 2.0, 7.0]},
    "other code": {**BASE, "codename": "code2"}, "two stages": {**BASE, "single_stage": False}, "other rounds": {**BASE, "rounds": 4}, "other repetitions": {**BASE, "repetitions": 4},
    "other data rate": {**BASE, "data_err_rate": 0.06}, "other syndrome rate": {**BASE, "syndr_err_rate": 0.03}, "analog Tanner graph": {**BASE, "analog_tg": True},
    "analog information": {**BASE, "analog_info": True}, "other experiment": {**BASE, "experiment": "other"}, "sigma": SIGMA, "other sigma": {**SIGMA, "sigma": 0.4}, "sigmas": SIGMAS,
    "other x sigma": {**SIGMAS, "x_sigma": 0.5}, "other z sigma": {**SIGMAS, "z_sigma": 0.5}, "thresholds": DEPTH, "other depth": {**DEPTH, "sus_th_depth": 5},
    "small rate": {**BASE, "data_err_rate": 0.0012}, "close rate": {**BASE, "data_err_rate": 0.0013}, "close syndrome rate": {**BASE, "syndr_err_rate": 0.0201}, "smaller rate": {**BASE, "data_err_rate": 0.00012},
}


def run_path(rep, fi, cfg, tree, ident=0):
    model = Files(tree)
    kwarg = fi.node.args.kwarg

    def args(eng, st):
        a, extra = {"identifier": K(ident)}, []
        for k, v in cfg.items():
            x = eng.new(st, HObj("list", segs=tuple(("item", K(y)) for y in v))) if isinstance(v, list) else K(v)
            if k in fi.params or k in [y.arg for y in fi.node.args.kwonlyargs]:
                a[k] = x
            else:
                extra.append((K(k), x))
        if kwarg is not None:
            a[kwarg.arg] = eng.new(st, HObj("dict", segs=tuple(extra)))
        return a

    return evaluate(rep, fi, args, model=model), model


def paths_rule(rep):
    fi = fn(DU, "create_outpath")
    seen, n = {}, 0
    for name, cfg in PATHS.items():
        (r, why), model = run_path(rep, fi, cfg, {"work": {}})
        if r is None:
            rep.judge(False if why.startswith("raises") else None, "result-path", name, fi.where(), f"no path can be made: {why}", why)
            continue
        st, v = r
        v = model.string(v) or v
        if not (is_const(v) and isinstance(cval(v), str)):
            rep.judge(None, "result-path", name, fi.where(), "", show(v)[:100])
            continue
        p = model.absolute(cval(v))
        n += 1
        rep.judge(model.exists(st, p) is not False, "result-path", f"{name}: created", fi.where(), f"the file {p} is not created, a second simulation gets the same one", "")
        other = [k for k, q in seen.items() if q == p]
        rep.judge(not other, "result-path", f"{name}: separate", fi.where(), f"simulations with different settings ({name} and {other and other[0]}) share the file {p}", "")
        seen[name] = p
        # files that are there already are never handed out again
        taken, cur = set(), model.files(st)
        for k in range(3):
            taken.add(p)
            (r2, why), m2 = run_path(rep, fi, cfg, cur)
            if r2 is None:
                rep.judge(False if why.startswith("raises") else None, "result-path", f"{name}: taken {k + 1}", fi.where(), f"no path can be made when {sorted(taken)} exist: {why}", why)
                break
            v = m2.string(r2[1]) or r2[1]
            if not (is_const(v) and isinstance(cval(v), str)):
                break
            p = m2.absolute(cval(v))
            rep.judge(p not in taken, "result-path", f"{name}: taken {k + 1}", fi.where(), f"the existing result file {p} is handed out again", "")
            cur = m2.files(r2[0])
            if k == 1:  # a gap in the numbering
                gap = sorted(taken)[0]
                model.tree = cur
                s2 = State()
                parent = str(PurePosixPath(gap).parent)
                d = {a: b for a, b in m2.exists(r2[0], parent).items() if a != PurePosixPath(gap).name}
                model.put(s2, parent, d)
                cur = model.files(s2)
                taken.discard(gap)
    rep.count("result paths", n, 15)


def loading(rep):
    n = 0
    fi = fn(DU, "load_data")
    model = Files({"work": {"res": {"a.json": jdoc(BOTH[0]), "b.json": jdoc([BOTH[1]])}}})
    r, why = evaluate(rep, fi, lambda eng, st: {fi.params[0]: eng.new(st, HObj("list", segs=tuple(("item", K(x)) for x in ("res/b.json", "res/a.json"))))}, model=model)
    ok, msg = outcome(r, why, lambda v: equal(v, [[BOTH[1]], BOTH[0]]))
    n += ok is not None
    rep.judge(ok, "load", "load_data: readable files", fi.where(), f"the documents are not returned in the order of the files: {msg}", msg)
    fi = opt(DU, "extract_settings")
    if fi is not None:
        lines = [{"a": 1, "b": 2}, {"a": 1, "b": 3}, {"a": 4, "c": 5}]
        model = Files({"work": {"s.json": T("lines", *[jdoc(x) for x in lines])}})
        r, why = evaluate(rep, fi, lambda eng, st: {fi.params[0]: K("s.json")}, model=model)
        ok, msg = outcome(r, why, lambda v: equal(v, {"a": [1, 4], "b": [2, 3], "c": [5]}))
        n += ok is not None
        rep.judge(ok, "load", "extract_settings", fi.where(), f"each keyword lists its different values once: {msg}", msg)
    for name, want in (("product_dict", [{"a": 1, "b": 3}, {"a": 1, "b": 4}, {"a": 2, "b": 3}, {"a": 2, "b": 4}]), ("zip_dict", [{"a": 1, "b": 3}, {"a": 2, "b": 4}])):
        fi = opt(DU, name)
        if fi is None or fi.node.args.kwarg is None:
            continue
        lst = lambda eng, st, *x: eng.new(st, HObj("list", segs=tuple(("item", K(y)) for y in x)))
        r, why = evaluate(rep, fi, lambda eng, st: {fi.node.args.kwarg.arg: eng.new(st, HObj("dict", segs=((K("a"), lst(eng, st, 1, 2)), (K("b"), lst(eng, st, 3, 4)))))})
        ok, msg = outcome(r, why, lambda v: equal(v, want))
        n += ok is not None
        rep.judge(ok, "load", name, fi.where(), f"parameter combinations: {msg}", msg)
    rep.count("loading routines", n, 1)


def equal(got, want):
    if unknown(got):
        return None, "unknown"
    return got == want, f"{got}, expected {want}"


def unknown(x):
    if isinstance(x, Term):
        return True
    return any(unknown(y) for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()))


# ---------------------------------------------------------------- P18: reproducibility


LEGACY = ("seed", "get_state", "set_state")
SOURCES = ("secrets.", "uuid.uuid1", "uuid.uuid4", "os.urandom", "os.getrandom", "time.time", "time.perf_counter", "time.monotonic", "datetime.datetime.now")


def random_events(s):
    """(kind, path, arguments, line) of the random operations on a path: seed, draw, make (a generator), use (of a generator), outside."""
    for e in flat_events(trace_list(s.trace)):
        if e.kind != "call":
            continue
        path, recv = e.d.get("path") or "", e.d.get("recv")
        args = [*e.d.get("args", ()), *(e.d.get("kw") or {}).values()]
        line = getattr(e.node, "lineno", 0)
        for lib in ("numpy.random.", "random."):
            if path.startswith(lib) and recv is None:
                last = path[len(lib):]
                kind = "seed" if last == "seed" else "make" if last in ("default_rng", "RandomState", "Generator", "Random", "SystemRandom", "SeedSequence") or last[:1].isupper() else None if last in LEGACY else "draw"
                if kind:
                    yield kind, path, args, line, lib
        if path.startswith(("secrets.", "uuid.uuid", "os.urandom", "os.getrandom")):
            yield "outside", path, args, line, ""


def from_seed(args):
    """Do the arguments depend on the seed (True), on nothing (False) or on something else (None)?"""
    leaves = set()

    def go(t):
        if not isinstance(t, Term) or is_const(t):
            return
        if t.op == "sym":
            leaves.add(t)
            return
        for a in t.args:
            if isinstance(a, Term):
                go(a)
        if t.op in ("call", "rand", "new", "fresh", "unknown", "index", "load"):
            leaves.add(t.op)

    for a in args:
        go(a)
    if leaves == {S("seed")}:
        return True
    return False if not leaves else None


def p18(rep):
    from analog import ATD

    n = 0
    jobs = []
    c = cls(AN + "simulators.analog_tannergraph_decoding", "AtdSimulator")
    for given in ("ser", "sigma"):
        jobs.append((c, f"AtdSimulator, {given} given", {**ATD, "sigma": S("sigma") if given == "sigma" else NONE, "syndr_err_rate": S("ser") if given == "ser" else NONE}, "single_sample"))
    c = cls(AN + "simulators.simulation", "SingleShotSimulator")
    for single in (True, False):
        for tg in (True, False):
            jobs.append((c, f"SingleShotSimulator, {'single' if single else 'two'} stage, {'analog' if tg else 'hard'} syndromes",
                         {"codename": S("codename"), "per": S("per"), "ser": S("ser"), "single_stage": K(single), "seed": S("seed"), "bias": S("bias"), "x_meta": K(True), "z_meta": K(True), "sus_th_depth": K(1),
                          "bp_params": S("bp_params"), "code_params": S("code_params"), "hx": S("hx"), "hz": S("hz"), "mx": S("mx"), "mz": S("mz"), "lz": S("lz"), "lx": S("lx"), "analog_tg": K(tg)}, "_single_sample"))
    c = cls(AN + "simulators.quasi_single_shot_v2", "QssSimulator")
    for side in "XZ":
        for tg in (True, False):
            jobs.append((c, f"QssSimulator, {side} checks, {'analog' if tg else 'hard'} syndromes",
                         {"pcm": S("pcm"), "per": S("per"), "ser": S("ser"), "logicals": S("logicals"), "bias": S("bias"), "codename": S("codename"), "bp_params": S("bp_params"), "code_params": S("code_params"),
                          "decoding_method": K("bposd"), "check_side": K(side), "seed": S("seed"), "analog_tg": K(tg), "repetitions": K(2), "rounds": K(1), "outpath": S("out")}, "_single_sample"))
    for c, what, args, sample in jobs:
        n += seeded_run(rep, c, what, args, sample)
    rep.count("simulator constructions", n, 6)


NOT_OPAQUE = ("generate_err", "generate_syndr_err", "get_noisy_analog_syndrome", "set_seed")


def seeded_run(rep, c, what, args, sample):
    prims = {q: h for q, h in analog.helper_prims().items() if q.split(".")[-1] not in NOT_OPAQUE}
    cp = program().module("mqt.qecc." + DU).functions.get("create_outpath")
    if cp is not None:
        prims[cp.qual] = lambda eng, st, args, kw, node: [(st, Sym("out"))]
    m = program().find_method(c, "__init__")
    eng = Engine(program(), prims=prims, model=Decoders(), limit=60, unroll=4)
    eng.known = analog.known
    st = State()
    obj = eng.new(st, HObj("obj", cls=c, fields={}, closed=True))
    try:
        res = eng.start(m, selfv=obj, args=prep.with_defaults(m, args), state=st)
    except (TooBig, RecursionError) as e:
        rep.judge(None, "seed", what, m.where(), "", str(e))
        return 0
    rep.analysed(*eng.functions_seen, m.qual)
    where = m.where()
    ran = 0
    for s, _v in res:
        if s.exc is not None:
            continue
        libs, ok, msg = set(), True, ""
        ev = list(random_events(s))
        first = len(ev)
        for kind, path, a, line, lib in ev:
            if kind == "seed":
                f = from_seed(a) if a else False
                if f is True:
                    libs.add(lib)
                else:
                    ok, msg = (False if f is False else None), f"{path} at line {line} is not given the seed"
            elif kind == "draw" and lib not in libs:
                ok, msg = False, f"{path} at line {line} draws before the generator is seeded"
            elif kind == "make" and not a or kind == "outside" or path.endswith("SystemRandom"):
                ok, msg = False, f"{path} at line {line} is not determined by the seed"
            if ok is not True:
                break
        rep.judge(ok, "seed", f"{what}: construction", where, f"the simulation is not determined by its seed: {msg}", msg)
        if ok is False:
            continue
        made = [e for e in ev if e[0] == "make"]
        sm = program().find_method(c, sample)
        if sm is None:
            continue
        try:
            res2 = eng.start(sm, selfv=obj, args=prep.with_defaults(sm, {}), state=s.fork())
        except (TooBig, RecursionError) as e:
            rep.judge(None, "seed", f"{what}: sampling", sm.where(), "", str(e))
            continue
        rep.analysed(*eng.functions_seen, sm.qual)
        for s2, _v2 in res2[:6]:
            ok, msg, draws = True, "", 0
            for kind, path, a, line, lib in list(random_events(s2))[first if list(random_events(s2))[:first] == ev else 0:]:
                if kind == "seed":
                    f = from_seed(a)
                    ok, msg = (False if f is not None or not a else None), f"{path} at line {line} seeds again, all shots are alike"
                elif kind == "draw":
                    draws += 1
                    if lib not in libs:
                        ok, msg = False, f"{path} at line {line} draws from a generator the constructor does not seed"
                elif kind == "make":
                    f = from_seed(a) if a else False
                    ok, msg = (None if f is None else False), f"{path} at line {line}: a new generator for each shot is " + ("not determined by the seed" if not a else "the same one for every shot")
                elif kind == "outside":
                    ok, msg = False, f"{path} at line {line} is not determined by the seed"
                if ok is not True:
                    break
            if ok is True and not draws and not made:
                ok, msg = None, "no random draw found"
            ran += 1
            rep.judge(ok, "seed", f"{what}: sampling", sm.where(), f"the shots are not determined by the seed: {msg}", msg)
    return min(ran, 1)
