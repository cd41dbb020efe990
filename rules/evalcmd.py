"""P33: the evaluation command simulates the circuit its options ask for."""
from __future__ import annotations

import itertools
import os

import prep
from common import *
from lights import Argparse
from pyabs import Engine, State, TooBig
from results import Chain, Files, closed_world
from ft import K, mkobj, opt
from terms import NONE, T, Term, cval, is_const

FT = "ft_stateprep"
EV = FT + ".eval.estimate_logical_error_rate"
HERE = "/pkg/ft_stateprep/eval"
RESULT = (0.25, 0.5, 7, 28)
PREP = {"gate_optimal_prep_circuit": "opt", "heuristic_prep_circuit": "heuristic", "depth_optimal_prep_circuit": "depth"}
VERIFY = {"gate_optimal_verification_circuit": "opt", "heuristic_verification_circuit": "heuristic", "naive_verification_circuit": "naive"}
FOLDER = {"steane": "steane", "shor": "shor", "tetrahedral": "tetrahedral", "hamming": "hamming", "carbon": "carbon", "surface": "rotated_surface_d{d}", "cc_4_8_8": "cc_4_8_8", "cc_6_6_6": "cc_6_6_6"}



class World(Files):
    """Files next to the module; stored circuits, preparation circuits and printed lines as terms."""

    def string(self, v):
        if v.op == "ext" and v.args[0] == "builtins.__file__":
            return K(HERE + "/estimate_logical_error_rate.py")
        return super().string(v)

    def call(self, eng, st, path, recv, V, kw, node):
        if recv is None and path.split(".")[0] == "qiskit" and path.split(".")[-1] in ("from_qasm_file", "load") and V:
            x = self.string(V[0]) or V[0]
            if is_const(x) and isinstance(cval(x), str):
                if self.exists(st, cval(x)) is False:
                    return self.raises(st, "FileNotFoundError")
                return T("stored", K(self.absolute(cval(x))))
        return super().call(eng, st, path, recv, V, kw, node)

    def builtin(self, eng, st, name, V, kw, node):
        if name == "print":
            if kw.get("file") is not None:
                return NONE
            st.ov = dict(st.ov)
            xs = [eng.val(st, v) for v in V]
            how = [eng.val(st, kw.get(k, K(d))) for k, d in (("sep", " "), ("end", "\n"))]
            how = [K(d) if h is NONE else h for h, d in zip(how, (" ", "\n"))]
            text = str(cval(how[0])).join(str(cval(x)) for x in xs) + str(cval(how[1])) if all(is_const(x) for x in xs + how) else None
            st.ov[(T("out"), "#lines")] = (*st.ov.get((T("out"), "#lines"), ()), text)
            return NONE
        return super().builtin(eng, st, name, V, kw, node)


def arguments(f, args, kw, eng, st, skip=0):
    d = dict(zip(f.params[skip:], args[skip:]), **kw)
    return {k: v if (v, "#code") in st.ov else eng.val(st, v) for k, v in prep.with_defaults(f, d).items() if k in f.params[skip:]}


class Case:
    def __init__(self, rep, f, argv, tree):
        self.prepared, self.sim, self.rate = [], [], []
        p = program()
        prims = {}
        css = cls("codes.css_code", "CSSCode")
        g = p.find_method(css, "from_code_name")
        if g is None:
            raise AnalysisBroken("CSSCode.from_code_name not found")

        def named(eng, st, args, kw, node):
            a = dict(zip([x for x in g.params if x != "cls"], [x for x in args if not (isinstance(x, Term) and x.op == "class")]), **kw)
            return [(st, T("code", a.get("code_name", NONE), a.get("distance", NONE)))]

        prims[g.qual] = named
        for mod, name in (("hexagonal_color_code", "HexagonalColorCode"), ("square_octagon_color_code", "SquareOctagonColorCode")):
            i = p.find_method(cls("codes." + mod, name), "__init__")

            def made(eng, st, args, kw, node, i=i, name=name):
                a = dict(zip(i.params, args), **kw)
                o = st.heap[args[0].args[0]]
                st.heap = dict(st.heap)
                st.heap[args[0].args[0]] = o.but(closed=False)
                st.ov = dict(st.ov)
                st.ov[(args[0], "#code")] = T("code", K(name), a.get(i.params[1], NONE))
                return [(st, NONE)]

            prims[i.qual] = made
        for name in PREP:
            h = opt(FT + ".state_prep", name)
            if h is not None:
                prims[h.qual] = lambda eng, st, args, kw, node, h=h, name=name: [(st, self.prepare(eng, name, arguments(h, args, kw, eng, st), st))]
        for name in VERIFY:
            h = opt(FT + ".state_prep", name)
            if h is not None:
                prims[h.qual] = lambda eng, st, args, kw, node, h=h, name=name: [(st, T("verified", K(name), self.circuit(st, dict(zip(h.params, args), **kw).get(h.params[0], NONE))))]
        c = cls(FT + ".simulation", "NoisyNDFTStatePrepSimulator")
        init, rate = p.find_method(c, "__init__"), p.find_method(c, "logical_error_rate")
        if init is None or rate is None:
            raise AnalysisBroken("NoisyNDFTStatePrepSimulator not found")

        def simulator(eng, st, args, kw, node):
            o = st.heap[args[0].args[0]]
            st.heap = dict(st.heap)
            st.heap[args[0].args[0]] = o.but(closed=False)
            a = arguments(init, args, kw, eng, st, 1)
            a["code"] = self.code(st, dict(zip(init.params, args), **kw).get("code", NONE))
            self.sim.append(a)
            return [(st, NONE)]

        def estimate(eng, st, args, kw, node):
            self.rate.append(arguments(rate, args, kw, eng, st, 1))
            return [(st, T("tuple", *map(K, RESULT)))]

        prims[init.qual], prims[rate.qual] = simulator, estimate
        eng = Engine(p, explicit=True, unroll=30, limit=20, max_steps=60000, prims=prims, model=Chain(World(tree), Argparse(argv)))
        eng.exact = True
        self.why, self.st = "", None
        try:
            res = eng.start(f, args={}, state=State())
        except (TooBig, RecursionError) as e:
            self.why = str(e)
            return
        rep.analysed(*eng.functions_seen, f.qual)
        if len(res) != 1:
            self.why = f"{len(res)} paths"
            return
        self.st = res[0][0]

    def code(self, st, v):
        return st.ov.get((v, "#code"), v) if isinstance(v, Term) else v

    def prepare(self, eng, name, a, st):
        self.prepared.append(name)
        t = T("prepared", K(name), self.code(st, a.get("code", NONE)), a.get("zero_state", NONE))
        o = mkobj(eng, st, cls(FT + ".state_prep", "StatePrepCircuit"), circ=T("bare", t))
        st.heap = dict(st.heap)
        st.heap[o.args[0]] = st.heap[o.args[0]].but(closed=False)
        st.ov = dict(st.ov)
        st.ov[(o, "#prepared")] = t
        return o

    def circuit(self, st, v):
        return st.ov.get((v, "#prepared"), v) if isinstance(v, Term) else v


def listing(folder):
    """The stored circuits, as a tree."""
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src/mqt/qecc/ft_stateprep/eval/circuits")
    tree = {}
    for d in sorted(os.listdir(root)) if os.path.isdir(root) else ():
        if os.path.isdir(os.path.join(root, d)):
            tree[d] = {x: "text" for x in sorted(os.listdir(os.path.join(root, d)))}
    for d in folder:
        tree.setdefault(d, {})
    return tree


def p33(rep):
    f = fn(EV, "main")
    where = f.where()
    real = listing(())
    rep.count("folders of stored circuits", len(real), 1)
    n = 0
    codes = [("steane", 3), ("hamming", 3), ("carbon", 3), ("surface", 3), ("surface", 5), ("cc_4_8_8", 5), ("cc_6_6_6", 5)]
    if rep.tier != "quick":
        codes += [("shor", 3), ("tetrahedral", 3)]
    for (code, d), zero, exact, ver in itertools.product(codes, (True, False), (False, True), ("opt", "heuristic", "naive", None)):
        argv = [code, "-p", "0.03"]
        if code == "surface":
            argv += ["-d", str(d)] if d != 3 or zero else []
        if not zero:
            argv.append("--plus_state")
        elif exact:
            argv.append("--zero_state")
        if exact:
            argv.append("--exact_circ")
        elif not zero:
            argv.append("--heuristic_circ")
        argv += {"opt": ["--exact_ver"] if exact else [], "heuristic": ["--heuristic_ver"], "naive": ["--naive_ver"], None: ["--no_ver"]}[ver]
        if not exact:
            argv.append("--no_parallel_gates")
        errors = 500
        if zero != exact:
            argv += ["-n", "37"]
            errors = 37
        state, sp = "zero" if zero else "plus", "opt" if exact else "heuristic"
        name = f"{state}_non_ft_{sp}.qasm" if ver is None else f"{state}_ft_{sp}_{ver}.qasm"
        folder = FOLDER[code].format(d=d)
        every = {x: "text" for x in (*(f"{s}_non_ft_{q}.qasm" for s in ("zero", "plus") for q in ("opt", "heuristic")), *(f"{s}_ft_{q}_{v}.qasm" for s in ("zero", "plus") for q in ("opt", "heuristic") for v in ("opt", "heuristic", "naive")))}
        for kind, tree in (("as stored", real), ("every circuit stored", {**real, folder: every}), ("all but this circuit stored", {**{k: every for k in set(FOLDER.values())}, folder: {k: v for k, v in every.items() if k != name}})):
            c = Case(rep, f, argv, {"work": {}, "pkg": {"ft_stateprep": {"eval": {"circuits": tree, "estimate_logical_error_rate.py": "text"}}}})
            n += judge(rep, c, where, f"{' '.join(argv)} ({kind})", tree, folder, name, (code, d), zero, sp, ver, errors, exact)
    for argv in (["golay2", "-p", "0.1"], ["", "-p", "0.1"], ["-p", "0.1"], ["steane", "-p", "much"]):
        c = Case(rep, f, argv, {"work": {}, "pkg": {"ft_stateprep": {"eval": {"circuits": real}}}})
        if c.st is not None:
            rep.judge(c.st.exc is not None and not c.rate, "evaluation-refused", " ".join(argv), where, "an invalid command line is not refused", "")
    rep.count("evaluations resolved", n, 60)


def judge(rep, c, where, what, tree, folder, name, code, zero, sp, ver, errors, parallel):
    if c.st is None:
        rep.judge(None, "evaluated-circuit", what, where, "", c.why)
        return 0
    if c.st.exc is not None:
        rep.judge(False, "evaluated-circuit", what, where, f"raises {c.st.exc.args[0]}", "")
        return 0
    if len(c.sim) != 1 or len(c.rate) != 1:
        rep.judge(None, "evaluated-circuit", what, where, "", "simulations")
        return 0
    a, r = c.sim[0], c.rate[0]
    cls_ = {"cc_4_8_8": "SquareOctagonColorCode", "cc_6_6_6": "HexagonalColorCode"}.get(code[0])
    want = T("code", K(cls_ or code[0]), K(code[1]) if cls_ or code[0] == "surface" else NONE)
    got = a["code"]
    ok = got is want if got.op == "code" and all(is_const(x) or x is NONE for x in got.args) else None
    if ok is False and got.args[0] is want.args[0] and want.args[1] is NONE:
        ok = True  # a distance given for a code that has only one
    rep.judge(ok, "evaluated-code", what, where, f"the code simulated is {show(got)} and not {show(want)}", "")
    circ = a.get("state_prep_circ")
    stored = name in tree.get(folder, {})
    made = T("prepared", K({v: k for k, v in PREP.items()}[sp]), want, K(zero))
    made = T("bare", made) if ver is None else T("verified", K({v: k for k, v in VERIFY.items()}[ver]), made)
    expect = T("stored", K(f"{HERE}/circuits/{folder}/{name}")) if stored else made
    known = circ is not None and circ.op in ("stored", "verified", "bare")
    rep.judge(circ is expect if known else None, "evaluated-circuit", what, where, f"the circuit simulated is {show(circ) if circ is not None else None} and not {show(expect)}", "circuit")
    for k, v in (("p", 0.03), ("zero_state", zero), ("parallel_gates", parallel)):
        x = a.get(k)
        rep.judge(cval(x) == v if x is not None and is_const(x) else None, "evaluation-arguments", f"{what}: {k}", where, f"the simulation is run with {k} = {show(x) if x is not None else None} instead of {v}", "")
    x = r.get("min_errors")
    rep.judge(cval(x) == errors if x is not None and is_const(x) else None, "evaluation-arguments", f"{what}: errors", where, f"the simulation waits for {show(x) if x is not None else None} errors instead of {errors}", "")
    out = c.st.ov.get((T("out"), "#lines"), ())
    text = "".join(out) if None not in out else None
    rep.judge(",".join(map(str, RESULT)) in text.split("\n") if out and text is not None else False if not out and closed_world(c.st) else None, "evaluation-output", what, where, f"printed is {text!r}", "")
    return 1
