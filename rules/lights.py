"""P20, P21: the MaxSAT colour code decoder and its simulation.

The solver's interface is a model: what is asserted and minimised is collected as terms, with push and pop; at every
check the collected constraints are compared with the parity conditions over the assignments of their variables."""
from __future__ import annotations

import itertools
import math
import random

import prep
import z3terms
from common import *
from ft import K, M, ints, mkobj, opt
from pyabs import HObj, State, TooBig
from pyext import arr as mkarr
from results import Chain, Files, closed_world, near, number
from terms import NONE, T, cval, is_const

CC = "cc_decoder"
CHECKS = (T("solver"), "#checks")


class Z3:
    """Optimize objects: assertions, soft constraints and scopes; `answer(names)` gives (satisfiable, pressed switches)."""

    def __init__(self, answer=None, partial=False):
        self.answer, self.partial = answer, partial
        self.n = 0

    def frames(self, st, o):
        return st.ov.get((o, "#frames"), ((),))

    def put(self, st, k, v):
        st.ov = dict(st.ov)
        st.ov[k] = v

    def attr(self, eng, st, b, name):
        return None

    def index(self, eng, st, b, i):
        if b.op == "z3model":
            vs = z3terms.var_names(i)
            if len(vs) != 1:
                return None
            val = dict(zip((cval(x) for x in b.args[0].args), (cval(x) for x in b.args[1].args))).get(vs.pop())
            return NONE if val is None or (self.partial and not val) else K(bool(val))
        return None

    def builtin(self, eng, st, name, V, kw, node):
        if name in ("str", "repr") and len(V) == 1:
            v = V[0]
            if v.op == "ext" and v.args[0] in ("z3.sat", "z3.unsat", "z3.unknown"):
                return K(v.args[0][3:])
            if v.op == "optimizer":
                return T("wcnf")
            if v.op == "call" and v.args[0] == "z3.Bool" and is_const(v.args[1]):
                return v.args[1]
        if name == "bool" and len(V) == 1 and V[0].op == "call" and str(V[0].args[0]).startswith("z3."):
            return None
        return None

    def call(self, eng, st, path, recv, V, kw, node):
        if path in ("z3.Optimize", "z3.Solver"):
            self.n += 1
            return T("optimizer", K(self.n))
        if path in ("z3.simplify",) and len(V) >= 1:
            return V[0]
        if path in (".sexpr", ".decl") and recv is not None and recv.op == "call" and recv.args[0] == "z3.Bool" and is_const(recv.args[1]):
            return recv.args[1] if path == ".sexpr" else T("z3decl", recv)
        if path == ".name" and recv is not None and recv.op == "z3decl":
            return recv.args[0].args[1]
        if path in ("z3.is_true", "z3.is_false") and len(V) == 1:
            if is_const(V[0]):
                return K(cval(V[0]) is (path == "z3.is_true"))
            return None
        if recv is not None and recv.op == "z3model" and path in (".eval", ".evaluate", ".get_interp"):
            r = self.index(eng, st, recv, V[0])
            return K(False) if r is NONE and path != ".get_interp" and any(k == "model_completion" for k in kw) else r
        if recv is None or recv.op != "optimizer":
            return None
        fr = self.frames(st, recv)
        if path in (".add", ".assert_exprs", ".append"):
            items = []
            for v in V:
                items.extend(v.args if v.op in ("list", "tuple") else [v])
            self.put(st, (recv, "#frames"), (*fr[:-1], (*fr[-1], *(("hard", v) for v in items))))
            return NONE
        if path == ".add_soft" and V:
            w = kw.get("weight", V[1] if len(V) > 1 else K(1))
            i = kw.get("id", V[2] if len(V) > 2 else NONE)
            items = V[0].args if V[0].op in ("list", "tuple") else [V[0]]
            self.put(st, (recv, "#frames"), (*fr[:-1], (*fr[-1], *(("soft", v, w, i) for v in items))))
            return T("objective")
        if path in (".minimize", ".maximize") and V:
            self.put(st, (recv, "#frames"), (*fr[:-1], (*fr[-1], (path[1:], V[0]))))
            return T("objective")
        if path == ".push":
            self.put(st, (recv, "#frames"), (*fr, ()))
            return NONE
        if path == ".pop":
            if len(fr) == 1:
                st.exc = T("exc", "Z3Exception")
                return NONE
            self.put(st, (recv, "#frames"), fr[:-1])
            return NONE
        if path == ".check":
            entries = [e for f in fr for e in f]
            self.put(st, CHECKS, (*st.ov.get(CHECKS, ()), tuple(entries)))
            ok = self.answer is None or self.answer() is not None
            return T("ext", "z3.sat" if ok else "z3.unsat")
        if path == ".model":
            sol = self.answer() if self.answer else None
            names = self.names
            return T("z3model", T("tuple", *map(K, names)), T("tuple", *[K(bool(b)) for b in sol or [False] * len(names)]))
        return None


class Clock:
    """Times are unknown numbers."""

    def attr(self, *a):
        return None

    index = attr

    def call(self, eng, st, path, recv, V, kw, node):
        if path in ("timeit.default_timer", "time.perf_counter", "time.time", "time.monotonic"):
            return K(0.0)
        if path in ("locale.getpreferredencoding",):
            return K("utf-8")
        if path in ("subprocess.run", "subprocess.call", "subprocess.check_call"):
            eng.emit(st, "process", node, args=V)
            return T("process")
        return None


PUZZLES = [  # name, lights (key order as given), switches
    ("d = 3 colour code", {0: [0, 1, 2, 3], 1: [1, 2, 4, 5], 2: [2, 3, 5, 6]}, 7),
    ("faces of 2, 3 and 5 switches", {0: [0, 1], 1: [3, 1, 2], 2: [4, 0, 3, 2, 1]}, 5),
    ("an octagon", {0: [7, 1, 2, 3, 4, 5, 6, 0]}, 8),
    ("lights in another order", {2: [5, 0, 3], 0: [1, 0, 2], 1: [4, 3, 1, 5]}, 6),
    ("dependent lights", {0: [0, 1], 1: [2, 1], 2: [0, 2]}, 3),
    ("a hexagon and its neighbour", {1: [0, 5, 6, 7], 0: [0, 1, 2, 3, 4, 5]}, 8),
]
LARGE = ("twelve faces", {i: [(3 * i + j * j) % 31 for j in range(0, 4 + i % 3)] + [31 + i] for i in range(12)}, 43)


def parity(lights, press):
    return [bool(sum(press[s] for s in lights[i]) % 2) for i in range(len(lights))]


def least(lights, n, val):
    """A lightest set of switches with these parities, or None."""
    best = None
    for press in itertools.product((0, 1), repeat=n):
        if (best is None or sum(press) < sum(best)) and parity(lights, press) == list(val):
            best = press
    return best


def satisfiable(cons, env, deps):
    """Can the constraints be met by the variables not in env?"""
    env = dict(env)
    cons = list(cons)
    while True:
        rest, forced = [], False
        for t in cons:
            miss = [v for v in deps[t.uid] if v not in env]
            if not miss:
                if not z3terms.ev(t, env):
                    return False
                continue
            if len(miss) == 1:
                ok = [b for b in (False, True) if z3terms.ev(t, {**env, miss[0]: b})]
                if not ok:
                    return False
                if len(ok) == 1:
                    env[miss[0]] = ok[0]
                    forced = True
                continue_later = len(ok) == 2
                if len(ok) == 1 or continue_later:
                    if len(ok) == 1:
                        continue
            rest.append(t)
        cons = rest
        if not cons:
            return True
        if not forced:
            branch = [v for t in cons for v in deps[t.uid] if v not in env]
            if not branch:
                continue
            return any(satisfiable(cons, {**env, branch[0]: b}, deps) for b in (False, True))


def judge_check(entries, names, lights, val, presses):
    """Do the collected entries describe: exactly the presses with these parities, lightest first?"""
    hard = [e[1] for e in entries if e[0] == "hard"]
    soft = [e for e in entries if e[0] == "soft"]
    obj = [e for e in entries if e[0] in ("minimize", "maximize")]
    if any(is_const(h) for h in hard):
        if any(is_const(h) and not cval(h) for h in hard):
            return False, "a constraint is constantly false"
        hard = [h for h in hard if not is_const(h)]
    deps = {t.uid: sorted(z3terms.var_names(t)) for t in hard}
    if len({str(e[3]) for e in soft}) + len(obj) > 1:
        return None, "several objectives"
    costs = {}
    try:
        for p in presses:
            env = {n: bool(b) for n, b in zip(names, p)}
            want = parity(lights, p) == list(val)
            if satisfiable(hard, env, deps) != want:
                return False, (f"the constraints {'reject' if want else 'accept'} pressing {[i for i, b in enumerate(p) if b]} for the lights {[int(x) for x in val]}, which {'turns them off' if want else 'leaves some on'}")
            cost = 0.0
            for _k, c, w, _i in soft:
                if set(z3terms.var_names(c)) - set(env):
                    return None, "soft constraint on other variables"
                if not is_const(w):
                    return None, "weight"
                cost += 0 if z3terms.ev(c, env) else float(cval(w))
            for k, e in obj:
                cost += (1 if k == "minimize" else -1) * int(z3terms.ev(e, env))
            costs.setdefault(sum(p), set()).add(round(cost, 9))
    except (z3terms.Unmodelled, ValueError, TypeError) as e:
        return None, f"constraint with {e}"
    flat = [costs[k] for k in sorted(costs)]
    if any(max(a) >= min(b) for a, b in zip(flat, flat[1:])):
        return False, "a solution with more switches can cost no more than one with fewer"
    return True, ""


class Puzzle:
    """A LightsOut object with its z3 instance constructed."""

    def __init__(self, rep, lights, n, partial):
        self.rep, self.lights, self.n = rep, lights, n
        self.c = cls(CC + ".decoder", "LightsOut")
        self.sol = None
        self.raised = False
        self.z3 = Z3(lambda: self.sol, partial)
        self.z3.names = []
        self.eng = Engine(program(), explicit=True, unroll=200, limit=40, max_steps=600000, model=Chain(self.z3, Clock(), Files({"work": {}})))
        self.eng.exact = True
        self.st = State()
        self.why = ""
        sw = {i: [k for k in lights if i in lights[k]] for i in range(n)}
        new = lambda d: self.eng.new(self.st, HObj("dict", segs=tuple((K(k), self.list(v)) for k, v in d.items())))
        self.obj = None
        try:
            res = self.eng.call(self.st, T("class", self.c.qual), [new(lights), new(sw)], {}, None)
        except (TooBig, RecursionError) as e:
            self.why = str(e)
            return
        if len(res) != 1 or res[0][0].exc is not None or res[0][1].op != "ref":
            self.why = "constructor"
            return
        self.st, self.obj = res[0]
        self.st.exc = None
        if self.run("preconstruct_z3_instance", {}) is None:
            self.obj = None
            return
        v = self.st.heap[self.obj.args[0]].fields.get("switch_vars")
        vs = self.eng.known_items(self.st, v) if v is not None else None
        if vs is None or any(len(z3terms.var_names(self.eng.val(self.st, x))) != 1 for x in vs):
            self.obj, self.why = None, "switch variables"
            return
        self.z3.names = [next(iter(z3terms.var_names(self.eng.val(self.st, x)))) for x in vs]

    def list(self, xs):
        return self.eng.new(self.st, HObj("list", segs=tuple(("item", K(x)) for x in xs)))

    def run(self, name, args):
        m = program().find_method(self.c, name)
        self.raised = False
        if m is None:
            raise AnalysisBroken(f"LightsOut.{name} not found")
        try:
            res = self.eng.start(m, selfv=self.obj, args=prep.with_defaults(m, args), state=self.st)
        except (TooBig, RecursionError) as e:
            self.why = str(e)
            return None
        self.rep.analysed(*self.eng.functions_seen, m.qual)
        if len(res) != 1:
            self.why = f"{len(res)} paths"
            return None
        self.st, v = res[0]
        if self.st.exc is not None:
            self.why, self.raised = "raises " + str(self.st.exc.args[0] if self.st.exc.args else ""), True
            self.st.exc = None
            return None
        return v

    def checks(self):
        return self.st.ov.get(CHECKS, ())


def solving(rep):
    c = cls(CC + ".decoder", "LightsOut")
    m = program().find_method(c, "solve")
    if m is None:
        raise AnalysisBroken("LightsOut.solve not found")
    where = m.where()
    rng = random.Random(5)
    n = 0
    for name, lights, k in [*PUZZLES, LARGE]:
        big = k > 10
        vals = list(itertools.product((False, True), repeat=len(lights))) if len(lights) <= 3 else [tuple(rng.random() < 0.5 for _ in lights) for _ in range(4)]
        presses = list(itertools.product((0, 1), repeat=k)) if not big else grid(lights, k, rng)
        if not big:
            sols = {v: least(lights, k, v) for v in vals}
        else:
            vals = [tuple(parity(lights, p)) for p in presses[:4]]
            sols = dict(zip(vals, presses[:4]))
        good = [v for v in vals if sols[v] is not None]
        for partial in (False, True):
            z = Puzzle(rep, lights, k, partial)
            if z.obj is None:
                rep.judge(False if z.raised else None, "parity-constraints", f"{name}: construction", where, f"the constraints cannot be set up: {z.why}", z.why)
                break
            history = good + good[:1] if not partial else good[::-1][:3]
            for i, v in enumerate(history):
                tag = f"{name}: lights {''.join('01'[b] for b in v)}, decoding {i + 1}{' of a partial model' if partial else ''}"
                n += one(rep, z, lights, v, sols[v], presses, tag, where)
                if z.why:
                    break
        for v in [v for v in vals if sols[v] is None][:2]:
            z = Puzzle(rep, lights, k, False)
            if z.obj is not None:
                z.sol = None
                out = z.run("solve", {m.params[1]: z.list(v)})
                rep.judge(True if z.raised else (None if out is None else False), "no-solution", f"{name}: lights {''.join('01'[b] for b in v)}", where, "switches are returned although no set of switches turns the lights off", z.why)
                if z.raised:
                    for v2 in good[-2:]:
                        n += one(rep, z, lights, v2, sols[v2], presses, f"{name}: lights {''.join('01'[b] for b in v2)} after a refusal", where)
    rep.count("decodings resolved", n, 30)


def grid(lights, k, rng):
    zero = tuple([0] * k)
    out = [zero]
    for i in range(k):
        out.append(tuple(int(j == i) for j in range(k)))
    for s in lights.values():
        out.append(tuple(int(j in s) for j in range(k)))
    out += [tuple(rng.randint(0, 1) for _ in range(k)) for _ in range(60)]
    return out[len(out) // 2:] + out[:len(out) // 2]


def one(rep, z, lights, v, sol, presses, tag, where):
    m = program().find_method(z.c, "solve")
    z.sol = sol
    z.why = ""
    before = len(z.checks())
    ref = z.list(v)
    out = z.run("solve", {m.params[1]: ref})
    if out is None:
        rep.judge(False if z.raised else None, "maxsat-decoding", tag, where, f"the lights cannot be turned off: {z.why}", z.why)
        return 0
    new = z.checks()[before:]
    if len(new) != 1:
        rep.judge(None, "parity-constraints", tag, where, "", f"{len(new)} solver calls")
        z.why = "calls"
        return 0
    ok, msg = judge_check(new[0], z.z3.names, lights, v, presses)
    rep.judge(ok, "parity-constraints", tag, where, msg, msg)
    o = z.eng.val(z.st, out)
    got = ints(o.args[0]) if o.op == "tuple" and o.args else None
    rep.judge(None if got is None else got == list(sol), "maxsat-decoding", tag, where, f"the solver's model presses {[i for i, b in enumerate(sol) if b]}, the result is {got}", "result")
    now = z.eng.known_items(z.st, ref)
    now = None if now is None else [cval(x) if is_const(x) else None for x in now]
    rep.judge(None if now is None or None in now else [bool(x) for x in now] == list(v), "input-unchanged", tag, where, f"the caller's list of lights is changed from {[int(x) for x in v]} to {[int(x) for x in now or []]}", "list")
    return 1


def wrong_model(rep):
    """A model that leaves lights on is not handed out as a correction."""
    c = cls(CC + ".decoder", "LightsOut")
    m = program().find_method(c, "validate_model")
    if m is None:
        return
    name, lights, k = PUZZLES[0]
    n = 0
    for press in itertools.product((0, 1), repeat=k):
        if sum(press) > 3 or hash(press) % 3:
            continue
        for v in itertools.product((False, True), repeat=3):
            z = Puzzle(rep, lights, k, False)
            if z.obj is None:
                rep.judge(None, "model-validation", name, m.where(), "", z.why)
                return
            model = T("z3model", T("tuple", *map(K, z.z3.names)), T("tuple", *[K(bool(b)) for b in press]))
            out = z.run("validate_model", {m.params[1]: model, m.params[2]: z.list(v)})
            o = z.eng.val(z.st, out) if out is not None else None
            got = bool(cval(o)) if o is not None and is_const(o) else None
            want = parity(lights, press) == list(v)
            n += 1
            if got is not None and got != want:
                rep.bad("model-validation", name, m.where(), f"pressing {[i for i, b in enumerate(press) if b]} with the lights {[int(x) for x in v]} on is judged {got}")
                return
            if got is None:
                rep.judge(None, "model-validation", name, m.where(), "", z.why or "value")
                return
    rep.judge(True, "model-validation", name, m.where(), "", f"{n} models")


def p20(rep):
    solving(rep)
    wrong_model(rep)


# ---------------------------------------------------------------- P21: simulation


CODE = dict(h=[[1, 0, 0, 1, 0, 1, 1], [0, 1, 0, 1, 1, 0, 1], [0, 0, 1, 0, 1, 1, 1]], l=[1, 1, 0, 1, 0, 0, 0])


class Shots:
    """The generator hands out given errors."""

    def __init__(self, errors, p):
        self.errors, self.p = errors, p
        self.bad = ""

    def attr(self, eng, st, b, name):
        return None

    index = attr

    def next(self, st):
        i = st.ov.get((T("shots"), "#n"), 0)
        st.ov = dict(st.ov)
        st.ov[(T("shots"), "#n")] = i + 1
        if i >= len(self.errors):
            raise TooBig("more draws than shots")
        return self.errors[i]

    def call(self, eng, st, path, recv, V, kw, node):
        if path in ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator"):
            return T("generator")
        last = path.split(".")[-1]
        if not (recv is not None and recv.op == "generator") and not path.startswith("numpy.random."):
            return None
        n = len(self.errors[0])
        size = kw.get("size", V[1] if len(V) > 1 and last in ("choice",) else V[0] if V and last in ("random", "random_sample") else V[2] if len(V) > 2 and last == "binomial" else None)
        if size is None or not is_const(size) or cval(size) != n:
            return None
        if last == "choice":
            vals = ints(V[0]) if V and V[0].op != "const" else list(range(cval(V[0]))) if V else None
            pr = kw.get("p", V[3] if len(V) > 3 else None)
            pr = [cval(x) if is_const(x) else None for x in (eng.known_items(st, pr) or [])] if pr is not None else [0.5, 0.5]
            if vals is None or any(x is None for x in vals) or None in pr:
                return None
            if sorted(vals) != [0, 1] or len(pr) != 2:
                self.bad = f"errors are drawn from {vals}"
                return mkarr(eng, st, M(list(self.next(st))), dt="int64")
            if abs(pr[vals.index(1)] - self.p) > 1e-12 or abs(sum(pr) - 1) > 1e-9:
                self.bad = f"errors are drawn with probability {pr[vals.index(1)]} instead of {self.p}"
            return mkarr(eng, st, M(list(self.next(st))), dt="int64")
        if last in ("random", "random_sample"):
            return mkarr(eng, st, M([0.0 if b else 0.999999 for b in self.next(st)]), dt="float64")
        if last == "binomial":
            if not (is_const(V[0]) and cval(V[0]) == 1):
                return None
            pr = kw.get("p", V[1] if len(V) > 1 else None)
            if pr is None or not is_const(pr):
                return None
            if abs(cval(pr) - self.p) > 1e-12:
                self.bad = f"errors are drawn with probability {cval(pr)} instead of {self.p}"
            return mkarr(eng, st, M(list(self.next(st))), dt="int64")
        return None


def bits_of(*on):
    return tuple(int(i in on) for i in range(7))


#       errors and corrections; the residual is a logical operator of the code when its overlap with L is odd
SHOTS = [
    [(bits_of(), bits_of())],
    [(bits_of(2), bits_of(2)), (bits_of(0, 1), bits_of(3))],
    [(bits_of(0, 1, 2, 3, 4, 5, 6), bits_of()), (bits_of(0, 1, 3), bits_of()), (bits_of(4), bits_of(4))],
    [(bits_of(0, 1), bits_of(3)), (bits_of(5, 6), bits_of(0, 1, 2, 3, 4)), (bits_of(0, 3, 5, 6), bits_of())],
    [(bits_of(0, 3, 5), bits_of(6)), (bits_of(1, 2), bits_of(1, 2)), (bits_of(1), bits_of(1)), (bits_of(2, 4, 5, 6), bits_of())],
    [(bits_of(3), bits_of(0, 1)), (bits_of(2, 5, 6), bits_of(0, 1, 3, 4)), (bits_of(), bits_of()), (bits_of(6), bits_of(6)), (bits_of(0, 1, 3, 2, 4, 5, 6), bits_of())],
]


def simulate(rep):
    mod = program().module("mqt.qecc." + CC + ".decoder")
    f = fn(CC + ".decoder", "simulate_error_rate")
    lo = cls(CC + ".decoder", "LightsOut")
    sol, pre, ini = (program().find_method(lo, x) for x in ("solve", "preconstruct_z3_instance", "__init__"))
    if sol is None or pre is None:
        raise AnalysisBroken("LightsOut.solve not found")
    n = 0
    for shots in SHOTS:
        for p in (0.0, 0.07, 0.25) if len(shots) == 2 else (0.125,):
            for solver in ("z3", "/opt/other/solver") if len(shots) == 3 else ("z3",):
                tag = f"{len(shots)} shots, residuals {[''.join(map(str, [a ^ b for a, b in zip(*s)])) for s in shots]}, p = {p}, solver {solver}"
                seen = {"lights": [], "solver": [], "pre": 0}

                def solve(eng, st, args, kw, node, shots=shots, seen=seen, solver=solver):
                    a = dict(zip(sol.params, args), **kw)
                    i = len(seen["lights"])
                    ls = eng.known_items(st, a.get(sol.params[1], NONE))
                    seen["lights"].append(None if ls is None else [bool(cval(x)) if is_const(x) else None for x in ls])
                    s = a.get("solver_path", K("z3"))
                    seen["solver"].append(cval(s) if is_const(s) else None)
                    est = eng.new(st, HObj("list", segs=tuple(("item", K(b)) for b in shots[i][1]) if solver == "z3" else ()))
                    return [(st, T("tuple", est, K(0.5 * (i + 1)), K(0.25 * (i + 1) ** 2)))]

                def prepare(eng, st, args, kw, node, seen=seen):
                    seen["pre"] += 1
                    return [(st, NONE)]

                draws = Shots([s[0] for s in shots], p)
                eng = Engine(program(), explicit=True, unroll=60, limit=40, max_steps=400000, model=Chain(draws, Z3(), Clock()), prims={sol.qual: solve, pre.qual: prepare})
                eng.exact = True
                st = State()
                new = lambda d: eng.new(st, HObj("dict", segs=tuple((K(k), eng.new(st, HObj("list", segs=tuple(("item", K(x)) for x in v)))) for k, v in d.items())))
                faces = {i: [q for q in range(7) if r[q]] for i, r in enumerate(CODE["h"])}
                code = mkobj(eng, st, cls("codes.color_code", "ColorCode"), H=mkarr(eng, st, M(CODE["h"]), dt="int64"), L=mkarr(eng, st, M([CODE["l"]]), dt="int64"), Lz=mkarr(eng, st, M([CODE["l"]]), dt="int64"),
                             Hx=mkarr(eng, st, M(CODE["h"]), dt="int64"), Hz=mkarr(eng, st, M(CODE["h"]), dt="int64"), n=7, distance=3, lattice_type=K("hexagon"),
                             faces_to_qubits=new(faces), qubits_to_faces=new({q: [i for i in faces if q in faces[i]] for q in range(7)}))
                want = expected(shots, p, solver)
                n += run_sim(rep, eng, st, f, code, p, len(shots), solver, seen, draws, want, tag, [s[0] for s in shots])
    rep.count("simulations resolved", n, 6)


def expected(shots, p, solver):
    err, wt, ct, stt = 0, -1, 0.0, 0.0
    for i, (e, c) in enumerate(shots):
        r = [a ^ b for a, b in zip(e, c)]
        if solver == "z3" and sum(a & b for a, b in zip(r, CODE["l"])) % 2:
            err += 1
            wt = sum(r) if wt == -1 else min(wt, sum(r))
        ct += 0.5 * (i + 1)
        stt += 0.25 * (i + 1) ** 2
    n = len(shots)
    ler = err / n
    return {"lattice": "hexagon", "distance": 3, "p": p, "logical_error_rates": [ler], "logical_error_rate_ebs": [math.sqrt((1 - ler) * ler / n)], "min_wts_logical_err": [wt],
            "avg_constr_time": ct / n, "avg_solve_time": stt / n, "avg_total_time": (ct + stt) / n}


def plain(v):
    if is_const(v):
        return cval(v)
    if v.op in ("list", "tuple", "nparr", "nda"):
        import nda
        xs = nda.rows(v) if v.op == "nda" else list((v.args[0] if v.op == "nparr" else v).args)
        return [plain(x) for x in xs]
    return None


def agree(got, want):
    if isinstance(want, list):
        if not isinstance(got, list):
            return None
        rs = [agree(g, w) for g, w in zip(got, want)]
        return False if len(got) != len(want) or False in rs else None if None in rs else True
    if got is None or isinstance(got, list):
        return None
    if isinstance(want, (int, float)) and isinstance(got, (int, float)):
        return math.isclose(got, want, rel_tol=1e-9, abs_tol=1e-12)
    return got == want


def run_sim(rep, eng, st, f, code, p, shots, solver, seen, draws, want, tag, errors):
    try:
        res = eng.start(f, args=prep.with_defaults(f, {"code": code, "error_rate": K(p), "nr_sims": K(shots), "solver_path": K(solver)}), state=st)
    except (TooBig, RecursionError) as e:
        rep.judge(None, "simulation", tag, f.where(), "", str(e))
        return 0
    rep.analysed(*eng.functions_seen, f.qual)
    if len(res) != 1:
        rep.judge(None, "simulation", tag, f.where(), "", f"{len(res)} paths: {[show(t)[:90] for t in res[0][0].pc][:4]}")
        return 0
    s, v = res[0]
    if s.exc is not None:
        rep.judge(False, "simulation", tag, f.where(), f"raises {s.exc.args[0]}", "")
        return 1
    synd = [[bool(sum(a & b for a, b in zip(r, e)) % 2) for r in CODE["h"]] for e in errors]
    ok = None if any(x is None or None in x for x in seen["lights"]) else seen["lights"] == synd
    rep.judge(ok, "simulation-syndromes", tag, f.where(), f"the lights given to the decoder are {seen['lights']} instead of the syndromes {synd}", "lights")
    rep.judge(not draws.bad, "simulation-errors", tag, f.where(), draws.bad, "")
    rep.judge(None if None in seen["solver"] else set(seen["solver"]) <= {solver} and seen["pre"] == 1, "simulation-solver", tag, f.where(), f"solvers {seen['solver']}, {seen['pre']} preparations", "")
    o = s.heap.get(v.args[0]) if v.op == "ref" else None
    d = {cval(k): plain(eng.val(s, x)) for k, x in o.segs if is_const(k)} if o is not None and o.kind == "dict" and o.closed else None
    for k, w in want.items():
        if d is None:
            rep.judge(None, "simulation", f"{tag}: {k}", f.where(), "", "result")
            continue
        if k not in d:
            rep.judge(False, "simulation", f"{tag}: {k}", f.where(), f"the result has no {k}", "")
            continue
        rep.judge(agree(d[k], w), "simulation", f"{tag}: {k}", f.where(), f"{k} is {d[k]} instead of {w}", str(d[k]))
    return 1


def wiring(rep):
    """Command line and files."""
    f = fn(CC, "code_from_string")
    want = {"hexagon": "HexagonalColorCode", "square_octagon": "SquareOctagonColorCode"}
    inits = {}
    for n, m in (("HexagonalColorCode", "hexagonal_color_code"), ("SquareOctagonColorCode", "square_octagon_color_code")):
        i = program().find_method(cls("codes." + m, n), "__init__")
        inits[n] = i
    made = []
    prims = {i.qual: (lambda eng, st, args, kw, node, n=n, i=i: (made.append((n, dict(zip(i.params, args), **kw))), [(st, NONE)])[1]) for n, i in inits.items()}
    for name, d in itertools.product(("hexagon", "square_octagon", "square", "", "HEXAGON2"), (3, 5)):
        made.clear()
        eng = Engine(program(), explicit=True, unroll=10, limit=10, prims=prims)
        eng.exact = True
        try:
            res = eng.start(f, args={f.params[0]: K(name), f.params[1]: K(d)}, state=State())
        except (TooBig, RecursionError) as e:
            rep.judge(None, "code-by-name", name, f.where(), "", str(e))
            continue
        rep.analysed(*eng.functions_seen, f.qual)
        what = f"code_from_string({name!r}, {d})"
        if len(res) != 1:
            rep.judge(None, "code-by-name", what, f.where(), "", f"{len(res)} paths")
        elif name in want:
            if res[0][0].exc is not None:
                rep.judge(False, "code-by-name", what, f.where(), f"the lattice is refused: {res[0][0].exc.args[0]}", "")
            elif len(made) == 1:
                n, a = made[0]
                v = a.get("distance")
                rep.judge(n == want[name] and (None if v is None or not is_const(v) else cval(v) == d), "code-by-name", what, f.where(), f"the result is {n}({show(v) if v is not None else ''})", "")
            else:
                rep.judge(None, "code-by-name", what, f.where(), "", f"{len(made)} codes")
        else:
            rep.judge(res[0][0].exc is not None, "code-by-name", what, f.where(), "an unknown lattice is not refused", "")
    runs(rep)
    tensor_network(rep)
    command(rep)


def call1(rep, f, args, prims, model, rule, what):
    eng = Engine(program(), explicit=True, unroll=20, limit=10, prims=prims, model=model)
    eng.exact = True
    try:
        res = eng.start(f, args=prep.with_defaults(f, args), state=State())
    except (TooBig, RecursionError) as e:
        rep.judge(None, rule, what, f.where(), "", str(e))
        return None
    rep.analysed(*eng.functions_seen, f.qual)
    if len(res) != 1:
        rep.judge(None, rule, what, f.where(), "", f"{len(res)} paths")
        return None
    return eng, res[0][0]


def runs(rep):
    f = fn(CC + ".decoder", "run")
    sim = fn(CC + ".decoder", "simulate_error_rate")
    cfs = fn(CC, "code_from_string")
    for lattice, d, p, n, folder, solver in (("hexagon", 3, 0.123456, 7, "out", "z3"), ("square_octagon", 5, 0.05, 100, "out/deep", "/opt/x/maxhs"), ("hexagon", 7, 0.1, 3, "old", "z3")):
        what = f"run({lattice!r}, {d}, {p}, {n}, {folder!r}, {solver!r})"
        seen = []
        code = []

        def mkcode(eng, st, args, kw, node):
            a = dict(zip(cfs.params, args), **kw)
            code.append(tuple(cval(a[k]) if k in a and is_const(a[k]) else None for k in cfs.params))
            return [(st, mkobj(eng, st, cls("codes.color_code", "ColorCode"), lattice_type=K(lattice), distance=d, n=9))]

        def simul(eng, st, args, kw, node):
            a = dict(zip(sim.params, args), **kw)
            seen.append({k: (cval(v) if is_const(v) else "code" if v.op == "ref" else None) for k, v in a.items()})
            return [(st, eng.new(st, HObj("dict", segs=((K("p"), K(p)), (K("distance"), K(d))))))]

        files = Files({"work": {"old": {}}})
        r = call1(rep, f, dict(zip(("lattice_type", "distance", "error_rate", "nr_sims", "results_dir", "solver"), map(K, (lattice, d, p, n, folder, solver)))), {cfs.qual: mkcode, sim.qual: simul}, Chain(files, Clock()), "result-file", what)
        if r is None:
            continue
        eng, s = r
        if s.exc is not None:
            rep.judge(False, "result-file", what, f.where(), f"raises {s.exc.args[0]}", "")
            continue
        want = {"code": "code", "error_rate": p, "nr_sims": n, "solver_path": solver}
        if len(seen) == 1 and len(code) == 1:
            rep.judge(None if None in seen[0].values() else {**{"solver_path": "z3"}, **seen[0]} == want and code[0] == (lattice, d), "simulation-arguments", what, f.where(), f"the simulation is run as {seen[0]} for {code[0]}", "")
        else:
            rep.judge(None, "simulation-arguments", what, f.where(), "", "calls")
        done = [(e[0], e[2]) for e in Files.written(s) if e[1] != "touch"]
        name = f"/work/{folder}/code={lattice},distance={d},p={round(p, 4)},solver={solver.split('/')[-1]}.json"
        rep.judge((False if closed_world(s) else None) if not done else any(str(pt).endswith(name.split("/work/")[1]) for pt, _v in done), "result-file", what, f.where(), f"the result is written to {[str(x) for x, _v in done]} and not to {name}", "no write seen")


class QecSim:
    """Objects and runs of the qecsim package, as terms."""

    def call(self, eng, st, path, recv, V, kw, node):
        if recv is None and path.startswith("qecsim."):
            return T("qec", K(path.split(".")[-1]), T("tuple", *V), T("tuple", *[T("pair", K(k), eng.val(st, v)) for k, v in sorted(kw.items())]))
        return None

    def attr(self, *a):
        return None

    def index(self, *a):
        return None


def qec_call(v, names):
    """Name and arguments by name of a call of qecsim, or None."""
    if v.op != "qec" or len(v.args[1].args) > len(names):
        return None
    a = dict(zip(names, v.args[1].args))
    a.update({cval(x.args[0]): x.args[1] for x in v.args[2].args})
    return cval(v.args[0]), a


def tensor_network(rep):
    """The comparison with the tensor network decoder."""
    f = opt(CC + ".comparison.tn_decoder", "run")
    if f is None or not {"distance", "error_rate", "nr_sims", "results_dir"} <= set(f.params):
        rep.judge(None, "tensor-network-run", "tn_decoder.run", "src/mqt/qecc/cc_decoder", "", "no such function")
        return
    names = set()
    for d, p, n, folder in ((3, 0.123456, 7, "out"), (5, 0.05, 100, "out/deep"), (3, 0.1, 3, "old"), (5, 0.1, 3, "old"), (3, 0.05, 100, "out")):
        what = f"tn_decoder.run({d}, {p}, {n}, {folder!r})"
        r = call1(rep, f, {"distance": K(d), "error_rate": K(p), "nr_sims": K(n), "results_dir": K(folder)}, {}, Chain(QecSim(), Files({"work": {"old": {}}}), Clock()), "tensor-network-run", what)
        if r is None:
            continue
        _eng, s = r
        if s.exc is not None:
            rep.judge(False, "tensor-network-run", what, f.where(), f"raises {s.exc.args[0]}", "")
            continue
        done = [(str(e[0]), e[2]) for e in Files.written(s) if e[1] != "touch"]
        if len(done) != 1:
            rep.judge(False if not done and closed_world(s) else None, "tensor-network-run", what, f.where(), "no result is written", f"{len(done)} writes")
            continue
        at, v = done[0]
        rep.judge(at.startswith(f"/work/{folder}/") and at not in names, "tensor-network-run", f"{what}: file", f.where(), f"the result is written to {at}" + (", where another result is" if at in names else ""), "")
        names.add(at)
        c = qec_call(v, ("code", "error_model", "decoder", "error_probability", "max_runs", "max_failures"))
        if c is None or c[0] != "run":
            rep.judge(False if v.op == "qec" else None, "tensor-network-run", f"{what}: result", f.where(), "the stored value is no result of a simulation", "value written")
            continue
        a = c[1]
        code = qec_call(a["code"], ("size",)) if "code" in a else None
        model = qec_call(a["error_model"], ()) if "error_model" in a else None
        num = {k: cval(a[k]) if k in a and is_const(a[k]) else None for k in ("error_probability", "max_runs")}
        size = cval(code[1]["size"]) if code is not None and is_const(code[1].get("size", NONE)) else None
        rep.judge(None if code is None or size is None else code[0] == "Color666Code" and size == d, "tensor-network-run", f"{what}: code", f.where(), f"{code and code[0]} of distance {size} is simulated", "code")
        rep.judge((False if is_const(a.get("error_model", NONE)) else None) if model is None else model[0] == "BitFlipErrorModel", "tensor-network-run", f"{what}: errors", f.where(), f"the errors are those of {model and model[0]}", "error model")
        rep.judge(False if "max_runs" not in a else None if None in num.values() else num == {"error_probability": p, "max_runs": n}, "tensor-network-run", f"{what}: samples", f.where(), f"{num.get('max_runs')} samples at rate {num.get('error_probability')} are simulated", "")


def command(rep):
    f = fn(CC + ".cli", "cli")
    run = fn(CC + ".decoder", "run")
    tn = opt(CC + ".comparison.tn_decoder", "run")
    lines = {
        "every option": ["5", "0.07", "--type", "square_octagon", "--nr_sims", "33", "--results_dir", "out", "--decoder", "maxsat", "--solver", "/opt/x"],
        "only the arguments": ["7", "0.25"],
        "some options": ["--solver", "/opt/y", "3", "--nr_sims", "2", "0.5"],
        "the tensor network decoder": ["5", "0.07", "--nr_sims", "33", "--results_dir", "out", "--decoder", "tn"],
        "the tensor network decoder, only the arguments": ["7", "0.25", "--decoder", "tn"],
        "an unknown decoder": ["5", "0.07", "--decoder", "other"],
    }
    n = 0
    for what, argv in lines.items():
        seen = []

        def prim(g, name):
            def h(eng, st, args, kw, node):
                a = dict(zip(g.params, args), **kw)
                seen.append((name, {k: cval(eng.val(st, v)) if is_const(eng.val(st, v)) else None for k, v in a.items()}))
                return [(st, NONE)]

            return h

        prims = {run.qual: prim(run, "maxsat")}
        if tn is not None:
            prims[tn.qual] = prim(tn, "tn")
        r = call1(rep, f, {}, prims, Argparse(argv), "command-line", what)
        if r is None:
            continue
        _eng, s = r
        if "other" in argv:
            rep.judge(s.exc is not None and not seen, "command-line", what, f.where(), "an unknown decoder is not refused", "")
            n += 1
            continue
        opts = {argv[i][2:]: argv[i + 1] for i in range(len(argv)) if argv[i].startswith("--")}
        pos = [x for i, x in enumerate(argv) if not x.startswith("--") and not (i and argv[i - 1].startswith("--"))]
        dec = opts.get("decoder", "maxsat")
        want = {"distance": int(pos[0]), "error_rate": float(pos[1]), "nr_sims": int(opts.get("nr_sims", 10000)), "results_dir": opts.get("results_dir", "./results")}
        if dec == "maxsat":
            want.update(lattice_type=opts.get("type", "hexagon"), solver=opts.get("solver", "z3"))
        if s.exc is not None or len(seen) != 1 or None in seen[0][1].values():
            rep.judge(None, "command-line", what, f.where(), "", "calls")
            continue
        n += 1
        rep.judge(seen[0] == (dec, want), "command-line", what, f.where(), f"the command line {' '.join(argv)} runs the {seen[0][0]} decoder with {seen[0][1]} instead of {want}", "")
    rep.count("command lines resolved", n, 4)


class Argparse:
    """argparse for a given command line."""

    KEY = (T("parser"), "#arguments")

    def __init__(self, argv):
        self.argv = argv

    def index(self, *a):
        return None

    def attr(self, eng, st, b, name):
        if b.op != "cliargs":
            return None
        for k, v in b.args:
            if k == name:
                return v
        return None

    def call(self, eng, st, path, recv, V, kw, node):
        if path == "argparse.ArgumentParser":
            return T("parser")
        if recv is None or recv.op != "parser":
            return None
        if path == ".add_argument":
            names = [cval(v) if is_const(v) else None for v in V]
            if not names or None in names:
                raise TooBig("argument names")
            st.ov = dict(st.ov)
            st.ov[self.KEY] = (*st.ov.get(self.KEY, ()), (names, {k: eng.val(st, v) for k, v in kw.items()}))
            return NONE
        if path == ".parse_args" and not V and not kw:
            return self.parse(eng, st)
        return None

    def builtin(self, eng, st, name, V, kw, node):
        if name == "vars" and len(V) == 1 and V[0].op == "cliargs":
            return eng.new(st, HObj("dict", segs=tuple((K(k), v) for k, v in V[0].args)))
        if name == "getattr" and len(V) in (2, 3) and V[0].op == "cliargs" and is_const(V[1]):
            return dict(V[0].args).get(cval(V[1]), V[2] if len(V) == 3 else None)
        return None

    def parse(self, eng, st):
        try:
            return self.line(eng, st)
        except ValueError:  # an argument of the wrong type
            st.exc = T("exc", "SystemExit")
            return T("undef")

    def line(self, eng, st):
        known = st.ov.get(self.KEY, ())
        flags, pos, val = {}, [], {}
        for names, kw in known:
            act = cval(kw["action"]) if "action" in kw and is_const(kw["action"]) else "store"
            if act in ("store_true", "store_false"):
                dest = cval(kw["dest"]) if "dest" in kw else next((x[2:] for x in names if x.startswith("--")), names[0].lstrip("-")).replace("-", "_")
                flags.update(dict.fromkeys(names, (dest, {"const": K(act == "store_true")})))
                val.setdefault(dest, kw.get("default", K(act != "store_true")))
                continue
            if act != "store":
                raise TooBig("argument action")
            kw = {k: v for k, v in kw.items() if k != "action"}
            if set(kw) - {"type", "default", "help", "dest", "choices", "required", "metavar", "nargs"} or "nargs" in kw:
                raise TooBig("argument options")
            dest = cval(kw["dest"]) if "dest" in kw else next((x[2:] for x in names if x.startswith("--")), names[0].lstrip("-")).replace("-", "_")
            a = (dest, kw)
            if names[0].startswith("-"):
                flags.update(dict.fromkeys(names, a))
                val[dest] = val[dest] if dest in val else self.conv(kw.get("default", NONE), kw) if is_const(kw.get("default", NONE)) and isinstance(cval(kw.get("default", NONE)), str) else kw.get("default", NONE)
            else:
                pos.append(a)
        rest = list(self.argv)
        need = list(pos)
        given_flags = set()
        while rest:
            x = rest.pop(0)
            if x.startswith("--") or x in flags:
                k, _, given = x.partition("=")
                if k in flags and "const" in flags[k][1]:
                    val[flags[k][0]] = flags[k][1]["const"]
                    continue
                if k not in flags or (not given and not rest):
                    st.exc = T("exc", "SystemExit")
                    return T("undef")
                dest, kw = flags[k]
                given_flags.add(dest)
                val[dest] = self.conv(K(given or rest.pop(0)), kw)
            elif need:
                dest, kw = need.pop(0)
                val[dest] = self.conv(K(x), kw)
            else:
                st.exc = T("exc", "SystemExit")
                return T("undef")
        must = {d for d, kw in flags.values() if is_const(kw.get("required", NONE)) and cval(kw.get("required", NONE)) is True}
        if need or must - given_flags:
            st.exc = T("exc", "SystemExit")
            return T("undef")
        return T("cliargs", *[(k, v) for k, v in val.items()])

    def conv(self, v, kw):
        t = kw.get("type")
        if t is None:
            return v
        name = str(t.args[0]) if t.args else ""
        name = name.split(".")[-1].strip("'")
        f = {"int": int, "float": float, "str": str}.get(name)
        if f is None:
            raise TooBig(f"argument type {name}")
        return K(f(cval(v)))


def p21(rep):
    simulate(rep)
    wiring(rep)
