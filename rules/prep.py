"""Synthesis of state preparation circuits (mqt.qecc.ft_stateprep.state_prep)."""
from __future__ import annotations

import functools
import itertools

import nda
import z3terms
from common import *
from dag import SolverModel
from ft import M, SP, constraints_of, flat_ok, gate_list, ints, mkobj, opt, span, wire_index
from faults import rowspan
from pyext import arr as mkarr
from terms import T


def circuit_gates(p, qc):
    """[(name, qubits)] or (None, reason)"""
    gs, why = gate_list(p, qc)
    if gs is None:
        return None, why
    out = []
    for g, ws, cb in gs:
        q = tuple(wire_index(w) for w in ws)
        if any(x is None for x in q):
            return None, "a gate on an unknown qubit"
        out.append((g, q))
    return out, None


def prepared(gates, n):
    """X and Z stabilizer generators of the state a circuit of H and CNOT gates prepares from |0...0>, or None."""
    hs = set()
    xs, zs = [], []
    for g, q in gates:
        if any(not 0 <= x < n for x in q):
            return None
        if g == "h":
            if xs or zs:
                return None
            hs ^= {q[0]}
        elif g == "cx":
            if not (xs or zs):
                xs = [[int(i == j) for j in range(n)] for i in sorted(hs)]
                zs = [[int(i == j) for j in range(n)] for i in range(n) if i not in hs]
            if q[0] == q[1]:
                return None
            for v in xs:
                v[q[1]] ^= v[q[0]]
            for v in zs:
                v[q[0]] ^= v[q[1]]
        else:
            return None
    if not (xs or zs):
        xs = [[int(i == j) for j in range(n)] for i in sorted(hs)]
        zs = [[int(i == j) for j in range(n)] for i in range(n) if i not in hs]
    return xs, zs


def prepares(gates, n, checks, zero):
    """The X (|0>) or Z (|+>) stabilizers of the prepared state are exactly the row space of the checks."""
    st = prepared(gates, n)
    if st is None:
        return False
    got = st[0] if zero else st[1]
    z = (0,) * n
    return (rowspan(got) or frozenset([z])) == (rowspan(checks) or frozenset([z]))


def canon(gates):
    """CNOT layers of a gate sequence, as soon as possible."""
    depth, layers = {}, []
    for g, q in gates:
        if g != "cx":
            continue
        d = max(depth.get(x, 0) for x in q)
        if d == len(layers):
            layers.append(set())
        layers[d].add(q)
        for x in q:
            depth[x] = d + 1
    return tuple(frozenset(x) for x in layers)


def p10(rep):
    builder(rep)
    heuristic(rep)
    bounded(rep, "_generate_circ_with_bounded_depth", "depth")
    bounded(rep, "_generate_circ_with_bounded_gates", "gates")
    search(rep)
    optimal(rep)


EX = [
    ([[1, 0, 0, 1], [0, 1, 1, 1]], [(1, 2), (0, 3), (1, 3)]),
    ([[1, 1, 0, 0, 1]], [(0, 1), (1, 4), (0, 1), (0, 1)]),
    ([[1, 0, 1, 1, 0], [0, 1, 1, 0, 1]], [(0, 3), (1, 4), (0, 2), (1, 2), (2, 4)]),
    ([[0, 1, 1], [1, 1, 0]], []),
]


def column_ops(m, ops):
    m = [list(r) for r in m]
    for i, j in ops:
        for r in m:
            r[j] ^= r[i]
    return m


def builder(rep):
    """The circuit built from recorded column additions undoes them on the right side."""
    f = opt(SP, "_build_circuit_from_list_and_checks")
    if f is None or len(f.params) < 3:
        rep.unknown("prep-builder", "circuit from column additions", "no such function")
        return
    n = 0
    for k, (m, ops) in enumerate(EX[:3]):
        # bring the matrix to a form with as many non-zero columns as rows, recording the additions
        full = list(ops)
        red = column_ops(m, full)
        full, red = finish(red, full)
        for zero in (True, False):
            c = f"circuit from column additions, example {k}, {'|0>' if zero else '|+>'}"
            st = State()
            eng = Engine(program(), explicit=True, unroll=100, limit=64)
            try:
                res = eng.start(f, args={f.params[0]: T("list", *[T("tuple", K(a), K(b)) for a, b in full]), f.params[1]: M(red), f.params[2]: K(zero)}, state=st)
            except (TooBig, RecursionError):
                res = []
            rep.analysed(*eng.functions_seen, f.qual)
            an = Analysis(eng, f, res)
            if len(an.normal) != 1:
                rep.unknown("prep-builder", c, f"{len(an.normal)} paths")
                continue
            gs, why = circuit_gates(an.normal[0], an.normal[0].val)
            if gs is None:
                rep.unknown("prep-builder", c, why)
                continue
            n += 1
            rep.judge(prepares(gs, len(m[0]), m, zero), "prep-builder", c, an.where,
                      f"the circuit {fmt(gs)} for the additions {full} of {m} prepares another state", f"{len(gs)} gates")
    rep.count("built circuits extracted", n, 4)


def finish(red, ops):
    """Eliminate the remaining columns (Gauss on the columns)."""
    n = len(red[0])
    piv = {}
    for r in range(len(red)):
        p = next(j for j in range(n) if red[r][j] and j not in piv.values())
        for j in range(n):
            if j != p and red[r][j]:
                ops = ops + [(p, j)]
                red = column_ops(red, [(p, j)])
        piv[r] = p
    return ops, red


def fmt(gs):
    return " ".join(f"{g}{list(q)}" for g, q in gs)[:160]


HCODES = [
    ("Steane", [[0, 0, 0, 1, 1, 1, 1], [0, 1, 1, 0, 0, 1, 1], [1, 0, 1, 0, 1, 0, 1]], [[0, 0, 0, 1, 1, 1, 1], [0, 1, 1, 0, 0, 1, 1], [1, 0, 1, 0, 1, 0, 1]]),
    ("asymmetric", [[1, 1, 1, 1, 0, 0], [0, 0, 1, 1, 1, 1]], [[1, 1, 0, 0, 1, 1], [1, 1, 1, 1, 0, 0], [1, 0, 1, 0, 1, 0]]),
    ("repeated checks", [[1, 1, 0, 0, 1], [0, 1, 1, 1, 1], [1, 0, 1, 1, 0]], [[1, 1, 1, 1, 1]]),
    ("redundant", [[1, 1, 1, 1, 0], [1, 0, 1, 0, 0], [0, 1, 1, 0, 1], [1, 1, 0, 0, 1], [0, 1, 0, 1, 0], [0, 0, 1, 1, 1]],
     [[1, 1, 1, 1, 1]]),
    ("redundant Z", [[1, 0, 1, 1, 0, 1, 0]], [[0, 0, 1, 1, 0, 1, 1], [1, 1, 0, 1, 1, 1, 0], [1, 1, 1, 0, 1, 0, 1], [0, 0, 0, 0, 0, 0, 0]]),
    ("dense", [[1, 1, 1, 1, 1, 1, 0], [1, 1, 1, 0, 0, 1, 1], [1, 0, 1, 1, 1, 1, 1], [0, 1, 1, 1, 1, 0, 1]], [[1, 1, 1, 1, 1, 1, 1], [1, 1, 1, 0, 1, 0, 1]]),
]


def prep_circuit_object(eng, p):
    """(circuit term, zero_state term, code term) of a returned StatePrepCircuit."""
    v = p.val
    if v is not None and v.op == "ref":
        o = p.st.heap[v.args[0]]
        if o.kind == "obj" and o.cls is not None and o.cls.name == "StatePrepCircuit":
            return o.fields.get("circ"), o.fields.get("zero_state"), o.fields.get("code")
    return None


def heuristic(rep):
    f = fn(SP, "heuristic_prep_circuit")
    n = 0
    for name, hx, hz in HCODES:
        for zero in (True, False):
            for od in (True, False):
                c = f"heuristic_prep_circuit, {name} code, {'|0>' if zero else '|+>'}{', depth' if od else ''}"
                st = State()
                eng = Engine(program(), explicit=True, unroll=150, limit=64, max_steps=3000000)
                code = mkobj(eng, st, cls("codes.css_code", "CSSCode"), Hx=mkarr(eng, st, M(hx)), Hz=mkarr(eng, st, M(hz)), Lx=M([hx[0]]), Lz=M([hz[0]]), distance=3, x_distance=3, z_distance=3, n=len(hx[0]))
                try:
                    res = eng.start(f, args={f.params[0]: code, "optimize_depth": K(od), "zero_state": K(zero)}, state=st)
                except (TooBig, RecursionError) as e:
                    rep.unknown("heuristic-prep", c, f"too large {e}")
                    continue
                rep.analysed(*eng.functions_seen, f.qual)
                an = Analysis(eng, f, res)
                if not an.normal and an.raising:
                    rep.bad("heuristic-prep", c, an.where, f"no circuit is produced ({an.raising[0].exc.args[0]})")
                    continue
                if len(an.normal) != 1 or an.raising:
                    rep.unknown("heuristic-prep", c, f"{len(an.normal)} paths")
                    continue
                p = an.normal[0]
                o = prep_circuit_object(eng, p)
                if o is None or o[0] is None:
                    rep.unknown("heuristic-prep", c, "no StatePrepCircuit is returned")
                    continue
                gs, why = circuit_gates(p, o[0])
                if gs is None:
                    rep.unknown("heuristic-prep", c, why)
                    continue
                n += 1
                rep.judge(prepares(gs, len(hx[0]), hx if zero else hz, zero), "heuristic-prep", c, an.where,
                          f"the circuit {fmt(gs)} does not prepare the {'|0>' if zero else '|+>'} state", f"{len(gs)} gates")
                labels(rep, c, an.where, o, zero, code)
                same = p.st.heap[code.args[0]].fields
                for nm, m in (("Hx", hx), ("Hz", hz)):
                    v = ints(eng.val(p.st, same[nm]))
                    if flat_ok(v):
                        rep.judge([list(r) for r in v] == m, "input-unchanged", f"{c}: {nm}", an.where, f"the code's {nm} is changed by the synthesis", "unchanged")
    rep.count("heuristic circuits extracted", n, 10)


def labels(rep, c, where, o, zero, code):
    if o[1] is not None and is_const(o[1]):
        rep.judge(bool(cval(o[1])) == zero, "prep-state-label", c, where, "the StatePrepCircuit is labelled with the other basis", "same basis")
    if o[2] is not None and o[2].op in ("ref", "sym"):
        rep.judge(o[2] is code, "prep-state-label", f"{c}: code", where, "the StatePrepCircuit belongs to another code", "same code")


# ------------------------------------------------------------------ bounded synthesis


def expected(checks, bound, kind, zero):
    """Canonical CNOT layers of all circuits within the bound that prepare the state."""
    n, r = len(checks[0]), len(checks)
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    if kind == "gates":
        layers = [((p,),) for p in pairs]
        seqs = ([x[0] for x in s] for s in itertools.product(layers, repeat=bound))
    else:
        opts = [()]
        for k in range(1, n // 2 + 1):
            opts += [c for c in itertools.combinations(pairs, k) if len({x for p in c for x in p}) == 2 * k]
        seqs = itertools.product(opts, repeat=bound)
    out = set()
    for s in seqs:
        ops = [p for lay in s for p in lay]
        red = column_ops(checks, ops)
        if sum(any(row[j] for row in red) for j in range(n)) != r:
            continue
        out.add(canon([("cx", (i, j) if zero else (j, i)) for i, j in reversed(ops)]))
    return out


BOUNDED = {
    "depth": [([[1, 1, 0]], 1, True), ([[1, 1, 1]], 2, False), ([[1, 1, 0], [0, 1, 1]], 2, True), ([[1, 1, 1, 1]], 1, True), ([[1, 1, 1], [0, 1, 0]], 1, False)],
    "gates": [([[1, 1, 0]], 1, True), ([[1, 1, 1]], 2, False), ([[1, 1, 0], [0, 1, 1]], 2, True), ([[1, 0, 1, 1]], 2, True), ([[1, 0, 1]], 2, True), ([[0, 1, 1]], 2, False), ([[1, 1, 1, 0, 0]], 2, False)],
}


def bounded(rep, name, kind):
    f = opt(SP, name)
    if f is None or len(f.params) < 3:
        rep.unknown("bounded-synthesis", name, "no such function")
        return
    total = 0
    for checks, bound, zero in BOUNDED[kind]:
        c = f"{name}, checks {checks}, bound {bound}, {'|0>' if zero else '|+>'}"
        args = lambda: {f.params[0]: M(checks), f.params[1]: K(bound), f.params[2]: K(zero)}

        def run(env):
            st = State()
            eng = Engine(program(), explicit=True, unroll=100, limit=64, model=SolverModel(env), max_steps=3000000)
            try:
                res = eng.start(f, args=args(), state=st)
            except (TooBig, RecursionError):
                res = []
            rep.analysed(*eng.functions_seen, f.qual)
            return Analysis(eng, f, res)

        an = run(None)
        if len(an.normal) != 1 or an.raising:
            rep.unknown("bounded-synthesis", c, f"{len(an.normal)} paths without a solution")
            continue
        p = an.normal[0]
        if p.val is not terms.NONE:
            if p.val.op == "new" or is_const(p.val):
                rep.bad("bounded-synthesis", c, an.where, "a circuit is returned although the constraints cannot be met")
            else:
                rep.unknown("bounded-synthesis", c, "result without a solution not understood")
            continue
        cons = constraints_of(p)
        want = expected(checks, bound, kind, zero)
        try:
            sols = list(itertools.islice(z3terms.solutions(cons), 600))
        except z3terms.Unmodelled as e:
            rep.unknown("bounded-synthesis", c, f"constraint with {e}")
            continue
        got, bad, why = set(), None, None
        for env in sols:
            a = run(env)
            if len(a.normal) != 1 or a.raising:
                why = f"{len(a.normal)} paths for a given solution"
                break
            if a.normal[0].val is terms.NONE:
                bad = "no circuit is returned although the constraints can be met"
                break
            gs, why = circuit_gates(a.normal[0], a.normal[0].val)
            if gs is None:
                break
            total += 1
            if not prepares(gs, len(checks[0]), checks, zero):
                bad = f"the constraints accept the circuit {fmt(gs)}, which does not prepare the state"
                break
            lay = canon(gs)
            k = len(lay) if kind == "depth" else sum(1 for g in gs if g[0] == "cx")
            if k > bound:
                bad = f"the constraints accept the circuit {fmt(gs)} with {k} instead of at most {bound}"
                break
            got.add(lay)
        if bad:
            rep.bad("bounded-synthesis", c, an.where, bad)
        elif why:
            rep.unknown("bounded-synthesis", c, why)
        elif len(sols) < 600 and want - got:
            w = min(want - got, key=lambda x: (len(x), str(sorted(map(sorted, x)))))
            rep.bad("bounded-synthesis", c, an.where, f"the constraints exclude the valid circuit with the CNOT layers {[sorted(x) for x in w]}")
        else:
            rep.judge(True, "bounded-synthesis", c, an.where, "", f"{len(sols)} solutions, {len(want)} circuits")
    rep.count(f"{kind}-bounded circuits extracted", total, 8)


def with_defaults(f, args):
    """Arguments completed by the constant defaults of the signature."""
    ds = f.node.args.defaults
    for p, d in zip(f.params[len(f.params) - len(ds):], ds):
        if p not in args and hasattr(d, "value") and not hasattr(d, "attr"):
            args[p] = K(d.value)
    return args


def timeout_runner(solvable, slow=None, log=None):
    """Stand-in for _run_with_timeout: calls the function; `slow(param, timeout)` reports a timeout."""
    rf = opt(SP, "_run_with_timeout")

    def prim(eng, st, args, kw, node):
        tm = kw.get("timeout", args[2] if len(args) > 2 and rf.params[1:2] != ["timeout"] else K(10))
        par = eng.val(st, args[1]) if len(args) > 1 else None
        tm = eng.val(st, tm)
        if par is None or not is_const(par) or not is_const(tm):
            return None
        if slow is not None and slow(cval(par), cval(tm)):
            return [(st, K("timeout"))]
        if log is not None:
            log.append((cval(par), cval(tm)))
        return eng.call(st, args[0], [par], {}, node)

    return {rf.qual: prim} if rf is not None else None


def search(rep):
    """The geometric search returns a solution together with the parameter it was found for, whenever the largest parameter has one."""
    f = opt(SP, "iterative_search_with_timeout")
    if f is None or opt(SP, "_run_with_timeout") is None:
        rep.unknown("iterative-search", "iterative_search_with_timeout", "no such function")
        return
    n = 0
    for lo, hi, thr, t0, t1, slow in ((1, 10, 1, 1, 8, None), (1, 10, 5, 1, 8, None), (1, 10, 10, 1, 8, None), (3, 10, 11, 1, 8, None), (1, 7, 7, 2, 2, None), (2, 2, 2, 1, 1, None),
                                      (1, 10, 3, 1, 8, lambda p, t: t < 8), (1, 6, 6, 1, 4, lambda p, t: t < 4), (1, 6, 2, 1, 4, lambda p, t: True), (1, 4, 4, 1, 16, lambda p, t: p * 2 > t)):
        c = f"parameters {lo} to {hi}, solvable from {thr}, timeouts {t0} to {t1}{', slow' if slow else ''}"
        st = State()
        pr = timeout_runner(None, slow)

        def fun(eng, s, args, kw, node, thr=thr):
            p = eng.val(s, args[0])
            return [(s, T("new", "qiskit.QuantumCircuit", K("solution"), p) if is_const(p) and cval(p) >= thr else terms.NONE)]

        bf = opt(SP, "_generate_circ_with_bounded_depth")
        eng = Engine(program(), explicit=True, unroll=60, limit=64, prims={**pr, bf.qual: fun} if bf else pr)
        fv = eng.func_term(bf) if bf else None
        if fv is None:
            rep.unknown("iterative-search", c, "no function to search with")
            continue
        try:
            res = eng.start(f, args=with_defaults(f, {f.params[0]: fv, f.params[1]: K(lo), f.params[2]: K(hi), f.params[3]: K(t0), f.params[4]: K(t1)}), state=st)
        except (TooBig, RecursionError):
            res = []
        rep.analysed(*eng.functions_seen, f.qual)
        an = Analysis(eng, f, res)
        if len(an.normal) != 1 or an.raising:
            rep.unknown("iterative-search", c, f"{len(an.normal)} paths")
            continue
        v = eng.known_items(an.normal[0].st, an.normal[0].val)
        possible = thr <= hi and (slow is None or not slow(hi, t1))
        if an.normal[0].val is terms.NONE:
            v = [terms.NONE, K(hi)]
        if v is None or len(v) != 2:
            rep.unknown("iterative-search", c, "result not understood")
            continue
        n += 1
        if v[0].op == "new":
            p = cval(v[0].args[2])
            rep.judge(v[1] is K(p) and possible | (p >= thr), "iterative-search", c, an.where, f"the solution for {p} is returned with the parameter {v[1]}", f"parameter {p}")
        elif v[0] is terms.NONE or is_const(v[0]):
            if is_const(v[0]) and cval(v[0]) is not None:
                rep.bad("iterative-search", c, an.where, f"{cval(v[0])!r} is returned as a solution")
            else:
                rep.judge(not possible, "iterative-search", c, an.where, "no solution is returned although the largest parameter has one within the timeout", "no solution")
        else:
            rep.unknown("iterative-search", c, "result not understood")
    rep.count("searches resolved", n, 6)
    runner(rep)


def runner(rep):
    """_run_with_timeout returns what the function returns, "timeout" only for a process that is still alive."""
    f = opt(SP, "_run_with_timeout")
    if f is None:
        return
    an = analyse(f, rep=rep)
    for p in an.normal:
        alive = None
        for k, v in p.facts.items():
            if "is_alive" in show(k):
                alive = v if k.op != "not" else not v
        c = f"_run_with_timeout, process {'alive' if alive else 'finished' if alive is False else 'unknown'}"
        if alive is None:
            rep.unknown("timeout-runner", c, "not resolved")
        elif alive:
            if p.val is K("timeout"):
                rep.ok("timeout-runner", c, an.where)
            elif p.val.op == "index" or p.val.op == "app":
                rep.bad("timeout-runner", c, an.where, "a result is taken from a function that did not finish")
            else:
                rep.unknown("timeout-runner", c, "result not understood")
        else:
            if p.val is K("timeout"):
                rep.bad("timeout-runner", c, an.where, "a finished function is reported as a timeout")
            else:
                rep.ok("timeout-runner", c, an.where)


def optimal(rep):
    n = 0
    for name, gen in (("depth_optimal_prep_circuit", "_generate_circ_with_bounded_depth"), ("gate_optimal_prep_circuit", "_generate_circ_with_bounded_gates")):
        f = fn(SP, name)
        g = opt(SP, gen)
        gens = [x for x in (opt(SP, y) for y in ("_generate_circ_with_bounded_depth", "_generate_circ_with_bounded_gates")) if x is not None]
        if g is None or opt(SP, "_run_with_timeout") is None:
            rep.unknown("optimal-prep", name, "private functions not found")
            continue
        for cname, hx, hz in HCODES[1:3]:
            for zero in (True, False):
                for lo, hi, thr, slow in ((1, 12, 5, None), (1, 12, 4, None), (1, 12, 13, None), (1, 12, 4, lambda p, t: p == 3), (2, 9, 9, None), (1, 12, 1, None)):
                    c = f"{name}, {cname} code, {'|0>' if zero else '|+>'}, {lo} to {hi}, solvable from {thr}{', timeout below' if slow else ''}"
                    st = State()

                    def gener(eng, s, args, kw, node, thr=thr, g=None):
                        env = dict(zip(g.params, args))
                        env.update(kw)
                        for p_, d in zip(g.params[::-1], g.node.args.defaults[::-1]):
                            env.setdefault(p_, K(d.value))
                        vals = [eng.val(s, env[p_]) for p_ in g.params[:3] if p_ in env]
                        if len(vals) < 3 or not is_const(vals[1]):
                            return None
                        if cval(vals[1]) < thr or cval(vals[1]) <= 0:
                            return [(s, terms.NONE)]
                        return [(s, T("new", "qiskit.QuantumCircuit", *vals, K(g.name)))]

                    eng = Engine(program(), explicit=True, unroll=60, limit=64, 
                                 prims={**timeout_runner(None, slow), **{x.qual: functools.partial(gener, g=x) for x in gens}})
                    code = mkobj(eng, st, cls("codes.css_code", "CSSCode"), Hx=M(hx), Hz=M(hz), Lx=M([hx[0]]), Lz=M([hz[0]]), distance=3, x_distance=3, z_distance=3, n=len(hx[0]))
                    try:
                        res = eng.start(f, args={f.params[0]: code, f.params[1]: K(zero), f.params[2]: K(lo), f.params[3]: K(hi), f.params[4]: K(1), f.params[5]: K(8)}, state=st)
                    except (TooBig, RecursionError):
                        res = []
                    rep.analysed(*eng.functions_seen, f.qual)
                    an = Analysis(eng, f, res)
                    if len(an.normal) != 1 or an.raising:
                        rep.unknown("optimal-prep", c, f"{len(an.normal)} paths, {len(an.raising)} raising")
                        continue
                    p = an.normal[0]
                    if p.val is terms.NONE:
                        n += 1
                        rep.judge(thr > hi, "optimal-prep", c, an.where, "no circuit is returned although there is one within the bounds", "none")
                        continue
                    o = prep_circuit_object(eng, p)
                    if o is None or o[0] is None or o[0].op != "new":
                        if o is not None and o[0] is not None and is_const(o[0]):
                            rep.bad("optimal-prep", c, an.where, f"{cval(o[0])!r} is returned as the circuit")
                        else:
                            rep.unknown("optimal-prep", c, "result not understood")
                        continue
                    n += 1
                    _q, ck, par, zs = o[0].args[:4]
                    rep.judge(cval(o[0].args[4]) == gen, "optimal-prep", f"{c}: metric", an.where, f"the circuit comes from {cval(o[0].args[4])}", "metric")
                    want = hx if zero else hz
                    rows = ints(ck)
                    if flat_ok(rows) and rows:
                        rep.judge(len(rows[0]) == len(want[0]) and rowspan(rows) == rowspan(want) and len(rowspan(rows)) == 2 ** len(rows), "optimal-prep", f"{c}: checks", an.where,
                                  f"the synthesis is given the checks {rows} instead of independent generators of {want}", "independent generators")
                    if is_const(zs):
                        rep.judge(bool(cval(zs)) == zero, "optimal-prep", f"{c}: basis", an.where, "the circuit is synthesised for the other basis", "basis")
                    labels(rep, c, an.where, o, zero, code)
                    rep.judge(cval(par) == thr, "optimal-prep", f"{c}: bound", an.where,
                              f"the circuit returned has bound {cval(par)} although {thr} is possible and everything below is excluded", f"bound {thr}")
    rep.count("optimal syntheses resolved", n, 8)
