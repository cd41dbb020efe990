"""Fault sets of state preparation circuits (mqt.qecc.ft_stateprep.state_prep.StatePrepCircuit)."""
from __future__ import annotations

import itertools

import nda
import stab
from common import *
from dag import Circuits
from ft import M, SP, flat_ok, ints, mkobj, opt, span
from terms import T


def leader(err, gens):
    """The lowest-weight element of the coset, the first one in lexicographic order."""
    return min((tuple(a ^ b for a, b in zip(err, s)) for s in span(gens)), key=lambda v: (sum(v), v))


def leader_prim(eng, st, args, kw, node):
    vals = [ints(eng.val(st, a)) for a in list(args) + [v for _k, v in sorted(kw.items())]]
    if len(vals) != 2 or not all(flat_ok(v) and v is not None for v in vals):
        return None
    if kw:
        vals.sort(key=lambda v: isinstance(v[0], list))
    e, g = vals
    return [(st, M(list(leader([x & 1 for x in e], g))))]


def prims():
    f = opt(SP, "_coset_leader")
    return {f.qual: leader_prim} if f is not None else {}


# a circuit on 5 qubits: Hadamards on 0, 1 and a sequence of CNOTs that spreads errors differently in both bases
N = 5
GATES1 = [("h", (0,)), ("h", (1,)), ("cx", (0, 2)), ("cx", (1, 3)), ("cx", (0, 4)), ("cx", (2, 3)), ("cx", (3, 4))]
HX = [[1, 1, 0, 1, 0]]
HZ = [[0, 1, 1, 0, 1]]
LX = [[1, 0, 0, 1, 1]]
LZ = [[1, 1, 1, 0, 0]]


def spread(gates, n, x):
    """Data errors at the end of the circuit caused by one fault before or after each two-qubit gate, and their witnesses."""
    out = set()
    cn = [g for g in gates if g[0] == "cx"]
    for i in range(len(cn)):
        e = [0] * n
        e[cn[i][1][0] if x else cn[i][1][1]] = 1
        for _g, (c, t) in cn[i:]:
            if x:
                e[t] ^= e[c]
            else:
                e[c] ^= e[t]
        out.add(tuple(e))
    return out


CIRCUITS = {
    "A": (5, [("h", (0,)), ("h", (1,)), ("cx", (0, 2)), ("cx", (1, 3)), ("cx", (0, 4)), ("cx", (2, 3)), ("cx", (3, 4))]),
    "B": (5, [("h", (4,)), ("h", (2,)), ("cx", (4, 3)), ("cx", (2, 0)), ("cx", (3, 1)), ("cx", (0, 1)), ("cx", (4, 2)), ("cx", (1, 3))]),
    "C": (6, [("h", (0,)), ("cx", (0, 1)), ("cx", (1, 2)), ("cx", (1, 3)), ("cx", (0, 4)), ("cx", (4, 5)), ("cx", (3, 5))]),
}
CIRCUITS["D"] = (8, [("h", (0,)), ("h", (5,)), ("cx", (0, 1)), ("cx", (5, 6)), ("cx", (0, 2)), ("cx", (1, 3)), ("cx", (6, 4)), ("cx", (5, 7)), ("cx", (3, 4))])
CODES = {
    "D": ([[1, 1, 0, 1, 0, 0, 0, 1]], [[0, 1, 1, 0, 0, 1, 1, 0]], [[0, 0, 1, 1, 0, 1, 1, 0]], [[1, 0, 0, 1, 1, 1, 0, 0]]),
    "A": ([[1, 1, 0, 1, 0]], [[0, 1, 1, 0, 1]], [[1, 0, 0, 1, 1]], [[1, 1, 1, 0, 0]]),
    "B": ([[1, 1, 1, 1, 0]], [[0, 1, 0, 1, 1], [1, 0, 0, 1, 0]], [[1, 0, 1, 0, 0]], [[0, 0, 1, 1, 1]]),
    "C": ([[1, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 1]], [[1, 1, 0, 0, 1, 1]], [[0, 1, 1, 1, 0, 0]], [[1, 0, 1, 0, 1, 0]]),
}


def rowspan(rows):
    return frozenset(tuple(v) for v in span(rows))


def coset(v, gens):
    return leader(v, gens)


def sums(sets, n):
    out = {tuple([0] * n)}
    for s in sets:
        out = {tuple(a ^ b for a, b in zip(u, v)) for u in out for v in s}
    return out


class Case:
    """One StatePrepCircuit built from a circuit with a known gate list and a code with known matrices."""

    def __init__(self, rep, key, zero, d, dx, dz, detect):
        self.rep = rep
        self.key, self.zero, self.d, self.dx, self.dz, self.detect = key, zero, d, dx, dz, detect
        self.n, self.gates = CIRCUITS[key]
        hx, hz, lx, lz = CODES[key]
        self.xstab = hx if zero else lx + hx
        self.zstab = hz if not zero else lz + hz
        det = detect or d == 2
        self.maxe = tuple(v // 2 if det else (v - 1) // 2 for v in (d, dx, dz))
        self.name = f"circuit {key}, {'|0>' if zero else '|+>'}, d={d}, dx={dx}, dz={dz}{', detection' if detect else ''}"
        self.st = self.st0 = State()
        self.st0 = State()
        self.eng = Engine(program(), explicit=True, unroll=800, limit=256, max_steps=4000000, model=Circuits(prep_circuit=CIRCUITS[key]), prims=prims())
        code = mkobj(self.eng, self.st, cls("codes.css_code", "CSSCode"), Hx=M(hx), Hz=M(hz), Lx=M(lx), Lz=M(lz), distance=d, x_distance=dx, z_distance=dz, n=self.n)
        self.spc = cls(SP, "StatePrepCircuit")
        self.sp = mkobj(self.eng, self.st, self.spc)
        self.where = self.spc.where() if hasattr(self.spc, "where") else None
        self.init(code)

    def method(self, name):
        m = program().find_method(self.spc, name)
        if m is None:
            raise AnalysisBroken(f"StatePrepCircuit.{name} not found")
        return m

    def init(self, code):
        m = self.method("__init__")
        self.ok = False
        r = self.run(m, self.st, circ=Sym("prep_circuit"), code=code, zero_state=K(self.zero), error_detection_code=K(self.detect))
        if r is not None:
            self.st = r[0]
            self.ok = True
        self.minit = m

    def run(self, m, st, **args):
        """(state, value) of the only path, or None."""
        self.raises = False
        st = st.fork()
        st.trace = self.st0.trace
        try:
            res = self.eng.start(m, selfv=self.sp, args={k: (v if isinstance(v, terms.Term) else K(v)) for k, v in args.items()}, state=st.fork())
        except (TooBig, RecursionError) as e:
            self.why = f"too large ({e})"
            return None
        self.rep.analysed(*self.eng.functions_seen, m.qual)
        good = [(s, v) for s, v in res if s.exc is None]
        bad = [[e for e in flat_events(trace_list(s.trace)) if e.kind == "index_error"] for s, v in good]
        if good and all(bad):
            self.why = f"raises IndexError at {bad[0][0].where}"
            self.raises = True
            return None
        if len(res) != 1 or len(good) != 1:
            exc = sorted({str(s.exc.args[0]) for s, v in res if s.exc is not None})
            self.why = f"{len(good)} normal paths, raises {exc}"
            self.raises = len(good) == 0
            return None
        return good[0][0], self.eng.val(*good[0])

    def field(self, st, name):
        v = st.heap[self.sp.args[0]].fields.get(name)
        return self.eng.val(st, v) if v is not None else None

    # ---- specification
    def single(self, x):
        return spread(self.gates, self.n, x) | {tuple(1 if i == j else 0 for j in range(self.n)) for i in range(self.n)}

    def stabs(self, x):
        return self.xstab if x else self.zstab

    def nontrivial(self, faults, k, x):
        te = max(((self.dx if x else self.dz) - 1) // 2, 1)
        t = max((self.d - 1) // 2, 1)
        w = te // t
        return {c for c in {coset(f, self.stabs(x)) for f in faults} if sum(c) > w * k}


def as_set(t):
    v = ints(t)
    if v is None or not flat_ok(v):
        return None
    if v and not isinstance(v[0], list):
        return None
    return [tuple(x & 1 for x in r) for r in v]


def judge_set(rep, rule, c, where, case, got_term, want, x, once=False):
    got = as_set(got_term)
    if got is None:
        rep.unknown(rule, c, "the fault set is not resolved to explicit rows")
        return False
    st = case.stabs(x)
    if any(len(r) != case.n for r in got):
        rep.bad(rule, c, where, f"the faults have {len(got[0])} entries for {case.n} qubits")
        return True
    classes = [coset(r, st) for r in got]
    miss = want - set(classes)
    extra = set(classes) - want
    if miss:
        rep.bad(rule, c, where, f"the {'X' if x else 'Z'} fault {min(miss)} is missing")
    elif extra:
        rep.bad(rule, c, where, f"{min(extra)} is reported although it is no uncorrectable {'X' if x else 'Z'} fault of this circuit")
    elif once and len(set(classes)) != len(classes):
        rep.bad(rule, c, where, "stabilizer-equivalent faults are kept although they were to be removed")
    else:
        rep.ok(rule, c, where)
    return True


INSTANCES = [("A", True, 3, 3, 5, False), ("A", False, 5, 5, 5, False), ("B", True, 5, 9, 5, False), ("B", False, 4, 4, 6, True), ("C", True, 2, 2, 4, False),
             ("C", False, 7, 7, 7, False), ("B", True, 4, 4, 4, False), ("C", True, 3, 7, 3, False),
             ("D", True, 5, 5, 5, False), ("D", False, 7, 7, 7, False)]


def p09(rep):
    n = 0
    for spec in INSTANCES:
        case = Case(rep, *spec)
        if not case.ok:
            if getattr(case, "raises", False):
                rep.bad("state-prep-object", case.name, case.minit.where(), f"no StatePrepCircuit can be built: {case.why}")
            else:
                rep.unknown("state-prep-object", case.name, case.why)
            continue
        checks(rep, case)
        n += fault_sets(rep, case)
        combine(rep, case)
    equivalent(rep)
    rep.count("fault sets extracted", n, 16)


def equivalent(rep):
    """Of every class of equivalent faults exactly one is kept, none of the trivial ones."""
    f = opt(SP, "_remove_stabilizer_equivalent_faults")
    if f is None or len(f.params) < 2:
        rep.unknown("equivalent-faults", "removal of equivalent faults", "no such function")
        return
    stabs = [[1, 1, 0, 1, 0], [0, 1, 1, 0, 1]]
    for i, fs in enumerate(([[1, 0, 0, 0, 0], [0, 0, 0, 1, 1], [0, 1, 0, 1, 0], [1, 1, 1, 0, 1], [1, 1, 0, 1, 0], [0, 1, 0, 0, 0], [0, 0, 1, 1, 0], [1, 0, 0, 1, 0]],
                           [[1, 1, 0, 1, 0], [1, 0, 1, 1, 1]], [[0, 0, 0, 0, 1], [0, 1, 1, 0, 0], [0, 0, 0, 0, 1]], [[0, 1, 0, 0, 0], [1, 0, 0, 0, 0], [0, 0, 1, 0, 1], [0, 1, 1, 0, 1], [0, 0, 0, 1, 0]])):
        c = f"removal of equivalent faults, example {i}"
        eng = Engine(program(), explicit=True, unroll=300, limit=128)
        st = State()
        try:
            res = eng.start(f, args={f.params[0]: M(fs), f.params[1]: M(stabs)}, state=st)
        except (TooBig, RecursionError):
            res = []
        rep.analysed(*eng.functions_seen, f.qual)
        if len(res) != 1 or res[0][0].exc is not None:
            rep.unknown("equivalent-faults", c, "not resolved")
            continue
        v = ints(eng.val(*res[0]))
        if v is None or not flat_ok(v):
            rep.unknown("equivalent-faults", c, "not resolved")
            continue
        got = [coset(r, stabs) for r in v]
        want = {coset(r, stabs) for r in fs} - {(0,) * 5}
        rep.judge(set(got) == want and len(set(got)) == len(got), "equivalent-faults", c, f.where(),
                  f"classes {sorted(got)} are kept instead of one fault of each of {sorted(want)}", f"{len(want)} classes")


def checks(rep, case):
    """x_checks / z_checks span the stabilizers of the prepared state; the tolerated number of errors."""
    where = case.minit.where()
    for nm, want in (("x_checks", case.xstab), ("z_checks", case.zstab)):
        got = as_set(case.field(case.st, nm) or terms.NONE)
        if got is None:
            rep.unknown("prepared-stabilizers", f"{case.name}: {nm}", "not explicit")
            continue
        rep.judge(rowspan(got) == rowspan(want), "prepared-stabilizers", f"{case.name}: {nm}", where,
                  f"{nm} of the prepared state span {sorted(rowspan(got))[:3]}…, not the stabilizers of this state", "span")
    for nm, want in zip(("max_errors", "max_x_errors", "max_z_errors"), case.maxe):
        t = case.field(case.st, nm)
        if t is None or not is_const(t):
            rep.unknown("tolerated-errors", f"{case.name}: {nm}", "not constant")
            continue
        rep.judge(cval(t) == want, "tolerated-errors", f"{case.name}: {nm}", where, f"{nm} is {cval(t)} instead of {want}", str(want))


def fault_sets(rep, case):
    m = case.method("compute_fault_set")
    n = 0
    where = m.where()
    for k in range(1, case.maxe[0] + 1):
        for x in (True, False):
            for red in (True, False):
                c = f"{case.name}: {k} {'X' if x else 'Z'} fault(s){', reduced' if red else ''}"
                want = case.nontrivial(sums([case.single(x)] * k, case.n), k, x)
                r = case.run(m, case.st, num_errors=k, x_errors=x, reduce=red)
                if r is None:
                    if getattr(case, "raises", False):
                        rep.bad("fault-set", c, where, f"no fault set is computed: {case.why}")
                    else:
                        rep.unknown("fault-set", c, case.why)
                    continue
                if red and not want and ints(r[1]) == []:
                    rep.ok("fault-set", c, where)
                    n += 1
                elif judge_set(rep, "fault-set", c, where, case, r[1], want, x, once=red):
                    n += 1
        # a second computation and the other error type see the same sets
        x = k % 2 == 0
        c = f"{case.name}: {k} fault(s), both types one after the other"
        r1 = case.run(m, case.st, num_errors=k, x_errors=x, reduce=False)
        r2 = case.run(m, r1[0], num_errors=k, x_errors=not x, reduce=False) if r1 else None
        r3 = case.run(m, r2[0], num_errors=k, x_errors=x, reduce=False) if r2 else None
        if r3 is None:
            rep.unknown("fault-set-cache", c, "not resolved")
            continue
        for r, y in ((r2, not x), (r3, x)):
            judge_set(rep, "fault-set-cache", c, where, case, r[1], case.nontrivial(sums([case.single(y)] * k, case.n), k, y), y)
    # compute_fault_sets fills both
    f = case.method("compute_fault_sets")
    r = case.run(f, case.st, reduce=False)
    if r is not None:
        for x in (True, False):
            v = case.field(r[0], "x_fault_sets" if x else "z_fault_sets")
            items = case.eng.known_items(r[0], v) if v is not None else None
            if not items or len(items) <= case.maxe[0] or case.maxe[0] == 0:
                continue
            k = case.maxe[0]
            if items[k] is terms.NONE:
                rep.bad("fault-set", f"{case.name}: compute_fault_sets", f.where(), f"the {'X' if x else 'Z'} fault set for {k} errors is not computed")
            else:
                judge_set(rep, "fault-set", f"{case.name}: compute_fault_sets", f.where(), case, items[k], case.nontrivial(sums([case.single(x)] * k, case.n), k, x), x)
    # error detection resets the tolerance and the cached sets
    g = case.method("set_error_detection")
    for first in (False, True):
        st = case.st
        if first and case.maxe[0]:
            r0 = case.run(m, st, num_errors=1, x_errors=True, reduce=True)
            if r0 is None:
                break
            st = r0[0]
        redetect(rep, case, m, g, st)
    return n


def redetect(rep, case, m, g, st):
    r = case.run(g, st, error_detection=True)
    if r is not None:
        want = case.d // 2
        t = case.field(r[0], "max_errors")
        if t is not None and is_const(t):
            rep.judge(cval(t) == want, "tolerated-errors", f"{case.name}: set_error_detection", g.where(), f"max_errors is {cval(t)} instead of {want}", str(want))
            r2 = case.run(m, r[0], num_errors=want, x_errors=True, reduce=False) if want else None
            if r2 is not None:
                judge_set(rep, "fault-set", f"{case.name}: {want} X faults after set_error_detection", m.where(), case, r2[1],
                          case.nontrivial(sums([case.single(True)] * want, case.n), want, True), True)
            elif want and getattr(case, "raises", False):
                rep.bad("fault-set", f"{case.name}: {want} X faults after set_error_detection", m.where(), f"no fault set is computed: {case.why}")


ADD = {8: [(1, 1, 1, 0, 0, 1, 0, 0), (0, 0, 1, 1, 1, 0, 1, 1)], 5: [(1, 1, 0, 0, 1), (0, 1, 1, 1, 0)], 6: [(1, 1, 0, 0, 1, 1), (0, 0, 1, 1, 1, 0)]}


def combine(rep, case):
    m = case.method("combine_faults")
    add = ADD[case.n]
    for x in (True, False):
        add = ADD[case.n]
        c = f"{case.name}: combined with {len(add)} additional {'X' if x else 'Z'} faults"
        r = case.run(m, case.st, additional_faults=M([list(a) for a in add]), x_errors=x)
        if r is None:
            if getattr(case, "raises", False):
                rep.bad("combined-faults", c, m.where(), f"no fault sets are computed: {case.why}")
            else:
                rep.unknown("combined-faults", c, case.why)
            continue
        for again in (False, True):
            items = case.eng.known_items(r[0], r[1])
            if items is None:
                rep.unknown("combined-faults", c, "not a list")
                break
            if len(items) <= case.maxe[0]:
                rep.bad("combined-faults", c, m.where(), f"{len(items)} fault sets for up to {case.maxe[0]} errors")
                break
            for k in range(1, case.maxe[0] + 1):
                want = case.nontrivial(sums([case.single(x) | set(add)] * k, case.n), k, x)
                if items[k] is terms.NONE:
                    rep.bad("combined-faults", f"{c}, {k} error(s)", m.where(), "the fault set is not computed")
                    continue
                judge_set(rep, "combined-faults", f"{c}, {k} error(s)" + (", second call" if again else ""), m.where(), case, case.eng.val(r[0], items[k]), want, x)
            if again:
                break
            add = add[1:]
            r = case.run(m, r[0], additional_faults=M([list(a) for a in add]), x_errors=x)
            if r is None:
                break
        # the sets without additional faults are not affected
        r = case.run(m, case.st, additional_faults=M([list(a) for a in add]), x_errors=x)
        k = case.maxe[0]
        r2 = case.run(case.method("compute_fault_set"), r[0], num_errors=k, x_errors=x, reduce=False) if r and k else None
        if r2 is not None:
            got = as_set(r2[1]) if ints(r2[1]) != [] else []
            want = case.nontrivial(sums([case.single(x)] * k, case.n), k, x)
            if got is not None:
                rep.judge({coset(v, case.stabs(x)) for v in got} == want, "combined-faults", f"{c}: the circuit's own sets", m.where(), "combining changes the circuit's own fault sets", "unchanged")
        r3 = case.run(m, case.st, additional_faults=M([]), x_errors=x)
        if r3 is not None and k:
            items = case.eng.known_items(r3[0], r3[1])
            if items is not None and len(items) > k:
                v = case.eng.val(r3[0], items[k])
                got = as_set(v) if ints(v) != [] else []
                if got is not None:
                    rep.judge({coset(u, case.stabs(x)) for u in got} == want, "combined-faults", f"{c}: nothing to add", m.where(),
                              "without additional faults the circuit's own fault set is not returned", "own set")
