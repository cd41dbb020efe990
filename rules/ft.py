"""Fault-tolerant state preparation (mqt.qecc.ft_stateprep)."""
from __future__ import annotations

import itertools

import nda
import stab
import z3terms
from common import *
from pyabs import HObj
from terms import padd, pmod, pmul

SP = "ft_stateprep.state_prep"
SIM = "ft_stateprep.simulation"

GATES = {"h": 1, "x": 1, "y": 1, "z": 1, "s": 1, "sdg": 1, "cx": 2, "cnot": 2, "cz": 2, "cy": 2, "swap": 2, "id": 1, "reset": 1, "measure": 2}
NEUTRAL = {"add_register", "barrier", "add_bits", "draw", "copy", "size", "depth", "num_qubits", "count_ops", "find_bit", "qregs", "cregs", "width"}


def wires(eng, st, t):
    """Operand of a gate call -> list of wire terms, or None."""
    t = eng.val(st, t)
    items = eng.known_items(st, t)
    if items is not None:
        return [eng.val(st, i) for i in items]
    if t.op == "new" and str(t.args[0]).endswith("Register"):
        n = t.args[1] if len(t.args) > 2 else None
        if n is not None and is_const(n) and isinstance(cval(n), int):
            return [T("index", t, K(i)) for i in range(cval(n))]
        return None
    if t.op == "poly" or t.op in ("comp", "phi", "mixed", "star", "join"):
        return None
    if t.op == "repeat" and is_const(t.args[1]):
        return [t.args[0]] * cval(t.args[1])
    return [t]


def unwrap(qc):
    """The circuit object behind calls that return the circuit itself or a continued copy of it."""
    while qc.op == "meth" and qc.args[0] in ("compose", "copy"):
        qc = qc.args[1]
    return qc


def gate_list(p, qc, evs=None):
    """[(gate, wires, cbit)] of one straight-line path, or (None, reason)."""
    out = []
    eng, st = p.eng, p.st
    for e in p.events if evs is None else evs:
        if isinstance(e, (LoopEv, AltEv)):
            if any(x.kind == "call" and x.d.get("recv") is qc for x in flat_events([e])):
                return None, "gates inside an unresolved loop or branch"
            continue
        if e.kind != "call" or e.d.get("recv") is None or unwrap(e.recv) is not unwrap(qc):
            continue
        name = e.path[1:]
        if name in NEUTRAL:
            continue
        if name == "compose" and e.args and set(e.kw) <= {"inplace"}:
            out.append(("prep", (), e.args[0]))
            continue
        if name == "append":
            op = e.args[0]
            nm = str(op.args[0]).split(".")[-1] if op.op in ("call", "new", "obj") else None
            nm = {"HGate": "h", "CXGate": "cx", "CNotGate": "cx", "CZGate": "cz", "XGate": "x", "ZGate": "z"}.get(nm)
            ws = wires(eng, st, e.args[1]) if len(e.args) > 1 else None
            if nm is None or ws is None:
                return None, "append of an unknown operation"
            out.append((nm, tuple(ws), None))
            continue
        if name not in GATES:
            return None, f"unknown operation {name}"
        k = GATES[name]
        args = list(e.raw) + [v for _k, v in sorted(e.kw.items())]
        kwn = {"control_qubit": 0, "target_qubit": 1, "qubit": 0, "cbit": 1}
        if e.kw:
            args = list(e.raw) + [None] * (k - len(e.raw))
            for n_, v in e.kw.items():
                if n_ not in kwn or kwn[n_] >= k:
                    return None, f"unknown keyword {n_}"
                args[kwn[n_]] = v
        if len(args) < k or any(a is None for a in args[:k]):
            return None, "missing operand"
        ws = [wires(eng, st, a) for a in args[:k]]
        if any(w is None for w in ws):
            return None, "operands of unknown number"
        n = max(len(w) for w in ws)
        if any(len(w) not in (1, n) for w in ws):
            return None, "operand lists of different length"
        ws = [w * n if len(w) == 1 and n > 1 else w for w in ws]
        nm = "cx" if name == "cnot" else name
        for tup in zip(*ws):
            if nm == "measure":
                out.append(("measure", (tup[0],), tup[1]))
            else:
                out.append((nm, tup, None))
    return out, None


# --------------------------------------------------------------------- P07


def p07(rep):
    f = fn(SP, "measure_flagged")
    names = f.params
    if len(names) < 6:
        raise AnalysisBroken("measure_flagged has an unknown signature")
    qc_n, stab_n, anc_n, bit_n, t_n, z_n = names[:6]
    thorough = rep.tier == "thorough"
    n = pairs = 0
    for t in (1, 2):
        for w in range(2, 17 if thorough else 13):
            for z in (True, False):
                c = f"{'Z' if z else 'X'} stabilizer of weight {w}, {t} flag fault(s)"
                data = [T("index", Sym("data"), K(i)) for i in range(w)]
                an = analyse(f, args={stab_n: T("tuple", *data), t_n: K(t), z_n: K(z)}, rep=rep, unroll=80, limit=200)
                if an.too_big:
                    rep.unknown("flag-gadget", c, "too large")
                    continue
                if not an.normal:
                    exc = "; ".join(sorted({str(p.exc.args[0]) for p in an.raising})) or "no path"
                    rep.bad("gadget-total", c, an.where, f"no circuit is produced ({exc})")
                    continue
                if len(an.normal) != 1:
                    rep.unknown("flag-gadget", c, f"{len(an.normal)} paths")
                    continue
                p = an.normal[0]
                errs = [e for e in flat_events(p.events) if e.kind == "index_error"]
                if errs:
                    rep.bad("gadget-total", c, errs[0].where, "a flag outside the flag register is addressed")
                    continue
                gs, why = gate_list(p, Sym(qc_n))
                if gs is None:
                    rep.unknown("flag-gadget", c, why)
                    continue
                n += 1
                pairs += gadget(rep, c, an.where, p, gs, data, Sym(anc_n), Sym(bit_n), z, t)
    rep.count("flag gadgets extracted", n, 40)
    rep.counts["fault combinations propagated"] = pairs


def regsize(w):
    if w.op == "index" and w.args[0].op == "new" and len(w.args[0].args) > 2 and is_const(w.args[0].args[1]) and is_const(w.args[1]):
        return cval(w.args[0].args[1]), cval(w.args[1])
    return None


def gadget(rep, c, where, p, gs, data, anc, bit, z, t):
    rule = "flag-gadget"
    for name, ws, cb in gs:
        for w in (*ws, cb) if cb is not None else ws:
            if w in data or w in (anc, bit):
                continue
            r = regsize(w)
            if r is None:
                rep.unknown(rule, c, f"wire {show(w)}")
                return 0
            if not -r[0] <= r[1] < r[0]:
                rep.bad("gadget-total", c, where, f"wire {r[1]} of a register of size {r[0]} is addressed")
                return 0
        if len(set(ws)) != len(ws):
            rep.bad(rule, c, where, "a two-qubit gate acts twice on the same qubit")
            return 0
    meas = [i for i, g in enumerate(gs) if g[0] == "measure"]
    by = {}
    for i in meas:
        by.setdefault(gs[i][2], []).append(i)
    if len(by.get(bit, [])) != 1:
        rep.bad(rule, c, where, f"the result bit is written {len(by.get(bit, []))} times instead of once")
        return 0
    # what every measurement reads
    for cb, idx in by.items():
        if len(idx) != 1:
            rep.bad(rule, c, where, f"classical bit {show(cb)} is written {len(idx)} times")
            return 0
        x, zz, sign, ok = stab.observable(gs, idx[0])
        dx, dz = x & set(data), zz & set(data)
        ax = x - set(data)
        full = set(data)
        if not ok or ax:
            rep.bad(rule, c, where, f"the outcome written to {'the result bit' if cb is bit else 'a flag bit'} is random")
            return 0
        if cb is bit:
            want = (set(), full) if z else (full, set())
            if (dx, dz) != want or sign:
                rep.bad(rule, c, where, f"the result bit reads {pauli(dx, dz, data)} instead of the {'Z' if z else 'X'} stabilizer on all {len(data)} qubits")
                return 0
        elif dx or dz or sign:
            rep.bad(rule, c, where, f"a flag bit reads {pauli(dx, dz, data)} of the data although no fault occurred")
            return 0
    # no back-action on the data besides the measured stabilizer
    full = set(data)
    for q in data:
        for px, pz in (({q}, set()), (set(), {q})):
            x, zz, fl = stab.propagate(gs, px, pz)
            dx, dz = x & full, zz & full
            okd = (dx, dz) == (px, pz) or (dx ^ (set() if z else full), dz ^ (full if z else set())) == (px, pz)
            flips = bool(px if z else pz)
            if not okd or (bit in fl) != flips or fl - {bit}:
                rep.bad(rule, c, where, "the gadget changes the data qubits beyond measuring the stabilizer")
                return 0
    # every flag qubit used is read
    used = {w for _n, ws, _c in gs for w in ws} - full - {anc}
    read = {gs[i][1][0] for i in meas}
    if used - read:
        rep.bad(rule, c, where, "a flag qubit is entangled but never measured")
        return 0
    rep.ok(rule, c, f"{len(gs)} gates, {len(by) - 1} flags")
    return tolerance(rep, c, where, gs, data, bit, z, t)


def pauli(dx, dz, data):
    s = ""
    for q in data:
        s += {(0, 0): "I", (1, 0): "X", (0, 1): "Z", (1, 1): "Y"}[(int(q in dx), int(q in dz))]
    return s


def tolerance(rep, c, where, gs, data, bit, z, t):
    """Up to t faults that raise no flag leave at most as many errors of the spreading type on the data."""
    idx = {q: i for i, q in enumerate(data)}
    n = len(data)
    effects = {}
    flagbits = {g[2]: k for k, g in enumerate(gs) if g[0] == "measure" and g[2] is not bit}
    for i, (name, ws, _cb) in enumerate(gs):
        if name in ("measure", "reset"):
            continue
        for fs in itertools.product(((0, 0), (1, 0), (0, 1), (1, 1)), repeat=len(ws)):
            if not any(a or b for a, b in fs):
                continue
            x, zz, fl = stab.propagate(gs, set(), set(), {i: [(q, a, b) for q, (a, b) in zip(ws, fs)]})
            err = sum(1 << idx[q] for q in (zz if z else x) if q in idx)
            fbits = frozenset(b for b in fl if b in flagbits)
            effects.setdefault((err, fbits), (name, i))
    items = list(effects)
    full = (1 << n) - 1
    cnt = 0

    def wt(e):
        k = bin(e).count("1")
        return min(k, n - k)

    for e, fb in items:
        cnt += 1
        if not fb and wt(e) > 1:
            rep.bad("flag-tolerance", c, where, f"one fault behind gate {effects[(e, fb)][1]} leaves {wt(e)} errors on the data without raising a flag")
            return cnt
    if t >= 2:
        groups = {}
        for e, fb in items:
            groups.setdefault(fb, []).append(e)
        for fb, es in groups.items():
            for a, b in itertools.combinations(es, 2):
                cnt += 1
                if wt(a ^ b) > 2:
                    rep.bad("flag-tolerance", c, where, f"two faults leave {wt(a ^ b)} errors on the data without raising a flag")
                    return cnt
    rep.ok("flag-tolerance", c, f"{cnt} fault effects")
    return cnt


# --------------------------------------------------------------------- P08


def M(rows):
    """Explicit array from nested python lists of ints/bools/terms."""
    def e(x):
        return x if isinstance(x, terms.Term) else K(x)
    if rows and isinstance(rows[0], (list, tuple)):
        return nda.mk((len(rows), len(rows[0])), [e(x) for r in rows for x in r])
    return nda.mk((len(rows),), [e(x) for x in rows])


def ints(t):
    """Nested python ints of an explicit constant array / list, or None."""
    if t is None:
        return None
    if t.op == "nda":
        return [ints(r) for r in nda.rows(t)] if len(nda.shape(t)) > 0 else None
    if is_const(t) and isinstance(cval(t), (int, float)):
        return int(cval(t))
    if t.op in ("list", "tuple", "nparr"):
        src = t.args[0] if t.op == "nparr" else t
        return [ints(x) for x in src.args]
    return None


def flat_ok(x):
    return x is not None and (not isinstance(x, list) or all(flat_ok(y) for y in x))


def mkobj(eng, st, c, **fields):
    return eng.new(st, HObj("obj", cls=c, fields={k: (v if isinstance(v, terms.Term) else K(v)) for k, v in fields.items()}, closed=False))


L1 = [[[0, 1, 0, 1, 1, 0, 1, 0], [1, 0, 0, 1, 1, 1, 1, 0]], [[1, 0, 0, 1, 0, 0, 1, 0]]]
L2 = [[[0, 0, 1, 1, 0, 0, 1, 0]], [[1, 0, 1, 0, 1, 1, 1, 1], [0, 0, 1, 1, 0, 0, 1, 1]]]
NQ = 8


def hooks(stabs):
    out = set()
    for s in stabs:
        for i in range(len(s)):
            if s[i]:
                out.add(tuple(0 if j <= i else b for j, b in enumerate(s)))
    return out


def p08(rep):
    verification_wiring(rep)
    naive(rep)
    stabilizer_search(rep)


def verification_wiring(rep):
    spc = cls(SP, "StatePrepCircuit")
    n = 0
    for name, prim in (("heuristic_verification_circuit", "heuristic_verification_stabilizers"),
                       ("gate_optimal_verification_circuit", "gate_optimal_verification_stabilizers")):
        f = fn(SP, name)
        pf = fn(SP, prim)
        for zero in (True, False):
            for full in (True, False):
                for t in (1, 2):
                    c = f"{name}, {'|0>' if zero else '|+>'}, {'full' if full else 'partial'} fault tolerance, t={t}"
                    st = State()
                    log = []

                    def stabs(eng, s, args, kw, node, pf=pf, log=log):
                        env = eng.bind_params(s, pf, args, kw, node) if False else dict(zip(pf.params, args))
                        env.update(kw)
                        for p_, d in zip(pf.params[::-1], pf.node.args.defaults[::-1]):
                            env.setdefault(p_, K(d.value) if hasattr(d, "value") else NONE)
                        k = sum(1 for e in trace_list(s.trace) if getattr(e, "kind", "") == "stabs")
                        eng.emit(s, "stabs", node, env={q: eng.val(s, v) for q, v in env.items()}, k=k)
                        data = (L1, L2)[min(k, 1)]
                        return [(s, T("list", *[T("list", *[M(v) for v in lay]) for lay in data]))]

                    eng = Engine(program(), prims={pf.qual: stabs}, explicit=True, unroll=80, limit=64)
                    sp = mkobj(eng, st, spc, zero_state=zero, max_errors=t, max_x_errors=t if zero else 3 - t, max_z_errors=3 - t if zero else t, num_qubits=NQ,
                               circ=Sym("prep_circuit"), code=Sym("code"))
                    try:
                        res = eng.start(f, args={f.params[0]: sp, "full_fault_tolerance": K(full)}, state=st)
                    except (TooBig, RecursionError):
                        rep.unknown("verification-wiring", c, "too large")
                        continue
                    rep.analysed(*eng.functions_seen, f.qual)
                    an = Analysis(eng, f, res)
                    if len(an.normal) != 1 or an.raising:
                        if not an.normal:
                            rep.bad("verification-wiring", c, an.where, "no circuit is produced")
                        else:
                            rep.unknown("verification-wiring", c, f"{len(an.normal)} paths")
                        continue
                    p = an.normal[0]
                    n += 1
                    wiring(rep, c, an.where, p, zero, full, t)
    rep.count("verification circuits extracted", n, 12)


def const_of(t):
    return cval(t) if t is not None and is_const(t) else None


def wiring(rep, c, where, p, zero, full, t):
    calls_ = [e for e in flat_events(p.events) if e.kind == "stabs"]
    want = [zero] + ([not zero] if full else [])
    got = [const_of(e.env.get("x_errors")) for e in calls_]
    if any(g is None for g in got):
        rep.unknown("error-type", c, "the type of the verified errors is not constant")
    elif got != want:
        rep.bad("error-type", c, where, f"stabilizers are searched for {['X' if g else 'Z' for g in got]} errors in this order, required {['X' if g else 'Z' for g in want]}")
        return
    else:
        rep.ok("error-type", c)
    first = [v for lay in L1 for v in lay]
    second = [v for lay in L2 for v in lay]
    if calls_:
        a = calls_[0].env.get("additional_faults")
        rep.judge(a is NONE or a is None, "hook-errors", c + " (first layer)", where, "the first layer is searched with additional faults although nothing was measured before")
    if full and len(calls_) > 1:
        a = ints(calls_[1].env.get("additional_faults"))
        if not flat_ok(a):
            if calls_[1].env.get("additional_faults") is NONE:
                rep.bad("hook-errors", c + " (second layer)", where, "the hook errors of the first measurements are not passed on")
            else:
                rep.unknown("hook-errors", c + " (second layer)", "hook errors are not explicit")
        else:
            have = {tuple(x) for x in a}
            # every error that a fault inside a measurement leaves behind, up to the measured stabilizer
            bad = None
            for s in first:
                hs = [h for h in hooks([s])]
                comp = {tuple(x ^ y for x, y in zip(h, s)) for h in hs}
                for h in hs:
                    if h not in have and tuple(x ^ y for x, y in zip(h, s)) not in have:
                        if sum(h) > 1 and sum(s) - sum(h) > 1:
                            bad = h
            alien = [h for h in have if not any(h in hooks([s]) or h in {tuple(x ^ y for x, y in zip(g, s)) for g in hooks([s])} for s in first)]
            if bad is not None:
                rep.bad("hook-errors", c + " (second layer)", where, f"the hook error {list(bad)} of a first-layer measurement is not among the faults of the second layer")
            elif alien:
                rep.bad("hook-errors", c + " (second layer)", where, f"{list(alien[0])} is passed as hook error but is none")
            else:
                rep.ok("hook-errors", c + " (second layer)", f"{len(have)} hook errors")
    qc = circuit_of(p)
    if qc is None:
        rep.unknown("verification-wiring", c, "no circuit object is returned")
        return
    gs, why = gate_list(p, qc)
    if gs is None:
        rep.unknown("verification-wiring", c, why)
        return
    judge_circuit(rep, c, where, gs, zero, first, second if full else [], t)
    prep = [i for i, g in enumerate(gs) if g[0] == "prep" and show(g[2]) == "prep_circuit"]
    if show(unwrap(qc)) == "prep_circuit" and not prep:
        prep = [0]
    rep.judge(prep == [0], "prep-first", c, where, "the preparation circuit is not the beginning of the result")


def circuit_of(p):
    v = p.val
    if v is None:
        return None
    u = unwrap(v)
    return v if u.op == "new" and str(u.args[0]).endswith("QuantumCircuit") or show(u) == "prep_circuit" else None


def wire_index(w):
    """Data qubit number of a wire, or None for ancillas."""
    if is_const(w) and isinstance(cval(w), int):
        return cval(w)
    if w.op == "index" and w.args[0].op == "new" and str(w.args[0].args[0]).endswith("QuantumRegister") and is_const(w.args[1]):
        return cval(w.args[1])
    return None


def judge_circuit(rep, c, where, gs, zero, first, second, t):
    rule = "verification-wiring"
    meas = [i for i, g in enumerate(gs) if g[0] == "measure"]
    bits = [gs[i][2] for i in meas]
    if len(set(bits)) != len(bits):
        rep.bad(rule, c, where, "a classical bit is written twice")
        return
    t1 = "Z" if zero else "X"
    t2 = "X" if zero else "Z"
    seen = []
    for i in meas:
        x, z, sign, ok = stab.observable(gs, i)
        dx = {wire_index(w) for w in x}
        dz = {wire_index(w) for w in z}
        if not ok or None in dx or sign:
            rep.bad(rule, c, where, "the outcome of a verification measurement is random")
            return
        dz.discard(None)
        vec = tuple(int(q in (dx or dz)) for q in range(NQ))
        kind = "Y" if dx and dz else "X" if dx else "Z" if dz else "flag"
        seen.append((kind, vec, i))
    got = sorted((k, v) for k, v, _i in seen if k != "flag")
    want = sorted([(t1, tuple(v)) for v in first] + [(t2, tuple(v)) for v in second])
    if got != want:
        miss = [w for w in want if w not in got]
        extra = [g for g in got if g not in want]
        if miss:
            rep.bad(rule, c, where, f"the {miss[0][0]} stabilizer {list(miss[0][1])} that was found is never measured" + (f"; instead {extra[0][0]} {list(extra[0][1])} is" if extra else ""))
        else:
            rep.bad(rule, c, where, f"{extra[0][0]} {list(extra[0][1])} is measured although it was not found as verification stabilizer" if extra else "a stabilizer is measured more than once")
        return
    rep.ok(rule, c, f"{len(want)} stabilizers, {len(gs)} gates")
    # the hook errors of the first layer reach the second one
    if second:
        lastm = max(i for k, v, i in seen if k == t1 and v in {tuple(x) for x in first})
        firstg = min(i for i, g in enumerate(gs) if any(w in g[1] for k, v, j in seen if k == t2 for w in gs[j][1]))
        rep.judge(lastm < firstg or all(i > lastm for k, v, i in seen if k == t2), "layer-order", c, where, "the second layer is measured before the first, whose hook errors then stay undetected")
        # single faults of the second layer are flagged or harmless
        flagbits = {gs[i][2] for k, _v, i in seen if k == "flag"}
        outcome = {gs[i][2] for k, _v, i in seen if k != "flag"}
        lo = min([i for i, g in enumerate(gs) if any(w in g[1] for k, v, j in seen if k == t2 for w in gs[j][1])])
        stabs2 = [frozenset()] + [frozenset(q for q in range(NQ) if v[q]) for v in second]
        effects = {}

        def left(d):
            return min(len(d ^ s) for s in stabs2)

        for i in range(lo, len(gs)):
            name, ws, _cb = gs[i]
            if name in ("measure", "reset", "prep"):
                continue
            for fs in itertools.product(((0, 0), (1, 0), (0, 1), (1, 1)), repeat=len(ws)):
                x, zz, fl = stab.propagate(gs, set(), set(), {i: [(q, a, b) for q, (a, b) in zip(ws, fs)]})
                d = frozenset({wire_index(w) for w in (x if zero else zz)} - {None})
                d = min((d ^ s for s in stabs2), key=len)
                fb = frozenset(fl & flagbits)
                effects.setdefault(fb, set()).add(d)
                if not fb and left(d) > 1:
                    rep.bad("second-layer-flags", c, where, f"one fault in the second layer leaves {left(d)} errors of the type the first layer verified, and raises no flag")
                    return
        if t >= 2:
            for ds in effects.values():
                for a, b in itertools.combinations(ds, 2):
                    if left(a ^ b) > 2:
                        rep.bad("second-layer-flags", c, where, f"two faults in the second layer leave {left(a ^ b)} errors of the type the first layer verified, and raise no flag")
                        return
        rep.ok("second-layer-flags", c, f"{len(flagbits)} flags")


def naive(rep):
    f = fn(SP, "naive_verification_circuit")
    spc = cls(SP, "StatePrepCircuit")
    hx = [[0, 0, 1, 1, 0, 1, 0, 1], [0, 1, 1, 0, 1, 0, 1, 1]]
    hz = [[1, 0, 1, 1, 1, 0, 0, 0], [0, 1, 1, 1, 1, 1, 0, 1], [1, 1, 0, 0, 1, 0, 0, 0]]
    n = 0
    for zero in (True, False):
        for reps in (1, 2):
            c = f"naive verification, {'|0>' if zero else '|+>'}, {reps} repetition(s)"
            st = State()
            eng = Engine(program(), explicit=True, unroll=80, limit=64)
            code = mkobj(eng, st, cls("codes.css_code", "CSSCode"), Hx=M(hx), Hz=M(hz))
            sp = mkobj(eng, st, spc, zero_state=zero, max_errors=reps, max_x_errors=reps, max_z_errors=reps, num_qubits=NQ, circ=Sym("prep_circuit"), code=code)
            try:
                res = eng.start(f, args={f.params[0]: sp}, state=st)
            except (TooBig, RecursionError):
                rep.unknown("naive-verification", c, "too large")
                continue
            rep.analysed(*eng.functions_seen, f.qual)
            an = Analysis(eng, f, res)
            if len(an.normal) != 1:
                rep.unknown("naive-verification", c, f"{len(an.normal)} paths")
                continue
            p = an.normal[0]
            qc = circuit_of(p)
            gs, why = gate_list(p, qc) if qc is not None else (None, "no circuit")
            if gs is None:
                rep.unknown("naive-verification", c, why)
                continue
            n += 1
            x, z = (hx, hz)
            first, second = (z, x) if zero else (x, z)
            judge_circuit(rep, c, an.where, gs, zero, first * reps, second * reps, min(reps, 2))
    rep.count("naive circuits extracted", n, 2)


def opt(module, name):
    """A private function, or None when it does not exist (any more)."""
    try:
        return fn(module, name)
    except AnalysisBroken:
        return None


def stabilizer_search(rep):
    search_sides(rep)
    optimal_constraints(rep)
    coset_leader(rep)
    set_cover(rep)


def search_sides(rep):
    """Which faults and which checks the search is about, for both error types."""
    n = 0
    cf = None
    for name in ("heuristic_verification_stabilizers", "gate_optimal_verification_stabilizers"):
        f = fn(SP, name)
        sp_n = f.params[0]
        for x in (True, False):
            for given in (False, True):
                c = f"{name}, {'X' if x else 'Z'} errors, {'with' if given else 'without'} additional faults"
                add = Sym("additional_faults") if given else NONE
                an = analyse(f, args={"x_errors": K(x), "additional_faults": add}, rep=rep, inline=lambda fi: fi.cls is None)
                if an.too_big or not an.normal:
                    rep.unknown("search-side", c, "too large")
                    continue
                n += 1
                paths = [p for p in an.normal if not any(show(k) == "is(additional_faults, None)" and v for k, v in p.facts.items())]
                evs = [e for p in paths for e in flat_events(p.events)]
                ls = set()
                terms_ = []
                for e in evs:
                    if e.kind == "call" and e.path.startswith("logging."):
                        continue
                    for v in [*e.d.values(), *[k for k, _b in getattr(e, "pc", {}).items()]]:
                        for t in v if isinstance(v, (list, tuple)) else [v]:
                            if isinstance(t, Term):
                                terms_.append(t)
                for p in paths:
                    terms_ += [p.val, *p.facts]
                ls = all_leafnames(*terms_)
                good = {f"{sp_n}.{'z' if x else 'x'}_checks"}
                bad = {f"{sp_n}.{'x' if x else 'z'}_checks", f"{sp_n}.{'z' if x else 'x'}_fault_sets"}
                fs = f"{sp_n}.{'x' if x else 'z'}_fault_sets"
                comb = [e for e in evs if e.kind == "call" and e.path.endswith(".combine_faults")]
                if bad & ls:
                    rep.bad("search-side", c, an.where, f"the search uses {', '.join(sorted(bad & ls))}")
                    continue
                if good - ls:
                    rep.bad("search-side", c, an.where, f"the search never uses {', '.join(good)}")
                    continue
                if given and comb:
                    okc = None
                    for e in comb:
                        kinds = [cval(a) for a in [*e.args, *e.kw.values()] if is_const(a) and isinstance(cval(a), bool)] or bool_default(e.path)
                        if kinds and kinds[-1] != x:
                            okc = False
                        elif kinds and okc is None:
                            okc = True
                        if not any(a is add for a in [*e.args, *e.kw.values()]):
                            okc = False
                    rep.judge(okc, "search-faults", c, an.where, "the additional faults are combined with the fault sets of the other error type")
                    src = [e.result for e in comb]
                elif given and add not in set(all_subterms(terms_)):
                    rep.bad("search-faults", c, an.where, "the additional faults are never used")
                    continue
                elif given:
                    rep.unknown("search-faults", c, "no call of combine_faults")
                    src = []
                elif fs in ls:
                    rep.ok("search-faults", c)
                    src = []
                else:
                    rep.bad("search-faults", c, an.where, f"the search never uses {fs}")
                    continue
                levels(rep, c, an, terms_, fs, src, sp_n)
    rep.count("verification searches analysed", n, 6)


def bool_default(path):
    """Value of the Boolean parameter a call leaves out."""
    m, _c, name = path.rpartition(".")
    for c in [c for mod in program().modules.values() for c in mod.classes.values() if c.qual == m]:
        fi = program().find_method(c, name)
        if fi is not None:
            return [d.value for d in fi.node.args.defaults if hasattr(d, "value") and isinstance(d.value, bool)]
    return []


def levels(rep, c, an, ts, fs, src, sp_n):
    """Every number of errors from one to max_errors is searched."""
    seen = {}
    for s in all_subterms(ts):
        if s.op == "index" and (s.args[0] in src or s.args[0].op == "attr" and show(s.args[0]) == fs):
            seen[s.args[1].uid] = s.args[1]
    if not seen:
        rep.unknown("search-levels", c, "the fault sets are not indexed by the number of errors")
        return
    want = padd(Attr(Sym(sp_n), "max_errors"), K(1))
    for i in seen.values():
        if i.op in ("idx", "someidx"):
            lo, hi, step = i.args[:3]
            if lo is K(1) and norm(hi) is norm(want) and step is K(1):
                continue
            if pure(norm(lo)) and pure(norm(hi)) and leafnames(lo, hi) <= {f"{sp_n}.max_errors"}:
                # another origin of the counter: compare the set of indices
                rep.bad("search-levels", c, an.where, f"fault sets {show(lo)} to {show(hi)} (exclusive) are verified instead of 1 to max_errors")
                return
        a = norm(padd(i, K(-1)))
        if a.op == "idx" and a.args[0] is K(0) and norm(a.args[1]) is norm(padd(want, K(-1))):
            continue
        rep.unknown("search-levels", c, f"index {show(i)[:80]}")
        return
    rep.ok("search-levels", c)


def span(rows):
    out = {tuple([0] * len(rows[0]))} if rows else set()
    for r in rows:
        out |= {tuple(a ^ b for a, b in zip(o, r)) for o in out}
    return out


def model_assignment(p):
    """Variable assignment a path reads from the solver's model: {name: bool}."""
    out = {}
    for k, v in p.facts.items():
        b = v
        if k.op == "not":
            k, b = k.args[0], not b
        if k.op in ("call", "meth") and str(k.args[0]) in ("z3.is_true", "builtins.bool"):
            k = k.args[1]
        if k.op in ("index", "meth") and any(x.op == "meth" and x.args[0] == "model" for x in subterms(k)):
            vs = z3terms.var_names(k)
            if len(vs) == 1:
                out[vs.pop()] = b
    return out


def constraints_of(p, unsat=False):
    return [a for e in flat_events(p.events) if e.kind == "call" and e.path in (".add", ".assert_exprs", ".append") and e.d.get("recv") is not None
            and e.recv.op == "new" and str(e.recv.args[0]).startswith("z3.") for a in e.args]


def sat_fact(p):
    for k, v in p.facts.items():
        if k.op == "eq" and any(show(a) in ("ext(z3.sat)", "ext(z3.unsat)") for a in k.args) and any(".check" in show(a) for a in k.args):
            pos = any(show(a) == "ext(z3.sat)" for a in k.args)
            return v if pos else not v
    return None


def optimal_constraints(rep):
    f = opt(SP, "verification_stabilizers")
    if f is None:
        rep.unknown("detection-constraint", "verification_stabilizers", "the function does not exist any more")
        return
    nq = 5
    gens = [[1, 1, 0, 1, 0], [0, 1, 1, 1, 0], [0, 1, 0, 1, 1]]
    other = [[1, 1, 1, 1, 1]]
    faults = [[1, 0, 0, 0, 0], [0, 1, 1, 0, 0], [1, 1, 0, 1, 1], [0, 1, 1, 1, 0]]
    sp_c = cls(SP, "StatePrepCircuit")
    n = 0
    for x in (True, False):
        for anc, cn in ((1, 4), (2, 4), (2, 7)):
            c = f"verification_stabilizers, {'X' if x else 'Z'} errors, {anc} ancilla(s), {cn} CNOTs"
            g = gens if anc == 1 else gens[:2]
            fl = [faults[0], faults[1]] if anc == 1 else faults
            st = State()
            eng = Engine(program(), explicit=True, unroll=80, limit=256)
            sp = mkobj(eng, st, sp_c, num_qubits=nq, z_checks=M(g if x else other), x_checks=M(other if x else g))
            try:
                res = eng.start(f, args={f.params[0]: sp, f.params[1]: M(fl), f.params[2]: K(anc), f.params[3]: K(cn), f.params[4]: K(x)}, state=st)
            except (TooBig, RecursionError) as e:
                rep.unknown("detection-constraint", c, f"too large {e}")
                continue
            rep.analysed(*eng.functions_seen, f.qual)
            an = Analysis(eng, f, res)
            verdict, msg, k = judge_constraints(an, g, fl, anc, cn)
            n += k
            rep.judge(verdict, "detection-constraint", c, an.where, msg, f"{k} assignments")
    rep.counts["constraint assignments compared"] = n


def judge_constraints(an, g, fl, anc, cn):
    k = 0
    sp = span(g)
    for p in an.normal:
        sat = sat_fact(p)
        if sat is None:
            return None, "the solver's verdict is not a fact of the path", k
        if not sat:
            if p.val is not NONE:
                return (False if is_const(p.val) or ints(p.val) is not None else None), "a result is returned although the constraints cannot be met", k
            continue
        val = ints(p.val)
        if p.val is NONE:
            return False, "no result is returned although the constraints can be met", k
        if not flat_ok(val) or not val:
            return None, "the returned stabilizers are not explicit", k
        env = model_assignment(p)
        cons = constraints_of(p)
        names = set()
        for t in cons:
            z3terms.var_names(t, names)
        miss = sorted(names - set(env))
        if len(miss) > 6:
            return None, "not all variables of the constraints are read from the model", k
        for bits in itertools.product((False, True), repeat=len(miss)):
            e2 = {**env, **dict(zip(miss, bits))}
            try:
                holds = all(bool(z3terms.ev(t, e2)) for t in cons)
            except z3terms.Unmodelled as e:
                return None, f"constraint with {e}", k
            k += 1
            vecs = [tuple(v) for v in val]
            if holds:
                alien = [v for v in vecs if v not in sp]
                if alien:
                    return False, f"the returned measurement {list(alien[0])} is not a product of the generators {g}", k
                undet = [e for e in fl if not any(sum(a & b for a, b in zip(v, e)) % 2 for v in vecs)]
                if undet:
                    return False, f"the constraints accept the measurements {[list(v) for v in vecs]}, which do not detect the fault {undet[0]}", k
                if sum(map(sum, vecs)) > cn:
                    return False, f"the constraints accept {sum(map(sum, vecs))} CNOTs where at most {cn} are allowed", k
            elif not miss and all(any(sum(a & b for a, b in zip(v, e)) % 2 for v in vecs) for e in fl) and sum(map(sum, vecs)) <= cn and all(v in sp for v in vecs):
                return False, f"the constraints reject the measurements {[list(v) for v in vecs]} although they detect every fault with {sum(map(sum, vecs))} CNOTs", k
    return (True if k else None), "", k


def coset_leader(rep):
    f = opt(SP, "_coset_leader")
    if f is None:
        rep.unknown("coset-leader", "_coset_leader", "the function does not exist any more")
        return
    gens = [[1, 1, 0, 1], [0, 1, 1, 1]]
    err = [1, 0, 1, 1]
    c = "_coset_leader"
    st = State()
    eng = Engine(program(), explicit=True, unroll=80, limit=256)
    try:
        res = eng.start(f, args={f.params[0]: M(err), f.params[1]: M(gens)}, state=st)
    except (TooBig, RecursionError) as e:
        rep.unknown("coset-leader", c, f"too large {e}")
        return
    rep.analysed(*eng.functions_seen, f.qual)
    an = Analysis(eng, f, res)
    coset = {tuple(a ^ b for a, b in zip(err, s)) for s in span(gens)}
    k = 0
    for p in an.normal:
        env = model_assignment(p)
        cons = constraints_of(p)
        names = set()
        for t in cons:
            z3terms.var_names(t, names)
        objective = [e for e in flat_events(p.events) if e.kind == "call" and e.path in (".minimize", ".maximize", ".add_soft")]
        obj_vars = set()
        for e in objective:
            if e.path == ".maximize":
                rep.bad("coset-leader", c, an.where, "the weight is maximised")
                return
            for a in e.args:
                z3terms.var_names(a, obj_vars)
        lead = [v for v in obj_vars]
        if len(lead) != len(err) or len(names) > 10:
            rep.unknown("coset-leader", c, "the minimised expression is not the weight")
            return
        lead.sort(key=lambda v: int("".join(ch for ch in v if ch.isdigit()) or 0))
        got = set()
        try:
            for bits in itertools.product((False, True), repeat=len(names)):
                e2 = dict(zip(sorted(names), bits))
                if all(bool(z3terms.ev(t, e2)) for t in cons):
                    got.add(tuple(int(e2[v]) for v in lead))
                    w = z3terms.ev(objective[0].args[0], e2)
                    if int(w) != sum(int(e2[v]) for v in lead):
                        rep.bad("coset-leader", c, an.where, "the minimised expression is not the weight of the error")
                        return
        except z3terms.Unmodelled as e:
            rep.unknown("coset-leader", c, f"constraint with {e}")
            return
        k += 1
        if got != coset:
            rep.bad("coset-leader", c, an.where, f"the constraints describe {sorted(got)} instead of the coset {sorted(coset)}")
            return
        val = ints(p.val)
        if flat_ok(val) and set(env) >= set(lead) and tuple(val) != tuple(int(env[v]) for v in lead):
            rep.bad("coset-leader", c, an.where, "the returned vector is not the minimising one")
            return
    rep.judge(True if k else None, "coset-leader", c, an.where, "no path", f"{k} paths")


def layer_instances():
    """Checks and faults, each fault detected by a check, for the greedy cover of one layer."""
    import random

    yield [[1, 1, 0, 0, 0], [0, 1, 1, 0, 0], [0, 0, 1, 1, 0], [0, 0, 0, 1, 1]], [[1, 0, 0, 0, 0], [0, 0, 1, 0, 0], [1, 0, 1, 0, 0]]
    yield [[1, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1]], [[1, 0, 0, 0], [0, 0, 0, 1]]  # only a sum detects both
    yield [[1, 1, 1, 1, 0, 0], [1, 1, 0, 0, 1, 1], [1, 0, 1, 0, 1, 0]], [[1, 1, 0, 0, 0, 0], [0, 0, 1, 1, 0, 0], [0, 1, 1, 0, 0, 0]]
    rnd = random.Random(7)
    made = 0
    while made < 8:
        n, m = rnd.choice(((5, 3), (6, 3), (6, 4), (7, 4)))
        checks = [[rnd.randint(0, 1) for _ in range(n)] for _ in range(m)]
        faults = [[int(rnd.random() < 0.3) for _ in range(n)] for _ in range(rnd.randint(2, 5))]
        faults = [list(x) for x in dict.fromkeys(map(tuple, faults)) if any(dot2(c, x) for c in checks)]
        if len(span(checks)) == 2**m and len(faults) >= 2:
            made += 1
            yield checks, faults


def dot2(a, b):
    return sum(x & y for x, y in zip(a, b)) % 2


def set_cover(rep):
    f = opt(SP, "_heuristic_layer")
    if f is None:
        rep.unknown("layer-cover", "_heuristic_layer", "the function does not exist any more")
        return
    cl = opt(SP, "_coset_leader")

    def leader(eng, st, args, kw, node):
        """Any element of the coset may be its leader: the one that detects the fewest faults is returned."""
        a = dict(zip(cl.params, args))
        a.update(kw)
        e, g = (ints(eng.val(st, a[p])) if p in a else None for p in cl.params[:2])
        if not (isinstance(e, list) and isinstance(g, list)) or any(x is None for r in g for x in r) or None in e:
            return None
        coset = [[x ^ y for x, y in zip(e, t)] for t in (span(g) if g else [(0,) * len(e)])]
        worst = min(coset, key=lambda v: (sum(dot2(v, x) for x in leader.faults), v))
        leader.used |= any(dot2(v, x) for v in g for x in leader.faults)
        return [(st, M(worst))]

    for i, (checks, faults) in enumerate(layer_instances()):
        for leaders in (True, False):
            c = f"_heuristic_layer, layer {i}, {'with' if leaders else 'without'} coset leaders"
            leader.faults, leader.used = faults, False
            eng = Engine(program(), explicit=True, unroll=120, limit=64, max_steps=400000, prims={cl.qual: leader} if cl is not None else {})
            eng.exact = True
            try:
                res = eng.start(f, args=dict(zip(f.params, (M(faults), M(checks), K(leaders), K(50)))), state=State())
            except (TooBig, RecursionError) as e:
                rep.unknown("layer-cover", c, f"{e}"[:160])
                continue
            an = Analysis(eng, f, res)
            rep.analysed(*eng.functions_seen, f.qual)
            vals = [ints(p.val) for p in an.normal]
            if len(vals) != 1 or an.too_big or not isinstance(vals[0], list) or any(not isinstance(v, list) or not all(isinstance(x, int) for x in v) for v in vals[0]):
                rep.unknown("layer-cover", c, f"{len(vals)} results, {str(vals)[:120]}")
                continue
            group = set(span(checks))
            bad = next((v for v in vals[0] if tuple(v) not in group), None)
            if bad is not None:
                rep.bad("layer-cover", c, an.where, f"for the checks {checks} and the faults {faults}, {bad} is measured, which is not a stabilizer")
                continue
            missed = next((x for x in faults if not any(dot2(v, x) for v in vals[0])), None)
            why = ", since a measurement may be replaced by another one that detects fewer faults" if leader.used else ""
            rep.judge(missed is None, "layer-cover", c, an.where, f"for the checks {checks} and the faults {faults}, the measurements {vals[0]} do not detect {missed}{why}", f"{len(vals[0])} measurements")
