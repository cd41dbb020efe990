"""P01-P05: the code classes (mqt.qecc.codes)."""
from __future__ import annotations

import ast
import itertools

import sample

from common import *
from terms import padd, pmod, pmul

SELF = Sym("self")


def A(name):
    return Attr(SELF, name)


def syn(h, e):
    return T("mod", T("matmul", h, e), K(2))


def css_classes():
    base = cls("codes.css_code", "CSSCode")
    return [c for c in subclasses(base)]


# --------------------------------------------------------------------- P01


def matvec(h, e):
    """h @ e and e @ h.T mod 2."""
    return [syn(h, e), syn(e, T("T", h))]


def p01(rep):
    n = 0
    for c in css_classes():
        for name, side, other in (("get_x_syndrome", "Hx", "Hz"), ("get_z_syndrome", "Hz", "Hx")):
            f = program().find_method(c, name)
            if f is None:
                raise AnalysisBroken(f"{c.name}.{name} not found")
            an = analyse(f, cls=c, rep=rep)
            e = Sym(f.params[1])
            for p in drop_none(an.normal, "self.Hx", "self.Hz"):
                n += 1
                check_value(rep, "syndrome-side", f"{c.name}.{name}", an.where, p.val, matvec(A(side), e),
                            need=(f"self.{side}", show(e)), forbid=(f"self.{other}",))
        for name, log, other, hs in (
            ("check_if_logical_x_error", "Lz", "Lx", ("Hx", "Hz")),
            ("check_if_logical_z_error", "Lx", "Lz", ("Hx", "Hz")),
        ):
            f = program().find_method(c, name)
            if f is None:
                raise AnalysisBroken(f"{c.name}.{name} not found")
            an = analyse(f, cls=c, rep=rep)
            n += 1
            logical_test(rep, an, f"{c.name}.{name}", A(log), Sym(f.params[1]), {f"self.{other}"})
    cc = cls("codes.color_code", "ColorCode")
    for c in subclasses(cc):
        f = program().find_method(c, "get_syndrome")
        an = analyse(f, cls=c, rep=rep)
        e = Sym(f.params[1])
        for p in an.normal:
            n += 1
            specs = [x for h in ("H", "Hx", "Hz") for x in matvec(A(h), e)]
            check_value(rep, "syndrome-side", f"{c.name}.get_syndrome", an.where, p.val, specs, need=(show(e),), forbid=("self.L", "self.Lx", "self.Lz"))
        f = program().find_method(c, "check_if_logical_error")
        if f is None:
            raise AnalysisBroken("check_if_logical_error not found")
        an = analyse(f, cls=c, rep=rep)
        n += 1
        logical_test(rep, an, f"{c.name}.check_if_logical_error", A("L"), Sym(f.params[1]), {"self.H", "self.Hx", "self.Hz"}, alts=("Lx", "Lz"))
    rep.count("syndrome and logical-error paths", n, 20)
    # general stabilizer codes: syndrome is the symplectic product with every generator
    c = cls("codes.stabilizer_code", "StabilizerCode")
    f = program().find_method(c, "get_syndrome")
    an = analyse(f, cls=c, rep=rep, prims=pauli_prims())
    for p in an.normal:
        halves(rep, "symplectic-pairing", "StabilizerCode.get_syndrome", an.where, p.val, ("self.symplectic_matrix", "self.generators"), ("error",))
    n = 0
    for name, m1, m2 in (("symplectic_inner_product", None, None), ("symplectic_matrix_product", None, None), ("symplectic_matrix_mul", None, None)):
        f = program().module("mqt.qecc.codes.stabilizer_code").functions.get(name)
        if f is None:
            continue
        an = analyse(f, rep=rep)
        for p in an.normal:
            n += 1
            halves(rep, "symplectic-pairing", name, an.where, p.val, (f.params[0],), (f.params[1],))


def pauli_prims():
    m = "mqt.qecc.codes.stabilizer_code."

    def opaque(name):
        def h(eng, st, args, kw, node):
            from pyext import arr

            a = [*args, *kw.values()]
            return [(st, arr(eng, st, T("call", name, *[eng.val(st, x) for x in a])))]

        return h

    return {m + n: opaque(n) for n in ("pauli_to_binary", "paulis_to_binary")}


def half(t):
    """'lo' / 'hi' for the first / second half of a symplectic vector or of the columns of a matrix."""
    if t.op == "T":
        return half(t.args[0])
    if t.op == "elem":
        return half(t.args[0])
    if t.op == "index":
        i = t.args[1]
        if i.op == "tuple":
            i = i.args[-1]
        if i.op == "slice":
            lo, hi, step = i.args
            if step is not NONE:
                return None
            if (lo is NONE or lo is K(0)) and hi is not NONE and not is_const(hi):
                return "lo"
            if lo is not NONE and not is_const(lo) and lo is not K(0) and hi is NONE:
                return "hi"
        if i.op in ("const",) and t.args[0].op in ("call",) and cval(i) in (0, 1):
            path = t.args[0].args[0]
            if isinstance(path, str) and path in ("numpy.split", "numpy.hsplit", "numpy.array_split"):
                return ("lo", "hi")[cval(i)]
    return None


def halves(rep, rule, construct, where, val, left, right):
    """Every product pairs an X half with a Z half, and both pairings are summed modulo two."""
    prods = [x for x in subterms(val) if x.op == "matmul"]
    tags = []
    for x in prods:
        a, b = half(x.args[0]), half(x.args[1])
        if a is None or b is None:
            rep.unknown(rule, construct, f"operand halves of {show(x)[:120]} not recognised")
            return
        tags.append((a, b))
    if not prods:
        rep.unknown(rule, construct, "no matrix product")
        return
    for (a, b), x in zip(tags, prods):
        if a == b:
            rep.bad(rule, construct, where, f"product {show(x)[:160]} pairs the {'X' if a == 'lo' else 'Z'} halves of both operands")
            return
    if not has_parity(val) and not _opaque(val):
        rep.bad(rule, construct, where, "the symplectic product is not reduced modulo 2")
        return
    firsts = {}
    for x, (a, _b) in zip(prods, tags):
        base = x.args[0]
        while base.op in ("T", "elem", "index"):
            base = base.args[0]
        firsts.setdefault(base, set()).add(a)
    if not any(v == {"lo", "hi"} for v in firsts.values()):
        rep.bad(rule, construct, where, "only one of the two X/Z pairings contributes to the symplectic product")
        return
    rep.ok(rule, construct)


def _opaque(t):
    return any(x.op in ("call", "meth", "fold", "reduce", "bitand") for x in subterms(t))


def firm(rep, same):
    """The violation just reported is proven by an instance."""
    if same is False and rep.bads:
        rep.bads[-1]["firm"] = True


def logical_test(rep, an, construct, log, r, forbid, alts=()):
    rule = "logical-error-side"
    spec = T("any", T("odd", T("matmul", log, r)))
    specs = [spec, T("any", T("odd", T("matmul", r, T("T", log))))]
    for a in alts:
        specs += [T("any", T("odd", T("matmul", A(a), r))), T("any", T("odd", T("matmul", r, T("T", A(a)))))]
    t = pred_of(an)
    for p in an.normal:
        for x in subterms(p.val):
            if x.op == "is" and x.args[1] in (TRUE, FALSE) and x.args[0].op in ("any", "all", "eq", "lt", "array_equal"):
                rep.bad(rule, construct, an.where, "identity comparison of a numpy truth value with True/False is never satisfied")
                return
    if t is None:
        ls = path_leaves(an)
        if ls & forbid:
            rep.bad(rule, construct, an.where, f"the decision uses {', '.join(sorted(ls & forbid))} instead of {show(log)}")
        elif show(log) not in ls and not any(f"self.{a}" in ls for a in alts):
            rep.bad(rule, construct, an.where, f"the decision does not use {show(log)}")
        else:
            rep.unknown(rule, construct, "decision not in normal form")
        return
    nt = norm(t)
    if nt in specs:
        rep.ok(rule, construct)
        return
    same = sample.agree(nt, spec, {show(r): "vector"})
    if same is not None:
        rep.judge(same, rule, construct, an.where, f"decides {show(nt)} where {show(spec)} is required", "equal on all samples")
        firm(rep, same)
        return
    part = [x for x in subterms(nt) if x.op == "index" and x.args[0] in (log, *(A(a) for a in alts)) and const_index(x.args[1])]
    if part and show(log) not in all_leafnames(subst(nt, {x: K(0) for x in part})):
        rep.bad(rule, construct, an.where, f"only {show(part[0])} is tested, not every logical operator")
        return
    ls = all_leafnames(t)
    if ls & forbid:
        rep.bad(rule, construct, an.where, f"the decision uses {', '.join(sorted(ls & forbid))} instead of {show(log)}")
    elif show(log) not in ls and not any(f"self.{a}" in ls for a in alts):
        rep.bad(rule, construct, an.where, f"the decision does not use {show(log)}")
    elif not has_parity(t) and not _opaque(t):
        rep.bad(rule, construct, an.where, "the commutation with the logicals is not reduced modulo 2")
    else:
        rep.unknown(rule, construct, show(nt)[:200])


def const_index(i):
    """A constant selection that is not the whole axis."""
    if i.op == "tuple" and i.args:
        i = i.args[0]
    if i.op == "slice":
        return all(is_const(a) for a in i.args) and not (i.args[0] in (NONE, K(0)) and i.args[1] is NONE and i.args[2] in (NONE, K(1), K(-1)))
    return is_const(i) and i is not NONE


# --------------------------------------------------------------------- P02


def rk(*rows):
    return T("call", "ldpc.mod2.rank", T("vstack", T("list", *rows)) if len(rows) > 1 else rows[0])


def pred_spec(rep, rule, construct, an, paths, specs, need, forbid):
    t = decision([(p.facts, p.val) for p in paths])
    ns = [norm(s) for s in specs]
    if t is not None:
        nt = norm(t)
        if nt in ns:
            rep.ok(rule, construct)
            return
        pauli = {f"call(pauli_to_binary, {x})": "pauli" for x in need if not x.startswith("self.")}
        same = sample.agree(nt, ns[0], {**pauli, **{x: "vector" for x in need if "." not in x}}, [x for x in need if "." in x and not x.startswith("self.")])
        if same is not None:
            rep.judge(same, rule, construct, an.where, f"decides {show(nt, 9)} where {show(ns[0], 9)} is required", "equal on all samples")
            firm(rep, same)
            return
    ls = set()
    for p in paths:
        ls |= all_leafnames(p.val, *p.facts)
    bad = ls & set(forbid)
    miss = set(need) - ls
    if bad:
        rep.bad(rule, construct, an.where, f"the decision uses {', '.join(sorted(bad))}")
    elif miss:
        rep.bad(rule, construct, an.where, f"the decision does not use {', '.join(sorted(miss))}")
    else:
        rep.unknown(rule, construct, show(norm(t))[:200] if t is not None else "several decision paths")


def p02(rep):
    n = 0
    for c in css_classes():
        for kind, side, other in (("x", "Hx", "Hz"), ("z", "Hz", "Hx")):
            f = program().find_method(c, f"check_if_{kind}_stabilizer")
            if f is None:
                raise AnalysisBroken(f"check_if_{kind}_stabilizer not found")
            an = analyse(f, cls=c, rep=rep)
            p = Sym(f.params[1])
            h = A(side)
            n += 1
            pred_spec(rep, "row-space-membership", f"{c.name}.{f.name}", an, drop_none(an.normal, "self.Hx", "self.Hz"),
                      [eqt(rk(h, p), rk(h))], (f"self.{side}", show(p)), (f"self.{other}",))
            f = program().find_method(c, f"stabilizer_eq_{kind}_error")
            if f is None:
                raise AnalysisBroken(f"stabilizer_eq_{kind}_error not found")
            an = analyse(f, cls=c, rep=rep)
            e1, e2 = Sym(f.params[1]), Sym(f.params[2])
            full = conj(eqt(rk(h, e1), rk(h, e2)), eqt(rk(h, e2), rk(h, e1, e2)))
            s = padd(e1, e2)
            d = [pmod(s, K(2)), pmod(padd(e1, e2, -1), K(2))]
            specs = [full] + [eqt(rk(h, x), rk(h)) for x in d]
            n += 1
            pred_spec(rep, "coset-equality", f"{c.name}.{f.name}", an, drop_none(an.normal, "self.Hx", "self.Hz"),
                      specs, (f"self.{side}", show(e1), show(e2)), (f"self.{other}",))
        f = program().find_method(c, "is_self_dual")
        an = analyse(f, cls=c, rep=rep)
        n += 1
        t = pred_of(an, drop_none(an.normal, "self.Hx", "self.Hz"))
        dep = all_leafnames(t) if t is not None else path_leaves(an)
        rep.judge({"self.Hx", "self.Hz"} <= dep or None if t is None else {"self.Hx", "self.Hz"} <= dep, "self-duality",
                  f"{c.name}.is_self_dual", an.where, "self-duality must compare the X checks with the Z checks")
        if t is not None:
            self_dual(rep, an, f"{c.name}.is_self_dual", norm(t))
    c = cls("codes.stabilizer_code", "StabilizerCode")
    f = program().find_method(c, "stabilizer_equivalent")
    an = analyse(f, cls=c, rep=rep, prims=pauli_prims())
    g = A("generators")
    p1, p2 = (T("call", "pauli_to_binary", Sym(x)) for x in f.params[1:3])
    n += 1
    full = conj(eqt(rk(g, p1), rk(g, p2)), eqt(rk(g, p2), rk(g, p1, p2)))
    pred_spec(rep, "coset-equality", "StabilizerCode.stabilizer_equivalent", an, an.normal,
              [full, *[eqt(rk(g, pmod(padd(p1, p2, k), K(2))), rk(g)) for k in (1, -1)]], (f.params[1], f.params[2]), ("self.Lx", "self.Lz"))
    f = program().find_method(c, "__eq__")
    an = analyse(f, cls=c, rep=rep)
    o = Sym(f.params[1])
    go = Attr(o, "generators")
    paths = [p for p in an.normal if any(k.op == "isinstance" and v for k, v in p.facts.items())]
    paths = [Path2(p, {k: v for k, v in p.facts.items() if k.op != "isinstance"}) for p in paths]
    n += 1
    if paths:
        full = conj(eqt(rk(g), rk(go)), eqt(rk(g), rk(g, go)))
        full2 = conj(eqt(rk(g), rk(go)), eqt(rk(go), rk(g, go)))
        # for codes of the same size; codes of different size must not be equal
        same = {Attr(o, x): A(x) for x in ("n", "k")}
        agree = []
        for p in paths:
            facts, feas = {}, True
            for k, v in p.facts.items():
                k = norm(subst(k, same))
                if is_const(k):
                    feas = feas and bool(cval(k)) == v
                else:
                    facts[k] = v
            if feas:
                q = Path2(p, facts)
                q.val = subst(p.val, same)
                agree.append(q)
        differ = [p for p in paths if p.facts.get(eqt(A("n"), Attr(o, "n"))) is False]
        for p in differ:
            rep.judge(p.val is FALSE or (None if not is_const(p.val) else False), "code-equality", "StabilizerCode.__eq__ sizes", an.where, "codes of different size are declared equal")
        pred_spec(rep, "code-equality", "StabilizerCode.__eq__", an, agree, [full, full2], ("self.generators", "other.generators"), ())
    hash_rule(rep, c)
    rep.count("membership and equivalence predicates", n, 22)


def hash_rule(rep, c):
    """Equality is up to the choice of generators, so the hash may not depend on that choice."""
    for k in subclasses(c):
        f, e = program().find_method(k, "__hash__"), program().find_method(k, "__eq__")
        if f is None or e is None or not f.qual.startswith(tuple("mqt.qecc".split(","))):
            continue
        an = analyse(f, cls=k, rep=rep)
        ea = analyse(e, cls=k, rep=rep)
        byrank = any(x.op == "call" and str(x.args[0]).endswith(".rank") for p in ea.normal for t in [p.val, *p.facts] for x in subterms(t))
        for p in an.normal:
            raw = subst(p.val, {x: K(0) for x in subterms(p.val) if x.op == "call" and str(x.args[0]).split(".")[-1] in ("rank", "reduced_row_echelon", "row_span")})
            ls = all_leafnames(raw) - {"self.n", "self.k", "self.distance"}
            ls -= {x for x in ls if x.startswith(("ldpc", "numpy"))}
            if byrank:
                rep.judge(not (ls & {"self.generators", "self.symplectic_matrix", "self.Hx", "self.Hz", "self.phases"}), "hash-consistent", f"{k.name}.__hash__", an.where,
                          f"equal codes may hash differently: the hash depends on the chosen {', '.join(sorted(ls))}")
            else:
                fields = {x for q in ea.normal for t in [q.val, *q.facts] for x in all_leafnames(t)}
                rep.judge(ls <= fields or None, "hash-consistent", f"{k.name}.__hash__", an.where, "hash uses fields that equality ignores")


class Path2:
    def __init__(self, p, facts):
        self.val = p.val
        self.facts = facts
        self.events = p.events


def self_dual(rep, an, construct, nt):
    """The decision must imply that both row spaces coincide."""
    hx, hz = A("Hx"), A("Hz")
    spec = norm(conj(eqt(rk(hx), rk(hz)), eqt(rk(hx), rk(hx, hz))))
    same = True if nt is spec else sample.agree(nt, spec, {})
    rep.judge(same, "self-duality", construct, an.where, f"the test {show(nt, 8)} does not imply that the X and Z checks span the same space")
    firm(rep, same)


# --------------------------------------------------------------------- P03


def blocks(t):
    """Flatten nested h/v stacks into a 2d list of blocks, or None."""
    if t.op in ("vstack", "concat") and t.args[0].op == "list":
        rows = []
        for p in t.args[0].args:
            b = blocks(p)
            if b is None:
                return None
            rows.extend(b)
        return rows
    if t.op == "hstack" and t.args[0].op == "list":
        parts = [blocks(p) for p in t.args[0].args]
        if any(p is None for p in parts):
            return None
        n = max(len(p) for p in parts)
        if any(len(p) not in (1, n) for p in parts):
            return None
        out = [[] for _ in range(n)]
        for p in parts:
            for i in range(n):
                out[i].extend(p[i] if len(p) == n else p[0])
        return out
    return [[t]]


def css_init(rep, given):
    """Normal end states of CSSCode.__init__ with the given check matrices present."""
    c = cls("codes.css_code", "CSSCode")
    f = program().find_method(c, "__init__")
    args = {"Hx": Sym("Hx") if "x" in given else NONE, "Hz": Sym("Hz") if "z" in given else NONE}
    for a in args:
        if a not in f.params:
            raise AnalysisBroken(f"CSSCode.__init__ has no parameter {a}")
    return f, analyse(f, args=args, rep=rep, limit=600, prims=pauli_prims())


def field(p, name, selfv=SELF):
    """Value of self.<name> at the end of a path."""
    if selfv.op == "ref":
        v = p.st.heap[selfv.args[0]].fields.get(name)
        return None if v is None else p.eng.val(p.st, v)
    v = p.st.ov.get((selfv, name))
    return None if v is None else p.eng.val(p.st, v)


def p03(rep):
    n = 0
    for given in ("xz", "x", "z"):
        f, an = css_init(rep, given)
        where = an.where
        for p in an.normal:
            assume_given = [k for k, v in p.facts.items() if k.op == "is" and k.args[1] is NONE and v and show(k.args[0]) in ("Hx", "Hz")]
            if assume_given:
                continue
            n += 1
            for side in "xz":
                v = field(p, "H" + side)
                if v is None:
                    rep.bad("check-matrices", f"CSSCode H{side} ({given})", where, f"the constructor does not store the {side.upper()} checks")
                elif side in given:
                    rep.judge(v is Sym("H" + side) or (None if not pure(v) else False), "check-matrices", f"CSSCode H{side} ({given})", where,
                              f"the stored {side.upper()} checks are {show(v)[:120]} instead of the given matrix")
                else:
                    okz = v.op in ("zeros", "full", "ones") and v.op == "zeros" and (v.args[0].op == "tuple" and v.args[0].args[0] is K(0))
                    rep.judge(True if okz else None if not pure(v) else False, "check-matrices", f"CSSCode H{side} ({given})", where,
                              f"a missing check matrix must become an empty one, not {show(v)[:120]}")
            gens = [e for e in flat_events(p.events) if e.kind == "enter" and e.fn_name.endswith("StabilizerCode.__init__") and not e.fn_name.endswith("CSSCode.__init__")]
            if not gens:
                rep.bad("embedding", f"CSSCode generators ({given})", where, "the stabilizer generators are never handed to the general code class")
            for e in gens:
                if len(e.args) < 2:
                    continue
                g = p.eng.val(p.st, e.args[1])
                embed(rep, p, f"CSSCode generators ({given})", where, g, given)
            for side, ker, im in (("x", "z", "x"), ("z", "x", "z")):
                v = field(p, "L" + side)
                logical(rep, p, f"CSSCode L{side} ({given})", where, v, ker, im)
    rep.count("constructor end states", n, 3)
    # k = n - rank(generators) of the general class
    c = cls("codes.stabilizer_code", "StabilizerCode")
    f = program().find_method(c, "__init__")
    an = analyse(f, rep=rep, limit=600, prims=pauli_prims())
    for p in an.normal[:40]:
        k, nn = field(p, "k"), field(p, "n")
        if k is None or nn is None:
            rep.bad("parameters", "StabilizerCode k", an.where, "n and k are not set by the constructor")
            continue
        d = norm(padd(nn, k, -1))
        if d.op == "rank":
            rep.judge("generators" in all_leafnames(d) or any(x.op == "call" and x.args[0] == "paulis_to_binary" for x in subterms(d)), "parameters", "StabilizerCode k", an.where,
                      f"k must be n minus the rank of the generators, not n - {show(d)}")
        elif pure(d) or d.op == "len":
            rep.bad("parameters", "StabilizerCode k", an.where, f"k must be n minus the rank of the generators, not n - {show(d)}")
        else:
            rep.unknown("parameters", "StabilizerCode k", show(d)[:100])
        for fld, src in (("Lz", "Lz"), ("Lx", "Lx")):
            v = field(p, fld)
            if v is not None and v is not NONE:
                ls = all_leafnames(v)
                rep.judge(src in ls and ({"Lz", "Lx"} - {src}).isdisjoint(ls), "logicals-stored", f"StabilizerCode {fld}", an.where,
                          f"{fld} is built from {', '.join(sorted(ls))}")
            s = field(p, fld + "_symplectic")
            if s is not None and s is not NONE:
                ls = all_leafnames(s)
                rep.judge(src in ls and ({"Lz", "Lx"} - {src}).isdisjoint(ls), "logicals-stored", f"StabilizerCode {fld}_symplectic", an.where,
                          f"the symplectic form of {fld} is built from {', '.join(sorted(ls))}")
        sm, ph = field(p, "symplectic_matrix"), field(p, "phases")
        for nm, v, want in (("symplectic_matrix", sm, "init"), ("phases", ph, "last")):
            if v is None:
                continue
            got = column_part(v)
            rep.judge(None if got is None else got == want, "phase-column", f"StabilizerCode {nm}", an.where,
                      f"{nm} takes the wrong columns of the generator matrix: {show(v)[:120]}")
    pauli_strings(rep)
    conversions(rep)


def column_part(v):
    """'init' for m[:, :-1], 'last' for m[:, -1], other -> None/'other'."""
    if v.op != "index":
        return None
    i = v.args[1]
    if i.op == "tuple" and len(i.args) == 2:
        i = i.args[1]
    if i is K(-1):
        return "last"
    if i.op == "slice" and i.args[0] in (NONE, K(0)) and i.args[1] is K(-1):
        return "init"
    if i.op == "slice" and all(is_const(a) for a in i.args):
        return "other"
    if is_const(i):
        return "other"
    return None


def embed(rep, p, construct, where, g, given):
    b = blocks(norm_stack(g))
    if b is None or any(len(r) < 2 for r in b):
        rep.unknown("embedding", construct, show(g)[:160])
        return
    seen = set()
    for row in b:
        for col, blk in enumerate(row[:2]):
            ls = all_leafnames(blk) & {"Hx", "Hz"}
            if blk.op == "zeros":
                continue
            if blk is Sym("Hx"):
                seen.add("Hx")
                rep.judge(col == 0, "embedding", construct, where, "X checks are stored in the Z half of the symplectic representation")
            elif blk is Sym("Hz"):
                seen.add("Hz")
                rep.judge(col == 1, "embedding", construct, where, "Z checks are stored in the X half of the symplectic representation")
            else:
                rep.unknown("embedding", construct, show(blk)[:100])
                seen |= ls
        for blk in row[2:]:
            if not (blk.op == "zeros"):
                rep.unknown("embedding", construct, "phase column")
    for side in "xz":
        if side in given and "H" + side not in seen:
            rep.bad("embedding", construct, where, f"the {side.upper()} checks are not among the stabilizer generators")


def norm_stack(g):
    return g


def logical(rep, p, construct, where, v, ker, im):
    rule = "logical-construction"
    if v is None or v is NONE:
        rep.bad(rule, construct, where, "no logical operators are computed")
        return
    H = {"x": field(p, "Hx"), "z": field(p, "Hz")}
    kers = [x.args[1] for x in subterms(v) if x.op == "call" and isinstance(x.args[0], str) and x.args[0].split(".")[-1] in ("nullspace", "kernel")]
    ims = [x.args[1] for x in subterms(v) if x.op == "call" and isinstance(x.args[0], str) and x.args[0].split(".")[-1] in ("row_basis", "row_span")]
    if not kers:
        ls = all_leafnames(v)
        if not {"Hx", "Hz"} & ls:
            rep.bad(rule, construct, where, "the logical operators do not depend on the check matrices")
        else:
            rep.unknown(rule, construct, "no kernel computation recognised")
        return
    for k in kers:
        if k is H[im] and H[im] is not H[ker]:
            rep.bad(rule, construct, where, f"the logical operators are taken from the kernel of the {im.upper()} checks instead of the {ker.upper()} checks")
            return
        if k is not H[ker]:
            rep.unknown(rule, construct, f"kernel of {show(k)[:100]}")
    for k in ims:
        if k is H[ker] and H[im] is not H[ker]:
            rep.bad(rule, construct, where, f"the {ker.upper()} checks instead of the {im.upper()} checks are divided out")
            return
        if k is not H[im]:
            rep.unknown(rule, construct, f"image of {show(k)[:100]}")
    # the selected rows come from the kernel part of the stack
    if v.op == "index":
        comps = [x for x in subterms(v.args[1]) if x.op == "comp"]
        base = v.args[0]
        order = None
        if base.op in ("vstack", "concat") and base.args[0].op == "list":
            order = []
            for x in base.args[0].args:
                nm = "ker" if any(y in kers for y in [x.args[1]] if x.op == "call" and len(x.args) > 1 and x.args[0].split(".")[-1] in ("nullspace", "kernel")) else "im"
                order.append(nm)
        if order == ["im", "ker"] and len(comps) == 1 and comps[0].args[0].op == "range":
            lo, hi, step = comps[0].args[0].args
            imt = base.args[0].args[0]
            rep.judge(lo is T("len", imt) and step is K(1), rule, construct, where,
                      f"the selected rows start at {show(lo)} instead of behind the stabilizer part of the stack")
            al = comps[0].args[1:]
            okc = len(al) == 1 or True
            piv = any(x.op == "in" for a in al for x in subterms(a))
            negp = any(x.op == "not" and x.args[0].op == "in" for a in al for x in a.args[0].args if len(a.args) > 1)
            sel = [a for a in al if len(a.args) > 1]
            if len(sel) == 1 and piv:
                conds = sel[0].args[0].args
                pos = any(x.op == "in" for x in conds)
                rep.judge(pos, rule, construct, where, "rows that are not pivots are selected as logical operators")
            else:
                rep.unknown(rule, construct, "selection of pivot rows")
            return
        if order == ["ker", "im"]:
            rep.bad(rule, construct, where, "pivots are searched with the kernel stacked before the stabilizers: stabilizers are not divided out") if ims else None
            return
    rep.ok(rule, construct) if ims else rep.unknown(rule, construct, "selection of rows")


def const_of(t):
    return cval(t) if is_const(t) else None


def feval(t, env):
    """Evaluate a term after replacing the terms in `env` (finite-domain case split)."""
    s = subst(t, env)
    return fsimp(s)


def fsimp(t):
    memo = {}

    def go(x):
        if x.uid in memo:
            return memo[x.uid]
        if x.op in ("const", "sym", "attr"):
            r = x
        elif x.op == "poly":
            r = K(0)
            for mono, c in x.args:
                p = K(c)
                for a in mono:
                    p = pmul(p, go(a))
                r = padd(r, p)
        elif x.op == "alt":
            r = x
        elif x.op == "comp":
            r = None
            body = None
            for a in x.args[1:]:
                cs = [truthy(go(c)) for c in a.args[0].args]
                if all(c is True for c in cs):
                    body = a.args[1:]
                elif not any(c is False for c in cs):
                    body = "?"
                    break
            if body is None:
                r = T("list")
            elif body == "?":
                r = x
            else:
                r = T("list", *[go(b) for b in body])
        else:
            args = tuple(go(a) if isinstance(a, Term) else a for a in x.args)
            if x.op in ("list", "nparr", "strjoin", "fstr") and all(isinstance(a, Term) for a in args):
                flat = []
                for o, a in zip(x.args, args):
                    if isinstance(o, Term) and o.op == "comp" and a.op == "list":
                        flat.extend(a.args)
                    else:
                        flat.append(a)
                args = tuple(flat)
            if x.op == "not":
                b = truthy(args[0])
                r = T("not", args[0]) if b is None else K(not b)
            elif x.op == "and":
                bs = [truthy(a) for a in args]
                r = K(False) if False in bs else K(True) if all(b is True for b in bs) else T("and", *args)
            elif x.op == "or":
                bs = [truthy(a) for a in args]
                r = K(True) if True in bs else K(False) if all(b is False for b in bs) else T("or", *args)
            elif x.op == "ite":
                b = truthy(args[0])
                r = T("ite", *args) if b is None else args[1] if b else args[2]
            elif x.op == "eq":
                r = eqt(*args)
            elif x.op == "mod":
                r = pmod(*args)
            elif x.op == "where" and len(args) == 3:
                b = truthy(args[0])
                r = T("where", *args) if b is None else args[1] if b else args[2]
            else:
                r = T(x.op, *args)
        memo[x.uid] = r
        return r

    return go(t)


def truthy(t):
    return bool(cval(t)) if is_const(t) else None


def scalar(t):
    """The single generic element of an evaluated row expression."""
    while t.op in ("list", "nparr") and len(t.args) == 1:
        t = t.args[0]
    if t.op == "poly":
        r = K(0)
        for mono, c in t.args:
            p = K(c)
            for a in mono:
                p = pmul(p, boolnum(scalar(a)))
            r = padd(r, p)
        t = r
    return boolnum(t)


def boolnum(t):
    if is_const(t) and isinstance(cval(t), bool):
        return K(int(cval(t)))
    return t


def pauli_strings(rep):
    """Every check/logical matrix is rendered with its own Pauli letter."""
    base = cls("codes.css_code", "CSSCode")
    n = 0
    for name, m, letter in (("x_checks_as_pauli_strings", "Hx", "X"), ("z_checks_as_pauli_strings", "Hz", "Z"),
                            ("x_logicals_as_pauli_strings", "Lx", "X"), ("z_logicals_as_pauli_strings", "Lz", "Z")):
        f = program().find_method(base, name)
        if f is None:
            raise AnalysisBroken(f"CSSCode.{name} not found")
        an = analyse(f, cls=base, rep=rep)
        for p in drop_none(an.normal, "self.Hx", "self.Hz", "self.Lx", "self.Lz"):
            n += 1
            ls = all_leafnames(p.val)
            others = {"self.Hx", "self.Hz", "self.Lx", "self.Lz"} - {"self." + m}
            if ls & others:
                rep.bad("pauli-letters", f"CSSCode.{name}", an.where, f"renders {', '.join(sorted(ls & others))} instead of self.{m}")
                continue
            inner = [x for x in subterms(p.val) if x.op == "elem" and x.args[0].op == "elem"]
            letters = {cval(x) for x in subterms(p.val) if is_const(x) and isinstance(cval(x), str) and cval(x) in ("X", "Y", "Z", "I", "_")}
            if letters - {letter, "I"}:
                rep.bad("pauli-letters", f"CSSCode.{name}", an.where, f"renders {'/'.join(sorted(letters - {letter, 'I'}))} in a row of {m}")
                continue
            done = False
            if len(inner) == 1:
                joins = [x for x in subterms(p.val) if x.op == "strjoin"]
                if len(joins) == 1:
                    r1 = scalar(feval(joins[0].args[1], {inner[0]: K(1)}))
                    r0 = scalar(feval(joins[0].args[1], {inner[0]: K(0)}))
                    if is_const(r1) and is_const(r0):
                        done = True
                        rep.judge(cval(r1) == letter and cval(r0) == "I", "pauli-letters", f"CSSCode.{name}", an.where,
                                  f"a 1 is rendered as {cval(r1)!r} and a 0 as {cval(r0)!r}")
            if not done:
                rep.unknown("pauli-letters", f"CSSCode.{name}", show(p.val)[:120])
    rep.count("Pauli string renderings", n, 4)


def conversions(rep):
    m = program().module("mqt.qecc.codes.stabilizer_code")
    f = m.functions.get("pauli_to_binary")
    if f is not None:
        an = analyse(f, rep=rep)
        for p in an.normal:
            if p.val is Sym(f.params[0]):
                continue  # already binary
            v = p.val
            parts = v.args[0].args if v.op in ("hstack", "concat") and v.args[0].op == "list" else None
            if parts is None or len(parts) < 2:
                rep.unknown("pauli-to-binary", "pauli_to_binary", show(v)[:120])
                continue
            for i, (nm, ones) in enumerate((("X", "XY"), ("Z", "ZY"))):
                el = [x for x in subterms(parts[i]) if x.op == "elem"]
                el = [x for x in el if not any(y.op == "comp" for y in subterms(x))]
                if len({x.uid for x in el}) != 1:
                    rep.unknown("pauli-to-binary", f"pauli_to_binary {nm} part", show(parts[i])[:120])
                    continue
                for ch in "IXYZ":
                    r = scalar(feval(parts[i], {el[0]: K(ch)}))
                    if not is_const(r):
                        rep.unknown("pauli-to-binary", f"pauli_to_binary {nm} part of {ch}", show(r)[:120])
                        continue
                    rep.judge(int(cval(r)) == int(ch in ones), "pauli-to-binary", f"pauli_to_binary {nm} part of {ch}", an.where,
                              f"the {nm} bit of {ch} becomes {cval(r)}")
            if len(parts) > 2:
                sign = None
                for k, b in p.facts.items():
                    if k.op == "eq" and is_const(k.args[1]) and cval(k.args[1]) == "-" and b:
                        sign = 1
                if sign is None and any(k.op == "eq" and is_const(k.args[1]) and cval(k.args[1]) == "-" and not b for k, b in p.facts.items()):
                    sign = 0
                if sign is None and any(k.op == "eq" and is_const(k.args[1]) and cval(k.args[1]) == "+" and b for k, b in p.facts.items()):
                    sign = 0
                r = scalar(parts[2])
                if sign is None or not is_const(r):
                    rep.unknown("pauli-to-binary", "pauli_to_binary phase")
                else:
                    rep.judge(int(cval(r)) == sign, "pauli-to-binary", f"pauli_to_binary phase {sign}", an.where,
                              f"a string with sign {'-' if sign else '+'} gets phase bit {cval(r)}")
    f = m.functions.get("binary_to_pauli_string")
    if f is not None:
        an = analyse(f, rep=rep)
        b = Sym(f.params[0])
        for p in an.normal:
            els = [x for x in subterms(p.val) if x.op == "elem" and half2(x.args[0]) is not None]
            xs = {x for x in els if half2(x.args[0]) == "lo"}
            zs = {x for x in els if half2(x.args[0]) == "hi"}
            joins = [x for x in subterms(p.val) if x.op == "strjoin"]
            if len(xs) != 1 or len(zs) != 1 or len(joins) != 1:
                rep.unknown("binary-to-pauli", "binary_to_pauli_string", show(p.val)[:120])
                continue
            xe, ze = xs.pop(), zs.pop()
            for (x, z), want in {(0, 0): "I", (1, 0): "X", (0, 1): "Z", (1, 1): "Y"}.items():
                r = scalar(feval(joins[0].args[1], {xe: K(x), ze: K(z)}))
                if is_const(r):
                    rep.judge(cval(r) == want, "binary-to-pauli", f"binary_to_pauli_string ({x},{z})", an.where,
                              f"x={x}, z={z} is rendered as {cval(r)!r} instead of {want!r}")
                else:
                    rep.unknown("binary-to-pauli", f"binary_to_pauli_string ({x},{z})", show(r)[:120])
            ph = [(k, v) for k, v in p.facts.items() if k.op == "eq" and k.args[0].op == "index" and k.args[0].args[0] is b and k.args[0].args[1] is K(-1)]
            if ph:
                k, v = ph[0]
                minus = any(is_const(x) and isinstance(cval(x), str) and cval(x).startswith("-") for x in subterms(p.val))
                isneg = (cval(k.args[1]) == 1) == v
                rep.judge(minus == isneg, "binary-to-pauli", f"binary_to_pauli_string sign {int(isneg)}", an.where,
                          f"a row with phase bit {int(isneg)} is rendered {'with' if minus else 'without'} a minus sign")


def half2(t):
    """Half of a binary row with a trailing phase: x part / z part."""
    if t.op != "index" or t.args[1].op != "slice":
        return None
    lo, hi, step = t.args[1].args
    if step is not NONE:
        return None
    if lo in (NONE, K(0)) and hi is not NONE and not is_const(hi):
        return "lo"
    if lo is not NONE and not is_const(lo):
        return "hi"
    return None


# --------------------------------------------------------------------- P04


def fact_status(paths, match):
    """For every path the polarity of the matching fact, or None."""
    out = []
    for p in paths:
        got = None
        for k, v in p.facts.items():
            nk = norm(k)
            b = v
            while nk.op == "not":
                nk, b = nk.args[0], not b
            m = match(nk)
            if m:
                got = b if m == 1 else not b
                break
        out.append(got)
    return out


def order_implies(a, b, allowed):
    """facts -> do the comparisons of a with b leave only the orderings in `allowed`? None: unrelated facts involved."""

    def f(facts):
        left = {"<", "=", ">"}
        for k, v in facts.items():
            if k.op not in ("eq", "lt", "or", "and", "not"):
                continue
            if not all(x in (a, b) or x.op in ("eq", "lt", "or", "and", "not", "const") or any(x in set(subterms(y)) for y in (a, b)) for x in subterms(k)):
                continue
            keep = set()
            for o in left:
                r = ev(k, o)
                if r is None or r == v:
                    keep.add(o)
            left = keep
        return left <= set(allowed)

    def ev(k, o):
        if k.op == "eq" and set(k.args) == {a, b}:
            return o == "="
        if k.op == "lt" and set(k.args) == {a, b}:
            return o == ("<" if k.args[0] is a else ">")
        if k.op == "not":
            r = ev(k.args[0], o)
            return None if r is None else not r
        if k.op in ("and", "or"):
            rs = [ev(x, o) for x in k.args]
            if k.op == "and":
                return False if False in rs else None if None in rs else True
            return True if True in rs else None if None in rs else False
        return None

    def g(facts):
        rel = [k for k in facts if a in set(subterms(k)) and b in set(subterms(k))]
        if any(x.op not in ("eq", "lt", "or", "and", "not", "const") and x not in (a, b) and not any(x in set(subterms(y)) for y in (a, b)) for k in rel for x in subterms(k)):
            return True if f(facts) else None
        return f(facts)

    return g


def require(rep, rule, construct, an, paths, match, want, what, cand=None, implied=None):
    """On every accepting path the matching fact must have polarity `want`."""
    if not paths:
        rep.unknown(rule, construct, "no accepting path analysed")
        return
    st = fact_status(paths, match)
    if all(s is want for s in st):
        rep.ok(rule, construct, f"{len(paths)} accepting paths")
        return
    if any(s is (not want) for s in st):
        rep.bad(rule, construct, an.where, f"an input with {what} is accepted")
        return
    if an.eng.merged:
        rep.unknown(rule, construct, "paths were merged")
        return
    if implied is not None:
        im = [implied(p.facts) for p in paths]
        if all(x is True for x in im):
            rep.ok(rule, construct, f"{len(paths)} accepting paths")
            return
        if any(x is False for x in im):
            rep.bad(rule, construct, an.where, f"an input with {what} is accepted")
            return
    # not in normal form: is there any fact on these paths that could be the test?
    for p, s in zip(paths, st):
        if s is None:
            c = [k for k in p.facts if cand is not None and cand(norm(k))]
            if not c:
                rep.bad(rule, construct, an.where, f"an accepting path does not test for {what}")
                return
    rep.unknown(rule, construct, "test not in normal form")


def p04(rep):
    css = cls("codes.css_code", "CSSCode")
    f = program().find_method(css, "__init__")
    # neither matrix
    an = analyse(f, args={"Hx": NONE, "Hz": NONE}, rep=rep, limit=600, prims=pauli_prims())
    rep.judge(not an.normal, "reject-empty", "CSSCode.__init__", an.where, "a code without any check matrix is accepted")
    for p in an.raising:
        rep.judge("InvalidCSSCodeError" in str(p.exc.args[0]), "reject-empty", "CSSCode.__init__ error kind", an.where,
                  f"a code without check matrices raises {p.exc.args[0]} instead of the documented error")
    f, an = css_init(rep, "xz")
    hx, hz = Sym("Hx"), Sym("Hz")
    acc = drop_none(an.normal, "Hx", "Hz")
    col = [T("index", T("shape", h), K(1)) for h in (hx, hz)]
    cols = {eqt(*col)}
    require(rep, "reject-shape", "CSSCode.__init__", an, acc, lambda k: 1 if k in cols else 0, True, "check matrices of different widths", implied=order_implies(*col, "="),
            cand=lambda k: {"Hx", "Hz"} <= all_leafnames(k) and "matmul" not in ops(k))
    orth = {norm(T("any", T("odd", T("matmul", a, T("T", b))))) for a, b in ((hx, hz), (hz, hx))}
    require(rep, "reject-noncommuting", "CSSCode.__init__", an, acc, lambda k: 1 if k in orth else 0, False,
            "X and Z checks that do not commute", cand=lambda k: {"Hx", "Hz"} <= all_leafnames(k) and has_parity(k) and not pure(k))
    for nm, d in (("x_distance", "x_distance"), ("z_distance", "z_distance")):
        paths = [p for p in acc if not any(k is T("is", Sym(d), NONE) and v for k, v in p.facts.items())]
        lt = {T("lt", Sym(d), Sym("distance"))}
        require(rep, "reject-distance", f"CSSCode.__init__ {nm}", an, paths, lambda k, lt=lt: 1 if k in lt else 0, False,
                f"{nm} below the distance", implied=order_implies(Sym(d), Sym("distance"), "=>"), cand=lambda k, d=d: {d, "distance"} <= all_leafnames(k))
    for p in acc:
        for d in ("x_distance", "z_distance"):
            isnone = [v for k, v in p.facts.items() if k is T("is", Sym(d), NONE)]
            v = field(p, d)
            if v is None:
                rep.bad("distance-fields", f"CSSCode.{d}", an.where, f"{d} is not set")
            elif isnone:
                want = Sym("distance") if isnone[0] else Sym(d)
                rep.judge(v is want or (None if v.op not in ("sym",) else False), "distance-fields", f"CSSCode.{d}", an.where, f"{d} is set to {show(v)}, not {show(want)}")
    n = len(acc)
    # general stabilizer codes
    c = cls("codes.stabilizer_code", "StabilizerCode")
    f = program().find_method(c, "__init__")
    OPQ = {"get_n_qubits_from_pauli", "is_pauli_string"}
    an = analyse(f, rep=rep, limit=3000, prims=pauli_prims(), inline=lambda fi: fi.name not in OPQ)
    acc = an.normal
    g = Sym("generators")
    n += len(acc)
    require(rep, "reject-empty", "StabilizerCode.__init__", an, acc,
            lambda k: 1 if k in (eqt(T("len", g), K(0)),) else -1 if k in (T("lt", K(0), T("len", g)), g, T("nonempty", g)) else 0, False,
            "no generators", cand=lambda k: all_leafnames(k) == {"generators"})
    require(rep, "reject-ragged", "StabilizerCode.__init__", an, acc,
            lambda k: 1 if k.op == "any" and len([x for x in subterms(k) if x.op == "len"]) >= 2 and "generators" in all_leafnames(k) else 0, False,
            "generators of different lengths", cand=lambda k: "generators" in all_leafnames(k) and "len" in ops(k) and len([x for x in subterms(k) if x.op == "len"]) >= 2)
    strs = [p for p in acc if any(k.op == "isinstance" and v for k, v in p.facts.items())]
    require(rep, "reject-nonpauli", "StabilizerCode.__init__", an, strs,
            lambda k: 1 if k.op == "any" and any(x.op == "call" and str(x.args[0]).endswith("is_pauli_string") for x in subterms(k)) else 0, False,
            "generator strings that are no Pauli strings", cand=lambda k: "generators" in all_leafnames(k) and ("in" in ops(k) or "all" in ops(k) or "any" in ops(k)))
    dist = [p for p in acc if any(k is T("is", Sym("distance"), NONE) and not v for k, v in p.facts.items())]
    require(rep, "reject-distance", "StabilizerCode.__init__", an, dist,
            lambda k: 1 if k in (T("lt", K(0), Sym("distance")),) else -1 if k in (T("lt", Sym("distance"), K(1)),) else 0, True,
            "a non-positive distance", cand=lambda k: False)
    none = lambda p, x: any(k is T("is", Sym(x), NONE) and v for k, v in p.facts.items())
    some = lambda p, x: any(k is T("is", Sym(x), NONE) and not v for k, v in p.facts.items())
    for a, b in (("Lz", "Lx"), ("Lx", "Lz")):
        lone = [p for p in acc if some(p, a) and none(p, b)]
        rep.judge(not lone, "reject-half-logicals", f"StabilizerCode.__init__ {a} only", an.where, f"{a} without {b} is accepted")
    both = [p for p in acc if some(p, "Lz") and some(p, "Lx")]
    rep.count("accepting constructor paths", n, 4)
    if not both:
        rep.broken.append("no accepting path with logical operators")
        return
    for L in ("Lz", "Lx"):
        oth = {"Lz", "Lx"} - {L}
        nq = lambda k, L=L: k.op == "eq" and L in all_leafnames(k) and any(x.op == "call" and str(x.args[0]).endswith("get_n_qubits_from_pauli") and L in all_leafnames(x) for x in subterms(k)) and not (oth & all_leafnames(k))
        require(rep, "reject-logical-width", f"StabilizerCode.__init__ {L}", an, both, lambda k, nq=nq: 1 if nq(k) else 0, True,
                f"{L} on another number of qubits", cand=lambda k, L=L: L in all_leafnames(k) and ("shape" in ops(k) or "len" in ops(k) or "floordiv" in ops(k)) and "lt" not in ops(k))
        # #logicals <= k = n - rank(generators); k < len(L) must be false
        def cnt(k, L=L):
            if k.op != "lt":
                return 0
            a, b = k.args
            d = padd(b, a, -1)
            ln = [x for x in subterms(d) if x.op == "len" and L in all_leafnames(x)]
            rkk = [x for x in subterms(d) if (x.op == "rank" or (x.op == "call" and x.args[0] == "ldpc.mod2.rank"))]
            if ln and rkk:
                pol = dict((m, c) for m, c in __import__("terms").to_poly(d).items())
                c = pol.get((ln[0],), 0)
                k0 = pol.get((), 0)
                if c == 1 and k0 == 0:
                    return 1  # k < len
                if c == -1 and k0 == 0:
                    return 2  # len < k : too strict, not the required test
            return 0
        require(rep, "reject-logical-count", f"StabilizerCode.__init__ {L}", an, both, lambda k, cnt=cnt: 1 if cnt(k) == 1 else 0, False,
                f"more {L} operators than logical qubits", cand=lambda k, L=L: L in all_leafnames(k) and k.op == "lt" and ("rank" in ops(k)) and not cnt(k))
        def comm(k, L=L):
            ls = all_leafnames(k)
            return k.op == "any" and L in ls and "generators" in ls and not (oth & ls) and "odd" in ops(k) and "matmul" in ops(k)
        require(rep, "reject-logical-commutation", f"StabilizerCode.__init__ {L}", an, both, lambda k, comm=comm: 1 if comm(k) else 0, False,
                f"{L} operators that anticommute with a stabilizer", cand=lambda k, L=L: {L, "generators"} <= all_leafnames(k) and has_parity(k))
    def pairing(k):
        ls = all_leafnames(k)
        return {"Lz", "Lx"} <= ls and "sum" in ops(k) and any(x.op == "eq" and x.args[1] is K(1) for x in subterms(k)) and k.op == "any"
    require(rep, "reject-logical-pairing", "StabilizerCode.__init__", an, both, lambda k: 1 if pairing(k) else 0, False,
            "logical X and Z operators that do not pair up", cand=lambda k: {"Lz", "Lx"} <= all_leafnames(k))
    # is_pauli_string accepts exactly the Pauli alphabet with an optional sign
    f = program().module("mqt.qecc.codes.stabilizer_code").functions.get("is_pauli_string")
    if f is not None:
        an = analyse(f, rep=rep)
        t = pred_of(an)
        p = Sym(f.params[0])
        if t is not None:
            els = [x for x in subterms(t) if x.op == "elem"]
            if len({x.uid for x in els}) == 1:
                for ch in "IXYZ+-AxyziH":
                    inner = [x for x in subterms(t) if x.op in ("all", "any") and len(x.args) == 1]
                    if len(inner) == 1:
                        r = scalar(feval(inner[0].args[0], {els[0]: K(ch)}))
                        if is_const(r):
                            rep.judge(bool(cval(r)) == (ch in "IXYZ"), "pauli-alphabet", f"is_pauli_string tail {ch!r}", an.where,
                                      f"the letter {ch!r} is {'accepted' if cval(r) else 'rejected'}")
                first = T("index", p, K(0))
                for ch in "IXYZ+-AxH":
                    s = subst(t, {first: K(ch)})
                    s = fsimp(subst(s, {x: K(True) for x in subterms(s) if x.op in ("all",)} | {x: K(True) for x in subterms(s) if x.op == "lt"}))
                    if is_const(s):
                        rep.judge(bool(cval(s)) == (ch in "IXYZ+-"), "pauli-alphabet", f"is_pauli_string head {ch!r}", an.where,
                                  f"a string starting with {ch!r} is {'accepted' if cval(s) else 'rejected'}")


# --------------------------------------------------------------------- P05

# The published bivariate-bicycle codes: n -> distance (arXiv:2308.07915, table 3)
BB = {72: 6, 90: 10, 108: 10, 144: 12, 288: 18}


def p05(rep):
    m = program().module("mqt.qecc.codes.bb_codes")
    f = m.functions.get("construct_bb_code")
    if f is None:
        raise AnalysisBroken("construct_bb_code not found")
    css = cls("codes.css_code", "CSSCode")
    init = program().find_method(css, "__init__")
    n = 0
    for size, dist in BB.items():
        an = analyse(f, args={f.params[0]: K(size)}, rep=rep, unroll=20, inline=lambda fi: not (fi.cls is not None and css in program().mro(fi.cls)))
        if not an.normal:
            rep.bad("supported-sizes", f"n={size}", an.where, f"the documented size {size} is rejected")
            continue
        for p in an.normal:
            v = p.raw
            obj = v if v.op == "obj" else None
            if obj is None or not str(obj.args[0]).endswith("CSSCode"):
                rep.unknown("bb-structure", f"n={size}", show(v)[:100])
                continue
            pos = [a for a in obj.args[1:] if a.op != "kw"]
            kw = {a.args[0]: a.args[1] for a in obj.args[1:] if a.op == "kw"}
            names = init.params[1:]
            arg = {**dict(zip(names, pos)), **kw}
            n += 1
            d = arg.get("distance")
            rep.judge(None if d is None or not is_const(d) else cval(d) == dist, "bb-distance", f"n={size}", an.where,
                      f"the code on {size} qubits is declared with distance {show(d) if d is not None else '?'} instead of {dist}")
            bb_matrices(rep, f"n={size}", an.where, size, arg.get("Hx"), arg.get("Hz"))
    rep.count("bivariate bicycle instances", n, 5)
    an = analyse(f, rep=rep, limit=60, inline=lambda fi: fi.cls is None and fi.name == f.name)
    # any other size is rejected
    for p in an.normal:
        if not any(k.op in ("eq", "in", "or") and v for k, v in p.facts.items()):
            rep.bad("supported-sizes", "other n", an.where, "an undocumented size is accepted")
            break
    else:
        rep.ok("supported-sizes", "other n")


def sparse(t, memo):
    """A matrix term without unknowns as (rows, columns, {(i, j): value}); None if it is not one."""
    if id(t) in memo:
        return memo[id(t)][1]
    try:
        r = _sparse(t, memo)
    except (TypeError, ValueError, AttributeError, IndexError, OverflowError):
        r = None
    memo[id(t)] = (t, r)
    return r


def dims(t, memo):
    if t.op == "tuple" and len(t.args) == 2:
        a, b = (dims(x, memo) for x in t.args)
        return (a, b) if isinstance(a, int) and isinstance(b, int) else None
    if t.op == "shape":
        m = sparse(t.args[0], memo)
        return m and m[:2]
    if t.op == "index" and is_const(t.args[1]):
        s = dims(t.args[0], memo)
        return s[cval(t.args[1])] if isinstance(s, tuple) else None
    return const_of(t)


def _sparse(t, memo):
    from terms import to_poly

    S = lambda x: sparse(x, memo)
    op, a = t.op, t.args
    if op in ("view", "nparr", "copy"):
        return S(a[0])
    if op in ("zeros", "ones"):
        d = dims(a[0], memo)
        if not isinstance(d, tuple):
            return None
        return (*d, {(i, j): 1 for i in range(d[0]) for j in range(d[1])} if op == "ones" else {})
    if op == "eye":
        n = dims(a[0], memo)
        return (n, n, {(i, i): 1 for i in range(n)}) if isinstance(n, int) and len(a) == 1 else None
    if op == "T":
        r, c, e = S(a[0])
        return c, r, {(j, i): v for (i, j), v in e.items()}
    if op == "kron":
        (r, c, e), (q, d, f) = S(a[0]), S(a[1])
        return r * q, c * d, {(i * q + k, j * d + m): v * w for (i, j), v in e.items() for (k, m), w in f.items()}
    if op == "mpow":
        m, k = S(a[0]), const_of(a[1])
        if m is None or not isinstance(k, int) or k < 0 or k > 64 or m[0] != m[1]:
            return None
        out = (m[0], m[0], {(i, i): 1 for i in range(m[0])})
        for _ in range(k):
            out = sprod(out, m)
        return out
    if op == "matmul":
        return sprod(S(a[0]), S(a[1]))
    if op == "upd":
        r, c, e = S(a[0])
        i, j = (dims(x, memo) for x in a[1].args) if a[1].op == "tuple" else (None, None)
        v = const_of(a[2])
        if not all(isinstance(x, int) for x in (i, j, v)) or not (-r <= i < r and -c <= j < c):
            return None
        return r, c, {**e, (i % r, j % c): v}
    if op in ("mod", "floordiv"):
        m, k = S(a[0]), const_of(a[1])
        if not isinstance(k, int) or k <= 0:
            return None
        return (*m[:2], {x: w for x, v in m[2].items() if (w := v % k if op == "mod" else v // k)})
    if op in ("hstack", "vstack") and a[0].op == "list":
        out = None
        for x in a[0].args:
            m = S(x)
            if out is None:
                out = m
            elif op == "hstack":
                if out[0] != m[0]:
                    return None
                out = (out[0], out[1] + m[1], {**out[2], **{(i, j + out[1]): v for (i, j), v in m[2].items()}})
            else:
                if out[1] != m[1]:
                    return None
                out = (out[0] + m[0], out[1], {**out[2], **{(i + out[0], j): v for (i, j), v in m[2].items()}})
        return out
    if op == "call" and a[0] == "numpy.roll" and len(a) >= 3 and is_const(a[2]):
        m = S(a[1])
        ax = [x.args[1] for x in a[3:] if getattr(x, "op", "") == "kw" and x.args[0] == "axis"] + [x for x in a[3:4] if getattr(x, "op", "") != "kw"]
        if not ax or not is_const(ax[0]):
            return None
        k, row = cval(a[2]), cval(ax[0]) in (0, -2)
        return (*m[:2], {((i + k) % m[0], j) if row else (i, (j + k) % m[1]): v for (i, j), v in m[2].items()})
    out = None
    if op != "poly":
        return None
    for mono, c in to_poly(t).items():
        if not isinstance(c, int) or not mono:
            return None
        m = None
        for x in mono:  # elementwise product
            n = S(x)
            if n is None:
                return None
            if m is not None and m[:2] != n[:2]:
                return None
            m = n if m is None else (*m[:2], {i: v * n[2][i] for i, v in m[2].items() if i in n[2]})
        if out is None:
            out = (*m[:2], {})
        if out[:2] != m[:2]:
            return None
        for i, v in m[2].items():
            out[2][i] = out[2].get(i, 0) + c * v
    return out


def sprod(a, b):
    if a is None or b is None or a[1] != b[0]:
        return None
    rows = {}
    for (i, j), v in b[2].items():
        rows.setdefault(i, []).append((j, v))
    out = {}
    for (i, k), v in a[2].items():
        for j, w in rows.get(k, ()):
            out[i, j] = out.get((i, j), 0) + v * w
    return a[0], b[1], out


def bb_ground(rep, construct, where, size, hx, hz):
    """The same judgement on the entries of the matrices; False if they are not known."""
    memo = {}
    mx, mz = sparse(hx, memo), sparse(hz, memo)
    if mx is None or mz is None:
        return False
    n = size // 2
    ok = mx[:2] == mz[:2] == (n, size)
    rep.judge(ok, "bb-size", construct, where, f"the check matrices have the shapes {mx[:2]} and {mz[:2]} instead of {(n, size)}")
    if not ok:
        return True
    ok = all(v in (0, 1) for m in (mx, mz) for v in m[2].values())
    rep.judge(ok, "bb-structure", f"{construct} entries", where, "the check matrices are not binary")
    if not ok:
        return True
    on = [{k for k, v in m[2].items() if v} for m in (mx, mz)]
    a, b = {(i, j) for i, j in on[0] if j < n}, {(i, j - n) for i, j in on[0] if j >= n}
    c, d = {(j, i) for i, j in on[1] if j < n}, {(j - n, i) for i, j in on[1] if j >= n}
    rep.judge((c, d) == (b, a), "bb-structure", construct, where, "the Z checks are not [B^T | A^T] for X checks [A | B], so X and Z checks do not commute")
    (pl, pm), pa, pb = BB_POLY[size]
    found = None
    for l_, m_, swap in ((pl, pm, False), (pm, pl, True)):
        polys = []
        for x in (a, b):
            t = {divmod(j, m_) for i, j in x if i == 0}
            full = {(i, ((i // m_ + u) % l_) * m_ + (i % m_ + v) % m_) for i in range(n) for u, v in t}
            if full == x:
                polys.append(frozenset(t))
        if len(polys) == 2:
            found = True
            want = [[e[::-1] for e in p] for p in (pa, pb)] if swap else [pa, pb]
            if all(len(t) == 3 for t in polys) and any(same_bb(polys, want, l_, m_, f) for f in range(16)):
                found = "published"
                break
    rep.judge(found is not None, "bb-commuting", construct, where, f"A and B are not sums of shifts of the {pl}x{pm} torus")
    if found:
        rep.judge(found == "published", "bb-published", construct, where, f"A and B are not the published sums of three monomials on {size} qubits (A = {mono_sum(pa)}, B = {mono_sum(pb)})")
    return True


def bb_matrices(rep, construct, where, size, hx, hz):
    """Hx = [A|B], Hz = [B^T|A^T] with A, B sums of commuting shift powers."""
    if hx is not None and hz is not None and bb_ground(rep, construct, where, size, hx, hz):
        return
    if hx is None or hz is None:
        rep.unknown("bb-structure", construct, "matrices not passed by name")
        return
    bx, bz = blocks(strip2(hx)), blocks(strip2(hz))
    if bx is None or bz is None or len(bx) != 1 or len(bz) != 1 or len(bx[0]) != 2 or len(bz[0]) != 2:
        rep.unknown("bb-structure", construct, "no two-block form")
        return
    a, b = (strip2(x) for x in bx[0])
    c, d = (strip2(x) for x in bz[0])
    ct, dt = tr(c), tr(d)
    # [A|B][C|D]^T = A C^T + B D^T = 0 mod 2 for commuting A, B iff {C^T, D^T} = (B, A)
    if ct is b and dt is a:
        rep.ok("bb-structure", construct, "A·B + B·A = 0")
    else:
        rep.bad("bb-structure", construct, where, "the Z checks are not [B^T | A^T] for X checks [A | B], so X and Z checks do not commute")
    polys = []
    for nm, x in (("A", a), ("B", b)):
        mono = shift_poly(x)
        if mono is None:
            rep.unknown("bb-polynomial", f"{construct} {nm}", show(x)[:120])
            return
        sizes, terms_ = mono
        polys.append((sizes, terms_))
    (s1, t1), (s2, t2) = polys
    rep.judge(s1 == s2, "bb-commuting", construct, where, f"A acts on a {s1} torus but B on {s2}: they do not commute")
    l_, m_ = s1
    rep.judge(2 * l_ * m_ == size, "bb-size", construct, where, f"the torus {l_}x{m_} gives {2 * l_ * m_} qubits instead of {size}")
    for nm, t in (("A", t1), ("B", t2)):
        red = set()
        for e in t:
            red ^= {(e[0] % l_, e[1] % m_)}
        rep.judge(len(red) == 3, "bb-weight", f"{construct} {nm}", where, f"{nm} has {len(red)} distinct monomials instead of 3")
    if size in BB_POLY and 2 * l_ * m_ == size:
        (pl, pm), pa, pb = BB_POLY[size]
        got = [frozenset((e[0] % l_, e[1] % m_) for e in t) for t in (t1, t2)]
        if (l_, m_) != (pl, pm):
            pl, pm, pa, pb = pm, pl, [e[::-1] for e in pa], [e[::-1] for e in pb]
        rep.judge((l_, m_) == (pl, pm) and any(same_bb(got, [pa, pb], l_, m_, f) for f in range(16)), "bb-published", construct, where,
                  f"A = {mono_sum(got[0])}, B = {mono_sum(got[1])} on a {l_}x{m_} torus is not the published code on {size} qubits "
                  f"(A = {mono_sum(pa)}, B = {mono_sum(pb)})", "published polynomials")


# arXiv:2308.07915, table 3: torus and the exponents of x and y in A and B
BB_POLY = {
    72: ((6, 6), [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)]),
    90: ((15, 3), [(9, 0), (0, 1), (0, 2)], [(0, 0), (2, 0), (7, 0)]),
    108: ((9, 6), [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)]),
    144: ((12, 6), [(3, 0), (0, 1), (0, 2)], [(0, 3), (1, 0), (2, 0)]),
    288: ((12, 12), [(3, 0), (0, 2), (0, 7)], [(0, 3), (1, 0), (2, 0)]),
}


def same_bb(got, want, l_, m_, flips):
    """Equal up to reflecting the torus, exchanging its equal sides, exchanging A and B, and translating each of them:
    none of these changes the code other than by renaming qubits and checks (or exchanging X and Z)."""
    def norm(t):
        return min(tuple(sorted(((i - a) % l_, (j - b) % m_) for i, j in t)) for a, b in t)
    w = []
    for t in want:
        u = [(i * (-1 if flips & 1 else 1), j * (-1 if flips & 2 else 1)) for i, j in t]
        if flips & 4 and l_ == m_:
            u = [e[::-1] for e in u]
        w.append(norm([(i % l_, j % m_) for i, j in u]))
    if flips & 8:
        w.reverse()
    return [norm(t) for t in got] == w


def mono_sum(t):
    return " + ".join("1" if e == (0, 0) else (f"x^{e[0]}" if e[0] else "") + (f"y^{e[1]}" if e[1] else "") for e in sorted(t))


def strip2(t):
    while True:
        if t.op == "mod" and algebra.is2(t.args[1]):
            t = t.args[0]
        elif t.op in ("view", "nparr"):
            t = t.args[0]
        else:
            return t


def tr(t):
    from pyext import transpose

    if t.op == "T":
        return strip2(t.args[0])
    return strip2(transpose(t))


def shift_poly(x):
    """A sum of powers of commuting shift matrices: ((l, m), [(i, j), ...]) or None."""
    from terms import to_poly

    out = []
    sizes = None
    for mono, c in to_poly(x).items():
        if len(mono) != 1:
            return None
        t = mono[0]
        if t.op == "zeros":
            continue
        if c % 2 == 0:
            continue
        e = K(1)
        if t.op == "mpow":
            t, e = t.args
        elif t.op == "eye":
            return None
        if not is_const(e):
            return None
        t = strip2(t)
        if t.op != "kron":
            return None
        a, b = t.args
        la, sa = shift(a)
        lb, sb = shift(b)
        if la is None or lb is None:
            return None
        if sizes is None:
            sizes = (la, lb)
        elif sizes != (la, lb):
            return None
        out.append((sa * cval(e), sb * cval(e)))
    if sizes is None:
        return None
    return sizes, out


def shift(t):
    """(size, step) of an identity or cyclic shift matrix."""
    t = strip2(t)
    if t.op == "eye" and is_const(t.args[0]):
        return cval(t.args[0]), 0
    # zeros((l, l)) with ones written at [i, (i + s) % l] for every i
    ent = {}
    x = t
    while x.op == "upd":
        i, v = x.args[1], x.args[2]
        if i.op != "tuple" or len(i.args) != 2 or not all(is_const(a) for a in i.args) or not is_const(v):
            return None, None
        ent.setdefault((cval(i.args[0]), cval(i.args[1])), cval(v))
        x = x.args[0]
    if x.op == "zeros" and x.args[0].op == "tuple" and ent:
        l_ = const_of(x.args[0].args[0])
        if l_ is None:
            return None, None
        steps = {(j - i) % l_ for (i, j), v in ent.items() if v}
        if len(steps) == 1 and len([1 for v in ent.values() if v]) == l_:
            return l_, steps.pop()
        return None, None
    if t.op == "call" and t.args[0] == "numpy.roll" and len(t.args) >= 3 and t.args[1].op == "eye" and is_const(t.args[2]):
        l_ = const_of(t.args[1].args[0])
        return (l_, cval(t.args[2]) % l_) if l_ else (None, None)
    return None, None
