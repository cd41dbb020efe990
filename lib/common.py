"""Shared helpers of the rule modules."""
from __future__ import annotations

import ast
import os

import terms
from terms import FALSE, K, NONE, T, TRUE, Attr, Sym, Term, cval, is_const, join, leaves, show, subterms, all_subterms
from pymodel import AnalysisBroken, ClassInfo, FuncInfo, Program
from pyabs import AltEv, Engine, Ev, LoopEv, State, TooBig, conj, disj, eqt, flat_events, neg, subst, trace_list, UNDEF
from report import REPO, Report
import algebra
from algebra import decision, has_parity, norm, pure

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program(REPO)
    return _prog


class Path:
    def __init__(self, eng, st, val):
        self.eng = eng
        self.st = st
        self.exc = st.exc
        self.raw = val
        self.val = eng.val(st, val) if val is not None and st.exc is None else None
        self.facts = st.pc
        self._ev = None

    @property
    def events(self):
        if self._ev is None:
            self._ev = trace_list(self.st.trace)
        return self._ev


class Analysis:
    def __init__(self, eng, fi, res, too_big=False):
        self.eng = eng
        self.fi = fi
        self.too_big = too_big
        self.paths = [Path(eng, s, v) for s, v in res]
        self.normal = [p for p in self.paths if p.exc is None]
        self.raising = [p for p in self.paths if p.exc is not None]
        self.events = eng.events

    @property
    def where(self):
        return self.fi.where()


def analyse(fi, selfv=None, args=None, state=None, rep=None, cls=None, **kw):
    """Abstractly interpret one function; Analysis.too_big when the bound is hit."""
    eng = Engine(program(), **kw)
    if cls is not None and selfv is None and not fi.is_static:
        selfv = Sym("self")
        eng.types[selfv] = cls
    try:
        res = eng.start(fi, selfv=selfv, args=args, state=state)
        big = False
    except (TooBig, RecursionError):
        res, big = [], True
    if rep is not None:
        rep.analysed(*eng.functions_seen, fi.qual)
    return Analysis(eng, fi, res, big)


def fn(module, name):
    return program().func("mqt.qecc." + module, name)


def cls(module, name):
    return program().cls("mqt.qecc." + module, name)


def leafnames(*ts):
    out = set()
    for t in ts:
        if t is None:
            continue
        for x in leaves(t):
            out.add(show(x))
    return out


def all_leafnames(*ts):
    """Leaves including those below opaque attribute reads."""
    return {show(x) for x in all_subterms(ts) if x.op in ("sym", "attr")}


def ops(t):
    return {x.op for x in subterms(t)}


def subclasses(base):
    out = []
    for m in program().modules.values():
        for c in m.classes.values():
            if base in program().mro(c):
                out.append(c)
    return out


def drop_none(paths, *names):
    """Discard the paths on which one of the given attributes is None."""
    out = []
    for p in paths:
        if any(f.op == "is" and f.args[1] is NONE and v and show(f.args[0]) in names for f, v in p.facts.items()):
            continue
        out.append(p)
    return out


def check_value(rep, rule, construct, where, val, specs, need=(), forbid=(), parity=True):
    """Three-valued comparison of a computed value with its specification."""
    nv = norm(val)
    ns = [norm(s) for s in specs]
    if any(nv is s for s in ns):
        rep.ok(rule, construct)
        return True
    if pure(nv):
        rep.bad(rule, construct, where, f"computes {show(nv)} where {show(ns[0])} is required")
        return False
    ls = all_leafnames(val)
    bad = set(forbid) & ls
    if bad:
        rep.bad(rule, construct, where, f"the result depends on {', '.join(sorted(bad))}, which it must not use (required: {show(ns[0])})")
        return False
    miss = set(need) - ls
    if miss:
        rep.bad(rule, construct, where, f"the result does not depend on {', '.join(sorted(miss))} (required: {show(ns[0])})")
        return False
    if parity and not has_parity(val) and not _maybe_parity(val):
        rep.bad(rule, construct, where, f"the result is never reduced modulo 2 (required: {show(ns[0])})")
        return False
    rep.unknown(rule, construct, f"value {show(nv)[:200]} not in normal form")
    return None


def _maybe_parity(t):
    return any(x.op in ("call", "meth", "bitand", "fold", "reduce", "ite", "mut") for x in subterms(t))


def pred_of(an, paths=None):
    """The boolean term a predicate function computes, or None."""
    ps = an.normal if paths is None else paths
    return decision([(p.facts, p.val) for p in ps])


def base_facts(p):
    return p.facts


def path_leaves(an):
    out = set()
    for p in an.paths:
        if p.val is not None:
            out |= all_leafnames(p.val)
        out |= all_leafnames(*p.facts)
    for e in an.events:
        for k in e.pc:
            out |= all_leafnames(k)
        for v in e.d.values():
            if isinstance(v, Term):
                out |= all_leafnames(v)
            elif isinstance(v, (list, tuple)):
                out |= all_leafnames(*[x for x in v if isinstance(x, Term)])
    return out


def calls(evs, *paths):
    for e in evs:
        if e.kind == "call" and e.path in paths:
            yield e


def calls_suffix(evs, *suffixes):
    for e in evs:
        if e.kind == "call" and e.path.split(".")[-1] in suffixes:
            yield e
