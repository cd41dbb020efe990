"""Analog information decoding: conversions, decoders and the three simulators (mqt.qecc.analog_information_decoding)."""
from __future__ import annotations

import math

import ft
import nda
import prep
import pyext
import teval
from common import *
from pyabs import HObj
from teval import Arr, Eval, ShapeError, Unsupported, concat, digest, num, vec
from terms import T, padd, pmod, pmul

AN = "analog_information_decoding."
UT = AN + "utils.simulation_utils"

# helper name -> number of results; the helpers themselves are decided by P13
HELPERS = {
    "error_channel_setup": 3, "get_sigma_from_syndr_er": 1, "get_error_rate_from_sigma": 1, "get_noisy_analog_syndrome": 1, "generate_err": 2, "generate_syndr_err": 1,
    "get_virtual_check_init_vals": 1, "get_binary_from_analog": 1, "get_signed_from_binary": 1, "is_logical_err": 1, "check_logical_err_h": 1, "build_single_stage_pcm": 1,
}


def helper_prims():
    m = program().module("mqt.qecc." + UT)
    out = {}
    for name, k in HELPERS.items():
        fi = m.functions.get(name)
        if fi is None:
            continue

        def h(eng, st, args, kw, node, name=name, fi=fi, k=k):
            d = dict(zip(fi.params, args))
            d.update(kw)
            if set(fi.params) - set(d):
                return None
            v = [snap(eng, st, d[p]) for p in fi.params]
            return [(st, T(name, *v))] if k == 1 else [(st, T("tuple", *[T(name, K(i), *v) for i in range(k)]))]

        out[fi.qual] = h
    return out


def snap(eng, st, v):
    """The value as a term, lists and tuples of references included."""
    v = eng.val(st, v)
    if v.op in ("tuple", "list"):
        return T(v.op, *[snap(eng, st, x) for x in v.args])
    return v


class Decoders:
    """Belief propagation decoders: what decode returns is an opaque function of the matrix, the current channel and the syndrome."""

    NAMES = {"bposd_decoder", "bp_osd_decoder", "BpOsdDecoder", "bp_decoder", "BpDecoder"}

    def attr(self, eng, st, b, name):
        if b.op == "decoder":
            if name in ("channel_probs", "iter", "error_channel"):
                return st.ov.get((b, "#chan" if name != "iter" else "#iter"))
            return st.ov.get((b, name))
        return None

    def index(self, eng, st, b, i):
        return None

    def put(self, st, b, **kw):
        st.ov = dict(st.ov)
        for k, v in kw.items():
            st.ov[(b, "#" + k)] = v

    def call(self, eng, st, path, recv, V, kw, node):
        last = path.split(".")[-1]
        kw = {k: eng.val(st, v) for k, v in kw.items()}
        if recv is None:
            if last in self.NAMES or path.endswith("Matching"):
                eng.uid += 1
                d = T("decoder", K(eng.uid))
                par = dict(zip(("parity_check_matrix", "error_rate", "max_iter"), V)) if last != "Matching" else dict(zip(("parity_check_matrix", "weights"), V))
                par.update(kw)
                pcm = par.pop("parity_check_matrix", par.pop("H", par.pop("graph", NONE)))
                chan = par.pop("channel_probs", par.pop("error_channel", NONE)) if last != "Matching" else T("weights", par.pop("weights", NONE))
                if pcm is NONE and (V or kw):
                    st.exc = T("exc", "TypeError")  # no decoder without a check matrix
                    return T("undef")
                pars = T("pars", K(last), *[T("kw", K(k), v) for k, v in sorted(par.items())])
                self.put(st, d, pcm=pcm, chan=chan, pars=pars, **({} if last == "Matching" else {"iter": K(0)}))
                return d
            return None
        if last == "tolist" and not V and not kw:
            return T("tolist", eng.val(st, recv))
        if recv.op == "decoder":
            if last in ("update_channel_probs", "update_error_channel") and len(V) + len(kw) == 1:
                self.put(st, recv, chan=[*V, *kw.values()][0])
                return NONE
            if last == "decode" and len(V) + len(kw) == 1:
                a = (st.ov[(recv, "#pcm")], st.ov[(recv, "#chan")], st.ov[(recv, "#pars")], [*V, *kw.values()][0])
                self.put(st, recv, iter=T("iter", *a))
                return T("decode", *a)
        return None


# ---------------------------------------------------------------- evaluation


def hvec(name, n, *a):
    return vec(n, name, *a)


def length(x):
    return teval.shape(x)[0]


def f_decode(pcm, chan, pars, s):
    m, n = teval.shape(pcm)
    if not (isinstance(chan, tuple) and chan and chan[0] == "weights") and length(chan) != n:
        raise ShapeError(f"{length(chan)} channel probabilities for {n} columns")
    if teval.shape(s) != (m,):
        raise ShapeError(f"a syndrome of length {teval.shape(s)} for {m} checks")
    return vec(n, "decode", pcm, chan, s)


def f_sspcm(h, m):
    r, c = teval.shape(m)
    if teval.shape(h)[0] != c:
        raise ShapeError("meta checks do not fit the checks")
    i = Arr((c, c), [int(a == b) for a in range(c) for b in range(c)])
    z = Arr((r, teval.shape(h)[1]), [0] * r * teval.shape(h)[1])
    return teval.block([[h, i], [z, m]])


FUNCS = {
    "error_channel_setup": lambda i, rate, bias, n: Arr((int(n),), [num((i, "ecs", rate, bias))] * int(n)),
    "get_sigma_from_syndr_er": lambda r: num(("sigma", r)) if r else 0.0,
    "get_error_rate_from_sigma": lambda s: num(("rate", s)),
    "get_noisy_analog_syndrome": lambda p, s: Arr(teval.shape(p), [(1.3 + x if not b else -1.3 + x) for b, x in zip(p.d, vec(len(p.d), "noise", p, s, kind="real").d)]),
    "generate_err": lambda i, n, ch, res: vec(int(n), "err", i, ch, res),
    "generate_syndr_err": lambda ch: vec(length(ch), "serr", ch),
    "get_virtual_check_init_vals": lambda s, sg: vec(length(s), "virt", s, sg, kind="prob"),
    "get_binary_from_analog": lambda s: teval.zipw(lambda x: int(x <= 0), s),
    "get_signed_from_binary": lambda s: teval.zipw(lambda x: -1 if x else 1, s),
    "is_logical_err": lambda l, r: f_log(l, r),
    "check_logical_err_h": lambda h, a, b: bool(digest("logh", h, teval.zipw(lambda x, y: int(x) ^ int(y), a, b)) & 1) if teval.shape(h)[1] == length(a) == length(b) else shape_error(),
    "build_single_stage_pcm": f_sspcm,
    "decode": f_decode,
    "iter": lambda *a: digest("iter", a[0], a[1], a[3]) % 50,
    "weights": lambda w: ("weights", w),
    "multiround": lambda h, k: multiround(h, int(k)),
    "selfdict": lambda *a: None,
}


def f_log(l, r):
    if teval.shape(l)[1] != length(r):
        raise ShapeError("logical of another width")
    return bool(digest("log", l, r) & 1)


def shape_error():
    raise ShapeError("sizes")


def bits(r, c, *key):
    return Arr((r, c), vec(r * c, "leaf", *key).d)


def compare(got, want, envs):
    """(True/False/None, message): do the two terms agree as functions of their leaves?"""
    if got is want:
        return True, ""
    try:
        for n, env in enumerate(envs):
            e = Ev2(env, FUNCS)
            w = e(want)
            try:
                g = e(got)
            except ShapeError as x:
                return False, f"sizes do not fit: {x}"
            if not teval.same(g, w):
                return False, "differs"
    except Unsupported as x:
        return None, str(x)
    except ShapeError as x:
        return None, f"specification: {x}"
    except RecursionError:
        return None, "deep"
    return True, ""


POSITIVE = {"get_sigma_from_syndr_er", "get_error_rate_from_sigma"}
GIVEN = {Sym(x) for x in ("syn", "asyn", "pcm", "logicals", "h3d", "hx", "hz", "lx", "lz", "mx", "mz", "per", "ser", "sigma", "bias", "bp_params", "pcm", "chan")}


def known(t):
    """Arguments are given (not None), rates and deviations are positive."""
    pos = lambda x: x.op in POSITIVE or x in (Sym("ser"), Sym("sigma"), Sym("per"))
    if t.op == "is" and t.args[1] is NONE and (t.args[0] in GIVEN or t.args[0].op in HELPERS):
        return False
    if t.op == "lt":
        a, b = t.args
        if pos(a) and is_const(b) and cval(b) in (0, 0.0):
            return False
        if pos(b) and is_const(a) and cval(a) in (0, 0.0):
            return True
    if t.op == "eq" and any(pos(a) and is_const(b) and cval(b) == 0 for a, b in (t.args, t.args[::-1])):
        return False
    return None


class Ev2(Eval):
    def t_pars(self, *a):
        return None

    def t_paths(self, *cases):
        for c in cases:
            if all(bool(self(f.args[0])) == cval(f.args[1]) for f in c.args[0].args):
                if c.args[1].op == "raises":
                    raise ShapeError("raises an exception")
                return self(c.args[1])
        raise Unsupported("no path")


def paths(cases):
    """One value for several paths: that of the path whose branch conditions hold (None: the path raises)."""
    return T("paths", *[T("case", T("facts", *[T("fact", t, K(b)) for t, b in s.pc.items()]), v if v is not None else T("raises")) for s, v in cases])


class Obj:
    """A heap object of a class, driven method by method with symbolic arguments."""

    def __init__(self, rep, c, prims=None, model=None, **kw):
        self.rep, self.c = rep, c
        self.eng = Engine(program(), prims={**helper_prims(), **(prims or {})}, model=model or Decoders(), **{"limit": 40, "unroll": 12, **kw})
        self.eng.known = known
        st = State()
        self.states = [st]
        self.obj = self.eng.new(st, HObj("obj", cls=c, fields={}, closed=True))
        self.why, self.raised = "", False

    def call(self, name, args=None, defaults=True):
        from prep import with_defaults

        m = program().find_method(self.c, name)
        self.why, self.raised = "", False
        if m is None:
            self.why = f"no method {name}"
            return None
        args = dict(args or {})
        if set(args) - set(m.params) - {m.node.args.kwarg.arg if m.node.args.kwarg else None}:
            self.why = f"parameters changed: {set(args) - set(m.params)}"
            return None
        res = []
        try:
            for st in self.states:
                res.extend(self.eng.start(m, selfv=self.obj, args=with_defaults(m, args) if defaults else args, state=st.fork() if len(self.states) > 1 else st))
        except (TooBig, RecursionError) as e:
            self.why = f"too large {e}"
            return None
        self.rep.analysed(*self.eng.functions_seen, m.qual)
        for s, _v in res:
            for e in flat_events(trace_list(s.trace)):
                if e.kind == "undef_attr":
                    self.why, self.raised = f"AttributeError: {e.d['cls'].name}.{e.d['name']} is not defined (line {getattr(e.node, 'lineno', 0)})", True
                    return None
                if e.kind == "unbound":
                    self.why, self.raised = f"UnboundLocalError: {e.d['name']} (line {getattr(e.node, 'lineno', 0)})", True
                    return None
        if not res or len(res) > 8:
            self.why = f"{len(res)} paths"
            return None
        if all(s.exc is not None for s, _v in res):
            s = res[0][0]
            self.why = "raises " + str(s.exc.args[0] if s.exc.args else "")
            self.raised = True
            return None
        if len(res) == 1:
            self.states = [res[0][0]]
            return snap(self.eng, *res[0])
        self.states = [s for s, _v in res if s.exc is None]
        return paths([(s, snap(self.eng, s, v) if s.exc is None else None) for s, v in res])

    def field(self, name):
        out = []
        for st in self.states:
            v = st.heap[self.obj.args[0]].fields.get(name)
            if v is None:
                return None
            out.append((st, self.eng.val(st, v)))
        return out[0][1] if len(out) == 1 else paths(out)


def syn(h, e):
    return pmod(T("matmul", h, e), K(2))


def add2(a, b):
    return pmod(padd(a, b), K(2))


def hs(*a):
    return T("hstack", T("list", *a))


def dec(pcm, chan, s, pars=K("*")):
    return T("decode", pcm, chan, pars, s)


def first(v, n):
    return T("index", v, T("slice", NONE, n, NONE))


def rows(h):
    return T("len", h)


def cols(h):
    return T("index", T("shape", h), K(1))


def atg(h):
    return hs(h, T("eye", rows(h)))


def psub(a, b):
    return padd(a, b, -1)


def pneg(a):
    return pmul(K(-1), a)


S = Sym
CODE_ENVS = None


def code_envs(extra=None):
    out = []
    for n, (rx, rz, q, lm) in enumerate([(2, 3, 6, (1, 2)), (4, 3, 7, (2, 2)), (3, 3, 5, (2, 1)), (5, 6, 4, (2, 3)), (4, 4, 4, (2, 2))]):
        env = {S("hx"): bits(rx, q, "hx", n), S("hz"): bits(rz, q, "hz", n), S("lx"): bits(2, q, "lx", n), S("lz"): bits(2, q, "lz", n), S("mx"): bits(lm[0], rx, "mx", n),
               S("mz"): bits(lm[1], rz, "mz", n), S("per"): 0.11 + n / 100, S("ser"): 0.07 + n / 100, S("sigma"): 0.3 + n / 10, S("bias"): (1, 2 + n, 3),
               S("bp_params"): {}, S("m_rows"): rx}
        env.update((extra or (lambda k: {}))(n))
        out.append(env)
    return out


# ---------------------------------------------------------------- P13: conversions and error generation


class Draws:
    """Random draws as given numbers: the i-th number asked for is the i-th of the sequence."""

    KEY = T("draws")

    def __init__(self, u):
        self.u = u

    def attr(self, eng, st, b, name):
        return None

    def index(self, eng, st, b, i):
        return None

    def call(self, eng, st, path, recv, V, kw, node):
        last = path.split(".")[-1]
        if last in ("default_rng", "RandomState", "Generator"):
            return T("rng")
        if recv is not None and recv.op != "rng" or recv is None and not path.startswith("numpy.random."):
            return None
        if last not in ("random", "random_sample", "rand", "uniform") or (last == "uniform" and (V or kw)):
            return None
        size = kw.get("size", V[0] if V else NONE)
        size = eng.val(st, size)
        n = st.ov.get((self.KEY, "#n"), 0)
        if size is NONE or last == "rand" and not V:
            k = 1
        elif is_const(size) and isinstance(cval(size), int):
            k = cval(size)
        else:
            return None
        if n + k > len(self.u):
            raise TooBig("more draws than bits")
        st.ov = dict(st.ov)
        st.ov[(self.KEY, "#n")] = n + k
        return K(self.u[n]) if size is NONE or last == "rand" and not V else ft.M(list(self.u[n:n + k]))


def run_draws(fi, args, u):
    """The values returned when the random numbers are u, or None; and the number of draws."""
    eng = Engine(program(), explicit=True, unroll=20, limit=60, max_steps=40000, model=Draws(u))
    st = State()
    try:
        res = eng.start(fi, args=args(eng, st), state=st)
    except (TooBig, RecursionError):
        return None, 0
    if len(res) != 1 or res[0][0].exc is not None:
        return None, 0
    s, v = res[0]
    v = snap(eng, s, v)
    return v, s.ov.get((Draws.KEY, "#n"), 0)


def pick(an, env, funcs):
    """The value of the path of a symbolic analysis taken under a leaf assignment: (value, why)."""
    for p in an.paths:
        try:
            e = Ev2(env, funcs)
            if not all(bool(e(f)) == bool(b) for f, b in p.facts.items()):
                continue
            if p.exc is not None:
                return None, "raises"
            return e(p.val), ""
        except (Unsupported, ShapeError, ZeroDivisionError, OverflowError) as x:
            return (None, "shape: " + str(x)) if isinstance(x, ShapeError) else (None, str(x))
    return None, "no path"


def close(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and a == 0 and isinstance(b, Arr):  # the term algebra turns 0 * array into 0
        return not any(b.d)
    a, b = teval.toarr(a), teval.toarr(b)
    if isinstance(a, Arr) != isinstance(b, Arr):
        return False
    if isinstance(a, Arr):
        return a.sh == b.sh and all(close(x, y) for x, y in zip(a.d, b.d))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    try:
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
    except TypeError:
        return a == b


def noise(loc=0.0, scale=1.0, size=None):
    """A Gaussian draw: fresh standard deviates, one per entry."""
    sh = size if isinstance(size, tuple) else (size,) if isinstance(size, int) else getattr(teval.toarr(loc), "sh", None) or getattr(teval.toarr(scale), "sh", ())
    z = vec(max(1, math.prod(sh)), "deviate", kind="real")
    z = Arr(sh, z.d) if sh else z.d[0]
    return teval.zipw(lambda l, s, x: l + s * x, loc, scale, z)


class EvN(Ev2):
    def t_rand(self, path, *a):
        last = str(teval.raw(path)).split(".")[-1]
        a = [x for x in a if isinstance(x, Term)]
        kw = {teval.raw(x.args[0]): self(x.args[1]) for x in a if x.op == "kw"}
        v = [x for x in a if x.op not in ("kw", "rand") and not (x.op == "ext")][:-1]
        v = [self(x) for x in v]
        if last == "normal":
            return noise(*v, **kw)
        if last == "standard_normal":
            return noise(0.0, 1.0, *v, **kw)
        raise Unsupported("random draw " + last)


def table(rep, name, params, cases, spec, what, rule="conversion"):
    """The function of simulation_utils, as a term, agrees with spec on every argument row."""
    fi = fn(UT, name)
    if list(fi.params)[:len(params)] != params:
        if set(params) - set(fi.params):
            rep.judge(None, rule, name, fi.where(), "", f"parameters changed: {list(fi.params)}")
            return
    an = analyse(fi, rep=rep, limit=60)
    global Ev2
    for row in cases + near(an, params, cases):
        env = {S(k): v for k, v in zip(params, row)}
        keep, val, why = Ev2, None, ""
        try:
            Ev2 = EvN
            val, why = pick(an, env, {})
        finally:
            Ev2 = keep
        want = spec(*row)
        if val is None:
            ok = False if why == "raises" or why.startswith("shape") else None
        else:
            ok = close(val, want)
        if not ok:  # the terms may not be what the function computes in this case: interpret it on the arguments themselves
            got = direct(fi, params, row)
            if got is not None:
                ok = close(got, want)
                val = got if not ok else val
        rep.judge(ok, rule, f"{name}{tuple(x.d if isinstance(x, Arr) else x for x in row)}", fi.where(), f"{what}: the result is {val if val is not None else why} and not {want}", why)


class Special:
    """erfc, erfcinv and exp of numbers, element by element."""

    FN = {"erfc": math.erfc, "erf": math.erf, "exp": math.exp, "erfcinv": teval.erfcinv, "log": math.log}

    def attr(self, *a):
        return None

    index = attr

    def call(self, eng, st, path, recv, V, kw, node):
        if path == "numpy.clip" and V:
            kw = {k: eng.val(st, v) for k, v in kw.items()}
            lo, hi = (V[1] if len(V) > 1 else kw.get("a_min", kw.get("min", NONE))), (V[2] if len(V) > 2 else kw.get("a_max", kw.get("max", NONE)))
            if not all(is_const(x) and isinstance(cval(x), int | float) for x in (lo, hi)) or V[0].op != "nda" or not all(is_const(x) for x in nda.items(V[0])):
                return None
            return nda.mk(nda.shape(V[0]), [K(min(max(cval(x), cval(lo)), cval(hi))) for x in nda.items(V[0])])
        f = self.FN.get(path.split(".")[-1])
        if f is None or path.split(".")[0] not in ("scipy", "numpy", "math") or len(V) != 1 or kw:
            return None

        def go(v):
            if is_const(v):
                try:
                    return K(f(cval(v)))
                except OverflowError:
                    return K(math.inf)
            if v.op == "nda":
                return nda.mk(nda.shape(v), [go(x) for x in nda.items(v)])
            raise TooBig(path)

        v = eng.val(st, V[0])
        return go(v) if is_const(v) or v.op == "nda" else None


def to_value(eng, st, t):
    """The Python value of an explicit result; NOVALUE when it is not one."""
    t = eng.val(st, t)
    if is_const(t):
        return cval(t)
    if t.op == "nda":
        xs = [to_value(eng, st, x) for x in nda.items(t)]
        return NOVALUE if any(x is NOVALUE for x in xs) else Arr(nda.shape(t), xs)
    if t.op == "nparr":
        return to_value(eng, st, t.args[0])
    if t.op in ("tuple", "list"):
        xs = tuple(to_value(eng, st, x) for x in t.args)
        if any(x is NOVALUE for x in xs):
            return NOVALUE
        if t.op == "list" and xs and all(isinstance(x, int | float) for x in xs):
            return Arr((len(xs),), xs)
        return xs
    if t.op == "weights":
        x = to_value(eng, st, t.args[0])
        return NOVALUE if x is NOVALUE else ("weights", x)
    return NOVALUE


def from_value(v):
    if isinstance(v, Arr):
        return nda.mk(v.sh, [K(x) for x in v.d])
    if isinstance(v, tuple):
        return T("weights", from_value(v[1])) if v and v[0] == "weights" else T("tuple", *[from_value(x) for x in v])
    return K(v)


NOVALUE = object()


class DirectDecoders(Decoders):
    """The decoders of explicit matrices: what they return is the same fixed function of matrix, channel and syndrome as in the terms."""

    def call(self, eng, st, path, recv, V, kw, node):
        r = super().call(eng, st, path, recv, V, kw, node)
        if r is None or r.op not in ("decode", "decoder"):
            return Special.call(SPECIAL, eng, st, path, recv, V, kw, node) if r is None and recv is None else r
        if r.op == "decoder":
            return r
        vs = [to_value(eng, st, x) for x in (r.args[0], r.args[1], r.args[3])]
        if any(v is NOVALUE for v in vs):
            raise TooBig("decoder input not explicit")
        pcm, chan, syn = vs
        self.put(st, recv, iter=K(FUNCS["iter"](pcm, chan, None, syn)))
        try:
            return from_value(f_decode(pcm, chan, None, syn))
        except ShapeError:
            st.exc = T("exc", "ValueError")
            return T("undef")


SPECIAL = Special()


def direct_prims():
    """The helper functions of the simulators as the same fixed functions as in the terms, on explicit arguments."""
    m = program().module("mqt.qecc." + UT)
    out = {}
    for name, k in HELPERS.items():
        fi = m.functions.get(name)
        if fi is None or name not in FUNCS:
            continue

        def h(eng, st, args, kw, node, name=name, fi=fi, k=k):
            d = dict(zip(fi.params, args))
            d.update(kw)
            if set(fi.params) - set(d):
                return None
            v = [to_value(eng, st, d[p]) for p in fi.params]
            if any(x is NOVALUE for x in v):
                raise TooBig(f"{name}: arguments not explicit")
            if k == 1:
                return [(st, from_value(FUNCS[name](*v)))]
            return [(st, T("tuple", *[from_value(FUNCS[name](i, *v)) for i in range(k)]))]

        out[fi.qual] = h
    return out


def window_direct(fi, method, r, tg, last, env):
    """(correction, syndrome, iterations, channel given, decoder channel) of the window interpreted on one instance, "raises" or None."""
    eng = Engine(program(), explicit=True, unroll=80, limit=40, max_steps=400000, prims=direct_prims(), model=DirectDecoders())
    eng.exact = True
    st = State()
    arr = lambda v: eng.new(st, HObj("arr", val=from_value(v), dt="int32" if all(isinstance(x, int) for x in v.d) else "float64"))
    m, n = env[S("pcm")].sh
    cp = env[S("cp")]
    d = T("decoder", K(0))
    w0 = from_value(cp) if method == "bposd" else T("weights", from_value(teval.zipw(lambda x: math.log((1 - x) / x), cp)))
    DirectDecoders().put(st, d, pcm=from_value(env[S("h3d")]), chan=w0, pars=T("pars", K("*")))
    chan = arr(cp)
    args = dict(syndrome=arr(env[S("syn")]), pcm=arr(env[S("pcm")]), decoder=d, channel_probs=chan, repetitions=K(r), analog_syndr=arr(env[S("asyn")]) if tg else NONE, last_round=K(last),
                check_block_size=K(n * r), sigma=K(env[S("sigma")]) if tg else K(0.0), h3d=from_value(env[S("h3d")]) if method == "matching" else NONE, decoding_method=K(method))
    try:
        res = eng.start(fi, args=args, state=st)
    except (TooBig, RecursionError):
        return None
    if len(res) != 1:
        return None
    s, v = res[0]
    if s.exc is not None:
        return "raises" if s.exc.op == "exc" else None
    v = eng.val(s, v)
    if v.op != "tuple" or len(v.args) != 4:
        return None
    out = [to_value(eng, s, x) for x in (v.args[0], v.args[1], v.args[3], chan, s.ov.get((d, "#chan"), NONE))]
    return None if any(x is NOVALUE for x in out) else out


def direct(fi, params, row):
    """The result of the function interpreted on the arguments themselves, or None."""
    eng = Engine(program(), explicit=True, unroll=60, limit=60, max_steps=200000, model=Special())
    eng.exact = True
    st = State()
    args = {k: eng.new(st, HObj("arr", val=nda.mk(v.sh, [K(x) for x in v.d]))) if isinstance(v, Arr) else K(v) for k, v in zip(params, row)}
    try:
        res = eng.start(fi, args=prep.with_defaults(fi, args), state=st)
    except (TooBig, RecursionError):
        return None
    if len(res) != 1 or res[0][0].exc is not None:
        return None
    v = to_value(eng, *res[0])
    return None if v is NOVALUE else v


def near(an, params, cases):
    """Argument rows around the numbers the conditions of the function's paths mention: on them and on either side of each."""
    cs = set()

    def walk(t):
        if isinstance(t, Term):
            if t.op == "const" and isinstance(t.args[0], float | int) and not isinstance(t.args[0], bool) and 1e-9 < abs(t.args[0]) < 1e3:
                cs.add(float(t.args[0]))
            for a in t.args:
                walk(a)

    for p in an.paths:
        for f in p.facts:
            walk(f)
    out = []
    for k in range(len(params)):
        if not all(isinstance(r[k], float) for r in cases) or len(cases) < 2:
            continue
        lo, hi = min(r[k] for r in cases), max(r[k] for r in cases)
        pts = sorted({x for c in list(cs)[:12] for x in (c, c * 0.999, c * 1.001, c / 2, 2 * c) if lo <= x <= hi} - {r[k] for r in cases})
        out += [(*cases[len(cases) // 2][:k], x, *cases[len(cases) // 2][k + 1:]) for x in pts]
    return out


def p13(rep):
    real = Arr((14,), [-2.3, -1.0, -0.5, -0.4, -0.05, -1e-7, 0.0, 1e-7, 0.05, 0.2, 0.5, 1.0, 1.5, 3.1])
    sg = [0.0, 0.01, 0.03, 0.05, 0.08, 0.1, 0.2, 0.35, 0.5, 0.75, 0.99, 1.0, 1.01, 1.5, 2.5, 10.0]
    llr = lambda y, s: teval.zipw(lambda x: 2 * x / s ** 2 if s > 0 else 0.0, y)
    rate = lambda s: 0.5 * math.erfc(1 / math.sqrt(2 * s ** 2)) if s else 0.0
    rates = [0.0, 1e-9, 1e-6, 1e-4, 0.001, 0.005, 0.01, 0.02, 0.03, 0.05, 0.07, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.49, 0.499]
    table(rep, "get_error_rate_from_sigma", ["sigma"], [(s,) for s in sg], rate, "error rate of a Gaussian syndrome of this deviation crossing the threshold")
    table(rep, "get_sigma_from_syndr_er", ["ser"], [(r,) for r in rates], lambda r: 1 / (math.sqrt(2) * teval.erfcinv(2 * r)) if r else 0.0,
          "deviation for which the thresholded syndrome is wrong with this probability (the inverse of get_error_rate_from_sigma)")
    table(rep, "get_analog_llr", ["analog_syndrome", "sigma"], [(real, s) for s in sg], llr, "log-likelihood ratio 2y/sigma^2")
    table(rep, "get_virtual_check_init_vals", ["noisy_syndr", "sigma"], [(real, s) for s in sg], lambda y, s: teval.zipw(lambda l: 1 / (math.exp(min(abs(l), 700.0)) + 1) if s > 0 else 0.0, llr(y, s)),
          "probability 1/(exp|llr|+1) that the thresholded syndrome bit is wrong")
    table(rep, "get_binary_from_analog", ["analog_syndrome"], [(real,)], lambda y: teval.zipw(lambda x: int(x <= 0), y), "1 for a violated check (value <= 0), 0 for a satisfied one")
    table(rep, "get_signed_from_binary", ["binary_syndrome"], [(Arr((4,), [0, 1, 1, 0]),)], lambda y: teval.zipw(lambda x: -1 if x else 1, y), "1 for a satisfied check, -1 for a violated one")
    bitsv = Arr((5,), [0, 1, 1, 0, 0])
    table(rep, "get_noisy_analog_syndrome", ["perfect_syndr", "sigma"], [(bitsv, s) for s in sg], lambda b, s: noise(teval.zipw(lambda x: -1.0 if x else 1.0, b), s, (5,)),
          "+1 (-1) for a satisfied (violated) check plus independent Gaussian noise of deviation sigma")
    inf = math.inf
    biases = [(1, 1, 1), (2, 1, 5), (0, 1, 3), (inf, 1, 1), (1, inf, 1), (1, 1, inf), (inf, 0, 0), (0, 0, inf), (10, 0, 0)]

    def channel(r, b, n):
        p = [r if x == inf else 0.0 for x in b] if inf in b else [r * x / sum(b) for x in b]
        return tuple(Arr((n,), [x] * n) for x in p)

    table(rep, "error_channel_setup", ["error_rate", "xyz_error_bias", "nr_qubits"], [(r, Arr((3,), b), n) for r in (0.0, 0.12, 0.6) for b in biases for n in (1, 4)],
          lambda r, b, n: channel(r, b.d, n), "X, Y and Z probabilities in the ratio of the bias, summing to the error rate (all of it on an infinitely biased type)", rule="error-channel")
    mats = [(bits(3, 5, "h", i), bits(k, 3, "m", i)) for i, k in enumerate((1, 2, 4))] + [(bits(4, 4, "h", 9), bits(2, 4, "m", 9))]
    table(rep, "build_single_stage_pcm", ["pcm", "meta"], mats, f_sspcm, "[[H, 1], [0, M]]", rule="single-stage-matrix")
    table(rep, "is_logical_err", ["logicals", "residual_err"], [(bits(k, 5, "l", i), bits(1, 5, "r", i).rows()[0]) for i, k in enumerate((1, 1, 1, 2, 2, 2, 3, 3))] + [(bits(2, 5, "l", 1), Arr((5,), [0] * 5))],
          lambda l, r: any(x % 2 for x in teval.matmul(l, r).d), "some logical operator anticommutes with the residual error", rule="logical-error")
    logical_h(rep)
    generated(rep)


def logical_h(rep):
    fi = fn(UT, "check_logical_err_h")
    if not {"check_matrix", "original_err", "decoded_estimate"} <= set(fi.params):
        rep.judge(None, "logical-error", "check_logical_err_h", fi.where(), "", "parameters changed")
        return
    n = 0
    for i, (r, c) in enumerate([(2, 4), (3, 4), (3, 5), (2, 3)]):
        h = bits(r, c, "lh", i)
        space = {tuple(sum(h.d[a * c + j] for a in range(r) if m >> a & 1) % 2 for j in range(c)) for m in range(1 << r)}
        for k in range(10):
            e, d = vec(c, "le", i, k).d, vec(c, "ld", i, k).d
            if k % 3 == 0:  # a stabilizer difference
                w = sorted(space)[k % len(space)]
                d = [x ^ y for x, y in zip(e, w)]
            eng = Engine(program(), explicit=True, unroll=20, limit=60, max_steps=40000)
            try:
                res = eng.start(fi, args={"check_matrix": ft.M([x.d for x in h.rows()]), "original_err": ft.M(e), "decoded_estimate": ft.M(d)})
                rep.analysed(*eng.functions_seen)
                v = eng.val(*res[0]) if len(res) == 1 and res[0][0].exc is None else None
                why = "" if v is not None else "raises" if len(res) == 1 else "several paths"
                v = Ev2({}, {})(v) if v is not None else None
            except (TooBig, RecursionError, Unsupported) as x:
                v, why = None, str(x)
            want = tuple(x ^ y for x, y in zip(e, d)) not in space
            n += v is not None
            ok = (False if why == "raises" else None) if v is None else bool(v) == want
            rep.judge(ok, "logical-error", f"check_logical_err_h, matrix {i}, error {k}", fi.where(), f"residual {[x ^ y for x, y in zip(e, d)]} is {'not ' * want}in the row space of {[x.d for x in h.rows()]} but reported "
                      f"{'trivial' if want else 'logical'}", why)
    rep.count("logical error decisions", n, 20)


def generated(rep):
    """Errors per qubit: exactly one draw, X, Y and Z on disjoint sets of it of the right size, added to the residual error."""
    grid = [(k + 0.5) / 20 for k in range(20)]
    fi = fn(UT, "generate_err")
    names = ["nr_qubits", "channel_probs", "residual_err"]
    n = 0
    if set(names) - set(fi.params):
        rep.judge(None, "error-generation", "generate_err", fi.where(), "", "parameters changed")
    else:
        for ci, chans in enumerate(([(0.1, 0.2, 0.3), (0.15, 0.0, 0.25)], [(0.0, 0.5, 0.1), (0.3, 0.3, 0.4)], [(0.4, 0.1, 0.2), (0.25, 0.35, 0.05)])):
            for res in (((0, 0), (0, 0)), ((1, 0), (0, 1)), ((0, 1), (1, 1))):
                for q in range(2):
                    count, why = {}, ""
                    for u in grid:
                        us = [grid[-1] if ci == 0 else 0.45, grid[-1] if ci == 0 else 0.45]
                        us[q] = u
                        v, k = run_draws(fi, lambda eng, st: {"nr_qubits": K(2), "channel_probs": T("tuple", *[pyext.arr(eng, st, ft.M([c[i] for c in chans])) for i in range(3)]),
                                                              "residual_err": eng.new(st, HObj("list", segs=tuple(("item", pyext.arr(eng, st, ft.M(list(r)))) for r in res)))}, us)
                        if v is None or v.op != "tuple" or len(v.args) != 2 or k != 2:
                            why = f"{k} draws, {show(v)[:80] if v is not None else 'undecided'}"
                            break
                        try:
                            x, z = (teval.toarr(Ev3({})(a)).d for a in v.args)
                        except Unsupported as e:
                            why = str(e)
                            break
                        if len(x) != 2 or len(z) != 2:
                            count[("size", len(x), len(z))] = 20
                            continue
                        key = (x[q] ^ res[0][q], z[q] ^ res[1][q])
                        count[key] = count.get(key, 0) + 1
                    if why:
                        rep.judge(None, "error-generation", f"generate_err, qubit {q}, channel {ci}, residual {res}", fi.where(), "", why)
                        continue
                    p = chans[q]
                    want = {(1, 0): p[0] * 20, (1, 1): p[1] * 20, (0, 1): p[2] * 20}
                    want[(0, 0)] = 20 - sum(want.values())
                    n += 1
                    rep.judge({k: round(v) for k, v in want.items() if round(v)} == count, "error-generation", f"generate_err, qubit {q}, channel {ci}, residual {res}", fi.where(),
                              f"with X, Y, Z probabilities {p} the (x, z) parts added to the residual error are drawn in the proportions { {k: v / 20 for k, v in count.items()} }")
    fi = fn(UT, "generate_syndr_err")
    if "channel_probs" in fi.params:
        probs = [0.1, 0.5, 0.0, 0.35]
        for q in range(4):
            got, why = 0, ""
            for u in grid:
                us = [0.99] * 4
                us[q] = u
                v, k = run_draws(fi, lambda eng, st: {"channel_probs": pyext.arr(eng, st, ft.M(probs))}, us)
                try:
                    x = teval.toarr(Ev3({})(v)).d if v is not None and k == 4 else None
                except Unsupported as e:
                    x = None
                if x is None:
                    why = f"{k} draws"
                    break
                got += x[q] if x == [x[q] if i == q else 0 for i in range(4)] else 100
            n += not why
            rep.judge(None if why else got == round(probs[q] * 20), "error-generation", f"generate_syndr_err, check {q}", fi.where(), f"with probability {probs[q]} a syndrome bit flips in {got} of 20 equal parts of the unit interval", why)
    rep.count("error generation tables", n, 10)


class Ev3(Ev2):
    def t_nda(self, sh, *a):
        sh = tuple(cval(x) for x in sh.args) if isinstance(sh, Term) else tuple(sh)
        return Arr(sh, [self(x) for x in a])


# ---------------------------------------------------------------- P14: analog Tanner graph decoder and simulator


def ecs(i, rate, bias, n):
    return T("error_channel_setup", K(i), rate, bias, n)


def p14(rep):
    mod = AN + "simulators.analog_tannergraph_decoding"
    n = 0
    # the graph
    f = fn(mod, "get_analog_pcm")
    an = analyse(f, rep=rep)
    graphs, prims = [bits(a, b, "pcm", a) for a, b in ((2, 5), (3, 4), (4, 3), (1, 1), (1, 4), (5, 2))], {}
    for p in an.normal:
        ok, msg = compare(p.val, atg(S(f.params[0])), [{S(f.params[0]): g} for g in graphs[:3]])
        if ok is None and len(f.params) == 1:  # the form of the result is not recognised: decided on the matrices themselves
            got = [direct(f, f.params, (g,)) for g in graphs]
            want = [Arr((g.sh[0], sum(g.sh)), [x for i in range(g.sh[0]) for x in (*g.d[i * g.sh[1]:(i + 1) * g.sh[1]], *(int(i == j) for j in range(g.sh[0])))]) for g in graphs]
            ok = None if None in got else all(isinstance(a, Arr) and a.sh == b.sh and [float(x) for x in a.d] == [float(x) for x in b.d] for a, b in zip(got, want))
            if ok:
                prims = {f.qual: lambda eng, st, args, kw, node: [(st, atg(eng.val(st, [*args, *kw.values()][0])))]}
        rep.judge(ok, "analog-graph", "get_analog_pcm", an.where, f"the analog Tanner graph is not [H | 1]: {show(p.val)} {msg}", msg)
    c = cls(mod, "AnalogTannergraphDecoder")
    for given in ("sigma", "ser"):
        o = Obj(rep, c, prims=prims)
        args = {"pcm": S("pcm"), "bp_params": S("bp_params"), "error_channel": S("chan"), "sigma": K(0.4) if given == "sigma" else K(0.0), "ser": NONE if given == "sigma" else S("ser")}
        o.call("__init__", args)
        if o.why:
            rep.judge(False if o.raised else None, "analog-decoder", f"constructor, {given} given", fnw(c, "__init__"), f"construction fails: {o.why}", o.why)
            continue
        sg = K(0.4) if given == "sigma" else T("get_sigma_from_syndr_er", S("ser"))
        for k in range(2):
            s = S(f"s{k}")
            out = o.call("decode", {program().find_method(c, "decode").params[1]: s})
            if out is None:
                rep.judge(False if o.raised else None, "analog-decoder", f"decode, {given} given", fnw(c, "decode"), f"decoding fails: {o.why}", o.why)
                break
            want = dec(atg(S("pcm")), hs(S("chan"), T("get_virtual_check_init_vals", s, sg)), T("get_binary_from_analog", s))
            envs = [{S("pcm"): bits(a, b, "pcm", a), S("chan"): vec(b, "chan", a, kind="prob"), S("s0"): vec(a, "s0", a, kind="real"), S("s1"): vec(a, "s1", a, kind="real"),
                     S("ser"): 0.1 * a, S("bp_params"): {}} for a, b in ((2, 5), (3, 4), (3, 3), (4, 3), (5, 2))]
            ok, msg = compare(out, want, envs)
            n += 1
            rep.judge(ok, "analog-decoder", f"decode number {k + 1}, {given} given", fnw(c, "decode"),
                      f"the decoder does not see [H | 1], the channel (data errors, values of the current analog syndrome) and the thresholded syndrome ({msg}): {show(out)[:300]}", msg)
    for sg in (1e-4, 0.02, 0.09, 0.7, 3.0):
        o = Obj(rep, c, prims=prims)
        o.call("__init__", {"pcm": S("pcm"), "bp_params": S("bp_params"), "error_channel": S("chan"), "sigma": K(sg), "ser": NONE})
        rep.judge(False if o.raised else (None if o.why else True), "analog-arguments", f"decoder with sigma {sg}", fnw(c, "__init__"), f"a deviation of {sg} is refused", o.why)
    # inconsistent noise arguments are rejected
    for what, a in (("neither noise parameter", {"sigma": K(0.0), "ser": NONE}), ("both noise parameters", {"sigma": K(0.4), "ser": S("ser")})):
        o = Obj(rep, c, prims=prims)
        o.call("__init__", {"pcm": S("pcm"), "bp_params": S("bp_params"), "error_channel": S("chan"), **a})
        rep.judge(True if o.raised else (None if o.why else False), "analog-arguments", f"decoder with {what}", fnw(c, "__init__"), f"{what} is accepted", o.why)
    c = cls(mod, "AtdSimulator")
    for what, a in (("neither noise parameter", {"sigma": NONE, "syndr_err_rate": NONE}), ("both noise parameters", {"sigma": S("sigma"), "syndr_err_rate": S("ser")})):
        o = Obj(rep, c, prims=prims)
        o.call("__init__", {**ATD, **a})
        rep.judge(True if o.raised else (None if o.why else False), "analog-arguments", f"simulator with {what}", fnw(c, "__init__"), f"{what} is accepted", o.why)
    for given in ("ser", "sigma"):
        o = Obj(rep, c, prims=prims, limit=200)
        o.call("__init__", {**ATD, "sigma": S("sigma") if given == "sigma" else NONE, "syndr_err_rate": S("ser") if given == "ser" else NONE})
        if o.why:
            rep.judge(False if o.raised else None, "analog-simulation", f"constructor, {given} given", fnw(c, "__init__"), f"construction fails: {o.why}", o.why)
            continue
        rate = S("ser") if given == "ser" else T("get_error_rate_from_sigma", S("sigma"))
        h, nn = {"x": S("hz"), "z": S("hx")}, cols(S("hx"))
        ch = [ecs(i, S("per"), S("bias"), nn) for i in range(3)]
        sc = [T("index", ecs(i, rate, S("bias"), K(1)), K(0)) for i in range(3)]
        zero = T("zeros", nn)
        its = {"x": K(0), "z": K(0)}
        for k in range(2):
            out = o.call("single_sample")
            tag = f"sample {k + 1}, {given} given"
            if out is None or out.op not in ("tuple", "paths"):
                rep.judge(False if o.raised else None, "analog-simulation", tag, fnw(c, "single_sample"), f"sampling fails: {o.why}", o.why or show(out)[:80])
                break
            want = []
            for i, side in enumerate("xz"):
                sg = T("get_sigma_from_syndr_er", padd(sc[0 if side == "x" else 2], sc[1]))
                e = T("generate_err", K(i), nn, T("tuple", *ch), T("list", zero, zero))
                a = T("get_noisy_analog_syndrome", syn(h[side], e), sg)
                d = (atg(h[side]), hs(padd(ch[0 if side == "x" else 2], ch[1]), T("get_virtual_check_init_vals", a, sg)), K("*"), T("get_binary_from_analog", a))
                r = add2(e, first(T("decode", *d), nn))
                want.append(T("not", T("is_logical_err", S("lz" if side == "x" else "lx"), r)))
                its[side] = padd(its[side], T("iter", *d))
            ok, msg = compare(out, T("tuple", *want), code_envs())
            n += 1
            rep.judge(ok, "analog-simulation", tag, fnw(c, "single_sample"),
                      f"the success flags are not those of: X errors checked by Hz and Lz with the X noise, Z errors by Hx and Lx with the Z noise ({msg}): {show(out)[:300]}", msg)
            for side in "xz":
                v = o.field(f"{side}_bp_iterations")
                if v is not None:
                    ok, msg = compare(v, its[side], code_envs())
                    rep.judge(ok, "analog-iterations", f"{tag}: {side}", fnw(c, "single_sample"), f"{side}_bp_iterations does not sum the iterations of that side's decoder: {show(v)[:200]}", msg)
    rep.count("analog decoding rounds", n, 6)


def fnw(c, name):
    m = program().find_method(c, name)
    if m is None:
        raise AnalysisBroken(f"{c.qual}.{name} not found")
    return m.where()


ATD = {"hx": S("hx"), "lx": S("lx"), "hz": S("hz"), "lz": S("lz"), "codename": S("codename"), "seed": S("seed"), "bp_params": S("bp_params"), "data_err_rate": S("per"),
       "code_params": S("code_params"), "bias": S("bias"), "decoding_method": K("atd"), "output_path": S("out")}


# ---------------------------------------------------------------- P15: single shot simulation


def p15(rep):
    c = cls(AN + "simulators.simulation", "SingleShotSimulator")
    where = fnw(c, "_single_sample") if program().find_method(c, "_single_sample") else fnw(c, "run")
    n = 0
    for single in (True, False):
        for xm, zm in ((True, True), (True, False), (False, True), (False, False)):
            for tg in (True, False):
                for logicals in (True, False) if xm and not zm else (True,):
                    for ser in (True, False):
                        for depth in (0, 1, 2) if ser and logicals and xm == zm else (1,):
                            n += single_shot(rep, c, where, single, xm, zm, tg, logicals, ser, depth)
    for xm, zm in ((True, True), (True, False), (False, False)):
        for depth in (1, 2):
            n += single_shot(rep, c, where, True, xm, zm, False, True, True, depth, info=True)
    o = shot_object(rep, c, True, True, True, True, True, True, 1, analog_info=True)
    rep.judge(True if o.raised else (None if o.why else False), "single-shot-arguments", "analog_tg and analog_info", where, "both analog decoding methods at once are accepted", o.why)
    rep.count("single shot configurations", n, 30)


def shot_object(rep, c, single, xm, zm, tg, logicals, ser, depth, analog_info=False):
    cp = program().module("mqt.qecc." + AN + "utils.data_utils").functions.get("create_outpath")
    o = Obj(rep, c, limit=200, prims={cp.qual: lambda eng, st, args, kw, node: [(st, Sym("out"))]} if cp else {})
    o.call("__init__", {"codename": S("codename"), "per": S("per"), "ser": S("ser") if ser else K(0.0), "single_stage": K(single), "seed": S("seed"), "bias": S("bias"), "x_meta": K(xm),
                        "z_meta": K(zm), "sus_th_depth": K(depth), "bp_params": S("bp_params"), "code_params": S("code_params"), "hx": S("hx"), "hz": S("hz"),
                        "mx": S("mx") if xm else NONE, "mz": S("mz") if zm else NONE, "lz": S("lz") if logicals else NONE, "lx": S("lx") if logicals else NONE,
                        "analog_info": K(analog_info), "cutoff": K(0), "analog_tg": K(tg)})
    return o


def single_shot(rep, c, where, single, xm, zm, tg, logicals, ser, depth, info=False):
    tag = (f"{'single' if single else 'two'} stage, meta checks {'x' * xm + 'z' * zm or 'none'}, {'analog' if tg else 'soft' if info else 'hard'} syndrome, {'with' if logicals else 'without'} logicals, "
           f"{'noisy' if ser else 'perfect'} syndrome, {depth} rounds")
    o = shot_object(rep, c, single, xm, zm, tg, logicals, ser, depth, analog_info=info)
    out = None
    if not o.why:
        out = o.call("_single_sample")
    if out is None or out.op not in ("tuple", "paths"):
        rep.judge(False if o.raised else None, "single-shot", tag, where, f"no sample can be taken: {o.why}", o.why)
        return 0
    want = T("tuple", *[shot_spec(side, single, {"x": zm, "z": xm}[side], tg, logicals, ser, depth, xm, zm, info) for side in "xz"])
    ok, msg = compare(out, want, code_envs())
    rep.judge(ok, "single-shot", tag, where, "the reported logical errors are not those of the documented procedure: X errors are checked by Hz, repaired with Mz and the X syndrome noise, "
              f"decoded with the X bit-flip channel and tested against the Z logicals (Z accordingly); {msg}: {show(out)[:200]}", msg)
    return 1


_spec = {}


def shot_spec(side, single, meta, tg, logicals, ser, depth, xm, zm, info=False):
    nn = cols(S("hx"))
    rate = S("ser") if ser else K(0.0)
    H = {"x": S("hz"), "z": S("hx")}
    M = {"x": S("mz"), "z": S("mx")}
    HAS = {"x": zm, "z": xm}
    ch = [ecs(i, S("per"), S("bias"), nn) for i in range(3)]
    data = {"x": padd(ch[0], ch[1]), "z": padd(ch[2], ch[1])}
    sc = {s: padd(ecs(0 if s == "x" else 2, rate, S("bias"), rows(H[s])), ecs(1, rate, S("bias"), rows(H[s]))) for s in "xz"}
    sg = {s: T("get_sigma_from_syndr_er", T("index", sc[s], K(0))) for s in "xz"}
    zero = T("zeros", nn)
    res = {"x": zero, "z": zero}
    star = K("*")
    for rnd in range(depth + 1):
        e = {s: T("generate_err", K(i), nn, T("tuple", *ch), T("list", res["x"], res["z"])) for i, s in enumerate("xz")}
        new = {}
        for s in "xz":
            h, m = H[s], M[s]
            sy = syn(h, e[s])
            if rnd == depth:
                d = dec(h, data[s], sy)
            else:
                if tg:
                    a = T("get_noisy_analog_syndrome", sy, sg[s])
                    b = T("get_binary_from_analog", a)
                    v = T("get_virtual_check_init_vals", a, sg[s])
                elif info:
                    a = T("get_noisy_analog_syndrome", sy, sg[s])
                    d = dec(h, data[s], a)
                    if HAS[s]:
                        signed = T("get_signed_from_binary", syn(m, T("get_binary_from_analog", a)))
                        d = first(dec(T("build_single_stage_pcm", h, m), hs(data[s], sc[s]), hs(a, signed)), nn)
                    new[s] = (e[s], d)
                    continue
                else:
                    b = add2(sy, T("generate_syndr_err", sc[s])) if ser else sy
                if single and HAS[s]:
                    ss = T("build_single_stage_pcm", h, m)
                    d = first(dec(ss, hs(data[s], v if tg else sc[s]), hs(b, syn(m, b))), nn)
                else:
                    if HAS[s]:
                        b = add2(b, dec(m, sc[s], syn(m, b)))
                    d = first(dec(atg(h), hs(data[s], v), b), nn) if tg else dec(h, data[s], b)
            new[s] = (e[s], d)
        res = {s: add2(*new[s]) for s in "xz"}
    L = {"x": S("lz"), "z": S("lx")}
    own = {"x": S("hx"), "z": S("hz")}
    return T("is_logical_err", L[side], res[side]) if logicals else T("check_logical_err_h", own[side], *new[side])


# ---------------------------------------------------------------- P16: quasi single shot


MEM = AN + "simulators.memory_experiment_v2"
ALL = T("slice", NONE, NONE, NONE)


def sl(a, b):
    return T("slice", a if isinstance(a, Term) else K(a), b if isinstance(b, Term) else K(b), NONE)


def at(m, i, j):
    return T("index", m, T("tuple", i, j))


def up(m, i, j, v):
    return T("upd", m, T("tuple", i, j), v)


def cumulative(d, pcm, r):
    """Data error accumulated up to each round, one column per round."""
    n = cols(pcm)
    sp = T("T", T("reshape", first(d, pmul(n, K(r))), T("tuple", K(r), n)))
    return pmod(T("call", "numpy.cumsum", sp, K(1)), K(2))


def window_spec(side, syn, asyn, chan, r, last, h3d, pcm, sigma, method):
    """(correction, syndrome, iterations) of decoding one window."""
    diff = up(syn, ALL, sl(1, NONE), pmod(psub(at(syn, ALL, sl(1, NONE)), at(syn, ALL, sl(NONE, -1))), K(2)))
    n, m = cols(pcm), rows(pcm)
    cbs = pmul(n, K(r))
    c = chan
    if asyn is not None:
        c = hs(first(c, cbs), T("get_virtual_check_init_vals", T("flat", T("T", asyn)), sigma))
    if last:
        c = T("upd", c, T("slice", pneg(m), NONE, NONE), K(1e-15))
    if method == "matching":
        w = T("num", "numpy.log", T("div", psub(K(1), c), c))
        c = T("weights", w if asyn is None and not last else T("call", "numpy.clip", w, T("kw", K("a_min"), K(-16777215)), T("kw", K("a_max"), K(16777215))))
    d = T("decode", h3d, c, K("*"), T("flat", T("T", diff)))
    it = T("iter", h3d, c, K("*"), T("flat", T("T", diff))) if method == "bposd" else K(0)
    cum = cumulative(d, pcm, r)
    if last:
        return at(cum, ALL, K(r - 1)), syn, it
    h = r // 2
    corr = at(cum, ALL, K(h - 1))
    tm = T("T", T("reshape", T("index", d, T("slice", cbs, NONE, NONE)), T("tuple", K(r), m)))
    out = up(syn, ALL, sl(h, NONE), pmod(padd(at(syn, ALL, sl(h, NONE)), T("index", T("matmul", pcm, corr), T("tuple", ALL, NONE))), K(2)))
    out = up(out, ALL, K(h), pmod(padd(at(out, ALL, K(h)), at(tm, ALL, K(h - 1))), K(2)))
    return corr, out, it


def window_envs(r):
    envs = []
    for i, (m, n) in enumerate(((2, 3), (3, 4), (3, 3), (4, 3))):
        pcm = bits(m, n, "wp", i)
        envs.append({S("pcm"): pcm, S("h3d"): multiround(pcm, r - 1), S("syn"): bits(m, r, "ws", i), S("asyn"): Arr((m, r), vec(m * r, "wa", i, kind="real").d),
                     S("cp"): vec(r * (n + m), "wc", i, kind="prob"), S("chan0"): vec(r * (n + m), "w0", i, kind="prob"), S("cbs"): r * n, S("sigma"): 0.4 + i / 10, S("pars"): None})
    return envs


def multiround(h, reps):
    e = Ev2({}, {})
    m, r = h.sh[0], reps + 1
    d = e.c_block_diag([h] * r)
    i = teval.zipw(lambda a, b: a + b, e.c_eye(m * r), e.c_eye(m * r, k=-m))
    return concat([d, i], 1)


def p16(rep):
    fi = fn(MEM, "build_multiround_pcm")
    for reps in (0, 1, 2, 3, 5):
        an = analyse(fi, args={fi.params[0]: S("pcm"), fi.params[1]: K(reps), "matrix_format": K("csr")} if len(fi.params) > 2 else {fi.params[0]: S("pcm"), fi.params[1]: K(reps)}, rep=rep, limit=20)
        for i, (r, c) in enumerate(((2, 3), (3, 5), (1, 2))):
            env = {S("pcm"): bits(r, c, "mr", i)}
            got, why = pick(an, env, {})
            want = multiround(env[S("pcm")], reps)
            rep.judge((False if why.startswith(("raises", "shape")) else None) if got is None else teval.same(got, want), "multiround-matrix", f"{reps + 1} rounds, {r}x{c} checks", an.where,
                      f"not [diag(H) | staircase]: {got}", why)
    fi = fn(MEM, "move_syndrome")
    an = analyse(fi, rep=rep, limit=20)
    for r in (2, 4, 6):
        m = bits(3, r, "mv", r)
        got, why = pick(an, {S(fi.params[0]): m}, {})
        want = Arr((3, r), [m.d[i * r + j + r // 2] if j < r // 2 else 0 for i in range(3) for j in range(r)])
        rep.judge((False if why.startswith(("raises", "shape")) else None) if got is None else teval.same(got, want), "window-shift", f"window of {r} rounds", an.where, f"the tentative half does not become the commit half: {got}", why)
    n = 0
    fi = fn(MEM, "decode_multiround")
    for method in ("bposd", "matching"):
        for r in (2, 4, 6):
            for tg in (True, False):
                for last in (False, True):
                    n += window(rep, fi, method, r, tg, last)
    rep.count("window decodings", n, 12)
    c = cls(AN + "simulators.quasi_single_shot_v2", "QssSimulator")
    k = 0
    for method in ("bposd", "matching"):
        for side in "XZ":
            for r, rounds in ((2, 2), (2, 3), (4, 4), (4, 6), (4, 8)):
                for tg in (True, False):
                    k += quasi(rep, c, method, side, r, rounds, tg)
    rep.count("quasi single shot configurations", k, 12)
    for what, a in (("an odd number of repetitions", {"repetitions": K(3)}), ("an unknown decoding method", {"decoding_method": K("nn")})):
        o = quasi_object(rep, c, "bposd", "X", 2, 2, True, a)
        rep.judge(True if o.raised else (None if o.why else False), "quasi-arguments", what, fnw(c, "__init__"), f"{what} is accepted", o.why)


def window(rep, fi, method, r, tg, last):
    tag = f"{method}, {r} rounds, {'analog' if tg else 'hard'} syndrome, {'last' if last else 'inner'} window"
    eng = Engine(program(), prims=helper_prims(), model=Decoders(), limit=60, unroll=12)
    eng.known = known
    st = State()
    d = T("decoder", K(0))
    # the decoder was built for the channel probabilities it is called with
    w0 = S("cp") if method == "bposd" else T("weights", T("num", "numpy.log", T("div", psub(K(1), S("cp")), S("cp"))))
    Decoders().put(st, d, pcm=S("h3d"), chan=w0, pars=T("pars", K("*")))
    args = dict(syndrome=pyext.arr(eng, st, S("syn")), pcm=S("pcm"), decoder=d, channel_probs=pyext.arr(eng, st, S("cp")), repetitions=K(r), analog_syndr=S("asyn") if tg else NONE, last_round=K(last),
                check_block_size=pmul(cols(S("pcm")), K(r)), sigma=S("sigma") if tg else K(0.0), h3d=S("h3d") if method == "matching" else NONE, decoding_method=K(method))
    if set(args) - set(fi.params):
        rep.judge(None, "window", tag, fi.where(), "", "parameters changed")
        return 0
    spec = window_spec("", S("syn"), S("asyn") if tg else None, S("cp"), r, last, S("h3d"), S("pcm"), S("sigma"), method)
    envs = window_envs(r)
    say = f"the %s of the window differs from the overlapping-window procedure (%s): %s"
    try:
        res = eng.start(fi, args=args, state=st)
        why = f"{len(res)} paths"
    except (TooBig, RecursionError) as e:
        res, why = [], str(e)
    rep.analysed(*eng.functions_seen, fi.qual)
    v = snap(eng, *res[0]) if len(res) == 1 and res[0][0].exc is None else None
    verdicts = None
    if v is not None and v.op == "tuple" and len(v.args) == 4:
        s = res[0][0]
        verdicts = [compare(got, want, envs) for got, want in zip((v.args[0], v.args[1], v.args[3]), spec)]
    if verdicts is None or not all(ok for ok, _m in verdicts):
        # The terms are not comparable, or one differs: interpret the function on the instances themselves.
        outs = [window_direct(fi, method, r, tg, last, env) for env in envs]
        if all(o is not None for o in outs):
            want = [[Ev2(env, FUNCS)(w) for w in spec] for env in envs]
            bad = [[o == "raises" or not teval.same(o[k], w[k]) for o, w in zip(outs, want)] for k in range(3)]
            for k, what in enumerate(("correction", "syndrome passed on", "iterations")):
                rep.judge(not any(bad[k]), "window", f"{tag}: {what}", fi.where(), say % (what, "on an instance", "raises" if "raises" in outs else str(outs[bad[k].index(True)][k]) if any(bad[k]) else ""), "")
            if "raises" not in outs:
                if method == "bposd" and not tg:
                    rep.judge(all(teval.same(o[4], env[S("cp")]) for o, env in zip(outs, envs)), "window-decoder-state", f"{tag}: decoder afterwards", fi.where(), "the decoder keeps the channel of the perfect last round for the windows decoded after it", "")
                rep.judge(all(teval.same(o[3], env[S("cp")]) for o, env in zip(outs, envs)), "window-decoder-state", f"{tag}: given channel afterwards", fi.where(), "the caller's channel probabilities are modified", "")
            return 1
        if verdicts is None:
            bad = len(res) == 1 and res[0][0].exc is not None
            rep.judge(False if bad else None, "window", tag, fi.where(), f"decoding raises {show(res[0][0].exc)[:80] if bad else ''}", why)
            return 0
    for what, (ok, msg), got in zip(("correction", "syndrome passed on", "iterations"), verdicts, v.args):
        rep.judge(ok, "window", f"{tag}: {what}", fi.where(), f"the {what} of the window differs from the overlapping-window procedure ({msg}): {show(got)[:250]}", msg)
    # the decoder is ready for the next window
    if method == "bposd" and not tg:
        ok, msg = compare(s.ov.get((d, "#chan"), NONE), S("cp"), envs)
        rep.judge(ok, "window-decoder-state", f"{tag}: decoder afterwards", fi.where(), "the decoder keeps the channel of the perfect last round for the windows decoded after it", msg)
    ok, msg = compare(eng.val(s, args["channel_probs"]), S("cp"), envs)
    rep.judge(ok, "window-decoder-state", f"{tag}: given channel afterwards", fi.where(), "the caller's channel probabilities are modified", msg)
    return 1


def quasi_object(rep, c, method, side, r, rounds, tg, extra=None):
    b = program().module("mqt.qecc." + MEM).functions.get("build_multiround_pcm")
    prim = lambda eng, st, args, kw, node: [(st, T("multiround", *[snap(eng, st, x) for x in (*args, *kw.values())][:2]))]
    o = Obj(rep, c, limit=300, unroll=16, prims={b.qual: prim})
    o.call("__init__", {"pcm": S("pcm"), "per": S("per"), "ser": S("ser"), "logicals": S("logicals"), "bias": S("bias"), "codename": S("codename"), "bp_params": S("bp_params"), "code_params": S("code_params"),
                        "decoding_method": K(method), "check_side": K(side), "seed": S("seed"), "analog_tg": K(tg), "repetitions": K(r), "rounds": K(rounds), "experiment": K("qss"), "outpath": S("out"), **(extra or {})})
    return o


def quasi(rep, c, method, side, r, rounds, tg):
    tag = f"{method}, {side} checks, windows of {r}, {rounds} rounds, {'analog' if tg else 'hard'} syndrome"
    where = fnw(c, "_single_sample") if program().find_method(c, "_single_sample") else fnw(c, "run")
    o = quasi_object(rep, c, method, side, r, rounds, tg)
    pcm, n, m = S("pcm"), cols(S("pcm")), rows(S("pcm"))
    ch = [ecs(i, S("per"), S("bias"), n) for i in range(3)]
    sc = [ecs(i, S("ser"), S("bias"), m) for i in range(3)]
    k = 2 if side == "X" else 0
    dch, sch = padd(ch[k], ch[1]), padd(sc[k], sc[1])
    chan = hs(T("repeat", dch, K(r)), T("repeat", sch, K(r)))
    sigma = T("get_sigma_from_syndr_er", T("index", sch, K(0))) if tg else K(0.0)
    h3d = T("multiround", pcm, K(r - 1))
    envs = []
    for i, (a, b) in enumerate(((2, 3), (3, 4))):
        envs.append({S("pcm"): bits(a, b, "q", i), S("logicals"): bits(2, b, "ql", i), S("per"): 0.11, S("ser"): 0.07, S("bias"): (1, 2, 3), S("bp_params"): {}, S("code_params"): {}})
    for sample in range(2):
        out = None
        if not o.why:
            out = o.call("_single_sample")
        if out is None:
            rep.judge(False if o.raised else None, "quasi-single-shot", tag, where, f"no sample can be taken: {o.why}", o.why)
            return 0
        z = T("zeros", T("tuple", m, K(r)))
        syn_, asyn, err = z, z if tg else None, T("zeros", n)
        cnt = 0
        for rnd in range(rounds):
            lastr = rnd == rounds - 1
            err = T("generate_err", K(1 if side == "X" else 0), n, T("tuple", *ch), T("list", err, err))
            s0 = syn(pcm, err)
            if tg:
                a = T("get_noisy_analog_syndrome", s0, K(0.0) if lastr else sigma)
                s1 = s0 if lastr else T("get_binary_from_analog", a)
                asyn = up(asyn, ALL, K(cnt), a)
            else:
                s1 = s0 if lastr else add2(s0, T("generate_syndr_err", sch))
            syn_ = up(syn_, ALL, K(cnt), s1)
            cnt += 1
            if cnt == r:
                corr, syn_, _it = window_spec(side, syn_, asyn, chan, r, lastr, h3d, pcm, sigma, method)
                err = add2(err, corr)
                if not lastr:
                    cnt = r // 2
                    syn_ = up(z, ALL, sl(NONE, r // 2), at(syn_, ALL, sl(r // 2, NONE)))
                    asyn = up(z, ALL, sl(NONE, r // 2), at(asyn, ALL, sl(r // 2, NONE))) if tg else None
        want = T("not", T("is_logical_err", S("logicals"), err))
        ok, msg = compare(out, want, envs)
        rep.judge(ok, "quasi-single-shot", f"{tag}, sample {sample + 1}", where, f"the reported success is not that of the overlapping-window procedure ({msg}): {show(out)[:200]}", msg)
    return 1
