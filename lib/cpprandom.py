"""Clocks and random numbers of the C++ library: a clock always shows zero, and a draw is a choice that the caller enumerates."""
from __future__ import annotations

from cpp import Ext, Undecided, rv


class Chooser:
    """The draws of one run: a script of choices, extended by the smallest value."""

    def __init__(self, script=()):
        self.script = list(script)
        self.trace = []

    def choose(self, lo, hi):
        k = len(self.trace)
        v = self.script[k] if k < len(self.script) else lo
        v = min(max(v, lo), hi)
        self.trace.append((v, lo, hi))
        return v


def scripts(trace, script):
    """The scripts that differ from a run in one draw after its own script."""
    out = []
    for k in range(len(script), len(trace)):
        v, lo, hi = trace[k]
        pre = [x for x, _l, _h in trace[:k]]
        out.extend([*pre, w] for w in range(lo, hi + 1) if w != v)
    return out


class Source(Ext):
    cls = "random number generator"

    def method(self, it, name, args):
        if name == "operator()":
            return 0
        if name in ("seed", "discard"):
            return None
        raise Undecided(f"{name} of a random number generator")


class UniformInt(Ext):
    cls = "std::uniform_int_distribution"

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def method(self, it, name, args):
        if name == "operator()":
            if len(args) != 1:
                raise Undecided("distribution parameters")
            if self.lo > self.hi:
                raise Undecided("empty distribution")
            return it.chooser.choose(self.lo, self.hi)
        if name in ("min", "a"):
            return self.lo
        if name in ("max", "b"):
            return self.hi
        raise Undecided(f"{name} of a distribution")


class Bernoulli(Ext):
    cls = "std::bernoulli_distribution"

    def __init__(self, p):
        self.p = p

    def method(self, it, name, args):
        if name == "operator()":
            if self.p <= 0:
                return False
            if self.p >= 1:
                return True
            return bool(it.chooser.choose(0, 1))
        if name == "p":
            return self.p
        raise Undecided(f"{name} of a distribution")


def uniform(it, args):
    v = [rv(a) for a in args]
    if not all(isinstance(x, int) for x in v) or len(v) > 2:
        raise Undecided("distribution parameters")
    lo = v[0] if v else 0
    return UniformInt(lo, v[1] if len(v) == 2 else 2**31 - 1)


def bernoulli(it, args):
    v = [rv(a) for a in args]
    if any(not isinstance(x, (int, float)) for x in v):
        raise Undecided("distribution parameters")
    return Bernoulli(v[0] if v else 0.5)


def install(it, chooser=None):
    it.chooser = chooser or Chooser()
    for t in ("std::random_device", "std::mt19937", "std::mt19937_64", "std::mersenne_twister_engine", "std::minstd_rand", "std::default_random_engine"):
        it.models[t] = lambda i, a: Source()
    it.models["std::uniform_int_distribution"] = uniform
    it.models["std::bernoulli_distribution"] = bernoulli
    it.functions["now"] = lambda i, a, n: 0
    it.functions["duration_cast"] = lambda i, a, n: rv(a[0])
    return it
