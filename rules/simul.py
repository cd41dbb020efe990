"""P28: the C++ simulators of decoding: sampled errors, word error rates, decoding times, and the files they write."""
from __future__ import annotations

import json

import cpp
import cpprandom
import uf
from cpp import Cell, CppThrow, Enum, Ext, Map, Obj, Ptr, Stream, Undecided, Vec, rv
from pymodel import AnalysisBroken
from uf import CSS, inside, mat, out, ones, reduce, vec

JOBS = [*uf.GF2JOBS, ("src/DecodingSimulator.cpp", ["DecodingSimulator", "DecodingRunInformation", "Decod", "generateOutFileName", "QeccException"])]


class OutFile(Stream):
    """A file being written: the text goes to a table of files."""

    def __init__(self, files, path=None):
        super().__init__("")
        self.files, self.path = files, None
        if path is not None:
            self.open(path)

    def open(self, path):
        self.path = path
        self.files[path] = ""

    def write(self, s):
        if self.path is not None:
            self.files[self.path] += s


class Json(Ext):
    cls = "nlohmann::basic_json"

    def __init__(self, v):
        self.v = v

    def method(self, it, name, args):
        if name == "dump":
            a = [rv(x) for x in args]
            return json.dumps(self.v, indent=a[0] if a and a[0] > 0 else None)
        if name.startswith("operator basic") or name in ("moved_or_copied",):
            return self
        if name == "operator=" and len(args) == 1:
            self.v = plain(args[0])
            return self
        if name == "push_back" and len(args) == 1:
            self.v = [*(self.v or []), plain(args[0])]
            return None
        raise Undecided(f"json::{name}")


def plain(x):
    x = rv(x)
    if isinstance(x, Json):
        return x.v
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else None
    if isinstance(x, Enum):
        return x.n.split("::")[-1].lower()
    if isinstance(x, Vec):
        return [plain(c) for c in x.c]
    if isinstance(x, Map):
        return {plain(k): plain(v) for k, v in pairs(x)}
    raise Undecided(f"json of {type(x).__name__}")


def pairs(m):
    for e in cpp.elements(m):
        p = rv(e)
        if not isinstance(p, Obj) or set(p.f) != {"first", "second"}:
            raise Undecided("json of a map")
        yield p.f["first"], p.f["second"]


def construct_json(it, args):
    v = [rv(a) for a in args]
    if not v:
        return Json(None)
    if isinstance(v[0], Vec) and (v[0].elem or "").find("json_ref") >= 0:
        xs = [plain(c) for c in v[0].c]
        if xs and all(isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) for x in xs):
            return Json(dict((a, b) for a, b in xs))
        return Json(xs)
    return Json(plain(v[0]))


class Entry(Ext):
    cls = "std::filesystem::directory_entry"

    def __init__(self, path):
        self.path = path

    def method(self, it, name, args):
        if name == "path" and not args:
            return self
        if name in ("string", "generic_string", "c_str", "native", "operator string_type", "operator std::string"):
            return self.path
        if name in ("is_regular_file",):
            return True
        if name in ("is_directory",):
            return False
        raise Undecided(f"directory entry::{name}")


class TooMany(Exception):
    """More decodings than samples were asked for."""


class Stub(Ext):
    """A decoder with prepared answers."""

    def __init__(self, cls, log, answers, it):
        self.cls, self.log, self.answers, self.it = cls, log, answers, it
        self.code = None
        self.r = Cell(it.construct("DecodingResult", []))

    def method(self, it, name, args):
        if name == "setCode":
            self.code = rv(args[0])
            self.code = self.code.to if isinstance(self.code, Ptr) else self.code
            return None
        if name == "getCode":
            return Ptr(self.code)
        if name in ("reset", "setGrowth"):
            return None
        if name == "decode":
            k = len(self.log)
            if k >= len(self.answers):
                raise TooMany(f"decoding number {k + 1} of {len(self.answers)} requested")
            est, time = self.answers[k]
            self.log.append((self.cls, out(rv(args[0])), self.code))
            r = it.construct("DecodingResult", [])
            r.f["estimBoolVector"].v = vec(est)
            r.f["estimNodeIdxVector"].v = Vec([Cell(i) for i in ones(est)], "std::size_t")
            r.f["decodingTime"].v = time
            self.r.v = r
            return None
        raise Undecided(f"decoder::{name}")

    def field(self, name):
        if name == "result":
            return self.r
        raise Undecided(f"decoder.{name}")


class Drawn(cpprandom.Bernoulli):
    def __init__(self, p, log):
        super().__init__(p)
        self.log = log

    def method(self, it, name, args):
        if name == "operator()":
            self.log.append(self.p)
        return super().method(it, name, args)


class Sim(uf.Gf2):
    def __init__(self, rep):
        super().__init__(rep, JOBS, ["DecodingSimulator", "DecodingRunInformation", "DecodingResult", "Code", "Utils"])
        for m in ("simulateWER", "simulateAverageRuntime"):
            self.method("DecodingSimulator", m)
        self.types = next((v for k, v in self.p.enums.items() if k.split("::")[-1] == "DecoderType"), None)
        if self.types is None:
            raise AnalysisBroken("enum DecoderType not found")
        self.method("Utils", "sampleErrorIidPauliNoise", 2)

    def attempt(self, f):
        try:
            return super().attempt(f)
        except TooMany as e:
            return "throw", str(e)

    def kind(self, name):
        t = next(k for k in self.p.enums if k.split("::")[-1] == "DecoderType")
        if name not in self.types:
            raise AnalysisBroken(f"decoder type {name} not found")
        return Enum(t, name, self.types[name])

    def world(self, bits, answers, tree=None):
        """An interpreter, the files written, the decodings and the probabilities of the draws."""
        ch = cpprandom.Chooser(bits)
        it = self.interp(ch, 3_000_000)
        files, log, drawn = {}, [], []
        for t in ("std::ofstream", "std::basic_ofstream", "std::basic_ofstream<char>"):
            it.models[t] = lambda i, a: OutFile(files, *([rv(a[0])] if a else []))
        it.functions["time"] = lambda i, a, n: 0
        it.functions["localtime"] = lambda i, a, n: Ptr(Cell(0))
        it.functions["put_time"] = lambda i, a, n: "01-02-2003"
        for t in ("tm", "std::tm"):
            it.models[t] = lambda i, a: 0
        for t in ("nlohmann::basic_json", "nlohmann::json", "json", "basic_json"):
            it.models[t] = construct_json
        for t in ("nlohmann::detail::json_ref", "json_ref"):
            it.models[t] = construct_json
        for c in ("UFDecoder", "UFHeuristic"):
            it.models[c] = lambda i, a, c=c: Stub(c, log, answers, i)
        it.models["std::bernoulli_distribution"] = lambda i, a: Drawn(rv(a[0]) if a else 0.5, drawn)
        it.files = tree or {}

        def listing(i, a):
            d = str(rv(a[0])).rstrip("/")
            return Vec([Cell(Entry(p)) for p in sorted(it.files) if p.rsplit("/", 1)[0] == d], "std::filesystem::directory_entry")

        for t in ("std::filesystem::path", "path"):
            it.models[t] = lambda i, a: rv(a[0]) if a else ""
        for t in ("std::filesystem::directory_iterator", "directory_iterator"):
            it.models[t] = listing
        return it, files, log, drawn


def judge(g, rep, rule, construct, cls, name, cases):
    """cases: (what, got, check)"""
    wrong, unknown, first = 0, 0, ""
    for what, got, check in cases:
        if got is None:
            unknown += 1
            continue
        try:
            msg = check(got[1]) if got[0] == "value" else f"raises {got[1]}"
        except Undecided:
            unknown += 1
            continue
        if msg:
            wrong += 1
            first = first or f"{what}: {msg}"
    w = g.where(cls, name)
    if wrong:
        rep.judge(False, rule, construct, w, f"{first} ({wrong} of {len(cases)})", None)
    else:
        rep.judge(None if unknown else True, rule, construct, w, f"{unknown} of {len(cases)} undecided" if unknown else "", f"{len(cases)} cases")
    return len(cases)


def sampling(g, rep):
    cases = []
    for n in (0, 1, 2, 5, 9):
        for p in (0.25, 0.75, 0.001, 0.0, 1.0):
            for bits in ([0] * n, [1] * n, [k % 2 for k in range(n)], [int(k == n - 1) for k in range(n)]):
                def run(n=n, p=p, bits=bits):
                    it, _f, _l, drawn = g.world(bits, [])
                    return out(g.static(it, "Utils", "sampleErrorIidPauliNoise", [n, p])), list(drawn), len(it.chooser.trace)

                def check(r, n=n, p=p, bits=bits):
                    v, drawn, used = r
                    want = bits if 0 < p < 1 else [int(p >= 1)] * n
                    if len(v) != n:
                        return f"{len(v)} bits"
                    if not drawn and n and 0 < p < 1:
                        raise Undecided("another way of sampling")
                    if any(d != p for d in drawn):
                        return f"drawn with the probabilities {sorted(set(drawn))}"
                    return None if v == want else f"{v} instead of the draws {want}"

                cases.append((f"{n} bits with probability {p}, draws {bits}", g.attempt(run), check))
    k = judge(g, rep, "sampling", "independent errors", "Utils", "sampleErrorIidPauliNoise", cases)
    rep.count("sampled errors", k, 80)


def answers(hx, hz, e):
    """Estimates for an error with whether they are right: up to a stabilizer, by a logical operator, without the syndrome."""
    n = len(e)
    add = lambda f: [a ^ b for a, b in zip(e, f)]  # noqa: E731
    basis = reduce(hx)
    logical = next(([int(b) for b in format(v, f"0{n}b")] for v in range(1, 1 << n)
                    if not any(uf.syndrome(hz, [int(b) for b in format(v, f"0{n}b")])) and not inside(basis, [int(b) for b in format(v, f"0{n}b")])), None)
    xs = [(list(e), True), (add(hx[-1]), True), (add([a ^ b for a, b in zip(hx[0], hx[-1])]) if len(hx) > 1 else list(e), True)]
    if logical:
        xs += [(add(logical), False), (add([a ^ b for a, b in zip(logical, hx[0])]), False)]
    xs.append((add([int(i == 0) for i in range(n)]), inside(basis, [int(i == 0) for i in range(n)])))
    return xs


def numbers(d):
    return {float(k): v for k, v in d.items()}


def close(a, b):
    return a is not None and abs(a - b) < 1e-9


def found(files, path):
    fs = [v for k, v in files.items() if k == path or k.startswith(path)]
    return fs[0] if len(fs) == 1 else None


def rates(g, rep):
    fs = g.p.funcs[("DecodingSimulator", "simulateWER")]
    if len(fs) != 1:
        raise AnalysisBroken("DecodingSimulator::simulateWER is overloaded")
    wer, stats, used, errs = [], [], [], []
    for nm in ("Steane", "four", "surface"):
        hx, hz = CSS[nm]
        n = len(hz[0])
        for lo, hi, step, runs, k, kind, raw, stat in (
            (0.125, 0.375, 0.125, 3, 1, "UfDecoder", "out/raw", "out/stats"),
            (0.25, 0.75, 0.25, 4, 2, "UfHeuristic", "raw", ""),
            (0.25, 1.0, 0.25, 2, 3, "UfDecoder", "", "st"),
            (0.5, 0.625, 0.25, 6, 1, "UfHeuristic", "r", "s"),
            (0.25, 0.25, 0.25, 2, 1, "UfDecoder", "r", "s"),
            (0.125, 0.625, 0.125, 1, 2, "UfDecoder", "r", "s"),
        ):
            for shift in range(4):
                ps = []
                p = lo
                while p < hi:
                    ps.append(p)
                    p += step
                es = [[int((i * 5 + j * 3 + shift + (i * j) % 4) % 3 == 0) for i in range(n)] for j in range(len(ps) * runs)]
                if shift == 3:
                    es = [[0] * n for _ in es]
                ans = []
                for j, e in enumerate(es):
                    a = answers(hx, hz, e)
                    ans.append(a[(j * (1 + shift % 2) + shift) % len(a)])
                what = f"code {nm}, rates {ps}, {runs} runs, k={k}, variation {shift}"

                def run(hx=hx, hz=hz, lo=lo, hi=hi, step=step, runs=runs, k=k, kind=kind, raw=raw, stat=stat, es=es, ans=ans):
                    it, files, log, drawn = g.world([b for e in es for b in e], [(a, 2 * i + 1) for i, (a, _ok) in enumerate(ans)])
                    c = g.code(it, hx, hz)
                    c.f["k"].v = k
                    it.call(fs[0], [raw, stat, lo, hi, runs, Cell(c), step, g.kind(kind)], None)
                    return files, log, drawn

                got = g.attempt(run)
                want = {p: sum(not ok for _a, ok in ans[i * runs:(i + 1) * runs]) / runs / k for i, p in enumerate(ps)}

                def cwer(r, want=want, raw=raw):
                    if not raw:
                        return None
                    t = found(r[0], raw)
                    if t is None:
                        return f"no file {raw}: {sorted(r[0])}"
                    try:
                        d = numbers(json.loads(t))
                    except (ValueError, AttributeError):
                        return f"{t[:60]!r} is not a JSON object of rates"
                    if len(d) != len(want) or any(not any(abs(a - b) < 1e-6 for b in d) for a in want):
                        return f"error rates {sorted(d)} instead of {sorted(want)}"
                    bad = [(a, b) for a in d for b in want if abs(a - b) < 1e-6 and not close(d[a], want[b])]
                    return f"{d[bad[0][0]]} instead of {want[bad[0][1]]} for the rate {bad[0][1]}" if bad else None

                def cstat(r, ps=ps, runs=runs, es=es, ans=ans, stat=stat, n=n, hz=hz):
                    if not stat:
                        return None
                    t = found(r[0], stat)
                    if t is None:
                        return f"no file {stat}: {sorted(r[0])}"
                    try:
                        rs = [x["run"] for x in json.loads(t)["runs"]]
                    except (ValueError, KeyError, TypeError) as e:
                        return f"the statistics are not JSON of runs ({e})"[:120]
                    if [x.get("physicalErrRate") for x in rs] != ps:
                        return f"runs for the rates {[x.get('physicalErrRate') for x in rs]} instead of {ps}"
                    for i, x in enumerate(rs):
                        if len(x["data"]) != runs:
                            return f"{len(x['data'])} records instead of {runs}"
                        for j, y in enumerate(x["data"]):
                            m = i * runs + j
                            st = {"success": True, "failure": False}.get(y.get("decodingStatus"))
                            if st is not ans[m][1]:
                                return f"status {y.get('decodingStatus')} for the error {es[m]} estimated as {ans[m][0]}"
                            for key, v in (("physicalErrRate", ps[i]), ("codeSize", n), ("error", es[m]), ("syndrome", uf.syndrome(hz, es[m]))):
                                z = y.get(key)
                                z = bitlist(z) if isinstance(v, list) else z
                                if z != v:
                                    return f"{key} {y.get(key)} instead of {v}"
                            if bitlist(y.get("decodingResult", {}).get("estimate")) != ans[m][0]:
                                return "the estimate is not the one of the decoder"
                    return None

                def cused(r, kind=kind, es=es, hz=hz, hx=hx):
                    log = r[1]
                    if len(log) != len(es):
                        return f"{len(log)} decodings instead of {len(es)}"
                    want = "UFDecoder" if kind == "UfDecoder" else "UFHeuristic"
                    for (cls, s, c), e in zip(log, es):
                        if cls != want:
                            return f"decodes with {cls}"
                        if s != uf.syndrome(hz, e):
                            return f"decodes the syndrome {s} of the error {e}"
                        del c
                    return None

                def cerr(r, ps=ps, runs=runs, n=n):
                    if not r[2] and ps:
                        raise Undecided("another way of sampling")
                    want = [p for p in ps for _ in range(runs * n) if 0 < p < 1]
                    return None if [d for d in r[2] if 0 < d < 1] == want else f"errors drawn with the probabilities {sorted(set(r[2]))}, {len(r[2])} draws"

                wer.append((what, got, cwer))
                stats.append((what, got, cstat))
                used.append((what, got, cused))
                errs.append((what, got, cerr))
    k = judge(g, rep, "word-error-rate", "rates", "DecodingSimulator", "simulateWER", wer)
    judge(g, rep, "word-error-rate", "statistics", "DecodingSimulator", "simulateWER", stats)
    judge(g, rep, "word-error-rate", "decoder and syndromes", "DecodingSimulator", "simulateWER", used)
    judge(g, rep, "word-error-rate", "sampled errors", "DecodingSimulator", "simulateWER", errs)
    rep.count("simulations", k, 60)


def bitlist(t):
    return [int(c) for c in t if c in "01"] if isinstance(t, str) else [int(x) for x in t] if isinstance(t, list) else None


def documents(t):
    """The JSON documents of a text, also as the elements of one list."""
    d, i, res = json.JSONDecoder(), 0, []
    while True:
        while i < len(t) and t[i] in " \n\r\t,":
            i += 1
        if i >= len(t):
            break
        x, i = d.raw_decode(t, i)
        res.append(x)
    return res[0] if len(res) == 1 and isinstance(res[0], list) else res


def times(g, rep):
    fs = g.p.funcs[("DecodingSimulator", "simulateAverageRuntime")]
    if len(fs) != 1:
        raise AnalysisBroken("DecodingSimulator::simulateAverageRuntime is overloaded")
    avg, info, used = [], [], []
    hs = {"dir/a.txt": CSS["Steane"][1], "dir/b.txt": CSS["four"][1], "dir/c.txt": CSS["surface"][1]}
    for names in (["dir/a.txt"], ["dir/a.txt", "dir/b.txt"], ["dir/c.txt", "dir/b.txt", "dir/a.txt"], []):
        for runs, samples, p, kind, raw, inf in ((1, 1, 0.25, "UfDecoder", "raw", "info"), (3, 2, 0.5, "UfHeuristic", "raw", ""), (2, 3, 0.125, "UfDecoder", "out/raw", "x"), (2, 1, 0.25, "UfDecoder", "", "info")):
            order = sorted(names)
            sizes = [len(hs[x][0]) for x in order for _ in range(runs * samples)]
            es = [[int((i * 5 + j * 7 + i * j) % 3 == 0) for i in range(n)] for j, n in enumerate(sizes)]
            ts = [6 * (j * j % 7 + j) for j in range(len(es))]
            what = f"codes {order}, {runs} runs of {samples} samples"

            def run(order=order, runs=runs, samples=samples, p=p, kind=kind, raw=raw, inf=inf, es=es, ts=ts):
                it, files, log, drawn = g.world([b for e in es for b in e], [(e, t) for e, t in zip(es, ts)],
                                                {x: "".join(" ".join(map(str, r)) + "\n" for r in hs[x]) for x in order})
                it.call(fs[0], [raw, inf, p, runs, "dir", samples, g.kind(kind)], None)
                return files, log, drawn

            got = g.attempt(run)

            def cavg(r, order=order, runs=runs, samples=samples, ts=ts, raw=raw):
                if not raw:
                    return None
                t = found(r[0], raw)
                if t is None:
                    return f"no file {raw}: {sorted(r[0])}"
                try:
                    d = json.loads(t)
                except ValueError:
                    return f"{t[:60]!r} is not JSON"
                d = d or {}
                if sorted(d) != order:
                    return f"codes {sorted(d)} instead of {order}"
                for i, x in enumerate(order):
                    want = [sum(ts[(i * runs + j) * samples:(i * runs + j + 1) * samples]) / samples for j in range(runs)]
                    z = [d[x].get(str(j)) for j in range(runs)]
                    if len(d[x]) != runs or any(a is None or int(a) != int(b) for a, b in zip(z, want)):
                        return f"average times {d[x]} of {x} instead of {want}"
                return None

            def cinfo(r, p=p, inf=inf, es=es, order=order, runs=runs, samples=samples):
                if not inf:
                    return None
                t = found(r[0], inf)
                if t is None:
                    return f"no file {inf}: {sorted(r[0])}"
                try:
                    ds = documents(t)
                except ValueError:
                    return f"{t[:60]!r} is not JSON"
                if len(ds) != len(es):
                    return f"{len(ds)} records instead of {len(es)}"
                for m, (y, e) in enumerate(zip(ds, es)):
                    h = hs[order[m // (runs * samples)]]
                    for key, v in (("physicalErrRate", p), ("codeSize", len(e)), ("error", e), ("syndrome", uf.syndrome(h, e))):
                        z = bitlist(y.get(key)) if isinstance(v, list) else y.get(key)
                        if z != v:
                            return f"{key} {y.get(key)} instead of {v}"
                return None

            def cused(r, kind=kind, es=es, p=p, order=order, runs=runs, samples=samples):
                want = "UFDecoder" if kind == "UfDecoder" else "UFHeuristic"
                if len(r[1]) != len(es):
                    return f"{len(r[1])} decodings instead of {len(es)}"
                for m, ((cls, s, c), e) in enumerate(zip(r[1], es)):
                    if cls != want:
                        return f"decodes with {cls}"
                    if c is None:
                        return "decodes before the decoder is given a code"
                    if s != uf.syndrome(hs[order[m // (runs * samples)]], e):
                        return f"decodes the syndrome {s} of the error {e}"
                if r[2] and set(r[2]) != {p}:
                    return f"errors drawn with the probabilities {sorted(set(r[2]))}"
                return None

            avg.append((what, got, cavg))
            info.append((what, got, cinfo))
            used.append((what, got, cused))
    k = judge(g, rep, "decoding-times", "averages", "DecodingSimulator", "simulateAverageRuntime", avg)
    judge(g, rep, "decoding-times", "information", "DecodingSimulator", "simulateAverageRuntime", info)
    judge(g, rep, "decoding-times", "decoder and syndromes", "DecodingSimulator", "simulateAverageRuntime", used)
    rep.count("timings", k, 16)


def p28(rep):
    g = Sim(rep)
    sampling(g, rep)
    rates(g, rep)
    times(g, rep)
    g.close()
