L = "src/mqt/qecc/cc_decoder/decoder.py"
I = "src/mqt/qecc/cc_decoder/__init__.py"
C = "src/mqt/qecc/cc_decoder/cli.py"


def mk(p, f):
    def b(i, *e, k="bug"):
        return (f"p{p}-{i}", f"P{p}", k, [(f, x, y) for x, y in e])

    return b, (lambda i, *e: b(i, *e, k="refactor"))


b, r = mk(20, L)
CASES = [
    b("range", ("for i in range(1, len(indices) - 1):", "for i in range(1, len(indices) - 2):")),
    b("start", ("for i in range(1, len(indices) - 1):", "for i in range(2, len(indices) - 1):")),
    b("val", ("helper_vars[0]) == val", "helper_vars[0]) == (not val)")),
    b("last", ("constraint = self.switch_vars[indices[-1]] == helper_vars[-1]", "constraint = self.switch_vars[indices[-1]] == helper_vars[0]")),
    b("nopop", ("        # pop the context from the optimizer\n        self.optimizer.pop()\n", "")),
    b("nopush", ("        self.optimizer.push()\n", "")),
    b("soft", ("self.optimizer.add_soft(Not(switch))", "self.optimizer.add_soft(switch)")),
    b("softfirst", ("        for switch in self.switch_vars:\n            self.optimizer.add_soft", "        for switch in self.switch_vars[1:]:\n            self.optimizer.add_soft")),
    b("inv", ("[1 if model[var] else 0 for var in self.switch_vars]", "[0 if model[var] else 1 for var in self.switch_vars]")),
    b("order", ("[1 if model[var] else 0 for var in self.switch_vars]", "[1 if model[var] else 0 for var in reversed(self.switch_vars)]")),
    b("copy", ("        lights = list(lights)  # leave the caller's list as it is\n", "")),
    b("any", ("return all(not light for light in lights)", "return any(not light for light in lights)")),
    b("setoff", ("lights[light] = not lights[light]", "lights[light] = False")),
    b("unsat", ('            assert str(result) == "sat", "No solution found"\n', '            if str(result) != "sat":\n                return [0] * len(self.switches_to_lights), constr_time, 0.0\n')),
    b("helpers", ('Bool(f"helper_{light}_{i}")', 'Bool(f"helper_{light // 2}_{i}")')),
    r("helpers", ('Bool(f"helper_{light}_{i}")', 'Bool(f"h{light}.{i}")')),
    r("neq", ("constraint = Xor(self.switch_vars[indices[0]], helper_vars[0]) == val", "constraint = Xor(Xor(self.switch_vars[indices[0]], helper_vars[0]), not val)")),
    r("count", ("[1 if model[var] else 0 for var in self.switch_vars]", "[int(bool(model[var])) for var in self.switch_vars]")),
    r("valid", ("return all(not light for light in lights)", "return not any(lights)")),
    r("loop", ("        for switch in self.switch_vars:\n            self.optimizer.add_soft(Not(switch))", "        for k in range(len(self.switch_vars)):\n            self.optimizer.add_soft(self.switch_vars[k] == False)  # noqa: E712")),
]
b, r = mk(21, L)
CASES += [
    b("p", ("p=[1 - error_rate, error_rate]", "p=[error_rate, 1 - error_rate]")),
    b("half", ("p=[1 - error_rate, error_rate]", "p=[1 - error_rate / 2, error_rate / 2]")),
    b("resid", ("residual = (error + np.array(estimate)) % 2", "residual = np.array(estimate)")),
    b("minwt", ("or wt < min_wt_logicals[logical]", "or wt > min_wt_logicals[logical]")),
    b("avg", ("(avg_solve_time * i + solve_time) / (i + 1)", "(avg_solve_time * i + solve_time) / nr_sims")),
    b("rate", ("[nr_errors / nr_sims for nr_errors in", "[nr_errors / (nr_sims + 1) for nr_errors in")),
    b("eb", ("np.sqrt((1 - ler) * ler / nr_sims)", "np.sqrt((1 - ler) * ler) / nr_sims")),
    b("total", ("avg_total_time = avg_constr_time + avg_solve_time", "avg_total_time = preconstr_time + avg_solve_time")),
    b("solver", ("data = simulate_error_rate(code, error_rate, nr_sims, solver)", "data = simulate_error_rate(code, error_rate, nr_sims)")),
    b("fname", ("distance={code.distance},p=", "distance={code.n},p=")),
    r("mod", ("if (code.L[logical] @ residual % 2).any():", "if np.any((code.L[logical] @ residual) % 2 == 1):")),
    r("xor", ("residual = (error + np.array(estimate)) % 2", "residual = (error - np.array(estimate)) % 2")),
    r("sum", ("(avg_constr_time * i + constr_time) / (i + 1)", "avg_constr_time + (constr_time - avg_constr_time) / (i + 1)")),
]
b, r = mk(21, I)
CASES += [
    b("names", ("    if lattice_type == LatticeType.HEXAGON:\n        return HexagonalColorCode(distance)", "    if lattice_type == LatticeType.HEXAGON:\n        return SquareOctagonColorCode(distance)")),
    r("names", ("    if lattice_type == LatticeType.HEXAGON:\n", "    if LatticeType.HEXAGON == lattice_type:\n")),
]
b, r = mk(21, C)
CASES += [
    b("args", ("            args.nr_sims,\n            args.results_dir,\n            args.solver,", "            args.nr_sims,\n            args.results_dir,")),
    b("tn", ("tn_decoder.run(args.distance, args.error_rate, args.nr_sims", "tn_decoder.run(args.distance, args.nr_sims, args.error_rate")),
    b("type", ('default="hexagon"', 'default="square_octagon"')),
]
