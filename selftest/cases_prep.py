F = "src/mqt/qecc/ft_stateprep/"
SP = F + "state_prep.py"


def b(i, *e, k="bug"):
    return (f"p10-{i}", "P10", k, [(SP, x, y) for x, y in e])


def r(i, *e):
    return b(i, *e, k="refactor")


BLD = """    for i, j in reversed(cnots):
        if zero_state:
            ctrl, tar = i, j
        else:
            ctrl, tar = j, i
        circ.cx(ctrl, tar)
"""
CASES = [
    b("hside", ("        for i in range(n):\n            if i not in controls:\n                circ.h(i)", "        for i in range(n):\n            if i in controls:\n                circ.h(i)")),
    b("rev", ("for i, j in reversed(cnots)", "for i, j in cnots")),
    b("swap", ("            ctrl, tar = j, i\n", "            ctrl, tar = i, j\n")),
    b("swap0", ("            ctrl, tar = i, j\n", "            ctrl, tar = j, i\n")),
    b("side", ("    checks = code.Hx.copy() if zero_state else code.Hz.copy()\n    rank", "    checks = code.Hz.copy() if zero_state else code.Hx.copy()\n    rank")),
    b("hside2", ("    checks = code.Hx.copy() if zero_state else code.Hz.copy()\n    rank", "    checks = code.Hx.copy()\n    rank")),
    b("alias", ("    checks = code.Hx.copy() if zero_state else code.Hz.copy()\n    rank", "    checks = code.Hx if zero_state else code.Hz\n    rank")),
    b("col", ("        checks[:, j] = (checks[:, i] + checks[:, j]) % 2\n", "        checks[:, i] = (checks[:, i] + checks[:, j]) % 2\n")),
    b("cnot", ("cnots.append((int(i), int(j)))", "cnots.append((int(j), int(i)))")),
    b("reduced", ("== checks.shape[1] - rank)", ">= checks.shape[1] - rank - 1)")),
    b("rank", ("rank = mod2.rank(checks)\n", "rank = checks.shape[0]\n")),
    b("label", ("    circ = _build_circuit_from_list_and_checks(cnots, checks, zero_state)\n    return StatePrepCircuit(circ, code, zero_state)", "    circ = _build_circuit_from_list_and_checks(cnots, checks, zero_state)\n    return StatePrepCircuit(circ, code)")),
    b("label2", ("_build_circuit_from_list_and_checks(cnots, checks, zero_state)\n", "_build_circuit_from_list_and_checks(cnots, checks)\n")),
    b("olabel", ('    logging.info(f"Optimal param: {curr_param}")\n    return StatePrepCircuit(circ, code, zero_state)', '    logging.info(f"Optimal param: {curr_param}")\n    return StatePrepCircuit(circ, code)')),
    b("pble2", ("for col_2 in range(n_cols) if col != col_2],\n                    1,", "for col_2 in range(n_cols) if col != col_2],\n                    2,")),
    b("pblehalf", ("[(additions[d, col_1, col], 1) for col_1 in range(n_cols) if col != col_1]\n                    + ", "")),
    b("unchanged", ("    for d in range(1, max_depth + 1):\n        for col in range(n_cols):", "    for d in range(2, max_depth + 1):\n        for col in range(n_cols):")),
    b("unchanged2", ("    for d in range(1, max_depth + 1):\n        for col in range(n_cols):", "    for d in range(1, max_depth):\n        for col in range(n_cols):")),
    b("unchangedg", ("z3.Implies(targets[d - 1] != col, _symb", "z3.Implies(controls[d - 1] != col, _symb")),
    b("ult", ("            s.add(z3.ULT(targets[d - 1], n))\n", "")),
    b("ult1", ("s.add(z3.ULT(targets[d - 1], n))", "s.add(z3.ULT(targets[d - 1], n - 1))")),
    b("noteq", ("        s.add(controls[d - 1] != targets[d - 1])\n", "")),
    b("final", ("columns.shape[2] - columns.shape[1],\n", "columns.shape[2] - columns.shape[1] - 1,\n")),
    b("finaldepth", ("list(columns[-1, :, col])", "list(columns[0, :, col])")),
    b("add", ("add_col2_to_col1 = z3.Implies(\n                    col_add_vars[d - 1, col_2, col_1]", "add_col2_to_col1 = z3.Implies(\n                    col_add_vars[d - 1, col_1, col_2]")),
    b("addprev", ("_symbolic_vector_add(columns[d - 1, :, col_1], columns[d - 1, :, col_2])", "_symbolic_vector_add(columns[d, :, col_1], columns[d - 1, :, col_2])")),
    b("extract", ("            if m[additions[d, i, j]]\n", "            if m[additions[d, j, i]]\n")),
    b("finalcols", ("bool(m[columns[max_depth, i, j]])", "bool(m[columns[max_depth - 1, i, j]])")),
    b("gext", ("(m[controls[d]].as_long(), m[targets[d]].as_long())", "(m[targets[d]].as_long(), m[controls[d]].as_long())")),
    b("optside", ("mod2.row_basis(code.Hx if zero_state else code.Hz)", "mod2.row_basis(code.Hz if zero_state else code.Hx)")),
    b("optbasis", ("    checks = mod2.row_basis(code.Hx if zero_state else code.Hz)  # the", "    checks = (code.Hx if zero_state else code.Hz)  # the")),
    b("optstate", ("return prep_func(checks, param, zero_state)", "return prep_func(checks, param)")),
    b("minstop", ('if opt_res is None or (isinstance(opt_res, str) and opt_res == "timeout"):\n            break\n', 'if opt_res is None or (isinstance(opt_res, str) and opt_res == "timeout"):\n            circ = opt_res\n            break\n')),
    b("minonce", ("        circ = opt_res\n        curr_param -= 1\n", "        circ = opt_res\n        curr_param -= 1\n        break\n")),
    b("minnone", ("        circ = opt_res\n        curr_param -= 1\n", "        curr_param -= 1\n")),
    b("mintimeout", ('if opt_res is None or (isinstance(opt_res, str) and opt_res == "timeout"):', 'if opt_res is None:')),
    b("clamp", ("            curr_param = min(curr_param, max_param)\n", "            if curr_param > max_param:\n                break\n")),
    b("first", ('if res is not None and (not isinstance(res, str) or res != "timeout"):', 'if res is not None:')),
    b("rparam", ("                return res, curr_param\n", "                return res, max_param\n")),
    b("alive", ("    if p.is_alive():\n        p.terminate()\n        return \"timeout\"\n", "    if p.is_alive():\n        p.terminate()\n")),
    b("swapbounds", ("code, _generate_circ_with_bounded_depth, zero_state, min_depth, max_depth, min_timeout", "code, _generate_circ_with_bounded_depth, zero_state, min_depth, min_depth, min_timeout")),
    b("wrongfn", ("code, _generate_circ_with_bounded_gates, zero_state", "code, _generate_circ_with_bounded_depth, zero_state")),
    r("bld", (BLD, "    for k in range(len(cnots) - 1, -1, -1):\n        a, c = cnots[k]\n        pair = (a, c) if zero_state else (c, a)\n        circ.cx(*pair)\n")),
    r("bld2", (BLD, "    for pair in cnots[::-1]:\n        first, second = pair\n        if not zero_state:\n            first, second = second, first\n        circ.cx(first, second)\n")),
    r("xor", ("        checks[:, j] = (checks[:, i] + checks[:, j]) % 2\n", "        checks[:, j] ^= checks[:, i]\n")),
    r("ctl", ("    controls = [i for i in range(n) if np.sum(checks[:, i]) >= 1]\n", "    controls = [int(i) for i in np.flatnonzero(checks.any(axis=0))]\n")),
    r("help", ("    if s.check() == z3.sat:\n        m = s.model()\n        cnots = [\n", "    if s.check() != z3.sat:\n        return None\n    if True:\n        m = s.model()\n        cnots = [\n")),
    r("red", ("        return bool(len(np.where(np.all(checks == 0, axis=0))[0]) == checks.shape[1] - rank)", "        return int(np.count_nonzero(checks.any(axis=0))) == rank")),
    r("min", ('        if opt_res is None or (isinstance(opt_res, str) and opt_res == "timeout"):\n            break\n', '        failed = opt_res is None or isinstance(opt_res, str)\n        if failed:\n            break\n')),
    r("atmost", ("                z3.PbLe(\n                    [(additions[d, col_1, col], 1) for col_1 in range(n_cols) if col != col_1]\n                    + [(additions[d, col, col_2], 1) for col_2 in range(n_cols) if col != col_2],\n                    1,\n                )", "                z3.AtMost(\n                    *[additions[d, c, col] for c in range(n_cols) if col != c],\n                    *[additions[d, col, c] for c in range(n_cols) if col != c],\n                    1,\n                )")),
]
