F = "src/mqt/qecc/ft_stateprep/"
SP = F + "state_prep.py"
SIM = F + "simulation.py"
CASES = [
    ("p07-1", "P07", "bug", [(SP, "        if cnots >= 7 and cnots % 2 == 1:", "        if cnots >= 9 and cnots % 2 == 1:")]),
    ("p07-2", "P07", "bug", [(SP, "    _ancilla_cnot(qc, flag[0], ancilla, z_measurement)\n    _flag_measure(qc, flag[0], meas[0], z_measurement)\n\n    _ancilla_cnot(qc, stab[4], ancilla, z_measurement)", "    _ancilla_cnot(qc, stab[4], ancilla, z_measurement)\n    _ancilla_cnot(qc, flag[0], ancilla, z_measurement)\n    _flag_measure(qc, flag[0], meas[0], z_measurement)\n")]),
    ("p08-hook", "P08", "bug", [(SP, "                error[i] = 0\n", "                error = stab.copy()\n                error[i] = 0\n")]),
    ("p08-side", "P08", "bug", [(SP, "layers_2 = verification_stabs_fun(sp_circ, not sp_circ.zero_state, additional_errors)", "layers_2 = verification_stabs_fun(sp_circ, not sp_circ.zero_state, None)")]),
    ("p08-side2", "P08", "bug", [(SP, "layers_2 = verification_stabs_fun(sp_circ, not sp_circ.zero_state, additional_errors)", "layers_2 = verification_stabs_fun(sp_circ, sp_circ.zero_state, additional_errors)")]),
    ("p08-swapmeas", "P08", "bug", [(SP, "    return _measure_ft_stabs(sp_circ, measurements_1, measurements_2, full", "    return _measure_ft_stabs(sp_circ, measurements_2, measurements_1, full")]),
    ("p08-flags", "P08", "bug", [(SP, "_measure_ft_z(measured_circ, z_measurements, flags=True, t=sp_circ.max_z_errors)", "_measure_ft_z(measured_circ, z_measurements, t=sp_circ.max_z_errors)")]),
    ("p08-t", "P08", "bug", [(SP, "_measure_ft_z(measured_circ, z_measurements, flags=True, t=sp_circ.max_z_errors)", "_measure_ft_z(measured_circ, z_measurements, flags=True, t=sp_circ.max_x_errors)")]),
    ("p08-anc", "P08", "bug", [(SP, "            qc.measure(z_anc[i], z_c[i])", "            qc.measure(z_anc[i], z_c[0])")]),
    ("p08-heur-checks", "P08", "bug", [(SP, "orthogonal_checks = sp_circ.z_checks if x_errors else sp_circ.x_checks", "orthogonal_checks = sp_circ.x_checks if x_errors else sp_circ.z_checks")]),
    ("p08-heur-checks2", "P08", "bug", [(SP, "orthogonal_checks = sp_circ.z_checks if x_errors else sp_circ.x_checks", "orthogonal_checks = sp_circ.z_checks")]),
    ("p08-opt-gens", "P08", "bug", [(SP, "gens = sp_circ.z_checks if x_errors else sp_circ.x_checks", "gens = sp_circ.z_checks if not x_errors else sp_circ.x_checks")]),
    ("p08-opt-kw", "P08", "bug", [(SP, "            return verification_stabilizers(sp_circ, faults, num_anc, num_cnots, x_errors=x_errors)  # noqa: B023\n\n        while", "            return verification_stabilizers(sp_circ, faults, num_anc, num_cnots)  # noqa: B023\n\n        while")]),
    ("p08-opt-atleast", "P08", "bug", [(SP, "for measurement in measurement_stabs], 1)\n", "for measurement in measurement_stabs], 0)\n")]),
    ("p08-opt-nomod", "P08", "bug", [(SP, "            actual_measurements.append(v % 2)", "            actual_measurements.append(v)")]),
    ("p08-opt-sum", "P08", "bug", [(SP, "            v_new[i] = z3.Xor(v1[i], v2[i])", "            v_new[i] = z3.Or(v1[i], v2[i])")]),
    ("p08-opt-cnots", "P08", "bug", [(SP, "for q in range(sp_circ.num_qubits)], num_cnots\n", "for q in range(1, sp_circ.num_qubits)], num_cnots\n")]),
    ("p08-opt-skip", "P08", "bug", [(SP, "            for error in fault_set\n        ])\n", "            for error in fault_set[1:]\n        ])\n")]),
    ("p08-levels", "P08", "bug", [(SP, "    for num_errors in range(1, max_errors + 1):\n        logging.info(f\"Finding verification stabilizers for {num_errors} errors\")\n        faults = fault_sets[num_errors]\n        assert faults is not None\n        logging", "    for num_errors in range(1, max_errors):\n        logging.info(f\"Finding verification stabilizers for {num_errors} errors\")\n        faults = fault_sets[num_errors]\n        assert faults is not None\n        logging")]),
    ("p08-comb", "P08", "bug", [(SP, "        sp_circ.combine_faults(additional_faults, x_errors)\n        if additional_faults is not None\n        else sp_circ.x_fault_sets\n        if x_errors\n        else sp_circ.z_fault_sets\n    )\n    orth", "        sp_circ.combine_faults(additional_faults)\n        if additional_faults is not None\n        else sp_circ.x_fault_sets\n        if x_errors\n        else sp_circ.z_fault_sets\n    )\n    orth")]),
    ("p08-coset-group", "P08", "bug", [(SP, "_coset_leader(m, non_candidate_checks)", "_coset_leader(m, checks)")]),
    ("p08-coset-eq", "P08", "bug", [(SP, "            constraints[i] = v1[i] == v2[i]", "            constraints[i] = z3.Implies(v1[i], v2[i])")]),
    ("p08-coset-max", "P08", "bug", [(SP, "    s.minimize(z3.Sum(leader))", "    s.maximize(z3.Sum(leader))")]),
    ("p08-cover-stop", "P08", "bug", [(SP, "    while universe:\n", "    while len(universe) > 1:\n")]),
    ("p08-cover-nomod", "P08", "bug", [(SP, "np.where(s @ faults.T % 2 != 0)", "np.where(s @ faults.T != 0)")]),
    ("p08-cover-sum", "P08", "bug", [(SP, "mapping[comb].extend([(s1 + s2) % 2 for s1 in mapping[c1] for s2 in mapping[c2]])", "mapping[comb].extend([(s1 + s2) for s1 in mapping[c1] for s2 in mapping[c2]])")]),
    ("p08-cover-sum2", "P08", "bug", [(SP, "mapping[comb].extend([(s1 + s2) % 2 for s1 in mapping[c1] for s2 in mapping[c2]])", "mapping[comb].extend([(s1 + s2) % 2 for s1 in mapping[c1] for s2 in mapping[c1]])")]),
    ("p08-r1", "P08", "refactor", [(SP, "            qc.cx(stab, [z_anc[i]] * len(stab))\n", "            for q in stab:\n                qc.cx(q, z_anc[i])\n")]),
    ("p08-r2", "P08", "refactor", [(SP, "    overlap = z3.BoolVal(False)\n    for i, c in enumerate(v_con):\n        if c == 1:\n            overlap = z3.Xor(overlap, v_sym[i])\n    return overlap", "    terms = [v_sym[i] for i in np.where(v_con == 1)[0]]\n    acc = z3.BoolVal(False)\n    for t in terms:\n        acc = z3.Xor(acc, t)\n    return acc")]),
    ("p08-r3", "P08", "refactor", [(SP, "    while universe:\n        best", "    while len(universe) > 0:\n        best")]),
    ("p08-r4", "P08", "refactor", [(SP, "    errors = []\n    for stab in stabs:\n        error = stab.copy()\n        for i in range(len(stab)):\n            if stab[i] == 1:\n                error[i] = 0\n                errors.append(error.copy())\n    return np.array(errors)", "    errors = []\n    for stab in stabs:\n        for i in np.where(stab == 1)[0]:\n            err = stab.copy()\n            err[: i + 1] = 0\n            errors.append(err)\n    return np.array(errors)")]),
    ("p08-r5", "P08", "refactor", [(SP, "    gens = sp_circ.z_checks if x_errors else sp_circ.x_checks\n    n_gens", "    if x_errors:\n        gens = sp_circ.z_checks\n    else:\n        gens = sp_circ.x_checks\n    n_gens"), (SP, "    if solver.check() == z3.sat:\n        model = solver.model()\n        # Extract", "    if solver.check() != z3.sat:\n        return None\n    if True:\n        model = solver.model()\n        # Extract")]),
    ("p08-r6", "P08", "refactor", [(SP, "    for num_errors in range(1, max_errors + 1):\n        logging.info(f\"Finding verification stabilizers for {num_errors} errors\")\n        faults = fault_sets[num_errors]\n        assert faults is not None\n        logging.info(f\"There are {len(faults)} faults\")\n        if len(faults) == 0:\n            layers[num_errors - 1] = []", "    for layer in range(max_errors):\n        num_errors = layer + 1\n        faults = fault_sets[layer + 1]\n        assert faults is not None\n        if len(faults) == 0:\n            layers[layer] = []")]),
]
