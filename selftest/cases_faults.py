F = "src/mqt/qecc/ft_stateprep/"
SP = F + "state_prep.py"


def b(i, *e, k="bug"):
    return (f"p09-{i}", "P09", k, [(SP, x, y) for x, y in e])


CASES = [
    b("dir", ("        if x_errors:\n            error[target] = (error[target] + error[control]) % 2\n        else:\n            error[control]", "        if not x_errors:\n            error[target] = (error[target] + error[control]) % 2\n        else:\n            error[control]")),
    b("start", ("control = start.qargs[0]._index if x_errors else start.qargs[1]._index", "control = start.qargs[0]._index")),
    b("after", ("_propagate_error(nodes[i:], dag", "_propagate_error(nodes[i + 1:], dag"), ("for i in range(len(nodes)):\n            ", "for i in range(len(nodes) - 1):\n            ")),
    b("last", ("for i in range(len(nodes)):\n                error", "for i in range(len(nodes) - 1):\n                error")),
    b("nomod", ("            error[target] = (error[target] + error[control]) % 2\n", "            error[target] = error[target] | error[control]\n")),
    b("eye-x", ("self.x_fault_sets_unreduced[1] = np.vstack((faults, non_propagated_single_errors))", "self.x_fault_sets_unreduced[1] = faults")),
    b("eye-z", ("self.z_fault_sets_unreduced[1] = np.vstack((faults, non_propagated_single_errors))", "self.z_fault_sets_unreduced[1] = faults")),
    b("zguard", ("elif not x_errors and self.z_fault_sets[1] is None:", "elif not x_errors and self.x_fault_sets[1] is None:")),
    b("single-side", ("                single_faults = self.z_fault_sets_unreduced[1]\n", "                single_faults = self.x_fault_sets_unreduced[1]\n")),
    b("nostore", ("                self.z_fault_sets_unreduced[num_errors] = faults.copy()\n", "                self.z_fault_sets_unreduced[num_errors] = single_faults.copy()\n")),
    b("stabs", ("stabs = self.x_checks if x_errors else self.z_checks\n        faults = _remove", "stabs = self.z_checks if x_errors else self.x_checks\n        faults = _remove")),
    b("cache", ("        if x_errors:\n            self.x_fault_sets[num_errors] = faults\n        else:\n            self.z_fault_sets[num_errors] = faults\n        return", "        self.x_fault_sets[num_errors] = faults\n        self.z_fault_sets[num_errors] = faults\n        return")),
    b("trivial-side", ("d_error = code.x_distance if x_errors else code.z_distance", "d_error = code.z_distance if x_errors else code.x_distance")),
    b("trivial-ge", ("> max_w * num_errors)[0]]", ">= max_w * num_errors)[0]]")),
    b("trivial-gt", ("> max_w * num_errors)[0]]", "> max_w * (num_errors + 1))[0]]")),
    b("trivial-axis", ("np.sum(faults, axis=1) > max_w", "np.max(faults, axis=1) > max_w")),
    b("trivial-noleader", ("        faults[i] = _coset_leader(fault, stabs)\n", "        fault = _coset_leader(fault, stabs)\n")),
    b("equiv-idx", ("                removed.add(j + i + 1)", "                removed.add(j + i)")),
    b("equiv-cmp", ("if mod2.rank(stabs_ext2) == mod2.rank(stabs_ext1):", "if mod2.rank(stabs_ext2) <= mod2.rank(stabs_ext1) + 1:")),
    b("equiv-base", ("stabs_ext2 = np.vstack((stabs_ext1, f2))", "stabs_ext2 = np.vstack((stabilizers, f2))")),
    b("comb-range", ("for i in range(1, self.max_errors):", "for i in range(1, self.max_errors - 1):")),
    b("comb-first", ("fault_sets_unreduced[1] = np.vstack((fault_sets_unreduced[1], additional_faults))", "fault_sets_unreduced[1] = additional_faults")),
    b("comb-alias", ("self.x_fault_sets_unreduced.copy() if x_errors else", "self.x_fault_sets_unreduced if x_errors else")),
    b("comb-next", ("fault_sets_unreduced[i + 1] = np.vstack((next_faults, combined))", "fault_sets_unreduced[i + 1] = combined")),
    b("comb-uncomb", ("uncombined = fault_sets_unreduced[i]\n", "uncombined = fault_sets_unreduced[1]\n")),
    b("comb-upto", ("for num_errors in range(1, self.max_errors + 1):\n            fs", "for num_errors in range(1, self.max_errors):\n            fs")),
    b("comb-thresh", ("_remove_trivial_faults(fs, stabs, self.code, x_errors, num_errors)\n        return fault_sets", "_remove_trivial_faults(fs, stabs, self.code, x_errors, self.max_errors)\n        return fault_sets")),
    b("comb-empty", ("return self.x_fault_sets if x_errors else self.z_fault_sets\n", "return self.z_fault_sets if x_errors else self.x_fault_sets\n")),
    b("comb-stabs", ("stabs = self.x_checks if x_errors else self.z_checks\n        for num", "stabs = self.x_checks if self.zero_state else self.z_checks\n        for num")),
    b("init-x", ("self.x_checks = code.Hx.copy() if zero_state else np.vstack((code.Lx.copy(), code.Hx.copy()))", "self.x_checks = code.Hx.copy()")),
    b("init-lz", ("np.vstack((code.Lz.copy(), code.Hz.copy()))", "np.vstack((code.Lx.copy(), code.Hz.copy()))")),
    b("maxerr", ("self.max_errors = (self.code.distance - 1) // 2 if not", "self.max_errors = (self.code.distance - 1) // 2 if")),
    b("maxz", ("            (self.code.z_distance - 1) // 2 if not self.error_detection_code else self.code.z_distance // 2\n", "            (self.code.x_distance - 1) // 2 if not self.error_detection_code else self.code.x_distance // 2\n")),
    b("det2", ("        if self.code.distance == 2:\n            logging.warning(\"Code distance is 2, assuming error detection code.\")\n            self.error_detection_code = True\n", "")),
    b("noreset", ("        self.error_detection_code = error_detection\n        self._set_max_errors()\n", "        self.error_detection_code = error_detection\n        self.max_errors = self.code.distance // 2 if error_detection else (self.code.distance - 1) // 2\n")),
    b("r1", ("            error[target] = (error[target] + error[control]) % 2\n        else:\n            error[control] = (error[target] + error[control]) % 2", "            error[target] ^= error[control]\n        else:\n            error[control] ^= error[target]"), k="refactor"),
    b("r2", ("            fault_list = []\n            # propagate every error before a control\n            nodes = list(dag.topological_op_nodes())\n            for i in range(len(nodes)):\n                error = _propagate_error(nodes[i:], dag.num_qubits(), x_errors=x_errors)\n                fault_list.append(error)\n            faults = np.array(fault_list, dtype=np.int8)\n", "            nodes = list(dag.topological_op_nodes())\n            faults = np.array([_propagate_error(nodes[i:], self.num_qubits, x_errors) for i, _ in enumerate(nodes)], dtype=np.int8)\n"), k="refactor"),
    b("r3", ("    indices = list(set(range(len(faults))) - removed)\n", "    indices = [i for i in range(len(faults)) if i not in removed]\n"), k="refactor"),
    b("r4", ("            new_faults = (faults[:, np.newaxis, :] + single_faults).reshape(-1, self.num_qubits) % 2\n", "            new_faults = np.array([(f + s) % 2 for f in faults for s in single_faults], dtype=np.int8)\n"), k="refactor"),
    b("r5", ("    for i, fault in enumerate(faults):\n        faults[i] = _coset_leader(fault, stabs)\n    faults = faults[np.where(np.sum(faults, axis=1) > max_w * num_errors)[0]]\n", "    faults = np.array([_coset_leader(fault, stabs) for fault in faults], dtype=np.int8).reshape(faults.shape)\n    weights = faults.sum(axis=1)\n    faults = faults[weights > max_w * num_errors]\n"), k="refactor"),
]
