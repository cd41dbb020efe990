S = "src/mqt/qecc/ft_stateprep/simulation.py"


def mk(p):
    def b(i, *e, k="bug"):
        return (f"p{p}-{i}", f"P{p}", k, [(S, x, y) for x, y in e])

    return b, (lambda i, *e: b(i, *e, k="refactor"))


b, r = mk(11)
CASES = [
    b("xlut-hx", ("self.x_lut = LutDecoder._generate_lut(self.code.Hz)", "self.x_lut = LutDecoder._generate_lut(self.code.Hx)")),
    b("zlut-hz", ("self.z_lut = LutDecoder._generate_lut(self.code.Hx)", "self.z_lut = LutDecoder._generate_lut(self.code.Hz)")),
    b("share-always", ("        if np.array_equal(self.code.Hx, self.code.Hz):\n            self.z_lut = self.x_lut", "        if self.code.Hx is not None:\n            self.z_lut = self.x_lut")),
    b("share-shape", ("        if np.array_equal(self.code.Hx, self.code.Hz):\n            self.z_lut", "        if self.code.Hx is not None and self.code.Hx.shape == self.code.Hz.shape:\n            self.z_lut")),
    b("share-sorted", ("        if np.array_equal(self.code.Hx, self.code.Hz):\n            self.x_lut", "        if sorted(map(tuple, self.code.Hx)) == sorted(map(tuple, self.code.Hz)):\n            self.x_lut")),
    b("max", ("min(v, key=np.sum)", "max(v, key=np.sum)")),
    b("first", ("min(v, key=np.sum)", "v[0]")),
    b("min-plain", ("            syndromes[syndrome.astype(np.int8).tobytes()].append(state)\n\n        # Sort according to weight\n        for key, v in syndromes.items():\n            lut[key] = np.array(min(v, key=np.sum))\n",
                    "            lut[syndrome.astype(np.int8).tobytes()] = state\n")),
    b("mod", ("checks @ state % 2", "checks @ state")),
    b("zfill", ("np.binary_repr(i).zfill(n_qubits)", "np.binary_repr(i, width=n_qubits)[::1].zfill(n_qubits)"), ("min(v, key=np.sum)", "min(v, key=lambda e: int(e[0]))")),
    b("range", ("range(2**n_qubits)", "range(2 ** (n_qubits - 1))")),
    b("decode-swap", ("return self.z_lut[syndrome.astype(np.int8).tobytes()]", "return self.x_lut[syndrome.astype(np.int8).tobytes()]")),
    b("no-astype", ("return self.x_lut[syndrome.astype(np.int8).tobytes()]", "return self.x_lut[syndrome.tobytes()]")),
    b("batch-swap", ("np.apply_along_axis(self.decode_z, 1, syndromes)", "np.apply_along_axis(self.decode_x, 1, syndromes)")),
    b("batch-axis", ("np.apply_along_axis(self.decode_x, 1, syndromes)", "np.apply_along_axis(self.decode_x, 0, syndromes)")),
    b("lazy-cond", ("        if len(self.z_lut) == 0:\n            self.generate_z_lut()\n        return", "        if len(self.x_lut) == 0:\n            self.generate_z_lut()\n        return")),
    b("gen-guard", ("        if len(self.z_lut) != 0:\n            return\n", "        if len(self.x_lut) != 0:\n            return\n")),
    b("flip", ("lut[key] = np.array(min(v, key=np.sum))", "lut[key] = np.array(min(v, key=np.sum))[::-1]")),
    r("share-dropped", ("        if np.array_equal(self.code.Hx, self.code.Hz):\n            self.x_lut = self.z_lut\n", "")),
    r("product", ("        for i in range(2**n_qubits):\n            state: npt.NDArray[np.int_] = np.array(list(np.binary_repr(i).zfill(n_qubits))).astype(np.int8)\n",
                  "        for bits in itertools.product([0, 1], repeat=n_qubits):\n            state: npt.NDArray[np.int_] = np.array(bits, dtype=np.int8)\n"),
      ("import logging\n", "import itertools\nimport logging\n")),
    r("best", ("            lut[key] = np.array(min(v, key=np.sum))\n", "            best = v[0]\n            for cand in v:\n                if cand.sum() < best.sum():\n                    best = cand\n            lut[key] = best\n")),
    r("batch-list", ("return np.apply_along_axis(self.decode_x, 1, syndromes)", "return np.array([self.decode_x(s) for s in syndromes])")),
    r("helper", ("return self.x_lut[syndrome.astype(np.int8).tobytes()]", "return self._look(self.x_lut, syndrome)"), ("    def decode_z(self", "    @staticmethod\n    def _look(table, s):\n        return table[s.astype(np.int8).tobytes()]\n\n    def decode_z(self")),
    r("once", ("        # Sort according to weight\n        for key, v in syndromes.items():\n            lut[key] = np.array(min(v, key=np.sum))\n\n        return lut", "        return {key: min(v, key=np.sum) for key, v in syndromes.items()}")),
    r("not", ("        if len(self.x_lut) == 0:\n            self.generate_x_lut()\n        return", "        if not self.x_lut:\n            self.generate_x_lut()\n        return")),
]
b, r = mk(12)
MZ = '''        for check in self.code.Hz:
            supp = _support(check)
            anc = self.stim_circ.num_qubits
            for q in supp:
                self.stim_circ.append_operation("CX", [q, anc])
            self.stim_circ.append_operation("MRZ", [anc])
            self.z_measurements.append(self.n_measurements)
            self.n_measurements += 1
'''
CASES += [
    b("init-err", ('stim_circuit.append_operation("Z_ERROR", [qubit], [2 * self.p / 3])', 'stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])')),
    b("init-rate", ('stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])', 'stim_circuit.append_operation("X_ERROR", [qubit], [self.p / 3])')),
    b("no-initH", ('                stim_circuit.append_operation("H", [qubit])\n                stim_circuit.append_operation("Z_ERROR"', '                stim_circuit.append_operation("Z_ERROR"')),
    b("init-flag", ("            initialized[qubit] = True\n", "")),
    b("init-target", ("                    initialize(target)\n", "")),
    b("two-rate", ('stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])', 'stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [2 * self.p / 3])')),
    b("two-single", ('stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])', 'stim_circuit.append_operation("DEPOLARIZE1", [ctrl, target], [self.p])')),
    b("two-before", ('                    stim_circuit.append_operation("CX", [ctrl, target])\n                    stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])\n',
                     '                    stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])\n                    stim_circuit.append_operation("CX", [ctrl, target])\n')),
    b("cx-swap", ('stim_circuit.append_operation("CX", [ctrl, target])', 'stim_circuit.append_operation("CX", [target, ctrl])')),
    b("meas-after", ('                    stim_circuit.append_operation("X_ERROR", [anc], [2 * self.p / 3])\n                    stim_circuit.append_operation("MR", [anc])\n',
                     '                    stim_circuit.append_operation("MR", [anc])\n                    stim_circuit.append_operation("X_ERROR", [anc], [2 * self.p / 3])\n')),
    b("meas-err", ('                    stim_circuit.append_operation("X_ERROR", [anc], [2 * self.p / 3])\n', "")),
    b("meas-z", ('stim_circuit.append_operation("X_ERROR", [anc]', 'stim_circuit.append_operation("Z_ERROR", [anc]')),
    b("meas-noreset", ('stim_circuit.append_operation("MR", [anc])', 'stim_circuit.append_operation("M", [anc])')),
    b("meas-init", ("                    initialized[anc] = False\n", "")),
    b("idle-cond", ("if initialized[qubit] and qubit not in used_qubits:", "if qubit not in used_qubits:")),
    b("idle-used", ("if initialized[qubit] and qubit not in used_qubits:", "if initialized[qubit]:")),
    b("idle-rate", ('[self.circ.find_bit(q)[0]], [2 * self.p / 3]', '[self.circ.find_bit(q)[0]], [self.p]')),
    b("idle-acc", ("            used_qubits = []\n            for gate", "            for gate")),
    b("idle-h", ("                        if not self.parallel_gates:\n                            idle_error([qubit])\n                        else:\n                            used_qubits.append(qubit)\n", "")),
    b("idle-swap", ("                    if not self.parallel_gates:\n                        idle_error([ctrl, target])", "                    if self.parallel_gates:\n                        idle_error([ctrl, target])")),
    b("idle-ctrl", ("used_qubits.extend([ctrl, target])", "used_qubits.append(ctrl)")),
    b("idle-anc", ("idle_error([anc])", "idle_error([])")),
    b("verif-lost", ("                    if anc in targets:\n                        self.z_verification_measurements.append(self.n_measurements)\n                    else:", "                    if anc in targets:\n                        self.z_verification_measurements.append(self.n_measurements)\n                    elif anc in ctrls:")),
    b("verif-idx", ("self.z_verification_measurements.append(self.n_measurements)", "self.z_verification_measurements.append(len(self.z_verification_measurements))")),
    b("reset-xv", ("        self.x_verification_measurements = []\n        self.z_verification_measurements = []\n        self.x_measurements = []\n        self.z_measurements = []\n        self.data_measurements = []\n        self.n_measurements = 0\n        self.p = p",
                   "        self.z_verification_measurements = []\n        self.x_measurements = []\n        self.z_measurements = []\n        self.data_measurements = []\n        self.n_measurements = 0\n        self.p = p")),
    b("reset-n", ("        self.n_measurements = 0\n        self.p = p", "        self.p = p")),
    b("reset-p", ("        self.n_measurements = 0\n        self.p = p", "        self.n_measurements = 0")),
    b("reset-stale", ("        self.p = p\n        self._reused_qubits = 0\n        self.stim_circ = self.to_stim_circ()", "        self._reused_qubits = 0\n        self.stim_circ = self.to_stim_circ()\n        self.p = p")),
    b("reused", ("            + self._reused_qubits\n", "")),
    b("reused-ge", ("if measured[anc] >= 2:", "if measured[anc] >= 3:")),
    b("zero-swap", ("        if self.zero_state:\n            self.measure_z()", "        if not self.zero_state:\n            self.measure_z()")),
    b("mx-basis", ('self.stim_circ.append_operation("MRX", list', 'self.stim_circ.append_operation("MRZ", list')),
    b("hx-hz", ("for check in self.code.Hx:", "for check in self.code.Hz:")),
    b("x-noH", ('            self.stim_circ.append_operation("H", [anc])\n', "")),
    b("x-basis", ('self.stim_circ.append_operation("MRX", [anc])', 'self.stim_circ.append_operation("MRZ", [anc])')),
    b("z-dir", ('self.stim_circ.append_operation("CX", [q, anc])', 'self.stim_circ.append_operation("CX", [anc, q])')),
    b("z-off", ("            self.z_measurements.append(self.n_measurements)\n            self.n_measurements += 1", "            self.n_measurements += 1\n            self.z_measurements.append(self.n_measurements)")),
    b("support", ("return np.where(v != 0)[0]", "return np.where(v == 0)[0]")),
    b("ps-x-only", ("verification_measurements = self.x_verification_measurements + self.z_verification_measurements", "verification_measurements = self.z_verification_measurements")),
    b("ps-any", ("np.all(detection_events[:, verification_measurements] == 0, axis=1)", "np.any(detection_events[:, verification_measurements] == 0, axis=1)")),
    b("ps-none", ("filtered_events = detection_events[index_array].astype(np.int8)", "filtered_events = detection_events.astype(np.int8)")),
    b("lx-lz", ("observables = self.code.Lz", "observables = self.code.Lx")),
    b("lz-lx", ("observables = self.code.Lx", "observables = self.code.Lz")),
    b("checks", ("checks = filtered_events[:, self.z_measurements]", "checks = filtered_events[:, self.x_measurements]")),
    b("decoder", ("estimates = self.decoder.batch_decode_z(checks)", "estimates = self.decoder.batch_decode_x(checks)")),
    b("nocorr", ("corrected = state + estimates", "corrected = state")),
    b("nomod", ("corrected @ observables.T % 2 != 0", "corrected @ observables.T != 0")),
    b("all", ("np.any(corrected @ observables.T % 2 != 0, axis=1)", "np.all(corrected @ observables.T % 2 == 0, axis=1)")),
    b("disc", ("num_discarded = detection_events.shape[0] - filtered_events.shape[0]", "num_discarded = filtered_events.shape[0]")),
    b("empty", ("            return 0, shots\n", "            return 0, 0\n")),
    b("pl-batch", ("num_logical_errors_batch / (batch - discarded_batch) if", "num_logical_errors_batch / batch if")),
    b("pl-mean", ("p_l = ((i - 1) * p_l + p_l_batch) / i", "p_l = (p_l + p_l_batch) / 2")),
    b("ra", ("r_a_batch = 1 - discarded_batch / batch", "r_a_batch = discarded_batch / batch")),
    b("k", ("return p_l / self.code.k,", "return p_l,")),
    b("k2", ("return p_l / self.code.k,", "return p_l / self.code.n,")),
    b("stop", ("num_logical_errors >= min_errors", "num_logical_errors > min_errors")),
    b("stop2", ("num_logical_errors >= min_errors", "num_logical_errors_batch >= min_errors")),
    b("floor", ("np.ceil(shots / batch)", "np.floor(shots / batch)")),
    b("shots", ("            num_shots += batch\n", "            num_shots += batch - discarded_batch\n")),
    r("extract", ("""        for check in self.code.Hz:
            supp = _support(check)
            anc = self.stim_circ.num_qubits
            for q in supp:
                self.stim_circ.append_operation("CX", [q, anc])
            self.stim_circ.append_operation("MRZ", [anc])
            self.z_measurements.append(self.n_measurements)
            self.n_measurements += 1
""", """        for check in self.code.Hz:
            self._one(check)
"""), ("    def measure_z(self)", """    def _one(self, check):
        anc = self.stim_circ.num_qubits
        self.z_measurements.append(self.n_measurements)
        self.n_measurements += 1
        for q in np.nonzero(check)[0]:
            self.stim_circ.append("CX", [q, anc])
        self.stim_circ.append("MR", [anc])

    def measure_z(self)""")),
    r("z-first", ("        for check in self.code.Hx:", MZ + "\n        for check in self.code.Hx:"), ("            self.x_measurements.append(self.n_measurements)\n            self.n_measurements += 1\n\n" + MZ, "            self.x_measurements.append(self.n_measurements)\n            self.n_measurements += 1\n")),
    r("idle-batch", ("""            for q in self.circ.qubits:
                qubit = self.circ.find_bit(q)[0]
                if initialized[qubit] and qubit not in used_qubits:
                    stim_circuit.append_operation("DEPOLARIZE1", [self.circ.find_bit(q)[0]], [2 * self.p / 3])
""", """            idle = [i for i, q in enumerate(self.circ.qubits) if initialized[i] and i not in used_qubits]
            if idle:
                stim_circuit.append_operation("DEPOLARIZE1", idle, [2 * self.p / 3])
""")),
    r("rate-var", ("        initialized = [False for _ in self.circ.qubits]\n", "        initialized = [False] * self.circ.num_qubits\n        single = 2 * self.p / 3\n"), ('append_operation("X_ERROR", [anc], [2 * self.p / 3])', 'append_operation("X_ERROR", [anc], single)')),
    r("mod-first", ("np.any(corrected @ observables.T % 2 != 0, axis=1)", "((corrected @ observables.T) % 2).any(axis=1)")),
    r("keep", ("index_array = np.where(np.all(detection_events[:, verification_measurements] == 0, axis=1))[0]", "index_array = ~np.any(detection_events[:, verification_measurements], axis=1)")),
    r("meas-list", ('        self.stim_circ.append_operation("MRZ", list(range(self.num_qubits)))', '        for q in range(self.num_qubits):\n            self.stim_circ.append_operation("MRZ", [q])')),
    r("ratio", ("            i += 1\n\n        return", "            i = i + 1\n\n        return"), ("p_l = ((i - 1) * p_l + p_l_batch) / i", "p_l += (p_l_batch - p_l) / i")),
    r("code-n", ("self.data_measurements = [self.n_measurements + i for i in range(self.num_qubits)]", "self.data_measurements = list(range(self.n_measurements, self.n_measurements + self.num_qubits))")),
]
