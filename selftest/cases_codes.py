C = "src/mqt/qecc/codes/"
CSS = C + "css_code.py"
STB = C + "stabilizer_code.py"
COL = C + "color_code.py"
BB = C + "bb_codes.py"
CASES = [
    ("p01-swap-x", "P01", "bug", [(CSS, "return self.Hx @ error % 2", "return self.Hz @ error % 2")]),
    ("p01-nomod", "P01", "bug", [(CSS, "return self.Hz @ error % 2", "return self.Hz @ error")]),
    ("p01-logside", "P01", "bug", [(CSS, "bool((self.Lz @ residual % 2 == 1).any())", "bool((self.Lx @ residual % 2 == 1).any())")]),
    ("p01-logall", "P01", "bug", [(CSS, "bool((self.Lz @ residual % 2 == 1).any())", "bool((self.Lz @ residual % 2 == 1).all())")]),
    ("p01-log-first", "P01", "bug", [(CSS, "bool((self.Lz @ residual % 2 == 1).any())", "bool((self.Lz[0] @ residual % 2 == 1))")]),
    ("p01-log-nomod", "P01", "bug", [(CSS, "bool((self.Lz @ residual % 2 == 1).any())", "bool((self.Lz @ residual == 1).any())")]),
    ("p01-log-nomod2", "P01", "bug", [(CSS, "bool((self.Lz @ residual % 2 == 1).any())", "bool((self.Lz @ residual).any())")]),
    ("p01-color", "P01", "bug", [(COL, "return bool((self.L @ residual % 2).any())", "return bool((self.H @ residual % 2).any())")]),
    ("p01-r1", "P01", "refactor", [(CSS, "return self.Hx @ error % 2", "syndrome = self.Hx @ error\n        syndrome %= 2\n        return syndrome")]),
    ("p01-r2", "P01", "refactor", [(CSS, "return self.Hx @ error % 2", "return np.mod(np.dot(self.Hx, error), 2)")]),
    ("p01-r3", "P01", "refactor", [(CSS, "return self.Hx @ error % 2", "return _syn(self.Hx, error)"), (CSS, "class CSSCode(", "def _syn(h, e):\n    return h @ e % 2\n\n\nclass CSSCode(")]),
    ("p01-r4", "P01", "refactor", [(CSS, "return bool((self.Lz @ residual % 2 == 1).any())", "parities = self.Lz @ residual % 2\n        for p in parities:\n            if p == 1:\n                return True\n        return False")]),
    ("p01-r5", "P01", "refactor", [(CSS, "return bool((self.Lz @ residual % 2 == 1).any())", "return bool(np.any((self.Lz @ residual) % 2))")]),
    ("p01-r6", "P01", "refactor", [(CSS, "return self.Hx @ error % 2", "return np.array([int(row @ error) % 2 for row in self.Hx], dtype=np.int8)")]),
    ("p01-r7", "P01", "refactor", [(CSS, "return bool((self.Lz @ residual % 2 == 1).any())", "return self._anti(self.Lz, residual)"), (CSS, "    def check_if_x_stabilizer", "    @staticmethod\n    def _anti(logicals, residual):\n        return bool((logicals @ residual % 2 != 0).any())\n\n    def check_if_x_stabilizer")]),
    ("p02-side", "P02", "bug", [(CSS, "bool(mod2.rank(np.vstack((self.Hx, pauli))) == mod2.rank(self.Hx))", "bool(mod2.rank(np.vstack((self.Hx, pauli))) == mod2.rank(self.Hz))")]),
    ("p02-eqpart", "P02", "bug", [(CSS, "return bool(mod2.rank(m1) == mod2.rank(m2) == mod2.rank(m3))", "return bool(mod2.rank(m1) == mod2.rank(m2))")]),
    ("p02-eqpart2", "P02", "bug", [(CSS, "return bool(mod2.rank(m1) == mod2.rank(m2) == mod2.rank(m3))", "return bool(mod2.rank(m1) == mod2.rank(m3))")]),
    ("p02-stack", "P02", "bug", [(CSS, "m3 = np.vstack([self.Hz, error_1, error_2])", "m3 = np.vstack([self.Hx, error_1, error_2])")]),
    ("p02-sd", "P02", "bug", [(CSS, "mod2.rank(self.Hx) == mod2.rank(self.Hz)\n            and mod2.rank(self.Hx)", "mod2.rank(self.Hx)")]),
    ("p02-sd2", "P02", "bug", [(CSS, "mod2.rank(self.Hx) == mod2.rank(self.Hz)\n", "self.Hx.shape[0] == self.Hz.shape[0]\n")]),
    ("p02-hash", "P02", "bug", [(STB, "hash((self.n, self.k))", "hash(int.from_bytes(self.generators.tobytes(), sys.byteorder))")]),
    ("p02-eq", "P02", "bug", [(STB, "rnk == mod2.rank(other.generators) and rnk", "rnk")]),
    ("p02-sd-r", "P02", "refactor", [(CSS, "        return bool(\n            mod2.rank(self.Hx) == mod2.rank(self.Hz)\n            and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))\n        )", "        rx = mod2.rank(self.Hx)\n        rz = mod2.rank(self.Hz)\n        both = mod2.rank(np.vstack([self.Hx, self.Hz]))\n        return bool(rx == rz == both)")]),
    ("p02-r1", "P02", "refactor", [(CSS, "bool(mod2.rank(np.vstack((self.Hx, pauli))) == mod2.rank(self.Hx))", "self._in(self.Hx, pauli)"), (CSS, "    def is_self_dual", "    @staticmethod\n    def _in(h, v):\n        before = mod2.rank(h)\n        after = mod2.rank(np.vstack((h, v)))\n        return bool(after == before)\n\n    def is_self_dual")]),
    ("p02-r2", "P02", "refactor", [(CSS, "return bool(mod2.rank(m1) == mod2.rank(m2) == mod2.rank(m3))", "r1 = mod2.rank(m1)\n        r2 = mod2.rank(m2)\n        if r1 != r2:\n            return False\n        return bool(mod2.rank(m3) == r1)")]),
    ("p02-r3", "P02", "refactor", [(CSS, "        m3 = np.vstack([self.Hx, error_1, error_2])\n        return bool(mod2.rank(m1) == mod2.rank(m2) == mod2.rank(m3))", "        m3 = np.vstack([m1, error_2])\n        ranks = {mod2.rank(m) for m in (m1, m2, m3)}\n        return len(ranks) == 1")]),
    ("p03-swap", "P03", "bug", [(CSS, "self.Lx = CSSCode._compute_logical(self.Hz, self.Hx)", "self.Lx = CSSCode._compute_logical(self.Hx, self.Hz)")]),
    ("p03-emb", "P03", "bug", [(CSS, "z_padded = np.hstack([x_padding, self.Hz])", "z_padded = np.hstack([self.Hz, x_padding])")]),
    ("p03-letter", "P03", "bug", [(CSS, '"Z" if bit == 1 else "I" for bit in row) for row in self.Lz', '"X" if bit == 1 else "I" for bit in row) for row in self.Lz')]),
    ("p03-r1", "P03", "refactor", [(CSS, 'return ["".join("X" if bit == 1 else "I" for bit in row) for row in self.Hx]', 'return self._strings(self.Hx, "X")'), (CSS, "    def is_self_dual", "    @staticmethod\n    def _strings(m, letter):\n        out = []\n        for row in m:\n            s = \"\"\n            for bit in row:\n                s += letter if bit == 1 else \"I\"\n            out.append(s)\n        return out\n\n    def is_self_dual")]),
    ("p03-r2", "P03", "refactor", [(CSS, "log_op_indices = [i for i in range(im_m2_transp.shape[0], log_stack.shape[0]) if i in pivots]\n        return log_stack[log_op_indices]", "first = im_m2_transp.shape[0]\n        chosen = []\n        for i in range(first, log_stack.shape[0]):\n            if i in pivots:\n                chosen.append(i)\n        return log_stack[chosen]")]),
    # Ragged generators are refused one constructor further up, so both of these still reject.
    ("p04-shape", "P04", "refactor", [(CSS, "if Hx.shape[1] != Hz.shape[1]:", "if Hx.shape[1] < Hz.shape[1]:"), (CSS, "if np.any(Hx @ Hz.T % 2 != 0):", "if np.any(Hx[:, : Hz.shape[1]] @ Hz.T % 2 != 0):")]),
    ("p04-shape-error", "P04", "refactor", [(CSS, "if Hx.shape[1] != Hz.shape[1]:", "if Hx.shape[1] < Hz.shape[1]:")]),
    ("p04-orth", "P04", "bug", [(CSS, "if np.any(Hx @ Hz.T % 2 != 0):", "if np.all(Hx @ Hz.T % 2 != 0):")]),
    ("p04-orth2", "P04", "bug", [(CSS, "if np.any(Hx @ Hz.T % 2 != 0):", "if np.any(Hx @ Hz.T % 2 > 1):")]),
    ("p04-and", "P04", "bug", [(CSS, "if self.x_distance < self.distance or self.z_distance", "if self.x_distance < self.distance and self.z_distance")]),
    ("p04-le", "P04", "bug", [(STB, "distance <= 0", "distance < 0")]),
    ("p04-r1", "P04", "refactor", [(CSS, "if np.any(Hx @ Hz.T % 2 != 0):", "overlap = (Hx @ Hz.T) % 2\n            if overlap.any():")]),
    ("p04-r2", "P04", "refactor", [(CSS, "if self.x_distance < self.distance or self.z_distance < self.distance:", "if min(self.x_distance, self.z_distance) < self.distance:")]),
    ("p04-r3", "P04", "refactor", [(CSS, "        if Hx is not None and Hz is not None:\n            if Hx", "        if Hx is None or Hz is None:\n            return\n        if True:\n            if Hx")]),
    ("p04-r4", "P04", "refactor", [(CSS, "if self.x_distance < self.distance or self.z_distance < self.distance:", "if not (self.x_distance >= self.distance and self.z_distance >= self.distance):")]),
    ("p05-dist", "P05", "bug", [(BB, "18", "12")]),
]
