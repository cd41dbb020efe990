from cases_analog import mk

C = "src/mqt/qecc/codes/"
CASES = []
b, r = mk("06", C + "css_code.py")
CASES += [
    b("dist", ('"tetrahedral": (7, 3)', '"tetrahedral": (3, 7)')),
    b("dist2", ('"golay": (7, 7)', '"golay": (5, 5)')),
    b("swap", ('hx = np.load(paths[code_name] / "hx.npy")', 'hx = np.load(paths[code_name] / "hz.npy")')),
    b("default", ("                distance = 3\n            code_name", "                distance = 5\n            code_name")),
    b("path", ('"surface_5": prefix / "rotated_surface_d5/"', '"surface_5": prefix / "rotated_surface_d3/"')),
    b("lower", ("code_name = code_name.lower()", "code_name = code_name.strip()")),
    b("max", ("distance = min(x_distance, z_distance)", "distance = max(x_distance, z_distance)")),
    b("xz", ("x_distance=x_distance, z_distance=z_distance)\n\n            if", "x_distance=z_distance, z_distance=x_distance)\n\n            if")),
    b("fallback", ('        msg = f"Unknown code name: {code_name}"\n        raise InvalidCSSCodeError(msg)\n\n\nclass', '        return CSSCode.from_code_name("steane")\n\n\nclass')),
    r("table", ("        prefix = (Path(__file__) / \"../\").resolve()\n", "        prefix = Path(__file__).parent\n")),
    r("join", ('hx = np.load(paths[code_name] / "hx.npy")\n            hz = np.load(paths[code_name] / "hz.npy")', 'hx, hz = (np.load(paths[code_name].joinpath(f)) for f in ("hx.npy", "hz.npy"))')),
    r("get", ("if code_name in paths:\n            hx", "folder = paths.get(code_name)\n        if folder is not None:\n            hx"), ("paths[code_name] / \"hx.npy\"", "folder / \"hx.npy\""), ("paths[code_name] / \"hz.npy\"", "folder / \"hz.npy\"")),
]
b, r = mk("06", C + "hexagonal_color_code.py")
CASES += [
    b("hex-colour", ('colour = ["r", "b", "g"]', 'colour = ["r", "g", "b"]')),
    b("hex-nbr", ("(x - 2, y),", "(x - 3, y),")),
    b("hex-max", ("x_max = self.distance + self.distance // 2", "x_max = self.distance + (self.distance - 1) // 2 - self.distance // 7")),
    b("hex-mod", ("ancilla_colour = colour[y % 3]", "ancilla_colour = colour[y % 3 if y < 9 else 0]")),
    b("hex-green", ("data_or_ancilla in {1, 2}", "data_or_ancilla in {0, 1}")),
    b("hex-adj", ("self.qubits_to_faces[qubit_idx].append(idx)", "self.qubits_to_faces[idx].append(idx)")),
    b("hex-cap", ("            self.faces_to_qubits[idx] = qbts\n", "            self.faces_to_qubits[idx] = qbts[:4]\n")),
    b("hex-H", ("self.H[idx, qb] = 1", "self.H[idx, qb] = len(qbts) // 2")),
    r("hex-rows", ("            if ancilla_colour == \"r\":\n                self.red_row(x_max, y)\n            elif ancilla_colour == \"b\":\n                self.blue_row(x_max, y)\n            else:\n                self.green_row(x_max, y)\n", "            {\"r\": self.red_row, \"b\": self.blue_row, \"g\": self.green_row}[ancilla_colour](x_max, y)\n")),
    r("hex-get", ("                if coord in coords_to_idx:\n                    qubit_idx = coords_to_idx[coord]\n                    qbts", "                qubit_idx = coords_to_idx.get(coord)\n                if qubit_idx is not None:\n                    qbts")),
    r("hex-sum", ("        i = 0\n        x_row = y\n        while i < x_max:\n            data_or_ancilla = i % 3\n            if data_or_ancilla in {0, 2}:\n                self.data_qubits.add((x_row, y))\n            else:\n                self.ancilla_qubits.add((x_row, y))\n            i += 1\n            x_row += 2\n", "        for i in range(x_max):\n            row = self.ancilla_qubits if i % 3 == 1 else self.data_qubits\n            row.add((y + 2 * i, y))\n")),
    r("hex-enum", ("for idx, q in enumerate(self.data_qubits):\n            coords_to_idx[q] = idx\n            self.qubits_to_faces[idx] = []\n", "coords_to_idx = {q: i for i, q in enumerate(sorted(self.data_qubits))}\n        self.qubits_to_faces = {i: [] for i in coords_to_idx.values()}\n")),
    r("hex-slice", ("            for qb in qbts:\n                self.H[idx, qb] = 1\n", "            self.H[idx, qbts] = 1\n")),
]
b, r = mk("06", C + "square_octagon_color_code.py")
CASES += [
    b("sq-bottom", ("range(4, self.distance // 2 * 6, 6)", "range(4, (self.distance // 2 - 1) * 6 + (4 if self.distance < 6 else 0), 6)")),
    b("sq-row", ("                x_max -= 2\n", "                x_max -= 2 if y < 8 else 1\n")),
    b("sq-union", ("self.square_ancilla_qubits.union(self.octagon_ancilla_qubits)", "self.square_ancilla_qubits.union(set())")),
]
b, r = mk("06", C + "color_code.py")
CASES += [
    b("cc-args", ("CSSCode.__init__(self, distance, self.H, self.H)", "CSSCode.__init__(self, distance + 2, self.H, self.H)")),
    b("cc-shape", ("np.zeros((len(self.ancilla_qubits), len(self.data_qubits)), dtype=int)", "np.ones((len(self.ancilla_qubits), len(self.data_qubits)), dtype=int)")),
    r("cc-super", ("CSSCode.__init__(self, distance, self.H, self.H)", "super().__init__(distance, Hx=self.H, Hz=self.H)")),
    r("cc-copy", ("CSSCode.__init__(self, distance, self.H, self.H)", "super().__init__(self.distance, self.H.copy(), np.array(self.H))")),
]
