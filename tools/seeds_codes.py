C = "src/mqt/qecc/codes/"
HEAD = "import numpy as np\nfrom mqt.qecc.codes import *\nfrom mqt.qecc.codes.css_code import CSSCode\n"
SEEDS = {
    "b01-logical-parity": dict(
        property="P01", edits=[(C + "css_code.py", "return bool((self.Lx @ residual % 2 == 1).any())", "return bool((self.Lx @ residual).sum() % 2 == 1)")],
        needs="a code with several logical qubits and a residual that anticommutes with an even number of logical operators",
        breaks="a logical Z error acting on two logical qubits at once is reported as harmless",
        demo=HEAD + '''
c = CSSCode.from_code_name("hamming")
r = (c.Lz[0] + c.Lz[1]) % 2
for i in range(len(c.Lz)):
    for j in range(i):
        r = (c.Lz[i] + c.Lz[j]) % 2
        assert c.check_if_logical_z_error(r), (i, j)
'''),
    "b02-coset-onesided": dict(
        property="P02", edits=[(C + "css_code.py", "        m2 = np.vstack([self.Hz, error_2])\n        m3 = np.vstack([self.Hz, error_1, error_2])\n        return bool(mod2.rank(m1) == mod2.rank(m2) == mod2.rank(m3))", "        m3 = np.vstack([self.Hz, error_1, error_2])\n        return bool(mod2.rank(m1) == mod2.rank(m3))")],
        needs="a non-trivial first error and a second error that is itself a stabilizer",
        breaks="a non-trivial error is called equivalent to a stabilizer (the relation is no longer symmetric)",
        demo=HEAD + '''
c = CSSCode.from_code_name("steane")
e = np.zeros(7, dtype=np.int8); e[0] = 1
s = c.Hz[0]
assert not c.stabilizer_eq_z_error(e, s)
assert not c.stabilizer_eq_z_error(s, e)
'''),
    "b03-overlap-sum": dict(
        property="P04", edits=[(C + "css_code.py", "if np.any(Hx @ Hz.T % 2 != 0):", "if np.any((Hx @ Hz.T).sum(axis=0) % 2 != 0):")],
        needs="a Z check that anticommutes with an even number of X checks",
        breaks="non-commuting check matrices are accepted as a CSS code",
        demo=HEAD + '''
hx = np.array([[1, 0, 0, 0], [0, 1, 0, 0]], dtype=np.int8)
hz = np.array([[1, 1, 0, 0]], dtype=np.int8)
try:
    CSSCode(1, hx, hz)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
    "b04-bb-torus": dict(
        property="P05", edits=[],
        needs="", breaks="", demo=HEAD),
}
del SEEDS["b04-bb-torus"]
