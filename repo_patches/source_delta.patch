From 59b51ca2bfd194240cd7ffed70a11947e677ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 01/58] fix: colour codes report logical errors (numpy truth
 value was compared by identity with True)

---
 src/mqt/qecc/codes/color_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/color_code.py b/src/mqt/qecc/codes/color_code.py
index 3f65069..8d94c97 100644
--- a/src/mqt/qecc/codes/color_code.py
+++ b/src/mqt/qecc/codes/color_code.py
@@ -63,4 +63,4 @@ class ColorCode(CSSCode):
 
     def check_if_logical_error(self, residual: npt.NDArray[np.int_]) -> bool:
         """Check if the residual is a logical error."""
-        return (self.L @ residual % 2).any() is True
+        return bool((self.L @ residual % 2).any())
-- 
2.43.0


From c771b83603cda5c4236580299f6614dd0a8cea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 02/58] fix: equal stabilizer codes hash equally and codes of
 different size compare unequal

---
 src/mqt/qecc/codes/stabilizer_code.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 88832ea..f687576 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -74,12 +74,14 @@ class StabilizerCode:
 
     def __hash__(self) -> int:
         """Compute a hash for the stabilizer code."""
-        return hash(int.from_bytes(self.generators.tobytes(), sys.byteorder))
+        return hash((self.n, self.k))
 
     def __eq__(self, other: object) -> bool:
         """Check if two stabilizer codes are equal."""
         if not isinstance(other, StabilizerCode):
             return NotImplemented
+        if self.n != other.n:
+            return False
         rnk = mod2.rank(self.generators)
         return bool(
             rnk == mod2.rank(other.generators) and rnk == mod2.rank(np.vstack((self.generators, other.generators)))
-- 
2.43.0


From 060a88bd85f15a10deceed8745f8f60dba529e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 03/58] fix: self-duality requires both check matrices to span
 the same space

---
 src/mqt/qecc/codes/css_code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index 5373ba0..dbfa6fe 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -139,7 +139,8 @@ class CSSCode(StabilizerCode):
         if self.Hx is None or self.Hz is None:
             return False
         return bool(
-            self.Hx.shape[0] == self.Hz.shape[0] and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))
+            mod2.rank(self.Hx) == mod2.rank(self.Hz)
+            and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))
         )
 
     @staticmethod
-- 
2.43.0


From 04a7f755278cb9ce0bfdd148fc59b77115b2a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 04/58] fix: fault sets include the errors that pass through
 the gate they precede

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dd1c80e..df8527f 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1185,7 +1185,7 @@ def _propagate_error(nodes: list[DAGNode], n_qubits: int, x_errors: bool = True)
     error: npt.NDArray[np.int8] = np.array([0] * n_qubits, dtype=np.int8)
     error[control] = 1
     # propagate error through circuit via bfs
-    for node in nodes[1:]:
+    for node in nodes:
         control = node.qargs[0]._index  # noqa: SLF001
         target = node.qargs[1]._index  # noqa: SLF001
         if x_errors:
-- 
2.43.0


From 60307c94ffa02581ac514c87a108190e961bac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 05/58] fix: hook errors are the remaining suffixes of the
 measured stabilizer

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index df8527f..50c9277 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1608,5 +1608,4 @@ def _hook_errors(stabs: list[npt.NDArray[np.int8]]) -> npt.NDArray[np.int8]:
             if stab[i] == 1:
                 error[i] = 0
                 errors.append(error.copy())
-                error[i] = 1
     return np.array(errors)
-- 
2.43.0


From 3ad5d85c902523e803835c0139b3a6b8773beead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 06/58] fix: flagged Z verification measures every ancilla once

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 50c9277..909701a 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -955,7 +955,7 @@ def _measure_ft_z(qc: QuantumCircuit, z_measurements: list[npt.NDArray[np.int8]]
             measure_flagged(qc, stab, z_anc[i], z_c[i], z_measurement=True, t=t)
         else:
             qc.cx(stab, [z_anc[i]] * len(stab))
-    qc.measure(z_anc, z_c)
+            qc.measure(z_anc[i], z_c[i])
 
 
 def _measure_ft_stabs(
-- 
2.43.0


From df9e1cd906e91848db8c48ef8c557a19cfb3b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 07/58] fix: two-flag measurement opens and closes each flag
 once for every stabilizer weight

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 909701a..b395381 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1337,7 +1337,7 @@ def measure_flagged(
         _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-    if w < 3 and t == 2:
+    if w <= 3 and t == 2:
         _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
@@ -1432,10 +1432,11 @@ def measure_stab_two_flagged(
         if cnots % 2 == 0 and cnots < len(stab) - 2:
             _flag_init(qc, flag_reg[flags], z_measurement)
             _ancilla_cnot(qc, flag_reg[flags], ancilla, z_measurement)
+            flags += 1
         if cnots >= 7 and cnots % 2 == 1:
-            _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-            _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
-        flags += 1
+            closing = (cnots - 3) // 2
+            _ancilla_cnot(qc, flag_reg[closing], ancilla, z_measurement)
+            _flag_measure(qc, flag_reg[closing], meas_reg[closing], z_measurement)
 
     _ancilla_cnot(qc, flag_reg[0], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[0], meas_reg[0], z_measurement)
@@ -1444,8 +1445,9 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        closing = (cnots - 3) // 2
+        _ancilla_cnot(qc, flag_reg[closing], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[closing], meas_reg[closing], z_measurement)
 
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[1], meas_reg[1], z_measurement)
@@ -1454,8 +1456,9 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        closing = (cnots - 3) // 2
+        _ancilla_cnot(qc, flag_reg[closing], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[closing], meas_reg[closing], z_measurement)
     if not z_measurement:
         qc.h(ancilla)
 
-- 
2.43.0


From 819d13e4ced78599eac529240eebe83f7f01d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 08/58] fix: every repeated measurement of an ancilla counts as
 a reuse

---
 src/mqt/qecc/ft_stateprep/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 6759632..f043962 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -171,7 +171,7 @@ class NoisyNDFTStatePrepSimulator:
                         used_qubits.append(anc)
                     initialized[anc] = False
                     measured[anc] += 1
-                    if measured[anc] == 2:
+                    if measured[anc] >= 2:
                         self._reused_qubits += 1
 
         return stim_circuit
-- 
2.43.0


From 716826cbb51180eefea5ed4bef6d5e8426c9908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 09/58] fix: lookup tables are shared only between equal check
 matrices and keyed uniformly

---
 src/mqt/qecc/ft_stateprep/simulation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index f043962..c4c4851 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -361,13 +361,13 @@ class LutDecoder:
         """Decode the X errors given a syndrome."""
         if len(self.x_lut) == 0:
             self.generate_x_lut()
-        return self.x_lut[syndrome.tobytes()]
+        return self.x_lut[syndrome.astype(np.int8).tobytes()]
 
     def decode_z(self, syndrome: npt.NDArray[np.int8]) -> npt.NDArray[np.int8]:
         """Decode the Z errors given a syndrome."""
         if len(self.z_lut) == 0:
             self.generate_z_lut()
-        return self.z_lut[syndrome.tobytes()]
+        return self.z_lut[syndrome.astype(np.int8).tobytes()]
 
     def generate_x_lut(self) -> None:
         """Generate the lookup table for the X errors."""
@@ -376,7 +376,7 @@ class LutDecoder:
 
         assert self.code.Hz is not None, "The code does not have a Z stabilizer matrix."
         self.x_lut = LutDecoder._generate_lut(self.code.Hz)
-        if self.code.is_self_dual():
+        if np.array_equal(self.code.Hx, self.code.Hz):
             self.z_lut = self.x_lut
 
     def generate_z_lut(self) -> None:
@@ -386,8 +386,8 @@ class LutDecoder:
 
         assert self.code.Hx is not None, "The code does not have an X stabilizer matrix."
         self.z_lut = LutDecoder._generate_lut(self.code.Hx)
-        if self.code.is_self_dual():
-            self.z_lut = self.x_lut
+        if np.array_equal(self.code.Hx, self.code.Hz):
+            self.x_lut = self.z_lut
 
     @staticmethod
     def _generate_lut(checks: npt.NDArray[np.int_]) -> dict[bytes, npt.NDArray[np.int_]]:
-- 
2.43.0


From f2ac0af89d15f97c691cd70f473e3e13d6c9549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 10/58] fix: the overlap constraint of verification stabilizers
 is a parity

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index b395381..9ece769 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1099,7 +1099,11 @@ def _symbolic_vector_add(
 
 def _odd_overlap(v_sym: npt.NDArray[z3.BoolRef | bool], v_con: npt.NDArray[np.int8]) -> z3.BoolRef:
     """Return True if the overlap of symbolic vector with constant vector is odd."""
-    return z3.PbEq([(v_sym[i], 1) for i, c in enumerate(v_con) if c == 1], 1)
+    overlap = z3.BoolVal(False)
+    for i, c in enumerate(v_con):
+        if c == 1:
+            overlap = z3.Xor(overlap, v_sym[i])
+    return overlap
 
 
 def _symbolic_vector_eq(v1: npt.NDArray[z3.BoolRef | bool], v2: npt.NDArray[z3.BoolRef | bool]) -> z3.BoolRef:
-- 
2.43.0


From 74ca12b707facd3e8d1f52b3ca923a5f60dac190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 11/58] fix: optimal state preparation handles redundant checks

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 9ece769..a766a9a 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -401,7 +401,7 @@ def _optimal_circuit(
     if code.Hx is None or code.Hz is None:
         msg = "Code must have both X and Z stabilizers defined."
         raise ValueError(msg)
-    checks = code.Hx if zero_state else code.Hz
+    checks = mod2.row_basis(code.Hx if zero_state else code.Hz)  # the synthesis needs independent rows
 
     def fun(param: int) -> QuantumCircuit | None:
         return prep_func(checks, param, zero_state)
-- 
2.43.0


From ca83579ec849ae00106ed1a8c308ec6eb1c97d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 12/58] fix: a search step that raises counts as having no
 solution

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index a766a9a..fe8058e 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -525,7 +525,7 @@ def _run_with_timeout(func: Callable[[Any], Any], *args: Any, timeout: int = 10)
     if p.is_alive():
         p.terminate()
         return "timeout"
-    return return_list[0]
+    return return_list[0] if len(return_list) > 0 else None  # empty if the function raised
 
 
 def iterative_search_with_timeout(
-- 
2.43.0


From a8d24b6df16bbe396e693b9f58eb1fe9d98771ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 13/58] fix: keep the qubit order when the heuristic synthesis
 leaves a local minimum

mod2.reduced_row_echelon moves the pivot columns to the front, so the
remaining column operations acted on the wrong qubits.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index fe8058e..a6ab76c 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -229,7 +229,7 @@ def heuristic_prep_circuit(code: CSSCode, optimize_depth: bool = True, zero_stat
         if np.all(costs_unused >= 0) or len(used_qubits) == checks.shape[1]:  # no more reductions possible
             if not used_qubits:  # local minimum => get out by making matrix triangular
                 logging.warning("Local minimum reached. Making matrix triangular.")
-                checks = mod2.reduced_row_echelon(checks)[0]
+                checks = mod2.row_echelon(checks, full=True)[0]  # keeps the order of the columns
                 costs = np.array([
                     [np.sum((checks[:, i] + checks[:, j]) % 2) for j in range(checks.shape[1])]
                     for i in range(checks.shape[1])
-- 
2.43.0


From bd8be111c145704d1832635df612d80147157b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 14/58] fix: build the bivariate bicycle codes on the torus
 their callers name

The helper took the two sizes in the opposite order, which made the 90
qubit code a code of distance 2 instead of 10.
---
 src/mqt/qecc/codes/bb_codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/bb_codes.py b/src/mqt/qecc/codes/bb_codes.py
index 049bcdf..09279ea 100644
--- a/src/mqt/qecc/codes/bb_codes.py
+++ b/src/mqt/qecc/codes/bb_codes.py
@@ -67,7 +67,7 @@ def _cyclic_matrix_sum(x_terms: list[int], y_terms: list[int], l_: int, m: int)
 
 
 def _cyclic_code_check_matrix(
-    m: int, l_: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
+    l_: int, m: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
 ) -> tuple[npt.NDArray[np.int8], npt.NDArray[np.int8]]:
     a = _cyclic_matrix_sum(a_terms[0], a_terms[1], l_, m) % 2
     b = _cyclic_matrix_sum(b_terms[0], b_terms[1], l_, m) % 2
-- 
2.43.0


From 7fca993f416d348b28caafdce3a73f5f2eb8477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 15/58] fix: initialise a qubit prepared in the plus state also
 when it is first a target

to_stim_circ dropped the Hadamard gate of a qubit whose first two-qubit gate
uses it as target, and reused stale Hadamard marks for reset ancillas.
---
 src/mqt/qecc/ft_stateprep/simulation.py | 29 +++++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index c4c4851..38e1386 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -109,6 +109,18 @@ class NoisyNDFTStatePrepSimulator:
                 if initialized[qubit] and qubit not in used_qubits:
                     stim_circuit.append_operation("DEPOLARIZE1", [self.circ.find_bit(q)[0]], [2 * self.p / 3])
 
+        def initialize(qubit: int) -> None:
+            """Prepare the qubit before its first use: in the plus state if a Hadamard gate came first, in the zero state otherwise."""
+            if initialized[qubit]:
+                return
+            if qubit in ctrls:
+                ctrls.remove(qubit)
+                stim_circuit.append_operation("H", [qubit])
+                stim_circuit.append_operation("Z_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+            else:
+                stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+            initialized[qubit] = True
+
         dag = circuit_to_dag(self.circ)
         layers = dag.layers()
         used_qubits: list[int] = []
@@ -125,8 +137,9 @@ class NoisyNDFTStatePrepSimulator:
             for gate in layer_circ.data:
                 if gate.operation.name == "h":
                     qubit = self.circ.find_bit(gate.qubits[0])[0]
-                    ctrls.append(qubit)
-                    if initialized[qubit]:
+                    if not initialized[qubit]:
+                        ctrls.append(qubit)
+                    else:
                         stim_circuit.append_operation("H", [qubit])
                         stim_circuit.append_operation("DEPOLARIZE1", [qubit], [2 * self.p / 3])
                         if not self.parallel_gates:
@@ -138,16 +151,8 @@ class NoisyNDFTStatePrepSimulator:
                     ctrl = self.circ.find_bit(gate.qubits[0])[0]
                     target = self.circ.find_bit(gate.qubits[1])[0]
                     targets.add(target)
-                    if not initialized[ctrl]:
-                        if ctrl in ctrls:
-                            stim_circuit.append_operation("H", [ctrl])
-                            stim_circuit.append_operation("Z_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
-                        else:
-                            stim_circuit.append_operation("X_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
-                        initialized[ctrl] = True
-                    if not initialized[target]:
-                        stim_circuit.append_operation("X_ERROR", [target], [2 * self.p / 3])  # Wrong initialization
-                        initialized[target] = True
+                    initialize(ctrl)
+                    initialize(target)
 
                     stim_circuit.append_operation("CX", [ctrl, target])
                     stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])
-- 
2.43.0


From 53f3ecfd94f79e7686c0a37151ce707757025feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 16/58] fix: report the number of shots that were simulated

Without an early stop the loop counter is one ahead of the batches run.
---
 src/mqt/qecc/ft_stateprep/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 38e1386..1e6f650 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -240,6 +240,7 @@ class NoisyNDFTStatePrepSimulator:
         r_a = 0.0
 
         num_logical_errors = 0
+        num_shots = 0
 
         if self.zero_state:
             self.decoder.generate_x_lut()
@@ -261,13 +262,14 @@ class NoisyNDFTStatePrepSimulator:
 
             # Update statistics
             num_logical_errors += num_logical_errors_batch
+            num_shots += batch
             r_a = ((i - 1) * r_a + r_a_batch) / i
 
             if at_least_min_errors and num_logical_errors >= min_errors:
                 break
             i += 1
 
-        return p_l / self.code.k, r_a, num_logical_errors, i * batch
+        return p_l / self.code.k, r_a, num_logical_errors, num_shots
 
     def _simulate_batch(self, shots: int = 1024) -> tuple[int, int]:
         sampler = self.stim_circ.compile_sampler()
-- 
2.43.0


From e4150134149b035f5dfa0835258e9cc905fc0588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 17/58] fix: use the channel of the decoded error type in
 two-stage analog decoding

---
 .../qecc/analog_information_decoding/simulators/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 3365460..2843639 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -424,14 +424,14 @@ class SingleShotSimulator:
                 decoder=self.x_abpd,
                 hard_syndrome=x_syndrome_repaired,
                 analog_syndrome=x_syndrome_w_err,
-                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_x,
             )
             z_decoded = self._analog_tg_decoding(
                 decoder=self.z_abpd,
                 hard_syndrome=z_syndrome_repaired,
                 analog_syndrome=z_syndrome_w_err,
-                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_z,
             )
         else:
-- 
2.43.0


From 317d1c9dc09edf8e790c185293c3c2958c848aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 18/58] fix: threshold the analog syndrome in two-stage
 decoding without meta checks

---
 .../qecc/analog_information_decoding/simulators/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 2843639..8eb86c3 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -407,6 +407,8 @@ class SingleShotSimulator:
                 meta_pcm=self.Mx,
                 m_bp=self.mz_bp,
             )
+        elif self.analog_tg:
+            z_syndrome_repaired = get_binary_from_analog(z_syndrome_w_err)
         else:
             z_syndrome_repaired = np.copy(z_syndrome_w_err).astype(np.int32)
 
@@ -416,6 +418,8 @@ class SingleShotSimulator:
                 meta_pcm=self.Mz,
                 m_bp=self.mx_bp,
             )
+        elif self.analog_tg:
+            x_syndrome_repaired = get_binary_from_analog(x_syndrome_w_err)
         else:
             x_syndrome_repaired = np.copy(x_syndrome_w_err).astype(np.int32)
 
-- 
2.43.0


From 76a1e0a44a635fc65e7ac2b31b7ff59db9f6a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 19/58] fix: test the residual error against the stabilizers of
 its own type when no logicals are given

---
 .../analog_information_decoding/simulators/simulation.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 8eb86c3..43d00f5 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -219,13 +219,13 @@ class SingleShotSimulator:
 
         # check for logical errors
         # check if residual X-error commutes with Z-logical and vice versa
-        # equivalently, check if residual X-error is in rowspace of Hz and vice versa
+        # equivalently, check if residual X-error is in rowspace of Hx and residual Z-error in rowspace of Hz
         if self._check_logicals:
             is_x_logical_error = is_logical_err(self.lz, x_residual_err)
             is_z_logical_error = is_logical_err(self.lx, z_residual_err)
         else:
-            is_x_logical_error = check_logical_err_h(self.Hz, x_err, x_residual_err)
-            is_z_logical_error = check_logical_err_h(self.Hx, z_err, z_residual_err)
+            is_x_logical_error = check_logical_err_h(self.Hx, x_err, x_decoded)
+            is_z_logical_error = check_logical_err_h(self.Hz, z_err, z_decoded)
 
         return is_x_logical_error, is_z_logical_error
 
-- 
2.43.0


From ba1fcbf02a4e815c8c9725f89ff930be633537b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 20/58] fix: pass an analog syndrome to the analog decoders
 also without syndrome noise

---
 .../simulators/simulation.py                    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 43d00f5..7b5a505 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -232,15 +232,14 @@ class SingleShotSimulator:
     def _get_noisy_syndrome(
         self, x_syndrome: NDArray[np.int32], z_syndrome: NDArray[np.int32]
     ) -> tuple[NDArray[Any], NDArray[Any]]:
-        if self.syndr_err_rate != 0.0:
-            if self.analog_info or self.analog_tg:  # analog syndrome error with converted sigma
-                x_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=x_syndrome, sigma=self.sigma_x)
-                z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_z)
-            else:  # usual pauli error channel syndrome error
-                x_syndrome_err = generate_syndr_err(channel_probs=self.x_syndr_error_channel)
-                x_syndrome_w_err = (x_syndrome + x_syndrome_err) % 2
-                z_syndrome_err = generate_syndr_err(channel_probs=self.z_syndr_error_channel)
-                z_syndrome_w_err = (z_syndrome + z_syndrome_err) % 2
+        if self.analog_info or self.analog_tg:  # analog syndrome error with converted sigma
+            x_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=x_syndrome, sigma=self.sigma_x)
+            z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_z)
+        elif self.syndr_err_rate != 0.0:  # usual pauli error channel syndrome error
+            x_syndrome_err = generate_syndr_err(channel_probs=self.x_syndr_error_channel)
+            x_syndrome_w_err = (x_syndrome + x_syndrome_err) % 2
+            z_syndrome_err = generate_syndr_err(channel_probs=self.z_syndr_error_channel)
+            z_syndrome_w_err = (z_syndrome + z_syndrome_err) % 2
         else:
             x_syndrome_w_err = np.copy(x_syndrome)
             z_syndrome_w_err = np.copy(z_syndrome)
-- 
2.43.0


From 383c5831f9b62d4828157f12abc1c8e395c9a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 21/58] fix: open the result file of the single-shot simulation
 for writing

---
 .../qecc/analog_information_decoding/simulators/simulation.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 7b5a505..4f266e1 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -703,7 +703,7 @@ class SingleShotSimulator:
         output.update(self.input_values)
         output["bias"] = replace_inf(output["bias"])  # type: ignore[assignment, arg-type]
 
-        with Path(self.outfile).open(encoding=locale.getpreferredencoding(False)) as f:
+        with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             f.write(
                 json.dumps(
                     output,
-- 
2.43.0


From 07a9d536afd6ffe4d6a2a8649c506797d1abc54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 22/58] fix: define the syndrome deviations of the single-stage
 decoding also for hard syndromes

---
 .../qecc/analog_information_decoding/simulators/simulation.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 4f266e1..f0a5ce9 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -135,6 +135,9 @@ class SingleShotSimulator:
         if self.analog_info or self.analog_tg:
             self.sigma_x = get_sigma_from_syndr_er(self.x_syndr_error_channel[0])
             self.sigma_z = get_sigma_from_syndr_er(self.z_syndr_error_channel[0])
+        else:
+            self.sigma_x = 0.0
+            self.sigma_z = 0.0
 
         # if we want to decode with the analog tanner graph method construct respective matrices.
         # These are assumed to exist in the *_setup() methods
-- 
2.43.0


From a2387d2f91e8dced6a865ad0402da71a994f65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 23/58] fix: allow quasi single-shot simulation with hard
 syndromes

---
 .../simulators/quasi_single_shot_v2.py                     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 78183ba..8b68485 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -154,6 +154,8 @@ class QssSimulator:
             self.sigma = get_sigma_from_syndr_er(
                 self.syndr_err_channel[0]  # x/z + y
             )  # assumes all sigmas are the same
+        else:
+            self.sigma = 0.0
         self.bp_iterations = 0
         if self.decoding_method == "bposd":
             self.decoder = bposd_decoder(
@@ -173,7 +175,7 @@ class QssSimulator:
     def _decode_multiround(
         self,
         syndrome_mat: NDArray[np.int_],
-        analog_syndr_mat: NDArray[np.float64],
+        analog_syndr_mat: NDArray[np.float64] | None,
         last_round: bool = False,
     ) -> tuple[Any, NDArray[np.int32], NDArray[np.float64], int]:
         return decode_multiround(
@@ -195,8 +197,9 @@ class QssSimulator:
         # each column == measurement result of a single timestep
         syndrome_mat: NDArray[np.int32] = np.zeros((self.num_checks, self.repetitions), dtype=np.int32)
 
+        analog_syndr_mat: NDArray[np.float64] | None = None
         if self.analog_tg:
-            analog_syndr_mat: NDArray[np.float64] = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
+            analog_syndr_mat = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
 
         err: NDArray[np.int32] = np.zeros(self.num_qubits, dtype=np.int32)
         cnt = 0  # counter for syndrome_mat
-- 
2.43.0


From 556b5b8136de45bb8fa72f007a54316b743464bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 24/58] fix: restore the channel of the decoder after a perfect
 last round

---
 .../simulators/memory_experiment_v2.py                         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index b4ea3de..e64c092 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -128,6 +128,9 @@ def decode_multiround(
 
     if decoding_method == "bposd":
         bp_iter = decoder.iter
+        if last_round and not analog_tg:
+            # the decoder object is reused: undo the update made for the perfect last round
+            decoder.update_channel_probs(channel_probs)
 
     # extract space correction, first repetitions * n entire
     space_correction = decoded[: pcm.shape[1] * repetitions].reshape((repetitions, pcm.shape[1])).T
-- 
2.43.0


From 59ca5383cad30aabfb77a316adbbf98d48826484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 25/58] fix: merge result files also below a relative path

---
 .../utils/data_utils.py                       | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index edfde22..b861f17 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -365,16 +365,14 @@ def merge_json_files(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                file_path = folder_path / filename
-                with file_path.open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -405,15 +403,14 @@ def merge_json_files_x(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -444,8 +441,7 @@ def merge_json_files_z(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
 
         if not folder_path.is_dir():
             continue
@@ -453,7 +449,7 @@ def merge_json_files_z(input_path: str) -> None:
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -484,15 +480,14 @@ def merge_json_files_xz(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
-- 
2.43.0


From f29230b2199cbb9c8d3fd059d5261a45a9441cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 26/58] fix: store the bias of the analog Tanner graph
 simulation in a serialisable form

---
 .../simulators/analog_tannergraph_decoding.py                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index a85807f..315bde0 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -15,6 +15,7 @@ from ..utils.data_utils import (
     BpParams,
     calculate_error_rates,
     is_converged,
+    replace_inf,
 )
 
 if TYPE_CHECKING:
@@ -305,6 +306,7 @@ class AtdSimulator:
         }
 
         output.update(self.input_values)
+        output["bias"] = replace_inf(output["bias"])
         with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             json.dump(output, f, ensure_ascii=False, indent=4, default=lambda o: o.__dict__)
         return output
-- 
2.43.0


From c06c6abcb5844605b5eedcc220a5d64551661852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 27/58] fix: draw errors and syndrome noise from the generator
 the simulators seed

---
 .../analog_information_decoding/utils/simulation_utils.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
index af33225..a579df7 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
@@ -99,7 +99,7 @@ def generate_err(
     residual_err_z = residual_err[1]
 
     for i in range(nr_qubits):
-        rand = np.random.default_rng().random()  # this returns a random float in [0,1)
+        rand = np.random.random()  # noqa: NPY002  # this returns a random float in [0,1)
         # e.g. if err channel is p = 0.3, then an error will be applied if rand < p
         if rand < channel_probs_z[i]:  # if probability for z error high enough, rand < p, apply
             # if there is a z error on the i-th bit, flip the bit but take residual error into account
@@ -166,7 +166,7 @@ def generate_syndr_err(channel_probs: NDArray[np.float64]) -> NDArray[np.int32]:
     error: NDArray[np.int32] = np.zeros_like(channel_probs, dtype=np.int32)
 
     for i, p in np.ndenumerate(channel_probs):
-        rand = np.random.default_rng().random()
+        rand = np.random.random()  # noqa: NPY002
 
         if rand < p:
             error[i] = 1
@@ -187,7 +187,7 @@ def get_noisy_analog_syndrome(perfect_syndr: NDArray[np.int_], sigma: float) ->
     ).astype(float)
 
     # sample from Gaussian with zero mean and sigma std. dev: ~N(0, sigma_sq)
-    return np.array(np.random.default_rng().normal(loc=sgns, scale=sigma, size=perfect_syndr.shape)).astype(np.float64)
+    return np.array(np.random.normal(loc=sgns, scale=sigma, size=perfect_syndr.shape)).astype(np.float64)  # noqa: NPY002
 
 
 def error_channel_setup(
-- 
2.43.0


From 8547a27cf7ef77befbbb8cc43d99851205a63d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:39 +0000
Subject: [PATCH 28/58] fix: keep the merged X data when combining X and Z
 results

---
 src/mqt/qecc/analog_information_decoding/utils/data_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index b861f17..a9b5ef8 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -517,7 +517,8 @@ def _combine_xz_data(xdata: dict[str, Any] | None, zdata: dict[str, Any] | None)
         # print(xdata)
         xdata["x_runs"] = xdata.pop("nr_runs")
         zdata["z_runs"] = zdata.pop("nr_runs")
-        xdata.update(zdata)
+        # the X data of the Z datasets have not been merged
+        xdata.update({key: value for key, value in zdata.items() if key not in xdata or not key.startswith("x_")})
         return xdata
     if xdata:
         xdata["x_runs"] = xdata.pop("nr_runs")
-- 
2.43.0


From bcaee64c1cf0c0ed2e2aac86f17dd17573bacb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 29/58] fix: leave the caller's list of lights unchanged when
 decoding

---
 src/mqt/qecc/cc_decoder/decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qecc/cc_decoder/decoder.py b/src/mqt/qecc/cc_decoder/decoder.py
index deb4294..8ed00ed 100644
--- a/src/mqt/qecc/cc_decoder/decoder.py
+++ b/src/mqt/qecc/cc_decoder/decoder.py
@@ -77,6 +77,7 @@ class LightsOut:
     def validate_model(self, model: ModelRef, lights: list[bool]) -> bool:
         """Validate the model by checking if pressing the switches turns off all lights."""
         assert self.switch_vars is not None
+        lights = list(lights)  # leave the caller's list as it is
         for i, var in enumerate(self.switch_vars):
             if model[var]:
                 # flip all lights that are controlled by this switch
-- 
2.43.0


From ebd05475cbb4aa4bb034717df92250bda4011de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:31 +0000
Subject: [PATCH 30/58] fix: store the parameters of a sparse product code

---
 .../code_construction/sparse_code_constructor.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index 66c2d8a..87e0034 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -210,4 +210,4 @@ def create_code(
         _compute_distances(hx.todense(), hz.todense(), codename)
 
     else:
-        _store_code_params(hx.todense(), hz.todense(), codename)
+        _store_code_params(hx, hz, codename)
-- 
2.43.0


From 79ae7ae382db07cce42d4310c06096eda4faa188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:31 +0000
Subject: [PATCH 31/58] fix: save a sparse product code when its logicals are
 not requested

---
 .../code_construction/sparse_code_constructor.py               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index 87e0034..32a695c 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -206,6 +206,9 @@ def create_code(
         lx, lz = code_constructor._compute_logicals(hx.todense(), hz.todense())  # noqa: SLF001
         save_code(hx=hx, hz=hz, mz=mz, codename=codename, lx=lx, lz=lz)
 
+    else:
+        save_code(hx=hx, hz=hz, mz=mz, codename=codename)
+
     if compute_distance:
         _compute_distances(hx.todense(), hz.todense(), codename)
 
-- 
2.43.0


From 03999e4d6214cfbc13f2f0965b3ec69f70d00ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 32/58] fix: map classical registers in the order of their bits

---
 src/ecc/Ecc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 2a1a168..e30ba38 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -3,15 +3,22 @@
 #include "ir/QuantumComputation.hpp"
 
 #include <cstddef>
+#include <map>
 #include <memory>
+#include <string>
+#include <utility>
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
     qcOriginal->stripIdleQubits(true, false);
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
-    auto cRegs = qcOriginal->getCregs();
-    for (auto const& [regName, regBits] : cRegs) {
-        qcMapped->addClassicalRegister(regBits.second, regName);
+    // add the registers in the order of their bits, which the operations refer to by index
+    std::map<std::size_t, std::pair<std::size_t, std::string>> cRegs;
+    for (auto const& [regName, regBits] : qcOriginal->getCregs()) {
+        cRegs[regBits.first] = {regBits.second, regName};
+    }
+    for (auto const& [start, reg] : cRegs) {
+        qcMapped->addClassicalRegister(reg.first, reg.second);
     }
     for (auto const& [regBits, regName] : ecc.classicalRegisters) {
         qcMapped->addClassicalRegister(regBits, regName);
-- 
2.43.0


From 623eb2d44801ed21ebebb9cd1007f4eb6bd37e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 33/58] fix: keep qubit indices when removing idle qubits
 before mapping

---
 src/ecc/Ecc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index e30ba38..1b79460 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -10,7 +10,10 @@
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
-    qcOriginal->stripIdleQubits(true, false);
+    // only remove idle qubits above the used ones: the operations keep referring to qubits by their index
+    while (qcOriginal->getNqubits() > 1 && qcOriginal->isIdleQubit(static_cast<Qubit>(qcOriginal->getNqubits() - 1))) {
+        qcOriginal->removeQubit(static_cast<Qubit>(qcOriginal->getNqubits() - 1));
+    }
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
     // add the registers in the order of their bits, which the operations refer to by index
     std::map<std::size_t, std::pair<std::size_t, std::string>> cRegs;
-- 
2.43.0


From 537f9c434a427cb652f7b1477b6ca0b3c9d36588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 34/58] fix: reset the shared ancilla for every qubit when
 encoding in the five-qubit code

---
 src/ecc/Q5Laflamme.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 1e40ef5..8506117 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -22,9 +22,6 @@ void Q5Laflamme::writeEncoding() {
 
     for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->reset(ancStart);
-    }
-
-    for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->h(ancStart);
         for (std::size_t j = 0; j < ecc.nRedundantQubits; j++) {
             qcMapped->cz(ancStart, static_cast<Qubit>(i + j * nQubits));
-- 
2.43.0


From ab39009442aac10afcb30bdabb1bd39abc29827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 35/58] fix: measure the mapped qubit into the classical bit of
 the original measurement

---
 src/ecc/Q5Laflamme.cpp |  4 ++--
 src/ecc/Q7Steane.cpp   | 13 ++-----------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 8506117..2333f16 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -158,8 +158,8 @@ void Q5Laflamme::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                qcMapped->measure(static_cast<Qubit>(measureGate->getClassics().at(j)),
-                                  measureGate->getTargets().at(j));
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 6eb077b..9907cbf 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -205,17 +205,8 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                auto classicalRegisterName =
-                        qcOriginal->getClassicalRegister(measureGate->getTargets().at(j));
-                if (!classicalRegisterName.empty()) {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            {classicalRegisterName, measureGate->getTargets().at(j)});
-                } else {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            measureGate->getTargets().at(j));
-                }
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
-- 
2.43.0


From a0df47795c926047fbe75e4f0ba9390ea5e5f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 36/58] fix: do not overwrite the user's classical bits when
 decoding surface codes

---
 src/ecc/Q18Surface.cpp |  5 +++--
 src/ecc/Q9Surface.cpp  | 11 ++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ecc/Q18Surface.cpp b/src/ecc/Q18Surface.cpp
index ff44ba5..47ac972 100644
--- a/src/ecc/Q18Surface.cpp
+++ b/src/ecc/Q18Surface.cpp
@@ -72,14 +72,15 @@ void Q18Surface::writeDecoding() {
     if (isDecoded) {
         return;
     }
-    const auto nQubits = qcOriginal->getNqubits();
+    const auto nQubits    = qcOriginal->getNqubits();
+    const auto clAncStart = qcOriginal->getNcbits();
     for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->reset(static_cast<Qubit>(i + X_INFORMATION * nQubits));
         for (const Qubit qubit : ANCILLA_QUBITS_DECODE) {
             qcMapped->cx(static_cast<Qubit>(i + qubit * nQubits),
                          static_cast<Qubit>(i + X_INFORMATION * nQubits));
         }
-        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
+        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), clAncStart);
         qcMapped->reset(i);
         qcMapped->cx(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
     }
diff --git a/src/ecc/Q9Surface.cpp b/src/ecc/Q9Surface.cpp
index 4322450..c6c9905 100644
--- a/src/ecc/Q9Surface.cpp
+++ b/src/ecc/Q9Surface.cpp
@@ -104,15 +104,16 @@ void Q9Surface::writeDecoding() {
     if (isDecoded) {
         return;
     }
-    const auto nQubits = qcOriginal->getNqubits();
+    const auto nQubits    = qcOriginal->getNqubits();
+    const auto clAncStart = qcOriginal->getNcbits();
     for (std::size_t i = 0; i < nQubits; i++) {
         // measure 0, 4, 8. state = m0*m4*m8
-        qcMapped->measure(static_cast<Qubit>(i), i);
-        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), i);
-        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), i);
+        qcMapped->measure(static_cast<Qubit>(i), clAncStart);
+        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), clAncStart);
+        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), clAncStart);
         qcMapped->cx(static_cast<Qubit>(i + 4 * nQubits), static_cast<Qubit>(i));
         qcMapped->cx(static_cast<Qubit>(i + 8 * nQubits), static_cast<Qubit>(i));
-        qcMapped->measure(static_cast<Qubit>(i), i);
+        qcMapped->measure(static_cast<Qubit>(i), clAncStart);
     }
     isDecoded = true;
 }
-- 
2.43.0


From f18c7a33bb3c25036f7d2baf66290a99d9689f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 37/58] fix: correct the sign of the logical controlled-Y of
 the Steane code

---
 src/ecc/Q7Steane.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 9907cbf..199f4b6 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -183,6 +183,10 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
                     }
                     qcMapped->emplace_back<qc::StandardOperation>(
                             ctrls2, static_cast<Qubit>(i + j * nQubits), gate.getType());
+                    if (gate.getType() == qc::Y && ctrls2.size() == 1) {
+                        // seven physical Y's are a logical -Y: undo the sign
+                        qcMapped->z(ctrls2.begin()->qubit);
+                    }
                 }
             } else {
                 for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
-- 
2.43.0


From 856982b01bea44853e744974d107d49e168198ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 38/58] fix: permute the qubits of the surface code by a
 symmetry of the lattice after a Hadamard

---
 include/ecc/Q9Surface.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ecc/Q9Surface.hpp b/include/ecc/Q9Surface.hpp
index 77c537c..cf659a8 100644
--- a/include/ecc/Q9Surface.hpp
+++ b/include/ecc/Q9Surface.hpp
@@ -47,7 +47,8 @@ private:
     std::set<Qubit>                                         uncorrectedZQubits = {0, 8};
     static constexpr std::array<Qubit, 3>                   LOGICAL_X          = {2, 4, 6};
     static constexpr std::array<Qubit, 3>                   LOGICAL_Z          = {0, 4, 8};
-    static constexpr std::array<std::pair<Qubit, Qubit>, 4> SWAP_INDICES       = {
-            {{0, 6}, {3, 7}, {2, 8}, {1, 5}}};
+    // rotates the lattice by 90 degrees: 0 -> 2 -> 8 -> 6 -> 0 and 1 -> 5 -> 7 -> 3 -> 1
+    static constexpr std::array<std::pair<Qubit, Qubit>, 6> SWAP_INDICES = {
+            {{0, 2}, {0, 8}, {0, 6}, {1, 5}, {1, 7}, {1, 3}}};
 };
 } // namespace ecc
-- 
2.43.0


From 1a781a1a960746f65973b7280c6c3eafda269427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 39/58] fix: re-encode the decoded state of the Steane code

---
 src/ecc/Q7Steane.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 199f4b6..37f0742 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -25,6 +25,10 @@ void Q7Steane::writeEncoding() {
             for (std::size_t j = 1; j < N_REDUNDANT_QUBITS; j++) {
                 qcMapped->reset(static_cast<Qubit>(i + j * nQubits));
             }
+            // spread the decoded state: |0> and |1> become |0000000> and |1111111>
+            for (std::size_t j = 1; j < N_REDUNDANT_QUBITS; j++) {
+                qcMapped->cx(static_cast<Qubit>(i), static_cast<Qubit>(i + j * nQubits));
+            }
         }
     }
     measureAndCorrectSingle(true);
-- 
2.43.0


From 3769c100fd7e72b4ef0767bc8c15efd2c2ba0a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:37 +0000
Subject: [PATCH 40/58] fix: Decoder::setCode keeps the X and Z checks of the
 code apart

---
 include/Decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Decoder.hpp b/include/Decoder.hpp
index 6973f8a..53e6ae1 100644
--- a/include/Decoder.hpp
+++ b/include/Decoder.hpp
@@ -88,7 +88,7 @@ public:
         if (c.gethX() == nullptr) {
             this->code = std::make_unique<Code>(*c.gethZ()->pcm);
         } else {
-            this->code = std::make_unique<Code>(*c.gethZ()->pcm, *c.gethX()->pcm);
+            this->code = std::make_unique<Code>(*c.gethX()->pcm, *c.gethZ()->pcm);
         }
     }
     virtual void reset() {};
-- 
2.43.0


From 50e9bf7a735d0ba2ea0fe6598ae2a302e57ba11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:38 +0000
Subject: [PATCH 41/58] fix: split a two-sided syndrome after the Z checks

---
 src/UFDecoder.cpp   | 18 +++++++++++-------
 src/UFHeuristic.cpp | 18 ++++++++++++------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 6f57938..506a9cf 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -25,18 +25,22 @@ void UFDecoder::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(syndrome.size()) / 2U);
+        // the X part of the syndrome has one bit for every Z check
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size());
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecode(xSyndr, this->getCode()->gethZ());
-        auto xres = this->result;
+        auto       xres          = this->result;
+        const auto growthVariant = this->growth;
         this->reset();
+        this->growth = growthVariant;
         doDecode(zSyndr, this->getCode()->gethX());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(),
-                  std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(),
-                  std::back_inserter(this->result.estimNodeIdxVector));
+        xres.decodingTime += this->result.decodingTime;
+        std::move(this->result.estimBoolVector.begin(), this->result.estimBoolVector.end(),
+                  std::back_inserter(xres.estimBoolVector));
+        std::move(this->result.estimNodeIdxVector.begin(), this->result.estimNodeIdxVector.end(),
+                  std::back_inserter(xres.estimNodeIdxVector));
+        this->result = std::move(xres);
     } else {
         this->doDecode(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 64cf917..c990bba 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -48,16 +48,22 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(std::size(syndrome)) / 2U);
+        // the X part of the syndrome has one bit for every Z check
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size());
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecoding(xSyndr, this->getCode()->gethZ());
-        auto xres = this->result;
+        auto       xres          = this->result;
+        const auto growthVariant = this->growth;
         this->reset();
-        doDecoding(zSyndr, this->getCode()->gethZ());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(), std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(), std::back_inserter(this->result.estimNodeIdxVector));
+        this->growth = growthVariant;
+        doDecoding(zSyndr, this->getCode()->gethX());
+        xres.decodingTime += this->result.decodingTime;
+        std::move(this->result.estimBoolVector.begin(), this->result.estimBoolVector.end(),
+                  std::back_inserter(xres.estimBoolVector));
+        std::move(this->result.estimNodeIdxVector.begin(), this->result.estimNodeIdxVector.end(),
+                  std::back_inserter(xres.estimNodeIdxVector));
+        this->result = std::move(xres);
     } else {
         this->doDecoding(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
-- 
2.43.0


From bb6896776f69b2290ab4773c9a0c574db944c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:38 +0000
Subject: [PATCH 42/58] fix: UFHeuristic starts every decoding from a clean
 state and keeps the growth variant

---
 src/UFHeuristic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index c990bba..f918af2 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -75,6 +75,7 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
 void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     auto                     decodingTimeBegin = std::chrono::high_resolution_clock::now();
     std::vector<std::size_t> res;
+    nodeMap.clear(); // trees of an earlier decoding must not be continued
     if (!syndrome.empty() && !std::all_of(syndrome.begin(), syndrome.end(), [](bool val) { return !val; })) {
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
-- 
2.43.0


From f9d69690a14cbd8f4a9c5d7d06c8123813a2ce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:38 +0000
Subject: [PATCH 43/58] fix: UFDecoder looks at the components as they are
 after growing

---
 src/UFDecoder.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 506a9cf..f176df8 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -318,17 +318,17 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
             visited.insert(c);
             std::set<std::size_t> ccomp;
 
-            std::queue<std::size_t> stack;
-            stack.push(c);
-            while (!stack.empty()) { // use DFS-like algorithm to compute connected component containing node 'c'
-                auto curr = stack.back();
-                stack.pop();
+            std::queue<std::size_t> queue;
+            queue.push(c);
+            while (!queue.empty()) { // use BFS-like algorithm to compute connected component containing node 'c'
+                auto curr = queue.front();
+                queue.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
                     auto nbrs = getCode()->gethZ()->getNbrs(curr);
                     for (auto n : nbrs) {
                         if (ccomp.find(n) == ccomp.end() && nodes.find(n) != nodes.end()) {
-                            stack.push(n);
+                            queue.push(n);
                             visited.insert(n);
                         }
                     }
-- 
2.43.0


From 375a678acd970ef27cebd695b021f2519481b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:38 +0000
Subject: [PATCH 44/58] fix: UFDecoder solves for the bits in the interior of a
 component

---
 src/UFDecoder.cpp | 71 ++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index f176df8..217f7f9 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -138,7 +138,18 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
 bool UFDecoder::isValidComponent(const std::set<std::size_t>&              nodeSet,
                                  const std::set<std::size_t>&              syndrome,
                                  const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    return !getEstimateForComponent(nodeSet, syndrome, pcm).empty();
+    const auto estimate = getEstimateForComponent(nodeSet, syndrome, pcm);
+    return std::all_of(nodeSet.begin(), nodeSet.end(), [&](const auto node) {
+        if (node < getCode()->getN()) {
+            return true;
+        }
+        bool        parity = false;
+        const auto& row    = pcm->pcm->at(node - getCode()->getN());
+        for (const auto bit : estimate) {
+            parity = parity != row.at(bit);
+        }
+        return parity == (syndrome.find(node) != syndrome.end());
+    });
 }
 
 /**
@@ -159,8 +170,8 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 }
 
 /**
- * Computes estimate vector x for a component and a syndrome. This is done by considering all vertices in Tanner Graph
- * that are in the Interior of the given node set and additionally the neighbours of the bit vertices in the interior.
+ * Computes estimate vector x for a component and a syndrome. This is done by considering all bit vertices in Tanner Graph
+ * that are in the Interior of the given node set and the check vertices of the node set.
  * Then, using Gaussian elimination, it is checked whether a solution for the local cluster that is consistent with the syndrome
  * can be found. If so, this local estimate is returned.
  * @param nodeSet
@@ -170,52 +181,36 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
                                                          const std::set<std::size_t>&              syndrome,
                                                          const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    if (computeInteriorBitNodes(nodeSet).empty()) {
+    const auto interior = computeInteriorBitNodes(nodeSet);
+    if (interior.empty()) {
         return {};
     }
 
-    gf2Mat            redHz;
-    gf2Vec            redSyndr(0);
-    std::vector<bool> used(pcm->pcm->size());
-
-    for (const auto it : nodeSet) {
-        if (it >= getCode()->getN()) { // is a check node
-            if (!used.at(it - getCode()->getN())) {
-                redHz.emplace_back(pcm->pcm->at(it - getCode()->getN()));
-                used.at(it - getCode()->getN()) = true;
-                if (syndrome.find(it - getCode()->getN()) != syndrome.end()) {
-                    redSyndr.emplace_back(1); // If the check node is in the syndrome we need to satisfy check=1
-                } else {
-                    redSyndr.emplace_back(0);
-                }
-            }
-        } else { // is a bit node
-            const auto nbrs = this->getCode()->gethZ()->getNbrs(it);
-            for (auto n : nbrs) { // add neighbouring checks (these are maybe not in the interior but to stay consistent with the syndrome we need to include these in the check)
-                if (!used.at(n - getCode()->getN())) {
-                    redHz.emplace_back(pcm->pcm->at(n - getCode()->getN()));
-                    if (syndrome.find(n) != syndrome.end()) {
-                        redSyndr.emplace_back(1);
-                    } else {
-                        redSyndr.emplace_back(0);
-                    }
-                    used.at(n - getCode()->getN()) = true;
-                }
+    // rows: checks of the component, columns: bits in the interior
+    gf2Mat                redHz;
+    std::vector<uint64_t> redSyndr;
+    for (const auto node : nodeSet) {
+        if (node >= getCode()->getN()) { // is a check node
+            const auto& row = pcm->pcm->at(node - getCode()->getN());
+            gf2Vec      redRow;
+            redRow.reserve(interior.size());
+            for (const auto bit : interior) {
+                redRow.emplace_back(row.at(bit));
             }
+            redHz.emplace_back(redRow);
+            redSyndr.emplace_back(syndrome.find(node) != syndrome.end() ? 1U : 0U); // If the check node is in the syndrome we need to satisfy check=1
         }
     }
-    auto                  redHzCsc = Utils::toCsc(redHz);
-    std::vector<uint64_t> redSyndInt(redSyndr.size());
-    for (std::size_t i = 0; i < redSyndr.size(); i++) {
-        redSyndInt.at(i) = redSyndr.at(i) ? 1 : 0;
+    if (redHz.empty()) {
+        return {};
     }
-    auto pluDec = PluDecomposition(redHz.size(), redHz.at(0).size(), redHzCsc);
-    auto estim  = pluDec.luSolve(redSyndInt); // solves the system redHz*x=redSyndr by x to see if a solution can be found
+    auto pluDec = PluDecomposition(redHz.size(), interior.size(), Utils::toCsc(redHz));
+    auto estim  = pluDec.luSolve(redSyndr); // solves the system redHz*x=redSyndr by x to see if a solution can be found
 
     std::set<std::size_t> res;
     for (std::size_t i = 0; i < estim.size(); i++) {
         if (estim.at(i) != 0U) {
-            res.emplace(i);
+            res.emplace(interior.at(i));
         }
     }
     return res;
-- 
2.43.0


From d9e0867e4c0f37e75db9270477c180cddf78bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:38 +0000
Subject: [PATCH 45/58] fix: UFDecoder uses the parity-check matrix it was
 given

---
 include/UFDecoder.hpp | 12 ++++++------
 src/UFDecoder.cpp     | 44 +++++++++++++++++++++----------------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index d957791..682886b 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -19,12 +19,12 @@ private:
     [[nodiscard]] bool                               isValidComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     bool                                             containsInvalidComponents(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                                std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const;
+    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                              const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    void                                             standardGrowth(std::set<std::size_t>& comps);
-    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps);
-    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes) const;
+    void                                             standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 217f7f9..b1022e0 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -67,18 +67,18 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
                components.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
-                standardGrowth(components);
+                standardGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::InvalidComponents) {
                 // not implemented yet
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest cluster
-                singleClusterSmallestFirstGrowth(components);
+                singleClusterSmallestFirstGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::SingleRandom) {
                 // grow only by neighbours of single random cluster
-                singleClusterRandomFirstGrowth(components);
+                singleClusterRandomFirstGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::SingleQubitRandom) {
                 // grow only by neighbours of single qubit
-                singleQubitRandomFirstGrowth(components);
+                singleQubitRandomFirstGrowth(components, pcm);
             } else {
                 throw std::invalid_argument("Unsupported growth variant");
             }
@@ -86,7 +86,7 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
     }
 
     std::vector<std::set<std::size_t>> estims;
-    auto                               ccomps = getConnectedComps(components);
+    auto                               ccomps = getConnectedComps(components, pcm);
     for (const auto& comp : ccomps) {
         auto compEstimate = getEstimateForComponent(comp, syndr, pcm);
         estims.emplace_back(compEstimate.begin(), compEstimate.end());
@@ -118,7 +118,7 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
                                           const std::set<std::size_t>&              syndrome,
                                           std::vector<std::set<std::size_t>>&       invalidComps,
                                           const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    auto ccomps = getConnectedComps(nodeSet);
+    auto ccomps = getConnectedComps(nodeSet, pcm);
     return std::any_of(ccomps.begin(), ccomps.end(), [&](const auto& comp) {
         bool const res = isValidComponent(comp, syndrome, pcm);
         if (!res) {
@@ -157,11 +157,11 @@ bool UFDecoder::isValidComponent(const std::set<std::size_t>&              nodeS
  * @param nodeSet
  * @return
  */
-std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const {
+std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::vector<std::size_t> res;
 
     for (const auto idx : nodeSet) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(idx);
+        const auto& nbrs = pcm->getNbrs(idx);
         if (idx < getCode()->getN() && std::includes(nodeSet.begin(), nodeSet.end(), nbrs.begin(), nbrs.end())) {
             res.emplace_back(idx);
         }
@@ -181,7 +181,7 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
                                                          const std::set<std::size_t>&              syndrome,
                                                          const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    const auto interior = computeInteriorBitNodes(nodeSet);
+    const auto interior = computeInteriorBitNodes(nodeSet, pcm);
     if (interior.empty()) {
         return {};
     }
@@ -220,9 +220,9 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
  * Grows the node set by the neighbours of ALL clusters
  * @param comps
  */
-void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
+void UFDecoder::standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     for (auto currCompIt = comps.begin(); currCompIt != comps.end(); currCompIt++) {
-        const auto nbrs = getCode()->gethZ()->getNbrs(*currCompIt);
+        const auto nbrs = pcm->getNbrs(*currCompIt);
         for (auto n : nbrs) {
             comps.insert(n);
         }
@@ -233,8 +233,8 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
  * Grows the node set by the neighbours of the single smallest cluster
  * @param nodeSet
  */
-void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                  ccomps = getConnectedComps(nodeSet);
+void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                  ccomps = getConnectedComps(nodeSet, pcm);
     std::set<std::size_t> smallestComponent;
     std::size_t           smallestSize = SIZE_MAX;
     for (const auto& cId : ccomps) {
@@ -245,7 +245,7 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet)
     }
 
     for (auto node : smallestComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -254,8 +254,8 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet)
  * Grows the node set by the neighbours of a single random cluster
  * @param nodeSet
  */
-void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                          ccomps = getConnectedComps(nodeSet);
+void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                          ccomps = getConnectedComps(nodeSet, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -266,7 +266,7 @@ void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
     chosenComponent = *it;
 
     for (auto node : chosenComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -283,8 +283,8 @@ void UFDecoder::reset() {
  * Grows the node set by the neighbours of a single random qubit
  * @param comps
  */
-void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
-    auto                          ccomps = getConnectedComps(comps);
+void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                          ccomps = getConnectedComps(comps, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -294,7 +294,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
     std::advance(it, chosenIdx);
     chosenComponent = *it;
 
-    const auto& nbrs = getCode()->gethZ()->getNbrs(*chosenComponent.begin());
+    const auto& nbrs = pcm->getNbrs(*chosenComponent.begin());
     comps.insert(nbrs.begin(), nbrs.end());
 }
 
@@ -304,7 +304,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
  * @return
  */
 std::vector<std::set<std::size_t>>
-UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
+UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::set<std::size_t>              visited;
     std::vector<std::set<std::size_t>> res;
 
@@ -320,7 +320,7 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
                 queue.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-                    auto nbrs = getCode()->gethZ()->getNbrs(curr);
+                    auto nbrs = pcm->getNbrs(curr);
                     for (auto n : nbrs) {
                         if (ccomp.find(n) == ccomp.end() && nodes.find(n) != nodes.end()) {
                             queue.push(n);
-- 
2.43.0


From 647231a835362afe4d72a2075d60370b34b0724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:38 +0000
Subject: [PATCH 46/58] fix: random growth can reach every node of a component

---
 src/UFDecoder.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index b1022e0..3eab02d 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -68,8 +68,6 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
                 standardGrowth(components, pcm);
-            } else if (this->growth == GrowthVariant::InvalidComponents) {
-                // not implemented yet
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest cluster
                 singleClusterSmallestFirstGrowth(components, pcm);
@@ -288,13 +286,18 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
-    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size());
+    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size() - 1);
     const std::size_t             chosenIdx = d(gen);
     auto                          it        = ccomps.begin();
     std::advance(it, chosenIdx);
     chosenComponent = *it;
 
-    const auto& nbrs = pcm->getNbrs(*chosenComponent.begin());
+    // any node of the component: the first one alone may have no neighbours left to grow by
+    std::uniform_int_distribution nodeDist(static_cast<std::size_t>(0U), chosenComponent.size() - 1);
+    auto                          node = chosenComponent.begin();
+    std::advance(node, nodeDist(gen));
+
+    const auto& nbrs = pcm->getNbrs(*node);
     comps.insert(nbrs.begin(), nbrs.end());
 }
 
-- 
2.43.0


From fe2fc5838b11f2fd0ccb03c645c09c78a158da48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 47/58] fix: report every classical register of the circuit
 after applying an ECC

---
 src/mqt/qecc/ecc_qiskit_wrapper.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/ecc_qiskit_wrapper.py b/src/mqt/qecc/ecc_qiskit_wrapper.py
index 058cdea..ed3944c 100644
--- a/src/mqt/qecc/ecc_qiskit_wrapper.py
+++ b/src/mqt/qecc/ecc_qiskit_wrapper.py
@@ -66,13 +66,15 @@ def create_noise_model(n_model: str, p_error: float) -> NoiseModel:
     return noise_model
 
 
-def print_simulation_results(result: Result, n_shots: int, threshold_probability: float = 0) -> None:
-    """Print the simulation results."""
+def print_simulation_results(
+    result: Result, n_shots: int, threshold_probability: float = 0, n_registers: int = 1
+) -> None:
+    """Print the simulation results for the first `n_registers` classical registers, summed over all others."""
     printed_results = 0
     summarized_counts: dict[str, int] = {}
     result_counts = result.get_counts()
     for result_id in result_counts:
-        sub_result = result_id.split(" ")[-1]
+        sub_result = " ".join(result_id.split(" ")[-n_registers:])
         if sub_result not in summarized_counts:
             summarized_counts[sub_result] = 0
         summarized_counts[sub_result] += result_counts[result_id]
@@ -171,6 +173,9 @@ def main() -> None:
         print("Warning: No measurement gates found in the circuit. Adding measurement gates to all qubits.")  # noqa: T201
         circ.measure_all()
 
+    # The error correction adds its own classical registers after the ones of the circuit
+    n_registers = len(circ.cregs)
+
     # Initializing the quantum circuit
     if ecc is not None:
         # Applying error correction to the circuit
@@ -207,4 +212,4 @@ def main() -> None:
     if job_result.status != "COMPLETED":
         raise RuntimeError("Simulation exited with status: " + str(job_result.status))
 
-    print_simulation_results(job_result, number_of_shots)
+    print_simulation_results(job_result, number_of_shots, n_registers=n_registers)
-- 
2.43.0


From 294624303f33f8e9f335c1e6d1a2d6f8cb5ab4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 48/58] fix: one valid JSON run per error rate in the
 simulation statistics

---
 src/DecodingSimulator.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index 232def8..c6f23c9 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -54,12 +54,17 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         statisticsOutstr.open(jsonFileName);
         std::cout << "Writing stats output to " << jsonFileName << '\n';
         statisticsOutstr << "{ \"runs\" : [ ";
-        statisticsOutstr << R"({ "run": { "physicalErrRate":)" << minPhysicalErrRate << ", \"data\": [ ";
     }
 
     auto currPer = minPhysicalErrRate;
     while (currPer < maxPhysicalErrRate) {
         auto nrOfFailedRuns = 0;
+        if (statsOut) {
+            if (!wordErrRatePerPhysicalErrRate.empty()) {
+                statisticsOutstr << ", ";
+            }
+            statisticsOutstr << R"({ "run": { "physicalErrRate":)" << currPer << ", \"data\": [ ";
+        }
         for (std::size_t j = 0; j < nrRunsPerRate; j++) {
             std::unique_ptr<Decoder> decoder;
             if (decoderType == DecoderType::UfDecoder) {
@@ -93,6 +98,9 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
                 }
             }
         }
+        if (statsOut) {
+            statisticsOutstr << " ] } }";
+        }
         // compute word error rate WER
         const auto blockErrRate = static_cast<double>(nrOfFailedRuns) / static_cast<double>(nrRunsPerRate);
         const auto wordErrRate  = blockErrRate / static_cast<double>(code.getK());       // rate of codewords re decoder does not give correct answer (fails or introduces logical operator)
@@ -101,7 +109,7 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         currPer += perStepSize;
     }
 
-    statisticsOutstr << "}";
+    statisticsOutstr << " ] }";
     const json dataj = wordErrRatePerPhysicalErrRate;
     rawDataOutput << dataj.dump(2U);
     statisticsOutstr.close();
-- 
2.43.0


From 25d602a07889c339ecb6085373216f5c8d38895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 49/58] fix: simulation statistics describe the decoded error

---
 src/DecodingSimulator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index c6f23c9..0998612 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -84,7 +84,11 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
             const auto success = decoder->getCode()->isXStabilizer(residualErr);
 
             DecodingRunInformation stats;
-            stats.result = decoder->result;
+            stats.result       = decoder->result;
+            stats.physicalErrR = currPer;
+            stats.codeSize     = code.getN();
+            stats.error        = error;
+            stats.syndrome     = syndrome;
             if (success) {
                 stats.status = SUCCESS;
             } else {
-- 
2.43.0


From 1368dc1e7f7b7f794cdd60f8e8bdf9f242ada8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 50/58] fix: average decoding times of one run only

---
 src/DecodingSimulator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index 0998612..e9ef4d8 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -154,10 +154,10 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
     }
     try {
         for (const auto& currPath : codePaths) {
-            std::size_t avgDecodingTimeAcc = 0U;
-            auto        code               = Code(currPath);
-            const auto  codeN              = code.getN();
+            auto       code  = Code(currPath);
+            const auto codeN = code.getN();
             for (std::size_t j = 0; j < nrRuns; j++) {
+                std::size_t avgDecodingTimeAcc = 0U;
                 for (std::size_t i = 0; i < nrSamples; i++) {
                     std::unique_ptr<Decoder> decoder;
                     if (decoderType == DecoderType::UfDecoder) {
-- 
2.43.0


From cf586182c205a995a4772afc0db8c7fa0c964d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 51/58] fix: decoding information goes to the requested file

---
 src/DecodingSimulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index e9ef4d8..708d0c0 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -178,7 +178,7 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
                         info.codeSize     = codeN;
                         info.syndrome     = syndrome;
                         info.error        = error;
-                        info.print();
+                        dataOutStream << info.toString() << '\n';
                     }
                     avgDecodingTimeAcc = avgDecodingTimeAcc + decodingResult.decodingTime;
                     decoder->reset();
-- 
2.43.0


From b545456b0a9d194e1f0359eb368161955a5bd329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:52 +0000
Subject: [PATCH 52/58] fix: name the decoding result states after themselves

With export_values the misnamed values hid GrowthVariant.ALL_COMPONENTS.
---
 src/python/bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 100352d..eca712f 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -152,8 +152,8 @@ PYBIND11_MODULE(pyqecc, m, py::mod_gil_not_used()) {
             .def("decode", &UFDecoder::decode);
 
     py::enum_<DecodingResultStatus>(m, "DecodingResultStatus")
-            .value("ALL_COMPONENTS", DecodingResultStatus::SUCCESS)
-            .value("INVALID_COMPONENTS", DecodingResultStatus::FAILURE)
+            .value("SUCCESS", DecodingResultStatus::SUCCESS)
+            .value("FAILURE", DecodingResultStatus::FAILURE)
             .export_values()
             .def(py::init([](const std::string& str) -> DecodingResultStatus { return decodingResultStatusFromString(str); }));
 
-- 
2.43.0


From 35c47a83c5b059cdc096c9ed361b9d671d6550f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:52 +0000
Subject: [PATCH 53/58] fix: bind the static decoding simulations as static
 methods

---
 src/python/bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index eca712f..93f625a 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -172,8 +172,8 @@ PYBIND11_MODULE(pyqecc, m, py::mod_gil_not_used()) {
 
     py::class_<DecodingSimulator>(m, "DecodingSimulator")
             .def(py::init<>())
-            .def("simulate_wer", &DecodingSimulator::simulateWER)
-            .def("simulate_avg_runtime", &DecodingSimulator::simulateAverageRuntime);
+            .def_static("simulate_wer", &DecodingSimulator::simulateWER)
+            .def_static("simulate_avg_runtime", &DecodingSimulator::simulateAverageRuntime);
 
     py::enum_<DecoderType>(m, "DecoderType")
             .value("UF_HEURISTIC", DecoderType::UfHeuristic)
-- 
2.43.0


From 806629661265314767f20baeb7cf8059b074f5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:52 +0000
Subject: [PATCH 54/58] fix: an unsolvable light pattern does not constrain
 later ones

---
 src/mqt/qecc/cc_decoder/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/cc_decoder/decoder.py b/src/mqt/qecc/cc_decoder/decoder.py
index 8ed00ed..d84bb00 100644
--- a/src/mqt/qecc/cc_decoder/decoder.py
+++ b/src/mqt/qecc/cc_decoder/decoder.py
@@ -110,6 +110,8 @@ class LightsOut:
             start = timer()
             result = self.optimizer.check()
             solve_time = timer() - start
+            if str(result) != "sat":
+                self.optimizer.pop()  # an unsolvable pattern must not constrain later ones
             assert str(result) == "sat", "No solution found"
 
             # validate the model
-- 
2.43.0


From ad4ee0e184a53e28dd42eb0b633c90603e0a0992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:44 +0000
Subject: [PATCH 55/58] fix: an error is not equivalent to the identity unless
 it is a stabilizer

---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index f687576..21ca346 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -103,7 +103,7 @@ class StabilizerCode:
         """Check if two Pauli strings are equivalent up to stabilizers of the code."""
         v1 = pauli_to_binary(p1)
         v2 = pauli_to_binary(p2)
-        return bool(mod2.rank(np.vstack((self.generators, v1, v2))) == mod2.rank(np.vstack((self.generators, v1))))
+        return bool(mod2.rank(np.vstack((self.generators, (v1 + v2) % 2))) == mod2.rank(self.generators))
 
     @staticmethod
     def _check_stabilizer_generators(generators: npt.NDArray[np.int8] | list[str]) -> None:
-- 
2.43.0


From cf7402dff7e4122d3c45d192cc2198e62db40cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:44 +0000
Subject: [PATCH 56/58] fix: signs of dependent generators do not change the
 number of logical qubits

---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 21ca346..855b2c3 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -48,7 +48,7 @@ class StabilizerCode:
         self.generators = paulis_to_binary(generators)
         self.symplectic_matrix = self.generators[:, :-1]  # discard the phase
         self.phases = self.generators[:, -1]
-        self.k = self.n - mod2.rank(self.generators)
+        self.k = self.n - mod2.rank(self.symplectic_matrix)
 
         if distance is not None and distance <= 0:
             msg = "Distance must be a positive integer."
-- 
2.43.0


From 101371fca5bc95da9664e3590e331bd16bcb83a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:44 +0000
Subject: [PATCH 57/58] fix: logical operators must pair up one to one

---
 src/mqt/qecc/codes/stabilizer_code.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 855b2c3..6200b1f 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -159,8 +159,8 @@ class StabilizerCode:
             raise InvalidStabilizerCodeError(msg)
 
         commutations = symplectic_matrix_product(self.Lz_symplectic, self.Lx_symplectic)
-        if not np.all(np.sum(commutations, axis=1) == 1):
-            msg = "Every logical X-operator must anti-commute with exactly one logical Z-operator."
+        if not (np.all(np.sum(commutations, axis=0) == 1) and np.all(np.sum(commutations, axis=1) == 1)):
+            msg = "Every logical X-operator must anti-commute with exactly one logical Z-operator and vice versa."
             raise InvalidStabilizerCodeError(msg)
 
 
-- 
2.43.0


From 69b0659d018d93dd37a38a0522ec48368f989c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:44 +0000
Subject: [PATCH 58/58] fix: evaluate the unverified circuit with --no_ver

---
 .../ft_stateprep/eval/estimate_logical_error_rate.py   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
index 8d5d7db..e0ab9e2 100644
--- a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
+++ b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
@@ -67,8 +67,10 @@ def main() -> None:
     ver_circ_name = ("opt" if args.exact_ver else "heuristic") if not args.naive_ver else "naive"
 
     state_name = "zero" if args.zero_state else "plus"
-    ft_name = "non_ft" if args.no_ver else "ft"
-    circ_file = f"{state_name}_{ft_name}_{sp_circ_name}_{ver_circ_name}.qasm"
+    if args.no_ver:
+        circ_file = f"{state_name}_non_ft_{sp_circ_name}.qasm"
+    else:
+        circ_file = f"{state_name}_ft_{sp_circ_name}_{ver_circ_name}.qasm"
 
     # check if file exists
     if not (prefix / code_name / circ_file).exists():
@@ -80,7 +82,9 @@ def main() -> None:
             circ = heuristic_prep_circuit(code, zero_state=args.zero_state)
 
         assert circ is not None
-        if args.naive_ver:
+        if args.no_ver:
+            qc = circ.circ
+        elif args.naive_ver:
             qc = naive_verification_circuit(circ)
         elif args.exact_ver:
             qc = gate_optimal_verification_circuit(circ, max_timeout=600)
-- 
2.43.0

