From 9199030ca2d932e1667630c942629f5840f8d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 01/81] fix: check control levels against the dimension of the
 control qudit

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index bfe3e35..22bcc58 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -123,7 +123,7 @@ class Gate(Instruction):
             raise IndexError(msg)
         # if isinstance(self._dimensions, int):
         #    dimensions = [self._dimensions]
-        if any(ctrl >= self.parent_circuit.dimensions[i] for i, ctrl in enumerate(ctrl_states)):
+        if any(not 0 <= ctrl < self.parent_circuit.dimensions[i] for i, ctrl in zip(indices, ctrl_states)):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
         self._controls_data = ControlData(indices, ctrl_states)
-- 
2.43.0


From c6ae444eda7978d491a40938be832cd1cf215619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 02/81] fix: update the long-range flag when controls are added
 to a gate

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 22bcc58..fb73926 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -132,7 +132,7 @@ class Gate(Instruction):
             self.set_gate_type_two()
         elif len(self.reference_lines) > 2:
             self.set_gate_type_multi()
-        self.check_long_range()
+        self.is_long_range = self.check_long_range()
         return self
 
     def validate_parameter(self, param: Parameter) -> bool:  # noqa: PLR6301 ARG002
-- 
2.43.0


From fd3ec98199b49328c4c9f0149caafc8cfd6ebcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 03/81] fix: index the dimension slice with the slice-relative
 target position

---
 .../quantum_circuit/components/extensions/matrix_factory.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index aed2a37..dc44438 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -81,7 +81,7 @@ class MatrixFactory:
         slide_indices_rest = [q - min(ref_lines) for q in rest_of_indices]
 
         single_site_logics = (
-            [list(range(dimensions[qudits_applied[0]]))]
+            [list(range(dimensions[slide_indices_qudits_a[0]]))]
             if len(qudits_applied) == 1
             else [list(range(d)) for d in operator.itemgetter(*slide_indices_qudits_a)(dimensions)]
         )
-- 
2.43.0


From 81571983adeb68ac6858acebd7532b90b82da055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:04 +0000
Subject: [PATCH 04/81] fix: lay out LS and MS matrices in ascending line order
 when targets are reversed

---
 src/mqt/qudits/quantum_circuit/gates/ls.py | 10 ++++++----
 src/mqt/qudits/quantum_circuit/gates/ms.py |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/ls.py b/src/mqt/qudits/quantum_circuit/gates/ls.py
index 79b720e..2e9a6a1 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ls.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ls.py
@@ -45,15 +45,17 @@ class LS(Gate):
             self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
+        # matrices are laid out in ascending order of the target lines
+        qudits_targeted = cast(list[int], self.target_qudits)
+        dimensions = [dim for _, dim in sorted(zip(qudits_targeted, self.dimensions))]
+        dimension_0, dimension_1 = dimensions
 
         exp_matrix = np.zeros((dimension_0 * dimension_1, dimension_0 * dimension_1), dtype="complex")
         d_min = min(dimension_0, dimension_1)
         for i in range(d_min):
             exp_matrix += np.outer(
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
+                np.array(from_dirac_to_basis([i, i], dimensions)),
+                np.array(from_dirac_to_basis([i, i], dimensions)),
             )
 
         return expm(-1j * self.theta * exp_matrix)
diff --git a/src/mqt/qudits/quantum_circuit/gates/ms.py b/src/mqt/qudits/quantum_circuit/gates/ms.py
index db3aaeb..ec4e2bb 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ms.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ms.py
@@ -44,12 +44,12 @@ class MS(Gate):
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         theta = self.theta
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
         ps: list[int | str] = [0, 1, "s"]
+        # matrices are laid out in ascending order of the target lines
         qudits_targeted = cast(list[int], self.target_qudits)
-        qudit_targeted_0: int = qudits_targeted[0]
-        qudit_targeted_1: int = qudits_targeted[1]
+        (qudit_targeted_0, dimension_0), (qudit_targeted_1, dimension_1) = sorted(
+            zip(qudits_targeted, self.dimensions)
+        )
 
         gate_part_1 = np.kron(
             np.identity(dimension_0, dtype="complex"),
-- 
2.43.0


From 854ab4cc36d254fa4db85c096144e31beee65f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 05/81] fix: export the control lines of a gate to QASM instead
 of its target

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index fb73926..5014677 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -179,7 +179,7 @@ class Gate(Instruction):
             string += " ctl "
             for _ctrl in self._controls_data.indices:
                 string += (
-                    f"{self.parent_circuit.inverse_sitemap[qudit][0]}[{self.parent_circuit.inverse_sitemap[qudit][1]}] "
+                    f"{self.parent_circuit.inverse_sitemap[_ctrl][0]}[{self.parent_circuit.inverse_sitemap[_ctrl][1]}] "
                 )
             string += str(self._controls_data.ctrl_states)
 
-- 
2.43.0


From 41167f06d90dc3d71f2f2a8715965614c16d8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 06/81] fix: pass gate parameters read from QASM on to the
 gates as a list with integer levels

---
 src/mqt/qudits/quantum_circuit/qasm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 0627cba..bfaff70 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -86,6 +86,13 @@ class QASM:
         except (ValueError, SyntaxError):
             return None
 
+    @staticmethod
+    def parse_parameter(expression: str) -> int | float | None:
+        # integer literals are levels, gates distinguish them from angles by type
+        if re.fullmatch(r"\s*[+-]?\d+\s*", expression):
+            return int(expression)
+        return QASM.safe_eval_math_expression(expression)
+
     @staticmethod
     def parse_gate(
         line: str,
@@ -108,7 +115,7 @@ class QASM:
                     params = np.load(params)
                 else:
                     # TODO: This does not handle "custom_data" correctly
-                    params = tuple(QASM.safe_eval_math_expression(param) for param in params.strip("()[]").split(","))
+                    params = [QASM.parse_parameter(param) for param in params.strip("()[]").split(",")]
             else:
                 params = ()
 
-- 
2.43.0


From 4dd4b9fa6fe075fdb0fde5e32dbfffae14e1e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 07/81] fix: recognise the end of a QASM block comment anywhere
 in a line

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index bfaff70..56bd400 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -34,7 +34,7 @@ class QASM:
             in_comment = True
         if in_comment:
             # in multiline comment, check if its ending
-            in_comment = not bool(rgxs["comment_end"].match(line))
+            in_comment = not bool(rgxs["comment_end"].search(line))
             return True, in_comment
         if rgxs["header"].match(line):
             # ignore standard header lines
-- 
2.43.0


From 922b8d90505adb6a807bdc2a01391b633ba5d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 08/81] fix: do not silently drop noise gates and unknown gates
 when reading QASM

---
 src/mqt/qudits/quantum_circuit/circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index fb83ac3..e4e9ca5 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -77,6 +77,8 @@ class QuantumCircuit:
         "h": "h",
         "ls": "ls",
         "ms": "ms",
+        "noisex": "noisex",
+        "noisey": "noisey",
         "pm": "pm",
         "rxy": "r",
         "rh": "rh",
@@ -358,6 +360,9 @@ class QuantumCircuit:
                 else:
                     msg = "the required gate_matrix is not available anymore."
                     raise NotImplementedError(msg)
+            else:
+                msg = f"Unknown gate in QASM program: {op['name']}"
+                raise NotImplementedError(msg)
 
     def to_qasm(self) -> str:
         text = ""
-- 
2.43.0


From 330bda3b072518a0e5a822b333fadf3e55fd8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 09/81] fix: accept rotations with descending levels in the
 decision diagram simulator

---
 src/python/bindings.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 89fa626..5ffca42 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -1,5 +1,6 @@
 #include "dd/MDDPackage.hpp"
 
+#include <algorithm>
 #include <any>
 #include <chrono>
 #include <cmath>
@@ -9,6 +10,7 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 #include <random>
+#include <tuple>
 #include <vector>
 
 namespace py = pybind11;
@@ -521,6 +523,7 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto pl = params.cast<py::list>();
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    std::tie(leva, levb) = std::minmax({leva, levb});
     auto theta = pl[2].cast<double>();
     auto phi = pl[3].cast<double>();
 
@@ -555,6 +558,7 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
 
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    std::tie(leva, levb) = std::minmax({leva, levb});
     auto phi = pl[2].cast<double>();
 
     if (checkDim(dims, 2)) {
@@ -585,6 +589,7 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto pl = params.cast<py::list>();
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    std::tie(leva, levb) = std::minmax({leva, levb});
 
     if (checkDim(dims, 2)) {
       dd::GateMatrix matrix = dd::RH();
-- 
2.43.0


From 7ba281dad64e98887b6d37c766d8aa4dfd0acd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 10/81] fix: reject gates the decision diagram simulator does
 not support

---
 src/python/bindings.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 5ffca42..594911f 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -504,7 +504,7 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
   const auto& [tag, dag, dims, gate_type, target_qudits, params, control_set] =
       instruction;
 
-  dd::MDDPackage::mEdge gate;
+  dd::MDDPackage::mEdge gate{};
   auto numberRegs =
       static_cast<dd::QuantumRegisterCount>(dd->numberOfQuantumRegisters);
 
@@ -761,6 +761,10 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto target = static_cast<dd::QuantumRegister>(target_qudits.at(1));
     return dd->csum(numberRegs, cReg, target, dag);
   }
+  if (gate.nextNode == nullptr) {
+    throw std::invalid_argument(
+        "Gate " + tag + " is not supported by MISim on these dimensions.");
+  }
   if (dag) {
     gate = dd->conjugateTranspose(gate);
   }
-- 
2.43.0


From 0cf2027b2be467f10675cd1d6c155c93235f1d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 11/81] fix: draw independent noise and measurement outcomes
 for every shot

---
 src/mqt/qudits/simulation/backends/stochastic_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/stochastic_sim.py b/src/mqt/qudits/simulation/backends/stochastic_sim.py
index a3f78e4..388a838 100644
--- a/src/mqt/qudits/simulation/backends/stochastic_sim.py
+++ b/src/mqt/qudits/simulation/backends/stochastic_sim.py
@@ -1,8 +1,7 @@
 from __future__ import annotations
 
 import multiprocessing as mp
-import os
-import time
+import secrets
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -20,8 +19,7 @@ if TYPE_CHECKING:
 
 def generate_seed() -> int:
     """Generate a random seed for numpy random generator."""
-    current_time = int(time.time() * 1000)
-    return hash((os.getpid(), current_time)) % 2**32
+    return secrets.randbits(32)
 
 
 def measure_state(vector_data: NDArray[np.complex128]) -> int:
@@ -66,6 +64,8 @@ def stochastic_simulation(backend: Backend, circuit: QuantumCircuit) -> NDArray
 
 def stochastic_execution_tn(args: tuple[TNSim, NoisyCircuitFactory]) -> NDArray | int:
     backend, factory = args
+    # the factory is pickled together with the state of its generator, every shot needs its own noise
+    factory.rng = np.random.default_rng(generate_seed())
     circuit = factory.generate_circuit()
     vector_data = backend.execute(circuit)
     return vector_data if backend.full_state_memory else measure_state(vector_data)
-- 
2.43.0


From 5d931aca24374977e5dea4d82a0c346c6cbad612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 12/81] fix: do not give noisy circuits generated within one
 millisecond the same noise

---
 .../qudits/simulation/noise_tools/noisy_circuit_factory.py  | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 5334c6d..e5d69fe 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import copy
-import os
-import time
 from functools import partial
 from itertools import product
 from typing import TYPE_CHECKING, cast
@@ -31,9 +29,7 @@ class NoisyCircuitFactory:
 
     @staticmethod
     def _initialize_rng() -> Generator:
-        current_time = int(time.time() * 1000)
-        seed = hash((os.getpid(), current_time)) % 2**32
-        return np.random.default_rng(seed)
+        return np.random.default_rng()
 
     def generate_circuit(self) -> QuantumCircuit:
         noisy_circuit = QuantumCircuit(self.circuit.num_qudits, self.circuit.dimensions, self.circuit.num_cl)
-- 
2.43.0


From 4d0e639728946cf15ba9998a62f4c59973f64c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 13/81] fix: do not share one subspace noise instance between
 the gates of a noise model

---
 src/mqt/qudits/simulation/noise_tools/noise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noise.py b/src/mqt/qudits/simulation/noise_tools/noise.py
index be301c1..750fead 100644
--- a/src/mqt/qudits/simulation/noise_tools/noise.py
+++ b/src/mqt/qudits/simulation/noise_tools/noise.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import copy
+
 
 class Noise:
     """Represents a noise model with depolarizing and dephasing probabilities."""
@@ -98,7 +100,8 @@ class NoiseModel:
             if gate not in self.quantum_errors:
                 self.quantum_errors[gate] = {}
             if mode not in self.quantum_errors[gate]:
-                self.quantum_errors[gate][mode] = noise  # empty case
+                # empty case: later additions for one gate must not leak into the others
+                self.quantum_errors[gate][mode] = copy.deepcopy(noise)
             elif isinstance(noise, Noise):
                 msg = "Mathematical noise has been defined multiple times!"
                 raise ValueError(msg)
-- 
2.43.0


From b4e58d4b08b6b69fca0bb3a6de791d746ecaaadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 14/81] fix: select the control and target qudits of controlled
 gates for nonlocal noise

---
 .../qudits/simulation/noise_tools/noisy_circuit_factory.py   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index e5d69fe..5728266 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -137,8 +137,7 @@ class NoisyCircuitFactory:
 
     def _get_control_qudits(self, instruction: Gate) -> list[int]:
         self._validate_two_qudit_gate(instruction)
-        qudits_targeted = cast(list[int], instruction.target_qudits)
-        return qudits_targeted[:1]
+        return instruction.reference_lines[:1]
 
     @staticmethod
     def _get_target_qudits(instruction: Gate) -> list[int]:
@@ -155,7 +154,7 @@ class NoisyCircuitFactory:
         """
         if instruction.gate_type != GateTypes.SINGLE:
             qudits_targeted = instruction.reference_lines
-            return qudits_targeted[1:]
+            return qudits_targeted[max(1, len(instruction.get_control_lines)) :]
 
         return [cast(int, instruction.target_qudits)]
 
-- 
2.43.0


From b3cd8854063e00d95096917517709efed755ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 15/81] fix: give every job its own id

---
 src/mqt/qudits/simulation/jobs/job.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index f5339ad..6f13ef8 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
-import os
 import time
+import uuid
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
@@ -36,8 +36,7 @@ class Job:
             kwargs: Any key-value metadata to associate with this job.
         """
         if job_id == "auto":
-            current_time = int(time.time() * 1000)
-            self._job_id = str(hash((os.getpid(), current_time)))
+            self._job_id = str(uuid.uuid4())
         else:
             self._job_id = job_id
         self._backend = backend
-- 
2.43.0


From 08e6aa0d6c34f9ac96bf717dfaca13a09171d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 16/81] fix: apply noise to the control lines of controlled
 gates in the decision diagram simulator

---
 src/python/bindings.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 594911f..aa8c10f 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -307,13 +307,10 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
                  control_set] = instruction;
     std::vector<int> referenceLines(target_qudits.begin(), target_qudits.end());
 
-    if (!(std::get<0>(control_set).empty()) &&
-        (std::get<1>(control_set).empty())) {
-      auto [ctrl_dits, levels] = control_set; // Decompose the tuple
-
-      referenceLines.insert(referenceLines.end(), ctrl_dits.begin(),
-                            ctrl_dits.end());
-    }
+    // the controls come first, as in the reference lines of the gates
+    const auto& ctrlDits = std::get<0>(control_set);
+    referenceLines.insert(referenceLines.begin(), ctrlDits.begin(),
+                          ctrlDits.end());
 
     if (noiseModel.find(tag) != noiseModel.end()) {
       for (const auto& mode_noise : noiseModel.at(tag)) {
@@ -346,10 +343,10 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
               qudits = referenceLines;
             } else if (modeStr == "control") {
               assert(gate_type == "TWO");
-              qudits.push_back(target_qudits.at(0));
+              qudits.push_back(referenceLines.at(0));
             } else if (modeStr == "target") {
               assert(gate_type == "TWO");
-              qudits.push_back(target_qudits.at(1));
+              qudits.push_back(referenceLines.at(1));
             }
           }
           if (x_choice == 1) {
-- 
2.43.0


From d2b9db782f5a3c9eca87cc05ea1fde6753da708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 17/81] fix: let dag() invert a gate that is already daggered

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 5014677..2714bf3 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -85,7 +85,7 @@ class Gate(Instruction):
 
     def dag(self) -> Gate:
         self._name += "_dag"
-        self.dagger = True
+        self.dagger = not self.dagger
         return self
 
     def to_matrix(self, identities: int = 0) -> NDArray:
-- 
2.43.0


From 6b53b3ec7a3f096a8d82a014d0a7c2d11377ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 18/81] fix: let a random unitary gate keep its matrix

---
 src/mqt/qudits/quantum_circuit/gates/randu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/randu.py b/src/mqt/qudits/quantum_circuit/gates/randu.py
index bf2aabc..b59b93e 100644
--- a/src/mqt/qudits/quantum_circuit/gates/randu.py
+++ b/src/mqt/qudits/quantum_circuit/gates/randu.py
@@ -36,10 +36,10 @@ class RandU(Gate):
             control_set=controls,
             qasm_tag="rdu",
         )
+        self._matrix = unitary_group.rvs(reduce(operator.mul, dimensions))
 
     def __array__(self) -> NDArray[np.complex128, np.complex128]:  # noqa: PLW3201
-        dim = reduce(operator.mul, self.dimensions)
-        return unitary_group.rvs(dim)
+        return self._matrix
 
     @property
     def dimensions(self) -> list[int]:
-- 
2.43.0


From 28387a51e75c1cccd0b96657a30facb0f2c6d55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 19/81] fix: let LogLocQRPass return the gate instead of its
 inverse

---
 .../mapping_un_aware_transpilation/log_local_qr_decomp.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index 170ac82..cb3e99f 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -30,7 +30,7 @@ class LogLocQRPass(CompilerPass):
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
         qr = QrDecomp(gate, energy_graph_i, not_stand_alone=False)
         decomp, _algorithmic_cost, _total_cost = qr.execute()
-        return decomp
+        return [op.dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From 09cbd8a102ee7f29fe130f9bfe9ae3264eb88b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 20/81] fix: do not reverse the gates of PhyLocQRPass twice

---
 .../onedit/mapping_aware_transpilation/phy_local_qr_decomp.py    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
index c3da3df..07f9d71 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
@@ -38,7 +38,6 @@ class PhyLocQRPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.SINGLE:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans = [op.dag() for op in reversed(gate_trans)]
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
-- 
2.43.0


From 4a414561b3cf0c2608344c33a1d9a5e4c29953c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 21/81] fix: do not reverse the gates of LogEntQRCEXPass again

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py     | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index fe13562..a6da385 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -42,7 +42,6 @@ class LogEntQRCEXPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.TWO:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans.reverse()
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
-- 
2.43.0


From 30ca3240f7e0b7de7f2a0fd3955e348bd210337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 22/81] fix: pass the level of stored phases to VirtRz in
 QrDecomp

---
 .../mapping_un_aware_transpilation/log_local_qr_decomp.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index cb3e99f..4710291 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -78,7 +78,7 @@ class QrDecomp:
                             self.gate.parent_circuit,
                             "VRz",
                             cast(int, self.gate.target_qudits),
-                            [self.graph.nodes[i], theta_z],
+                            [i, theta_z],
                             cast(int, self.gate.dimensions),
                         )  # (thetaZ, self.graph.nodes[i]['lpmap'], dimension) # [self.graph.nodes[i]["lpmap"], thetaZ],
                         decomp.append(phase_gate)
-- 
2.43.0


From f0ccea3e013bd5ef0fbcc5eb25439281ea8ba814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 23/81] fix: let LogLocAdaPass return the gate instead of its
 inverse and keep the level graph

---
 .../log_local_adaptive_decomp.py                          | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 93dee68..28614e0 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -40,13 +40,9 @@ class LogLocAdaPass(CompilerPass):
             gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions)
         )
 
-        (
-            matrices_decomposed,
-            _best_cost,
-            self.backend.energy_level_graphs[cast(int, gate.target_qudits)],
-        ) = adaptive.execute()
+        (matrices_decomposed, _best_cost, _final_graph) = adaptive.execute()
 
-        return matrices_decomposed
+        return [op.dag() for op in reversed(matrices_decomposed)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From aa451b5537af7f63e3e0048489f7ad1e37f7516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 24/81] fix: reject invalid parameters of VirtRz instead of
 turning the gate into an identity

---
 src/mqt/qudits/quantum_circuit/gates/virt_rz.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/virt_rz.py b/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
index b5be526..740e4a6 100644
--- a/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
+++ b/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
@@ -35,11 +35,11 @@ class VirtRz(Gate):
             control_set=controls,
             qasm_tag="virtrz",
         )
-        if self.validate_parameter(parameters):
-            self.lev_a: int = cast(int, parameters[0])
-            self.phi: float = cast(float, parameters[1])
-            self.phi = regulate_theta(self.phi)
-            self._params = parameters
+        assert self.validate_parameter(parameters), "Invalid parameters"
+        self.lev_a: int = cast(int, parameters[0])
+        self.phi: float = cast(float, parameters[1])
+        self.phi = regulate_theta(self.phi)
+        self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         dimension = self.dimensions
-- 
2.43.0


From 8b988246efb38455aae8b054fbbc4c60871c62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 25/81] fix: keep the phase and the dagger of CEx gates in
 PhyEntQRCEXPass

---
 .../twodit/entanglement_qr/phy_ent_qr_cex_decomp.py        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 1c24a28..221d278 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import gc
 from typing import TYPE_CHECKING, cast
 
+import numpy as np
+
 from mqt.qudits.compiler import CompilerPass
 from mqt.qudits.compiler.onedit import PhyLocQRPass
 from mqt.qudits.compiler.twodit.entanglement_qr import EntangledQRCEX
@@ -40,9 +42,10 @@ class PhyEntQRCEXPass(CompilerPass):
             if new_la < new_lb:
                 new_parameters = [new_la, new_lb, new_ctrl_lev, gate.phi]
             else:
-                new_parameters = [new_lb, new_la, new_ctrl_lev, gate.phi]
+                # exchanging the levels inverts the phase
+                new_parameters = [new_lb, new_la, new_ctrl_lev, 2 * np.pi - gate.phi]
             tcex = CEx(parent_circ, "CEx_t" + str(target_qudits), target_qudits, new_parameters, dimensions, None)
-            return [tcex]
+            return [tcex.dag() if gate.dagger else tcex]
 
         perm_0 = Perm(gate.parent_circuit, "Pm_ent_0", target_qudits[0], lp_map_0, dimensions[0])
         perm_1 = Perm(gate.parent_circuit, "Pm_ent_1", target_qudits[1], lp_map_1, dimensions[1])
-- 
2.43.0


From 3d30772d1d14b5101a6db430aeb2e26fbf321c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 26/81] fix: map the levels of two-qudit gates to the physical
 ones in PhyEntQRCEXPass

---
 .../compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 221d278..aec2795 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -65,7 +65,7 @@ class PhyEntQRCEXPass(CompilerPass):
         perm_0_d_seq.extend(perm_0_seq)
         perm_0_d_seq.extend(perm_1_seq)
 
-        return [op.dag() for op in reversed(decomp)]
+        return [op.dag() for op in reversed(perm_0_d_seq)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From 5f6a746e74b564bcf5c48da4bf21bf476728b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 27/81] fix: invert gates that occur repeatedly in an
 entangling decomposition separately

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py   | 3 ++-
 .../compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index a6da385..fbbb2bc 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 from __future__ import annotations
 
+import copy
 import gc
 import typing
 from operator import itemgetter
@@ -33,7 +34,7 @@ class LogEntQRCEXPass(CompilerPass):
     def transpile_gate(gate: Gate) -> list[Gate]:
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        return [op.dag() for op in reversed(decomp)]
+        return [copy.copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index aec2795..760132b 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import gc
 from typing import TYPE_CHECKING, cast
 
@@ -65,7 +66,7 @@ class PhyEntQRCEXPass(CompilerPass):
         perm_0_d_seq.extend(perm_0_seq)
         perm_0_d_seq.extend(perm_1_seq)
 
-        return [op.dag() for op in reversed(perm_0_d_seq)]
+        return [copy.copy(op).dag() for op in reversed(perm_0_d_seq)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From 8f4b6782cfae9a593754ec0cc1a542c6c757eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 28/81] fix: decompose two-qudit gates with reversed targets on
 ascending lines

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index fbbb2bc..8843460 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -55,8 +55,9 @@ class EntangledQRCEX:
     def __init__(self, gate: Gate) -> None:
         self.gate: Gate = gate
         self.circuit: QuantumCircuit = gate.parent_circuit
-        self.dimensions: list[int] = itemgetter(*gate.reference_lines)(self.circuit.dimensions)
-        self.qudit_indices: list[int] = gate.reference_lines
+        # the matrix is laid out in ascending line order
+        self.qudit_indices: list[int] = sorted(gate.reference_lines)
+        self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
         self.decomposition: list[Gate] = []
 
-- 
2.43.0


From ce489c81b0d0c4e93367c0f74712d8c6b06dc3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 29/81] fix: include the control when decomposing singly
 controlled gates

---
 .../entanglement_qr/log_ent_qr_cex_decomp.py  | 21 ++++++++++++++++++-
 .../entanglement_qr/phy_ent_qr_cex_decomp.py  |  6 +++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index 8843460..f8349f1 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -11,6 +11,7 @@ from numpy import matmul as mml
 from numpy.linalg import det, solve
 
 from mqt.qudits.quantum_circuit.components.extensions.gate_types import GateTypes
+from mqt.qudits.quantum_circuit.components.extensions.matrix_factory import MatrixFactory
 
 from ...compilation_minitools import on0, on1, pi_mod
 from ...compiler_pass import CompilerPass
@@ -22,6 +23,7 @@ if typing.TYPE_CHECKING:
     from numpy.typing import NDArray
 
     from mqt.qudits.quantum_circuit import QuantumCircuit
+    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
     from mqt.qudits.quantum_circuit.gate import Gate
     from mqt.qudits.simulation.backends.backendv2 import Backend
 
@@ -58,9 +60,26 @@ class EntangledQRCEX:
         # the matrix is laid out in ascending line order
         self.qudit_indices: list[int] = sorted(gate.reference_lines)
         self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
-        self.u: NDArray = gate.to_matrix(identities=0)
+        self.u: NDArray = self.get_target_matrix()
         self.decomposition: list[Gate] = []
 
+    def get_target_matrix(self) -> NDArray:
+        """Return the matrix of the gate on its two lines, without the lines between them."""
+        controls = typing.cast("typing.Optional[ControlData]", self.gate.control_info["controls"])
+        if controls is None:
+            return self.gate.to_matrix(identities=0)
+        matrix = self.gate.__array__()
+        if self.gate.dagger:
+            matrix = matrix.conj().T
+        return MatrixFactory.apply_identities_and_controls(
+            matrix,
+            self.qudit_indices.index(self.gate.target_qudits),
+            list(self.dimensions),
+            [0, 1],
+            [self.qudit_indices.index(line) for line in controls.indices],
+            controls.ctrl_states,
+        )
+
     @staticmethod
     def get_gate_matrix(rotation: Gate, qudit_indices: list[int], dimensions: list[int]) -> NDArray:
         if rotation.gate_type != GateTypes.SINGLE:
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 760132b..759389f 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import copy
 import gc
-from typing import TYPE_CHECKING, cast
+from typing import TYPE_CHECKING
 
 import numpy as np
 
@@ -26,8 +26,8 @@ class PhyEntQRCEXPass(CompilerPass):
         self.circuit = QuantumCircuit()
 
     def transpile_gate(self, gate: Gate) -> list[Gate]:
-        target_qudits = cast(list[int], gate.target_qudits)
-        dimensions = cast(list[int], gate.dimensions)
+        target_qudits = gate.reference_lines
+        dimensions = [gate.parent_circuit.dimensions[i] for i in target_qudits]
 
         energy_graph_c = self.backend.energy_level_graphs[target_qudits[0]]
         energy_graph_t = self.backend.energy_level_graphs[target_qudits[1]]
-- 
2.43.0


From d6278da865a655f25b61ead45052392a1b53048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 30/81] fix: let PhyLocAdaPass transpile gates from the current
 placement into the new one

---
 .../phy_local_adaptive_decomp.py                         | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 6318bf3..a0eb3ec 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import copy
 import gc
 import itertools
 from typing import TYPE_CHECKING, cast
@@ -41,17 +42,19 @@ class PhyLocAdaPass(CompilerPass):
     def transpile_gate(self, gate: Gate) -> list[Gate]:
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
 
-        qr = PhyQrDecomp(gate, energy_graph_i)
+        # the decomposition of the inverse is the gate from the current placement into the new one
+        inverse = copy.copy(gate).dag()
+        qr = PhyQrDecomp(inverse, energy_graph_i)
 
         _decomp, algorithmic_cost, total_cost = qr.execute()
 
         adaptive = PhyAdaptiveDecomposition(
-            gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions), z_prop=self.vrz_prop
+            inverse, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions), z_prop=self.vrz_prop
         )
         (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
-        return [op.dag() for op in reversed(matrices_decomposed)]
+        return matrices_decomposed
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit: QuantumCircuit = circuit
-- 
2.43.0


From 9bf2437850a8be4bb70ccc5aaa8c86518bd4160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 31/81] fix: track the phases left by routing pulses in the
 adaptive decomposition

---
 .../phy_local_adaptive_decomp.py              | 32 +++++++++----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index a0eb3ec..5aa8687 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -16,10 +16,9 @@ from ... import CompilerPass
 from ...compilation_minitools import new_mod
 from ..local_operation_swap import (
     cost_calculator,
-    gate_chain_condition,
     graph_rule_ongate,
-    graph_rule_update,
 )
+from ..local_operation_swap.swap_routine import find_logic_from_phys
 from ..mapping_aware_transpilation.phy_local_qr_decomp import PhyQrDecomp
 
 if TYPE_CHECKING:
@@ -190,6 +189,19 @@ class PhyAdaptiveDecomposition:
 
         return matrices, placement
 
+    def track_phases(self, pi_pulses: list[gates.R], placement: LevelGraph, new_placement: LevelGraph) -> None:
+        """Store the phases that the routing pulses leave on the nodes of the new placement."""
+        if not pi_pulses:
+            return
+        for start in range(self.dimension):
+            amplitudes = np.zeros(self.dimension, dtype="complex")
+            amplitudes[placement.nodes[start]["lpmap"]] = np.exp(1j * placement.nodes[start]["phase_storage"])
+            for pulse in pi_pulses:
+                amplitudes = pulse.to_matrix(identities=0) @ amplitudes
+            level = int(np.argmax(abs(amplitudes)))
+            node = find_logic_from_phys(level, level, new_placement)[0]
+            new_placement.nodes[node]["phase_storage"] = new_mod(float(np.angle(amplitudes[level])))
+
     def dfs(self, current_root: TreeNode, level: int = 0) -> None:
         # check if close to diagonal
         ucopy = current_root.u_of_level.copy()
@@ -256,23 +268,9 @@ class PhyAdaptiveDecomposition:
                         [new_placement.nodes[r]["lpmap"], new_placement.nodes[r2]["lpmap"], theta, phi],
                         self.dimension,
                     )
-                    physical_rotation = gate_chain_condition(pi_pulses_routing, physical_rotation)
+                    self.track_phases(pi_pulses_routing, current_placement, new_placement)
                     physical_rotation = graph_rule_ongate(physical_rotation, new_placement)
 
-                    p_backs = [
-                        gates.R(
-                            self.circuit,
-                            "R",
-                            self.qudit_index,
-                            [ppulse.lev_a, ppulse.lev_b, ppulse.theta, -ppulse.phi],
-                            self.dimension,
-                        )
-                        for ppulse in pi_pulses_routing
-                    ]
-
-                    for p_back in p_backs:
-                        graph_rule_update(p_back, new_placement)
-
                     current_root.add(
                         new_key,
                         physical_rotation,
-- 
2.43.0


From c27c1de5a8020ef2210882a2525d3d54ec46d728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 32/81] fix: put controlled gates on the lanes of their
 controls

---
 src/mqt/qudits/core/lanes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index 0e7b1e2..bda14f6 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -46,7 +46,7 @@ class Lanes:
                     self.index_dict[index] = []
                 self.index_dict[index].append(gate_tuple)
             elif gate.gate_type in {GateTypes.TWO, GateTypes.MULTI}:
-                indices: list[int] = cast(list[int], gate.target_qudits)
+                indices: list[int] = gate.reference_lines
                 for index in indices:
                     if index not in self.index_dict:
                         self.index_dict[index] = []
@@ -90,7 +90,7 @@ class Lanes:
                 else:
                     consecutive_groups[target_qudits] = [[gate_tuple]]
             else:
-                qudits_targeted: list[int] = cast(list[int], gate.target_qudits)
+                qudits_targeted: list[int] = gate.reference_lines
                 for qudit in qudits_targeted:
                     consecutive_groups[qudit].append([gate_tuple])
                     consecutive_groups[qudit].append([])
-- 
2.43.0


From 97ccd670fe7ce6f6fa275e509dc7e6a8233e71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 33/81] fix: keep gates on more than two qudits in compile_O1
 and compile_O2 like in compile_O0

---
 src/mqt/qudits/compiler/dit_compiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index b912752..f07da5c 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -87,9 +87,11 @@ class QuditCompiler:
             if gate.gate_type is GateTypes.SINGLE:
                 ins = phyloc.transpile_gate(gate)
                 new_instructions.extend(ins)
-            else:
+            elif gate.gate_type is GateTypes.TWO:
                 ins = phyent.transpile_gate(gate)
                 new_instructions.extend(ins)
+            else:
+                new_instructions.append(gate)
         transpiled_circuit = circuit.copy()
         mappings = []
         for i, graph in enumerate(backend.energy_level_graphs):
@@ -110,9 +112,11 @@ class QuditCompiler:
                 phyloc = PhyLocAdaPass(backend, lanes.next_is_local(gate))
                 ins = phyloc.transpile_gate(gate)
                 new_instructions.extend(ins)
-            else:
+            elif gate.gate_type is GateTypes.TWO:
                 ins = phyent.transpile_gate(gate)
                 new_instructions.extend(ins)
+            else:
+                new_instructions.append(gate)
         transpiled_circuit = circuit.copy()
         mappings = []
         for i, graph in enumerate(backend.energy_level_graphs):
-- 
2.43.0


From b840f48a4608759764945e52b9cc6a91f34d9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 34/81] fix: let remap_result undo mappings that are not their
 own inverse

---
 src/mqt/qudits/visualisation/plot_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 1bc688f..6143b86 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -23,7 +23,7 @@ def remap_result(
         permutation = np.eye(circuit.dimensions[0])[:, circuit.mappings[0]]
         for i in range(1, len(circuit.mappings)):
             permutation = np.kron(permutation, np.eye(circuit.dimensions[i])[:, circuit.mappings[i]])
-        return new_result @ np.linalg.inv(permutation)
+        return new_result @ permutation
     return new_result
 
 
-- 
2.43.0


From 7141edba8def8d92a771fb23db1aafb50364d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 35/81] fix: do not move phase rotations across controlled
 gates when removing them

---
 .../remove_phase_rotations.py                          | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
index 91a1d64..fa11bf5 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
@@ -4,6 +4,7 @@ import copy
 import typing
 
 from ....quantum_circuit import gates
+from ....quantum_circuit.components.extensions.gate_types import GateTypes
 from ... import CompilerPass
 
 if typing.TYPE_CHECKING:
@@ -39,12 +40,11 @@ class ZRemovalOptPass(CompilerPass):
                 # If all qubits are seen, break the loop
                 break
 
-            target_qudits = instruction.target_qudits
-            if isinstance(target_qudits, list):
-                # If target_qudits is a list, add each element to the set and
-                # continue to the next iteration because we work only with single gates
-                seen_target_qudits.update(target_qudits)
+            # we work only with single gates, a controlled gate also uses the lines of its controls
+            if instruction.gate_type != GateTypes.SINGLE:
+                seen_target_qudits.update(instruction.reference_lines)
                 continue
+            target_qudits = typing.cast("int", instruction.target_qudits)
             if target_qudits not in seen_target_qudits and isinstance(instruction, (gates.Rz, gates.VirtRz, gates.Z)):
                 indices_to_remove.append(i)
             else:
-- 
2.43.0


From 374c129a26b5d751735b638d3e7182e783d1fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 36/81] fix: propagate virtual phases in place, through
 daggered gates and only through plain rotations

---
 .../propagate_virtrz.py                       | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
index 434332c..3d0b397 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import copy
 from typing import TYPE_CHECKING, Union, cast
 
 from ....quantum_circuit import gates
@@ -42,6 +41,7 @@ class ZPropagationOptPass(CompilerPass):
         from ....quantum_circuit.gates import R, VirtRz
 
         for gate_index in range(len(line)):
+            sign = -1 if line[gate_index].dagger else 1
             if isinstance(line[gate_index], R):
                 # line[gate_index].lev_b
                 # object is R
@@ -58,12 +58,14 @@ class ZPropagationOptPass(CompilerPass):
                         circuit,
                         "R",
                         qudit_index,
-                        [line[gate_index].lev_a, line[gate_index].lev_b, line[gate_index].theta, new_phi],
+                        [line[gate_index].lev_a, line[gate_index].lev_b, sign * line[gate_index].theta, new_phi],
                         dimension,
                     )
                 )
             elif isinstance(line[gate_index], VirtRz):  # except AttributeError:
-                z_angles[line[gate_index].lev_a] = pi_mod(z_angles[line[gate_index].lev_a] + line[gate_index].phi)
+                z_angles[line[gate_index].lev_a] = pi_mod(
+                    z_angles[line[gate_index].lev_a] + sign * line[gate_index].phi
+                )
         if back:
             list_of_x_yrots.reverse()
 
@@ -106,20 +108,23 @@ class ZPropagationOptPass(CompilerPass):
 
     def remove_z(self, original_circuit: QuantumCircuit, back: bool = True) -> QuantumCircuit:
         circuit = original_circuit.copy()
-        new_instructions: list[Gate] = copy.deepcopy(circuit.instructions)
+        new_instructions: list[Gate] = []
         intervals: list[tuple[int, ...]] = self.find_intervals_with_same_target_qudits(circuit.instructions)
 
-        for interval in intervals:
-            if len(interval) > 1:
-                from ....quantum_circuit.gates import R, VirtRz
+        from ....quantum_circuit.gates import R, VirtRz
 
-                sequence = cast(list[Union[R, VirtRz]], circuit.instructions[interval[0] : interval[-1] + 1])
+        for interval in intervals:
+            sequence = circuit.instructions[interval[0] : interval[-1] + 1]
+            # phases are only propagated through plain rotations
+            if len(interval) > 1 and all(
+                isinstance(gate, (R, VirtRz)) and not gate.get_control_lines for gate in sequence
+            ):
                 fixed_seq: list[R] = []
                 z_tail: list[VirtRz] = []
-                fixed_seq, z_tail = self.propagate_z(circuit, sequence, back)
+                fixed_seq, z_tail = self.propagate_z(circuit, cast("list[Union[R, VirtRz]]", sequence), back)
 
-                combined_seq = z_tail + fixed_seq if back else fixed_seq + z_tail
-                new_instructions[interval[0] : interval[-1] + 1] = []
-                new_instructions.extend(combined_seq)
+                new_instructions.extend(z_tail + fixed_seq if back else fixed_seq + z_tail)
+            else:
+                new_instructions.extend(sequence)
 
         return circuit.set_instructions(new_instructions)
-- 
2.43.0


From 08f78f8a5a5ab1defbe8f689f43a93e04a2b6a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 37/81] fix: read every statement of a QASM line

---
 src/mqt/qudits/quantum_circuit/qasm.py | 53 ++++++++++++++++----------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 56bd400..95a0a2f 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -171,6 +171,36 @@ class QASM:
             return True
         return False
 
+    def parse_statement(
+        self,
+        line: str,
+        rgxs: dict[str, re.Pattern[str]],
+        sitemap: SiteMap,
+        sitemap_classic: ClSitemap,
+        gates: list[dict[str, Any]],
+        warned: dict[str, bool],
+    ) -> None:
+        if self.parse_qreg(line, rgxs, sitemap):
+            return
+
+        if self.parse_creg(line, rgxs, sitemap_classic):
+            return
+
+        if self.parse_ignore(line, rgxs, warned):
+            return
+
+        if self.parse_gate(line, rgxs, sitemap, gates):
+            return
+
+        if rgxs["error"].match(line):
+            # raise hard error for custom tate defns etc
+            msg = f"Custom gate_matrix definitions are not supported: {line}"
+            raise NotImplementedError(msg)
+
+        # if not covered by previous checks, simply raise
+        msg = f"{line}"
+        raise SyntaxError(msg)
+
     def parse_ditqasm2_str(self, contents: str) -> dict[str, Any]:
         """Parse the string contents of an OpenQASM 2.0 file.
 
@@ -214,26 +244,9 @@ class QASM:
             if continue_flag:
                 continue
 
-            if self.parse_qreg(line, rgxs, sitemap):
-                continue
-
-            if self.parse_creg(line, rgxs, sitemap_classic):
-                continue
-
-            if self.parse_ignore(line, rgxs, warned):
-                continue
-
-            if self.parse_gate(line, rgxs, sitemap, gates):
-                continue
-
-            if rgxs["error"].match(line):
-                # raise hard error for custom tate defns etc
-                msg = f"Custom gate_matrix definitions are not supported: {line}"
-                raise NotImplementedError(msg)
-
-            # if not covered by previous checks, simply raise
-            msg = f"{line}"
-            raise SyntaxError(msg)
+            # a line can hold several statements
+            for statement in re.findall(r"[^;]+;?", re.sub(r";\s*(//.*|/\*.*\*/\s*)$", ";", line)):
+                self.parse_statement(statement.strip(), rgxs, sitemap, sitemap_classic, gates, warned)
         self.program = {
             "circuits_size": len(sitemap),
             "sitemap": sitemap,
-- 
2.43.0


From c80edec1ff59117d4861c82971d5c4015e8f67df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 38/81] fix: accept controls for pm like for the other
 single-qudit gates

---
 src/mqt/qudits/quantum_circuit/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index e4e9ca5..e103a19 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -255,8 +255,8 @@ class QuantumCircuit:
         )
 
     @add_gate_decorator
-    def pm(self, qudits: int, parameters: list[int]) -> Perm:
-        return Perm(self, "Pm" + str(self.dimensions[qudits]), qudits, parameters, self.dimensions[qudits], None)
+    def pm(self, qudits: int, parameters: list[int], controls: ControlData | None = None) -> Perm:
+        return Perm(self, "Pm" + str(self.dimensions[qudits]), qudits, parameters, self.dimensions[qudits], controls)
 
     @add_gate_decorator
     def r(self, qudit: int, parameters: list[int | float], controls: ControlData | None = None) -> R:
-- 
2.43.0


From 9278bf8fedc80907b1be3627b7b793c12e98d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 39/81] fix: reject lists that are no permutation of the levels
 in Perm

---
 src/mqt/qudits/quantum_circuit/gates/perm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/gates/perm.py b/src/mqt/qudits/quantum_circuit/gates/perm.py
index 3ee94bf..c20f0ce 100644
--- a/src/mqt/qudits/quantum_circuit/gates/perm.py
+++ b/src/mqt/qudits/quantum_circuit/gates/perm.py
@@ -53,6 +53,7 @@ class Perm(Gate):
             assert all((0 <= num < len(parameter) and num < dims) for num in p), (
                 "Numbers are not within the range of the list length"
             )
+            assert len(set(p)) == len(p) == dims, "Every level has to appear exactly once"
 
             return True
 
-- 
2.43.0


From ad84c4e5b682961fcf2679b643e564222cf55d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 40/81] fix: read statements around comments and headers and
 reject text in front of a gate in QASM

---
 src/mqt/qudits/quantum_circuit/qasm.py | 46 ++++++--------------------
 1 file changed, 10 insertions(+), 36 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 95a0a2f..e051c3f 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -19,28 +19,6 @@ class QASM:
     def __init__(self) -> None:
         self.program: dict[str, Any] = {}
 
-    @staticmethod
-    def parse_nonspecial_lines(line: str, rgxs: dict[str, re.Pattern[str]], in_comment_flag: bool) -> tuple[bool, bool]:
-        in_comment = in_comment_flag
-
-        if not line:
-            # blank line
-            return True, in_comment
-        if rgxs["comment"].match(line):
-            # single comment
-            return True, in_comment
-        if rgxs["comment_start"].match(line):
-            # start of multiline comments
-            in_comment = True
-        if in_comment:
-            # in multiline comment, check if its ending
-            in_comment = not bool(rgxs["comment_end"].search(line))
-            return True, in_comment
-        if rgxs["header"].match(line):
-            # ignore standard header lines
-            return True, in_comment
-        return False, in_comment
-
     @staticmethod
     def parse_qreg(
         line: str, rgxs: dict[str, re.Pattern[str]], sitemap: dict[tuple[str, int], tuple[int, int]]
@@ -100,7 +78,7 @@ class QASM:
         sitemap: dict[tuple[str, int], tuple[int, int]],
         gates: list[dict[str, Any]],
     ) -> bool:
-        match = rgxs["gate_matrix"].search(line)
+        match = rgxs["gate_matrix"].match(line)
         if match:
             label = match.group(1)
             params = match.group(2)
@@ -209,9 +187,7 @@ class QASM:
         # define regular expressions for parsing
         rgxs: dict[str, re.Pattern[str]] = {
             "header": re.compile(r"(DITQASM\s+2.0;)|(include\s+\"qelib1.inc\";)"),
-            "comment": re.compile(r"^//"),
-            "comment_start": re.compile(r"/\*"),
-            "comment_end": re.compile(r"\*/"),
+            "comment": re.compile(r"//[^\n]*|/\*.*?\*/", re.DOTALL),
             "qreg": re.compile(r"qreg\s+(\w+)\s+(\[\s*\d+\s*\])(?:\s*\[(\d+(?:,\s*\d+)*)\])?;"),
             "creg": re.compile(r"creg\s+(\w+)\s*\[\s*(\d+)\s*\]\s*;"),
             # "ctrl_id":       re.compile(r"\s+(\w+)\s*(\[\s*\other_size+\s*\])\s*(\s*\w+\s*\[\other_size+\])*\s*"),
@@ -235,18 +211,16 @@ class QASM:
         # only want to warn once about each ignored instruction
         warned: dict[str, bool] = {}
 
-        # Process each line
-        in_comment = False
-        for current_line in contents.split("\n"):
-            line = current_line.strip()
+        # comments can stand anywhere and hold anything
+        contents = re.sub(rgxs["comment"], " ", contents)
 
-            continue_flag, in_comment = self.parse_nonspecial_lines(line, rgxs, in_comment)
-            if continue_flag:
+        # a line can hold several statements
+        for current_statement in re.findall(r"[^;]+;?", contents):
+            statement = current_statement.strip()
+            # ignore blank lines and standard header lines
+            if not statement or rgxs["header"].match(statement):
                 continue
-
-            # a line can hold several statements
-            for statement in re.findall(r"[^;]+;?", re.sub(r";\s*(//.*|/\*.*\*/\s*)$", ";", line)):
-                self.parse_statement(statement.strip(), rgxs, sitemap, sitemap_classic, gates, warned)
+            self.parse_statement(statement, rgxs, sitemap, sitemap_classic, gates, warned)
         self.program = {
             "circuits_size": len(sitemap),
             "sitemap": sitemap,
-- 
2.43.0


From fd49be2f8559a89ca57f31083f3b593358f06411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 41/81] fix: read register sizes with spaces inside the
 brackets in QASM

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index e051c3f..ea700c0 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -27,7 +27,7 @@ class QASM:
         if match:
             name, nqu, qdims = match.groups()
             if nqu is not None:
-                int_matchings = re.search(r"\[(\d+)\]", nqu)
+                int_matchings = re.search(r"\[\s*(\d+)\s*\]", nqu)
                 if int_matchings is not None:
                     nq = int(int_matchings.group(1))
 
-- 
2.43.0


From b33737692bb677438f216bcf1bf662f583a917bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:08 +0000
Subject: [PATCH 42/81] fix: reject repeated, negative and unmatched controls

---
 src/mqt/qudits/quantum_circuit/gate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 2714bf3..b4b6237 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -109,8 +109,11 @@ class Gate(Instruction):
             return self
         # AT THE MOMENT WE SUPPORT CONTROL OF SINGLE QUDIT GATES
         assert self.gate_type == GateTypes.SINGLE
+        if len(indices) != len(ctrl_states) or len(set(indices)) != len(indices):
+            msg = "Every control needs a line of its own and one control state"
+            raise IndexError(msg)
         if len(indices) > self.parent_circuit.num_qudits or any(
-            idx >= self.parent_circuit.num_qudits for idx in indices
+            not 0 <= idx < self.parent_circuit.num_qudits for idx in indices
         ):
             msg = "Indices or Number of Controls is beyond the Quantum Circuit Size"
             raise IndexError(msg)
-- 
2.43.0


From 607cf4021b8be5610ac9ebe2c6442db3d5a81277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 43/81] fix: reject repeated and negative target lines

---
 src/mqt/qudits/quantum_circuit/gate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index b4b6237..3695252 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -50,6 +50,10 @@ class Gate(Instruction):
         self.parent_circuit = circuit
         self._name = name
         self.gate_type = gate_type
+        targets = target_qudits if isinstance(target_qudits, list) else [target_qudits]
+        if len(set(targets)) != len(targets) or any(line < 0 for line in targets):
+            msg = "The targets of a gate have to be different lines of the circuit"
+            raise IndexError(msg)
         self._target_qudits = target_qudits
         self._dimensions = dimensions
         self._params: Parameter = params
-- 
2.43.0


From b6311d3a9c023f688a1ebc44ad15a22949ff2c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 44/81] fix: keep gates that occur several times in a circuit
 when reading it back from its lanes

---
 src/mqt/qudits/core/lanes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index bda14f6..83f11d0 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -61,8 +61,8 @@ class Lanes:
 
         for line in sorted(self.index_dict.keys()):  # Iterate over keys in sorted order
             for gate_tuple in self.index_dict[line]:
-                gate = gate_tuple[1]
-                obj_id = id(gate)
+                # the lines of a gate share its entry, a gate can occur in several entries
+                obj_id = id(gate_tuple)
                 if obj_id not in seen_ids:
                     combined_list.append(gate_tuple)
                     seen_ids.add(obj_id)
-- 
2.43.0


From a3e666cd4d9b809235dafe088e88df4c36048cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 45/81] fix: prepare the states below nodes whose first branch
 is empty

---
 .../qudits/compiler/state_compilation/state_preparation.py  | 6 +++---
 src/mqt/qudits/core/micro_dd.py                             | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/compiler/state_compilation/state_preparation.py b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
index 3baa55b..b1542e0 100644
--- a/src/mqt/qudits/compiler/state_compilation/state_preparation.py
+++ b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
@@ -161,9 +161,9 @@ class StatePrep:
                     )
         else:
             controls_track = copy.deepcopy(controls)
-            self.synthesis(
-                labels, cardinalities, node.children[node.children_index[0]], circuit_meta, controls_track, depth + 1
-            )
+            # all children that are reached are the same
+            reached = next(child for child in node.children if abs(child.weight) != 0.0)
+            self.synthesis(labels, cardinalities, reached, circuit_meta, controls_track, depth + 1)
 
     def compile_state(self) -> QuantumCircuit:
         final_state = self.state
diff --git a/src/mqt/qudits/core/micro_dd.py b/src/mqt/qudits/core/micro_dd.py
index 1a8bab4..5430fb5 100644
--- a/src/mqt/qudits/core/micro_dd.py
+++ b/src/mqt/qudits/core/micro_dd.py
@@ -302,7 +302,8 @@ def count_nodes_after(node: MicroDDNode, counter: list[int], cardinalities: list
         for i in range(cardinalities[depth]):
             count_nodes_after(node.children[node.children_index[i]], counter, cardinalities, depth + 1)
     else:
-        count_nodes_after(node.children[node.children_index[0]], counter, cardinalities, depth + 1)
+        reached = next(child for child in node.children if abs(child.weight) != 0.0)
+        count_nodes_after(reached, counter, cardinalities, depth + 1)
 
 
 def print_decision_weights(node: MicroDDNode, indent: str = "") -> None:
-- 
2.43.0


From ae63c00eea2ed7465be48b9ec81c95c1b083196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 46/81] fix: prepare the initial state in front of the gates of
 the circuit

---
 src/mqt/qudits/quantum_circuit/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index e103a19..3579a17 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -455,5 +455,7 @@ class QuantumCircuit:
 
         preparation = StatePrep(self, state, approx)
         new_circuit = preparation.compile_state()
-        self.set_instructions(new_circuit.instructions)
+        # the state is there before the gates act on it
+        prepared = new_circuit.instructions[len(self.instructions) :]
+        self.set_instructions([*prepared, *self.instructions])
         return self
-- 
2.43.0


From ef20d06cc464e6f275a231ecd4291b9150599cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 47/81] fix: a reset circuit kept the level mappings of the
 circuit before

---
 src/mqt/qudits/quantum_circuit/circuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 3579a17..fea1968 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -148,6 +148,7 @@ class QuantumCircuit:
         self.num_cl = 0
         self.num_qudits = 0
         self._dimensions = []
+        self.mappings = None
         self.path_save = None
 
     def copy(self) -> QuantumCircuit:
-- 
2.43.0


From 5519e8c2e5d22b9d73718e8a736cdd633a4e9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 48/81] fix: a circuit's gates kept reading lines, dimensions
 and paths from the circuit they came from

---
 src/mqt/qudits/quantum_circuit/circuit.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index fea1968..4559943 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -303,13 +303,21 @@ class QuantumCircuit:
     def z(self, qudit: int, controls: ControlData | None = None) -> Z:
         return Z(self, "Z" + str(self.dimensions[qudit]), qudit, self.dimensions[qudit], controls)
 
+    def _adopt(self, gate: Gate) -> Gate:
+        # gates find their lines, dimensions and paths in the circuit they belong to
+        if gate.parent_circuit is self:
+            return gate
+        adopted = copy.copy(gate)
+        adopted.parent_circuit = self
+        return adopted
+
     def replace_gate(self, gate_index: int, sequence: Sequence[Gate]) -> None:
-        self.instructions[gate_index : gate_index + 1] = sequence
+        self.instructions[gate_index : gate_index + 1] = [self._adopt(gate) for gate in sequence]
         self.number_gates = (self.number_gates - 1) + len(sequence)
 
     def set_instructions(self, sequence: Sequence[Gate]) -> QuantumCircuit:
         self.instructions = []
-        self.instructions += sequence
+        self.instructions += [self._adopt(gate) for gate in sequence]
         self.number_gates = len(sequence)
         return self
 
-- 
2.43.0


From 1394f89110fb176a5cab233d23f1f8a08ecf56a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 49/81] fix: gates and registers changed with the lists they
 were built from

---
 src/mqt/qudits/quantum_circuit/circuit.py                     | 3 ++-
 src/mqt/qudits/quantum_circuit/components/quantum_register.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 4559943..fdd6c4a 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -58,7 +58,8 @@ G = TypeVar("G", bound="Gate")
 
 def add_gate_decorator(func: Callable[..., G]) -> Callable[..., G]:
     def gate_constructor(circ: QuantumCircuit, *args: Any) -> G:  # noqa: ANN401
-        gate = func(circ, *args)
+        # the gate stays what it is when the caller goes on using the lists and arrays
+        gate = func(circ, *copy.deepcopy(args))
         circ.number_gates += 1
         circ.instructions.append(gate)
         return gate
diff --git a/src/mqt/qudits/quantum_circuit/components/quantum_register.py b/src/mqt/qudits/quantum_circuit/components/quantum_register.py
index 0843dda..53cadc6 100644
--- a/src/mqt/qudits/quantum_circuit/components/quantum_register.py
+++ b/src/mqt/qudits/quantum_circuit/components/quantum_register.py
@@ -40,7 +40,7 @@ class QuantumRegister:
     def __init__(self, name: str, size: int, dims: list[int] | None = None) -> None:
         self.label = name
         self.size: int = size
-        self.dimensions: list[int] = size * [2] if dims is None else dims
+        self.dimensions: list[int] = size * [2] if dims is None else list(dims)
         self.local_sitemap: dict[int, int] = {}
 
     def __qasm__(self) -> str:  # noqa: PLW3201
-- 
2.43.0


From 35e6ec4c4c52d31a8e49244285cf6a752140d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 50/81] fix: registers of one name shared lines

---
 src/mqt/qudits/quantum_circuit/circuit.py | 7 +++++++
 src/mqt/qudits/quantum_circuit/qasm.py    | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index fdd6c4a..aef3b97 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -7,6 +7,7 @@ from typing import TYPE_CHECKING, Any, ClassVar, TypeVar, cast
 
 import numpy as np
 
+from ..exceptions import CircuitError
 from .components import ClassicRegister, QuantumRegister
 from .gates import (
     LS,
@@ -156,6 +157,9 @@ class QuantumCircuit:
         return copy.deepcopy(self)
 
     def append(self, qreg: QuantumRegister) -> None:
+        if any(register.label == qreg.label for register in self.quantum_registers):
+            msg = f"There is a quantum register {qreg.label} already"
+            raise CircuitError(msg)
         self.quantum_registers.append(qreg)
         self.num_qudits += qreg.size
         self._dimensions += qreg.dimensions
@@ -167,6 +171,9 @@ class QuantumCircuit:
             self.inverse_sitemap[num_lines_stored + i] = (str(qreg.label), i)
 
     def append_classic(self, creg: ClassicRegister) -> None:
+        if any(register.label == creg.label for register in self.classic_registers):
+            msg = f"There is a classic register {creg.label} already"
+            raise CircuitError(msg)
         self.classic_registers.append(creg)
         self.num_cl += creg.size
 
diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index ea700c0..c7a0b7b 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -37,6 +37,10 @@ class QASM:
             else:
                 qdims = [2] * nq
 
+            if len(qdims) != nq or any(register == name for register, _ in sitemap):
+                msg = f"Registers need a name of their own and one dimension for each qudit: {line}"
+                raise SyntaxError(msg)
+
             for i in range(int(nq)):
                 sitemap[str(name), i] = len(sitemap), qdims[i]
 
@@ -48,6 +52,9 @@ class QASM:
         match = rgxs["creg"].match(line)
         if match:
             name, nclassics = match.groups()
+            if any(register == name for register, _ in sitemap_classic):
+                msg = f"Registers need a name of their own: {line}"
+                raise SyntaxError(msg)
             for i in range(int(nclassics)):
                 sitemap_classic[str(name), i] = (len(sitemap_classic),)
             return True
-- 
2.43.0


From 667d796c49fcbe95bd8191ef382e2be057b1fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 51/81] fix: lines of classic registers read from a map were
 the register's name

---
 .../qudits/quantum_circuit/components/classic_register.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/classic_register.py b/src/mqt/qudits/quantum_circuit/components/classic_register.py
index 304b559..727bc88 100644
--- a/src/mqt/qudits/quantum_circuit/components/classic_register.py
+++ b/src/mqt/qudits/quantum_circuit/components/classic_register.py
@@ -11,10 +11,11 @@ class ClassicRegister:
     def from_map(cls, sitemap: dict[tuple[str, int], Any]) -> list[ClassicRegister]:
         registers_map = {}
 
-        for creg_with_index, extracted_local_line_indexing in sitemap.items():
+        for creg_with_index, line_info in sitemap.items():
             reg_name, inreg_line_index = creg_with_index
+            extracted_local_line_indexing = line_info[0]
             if reg_name not in registers_map:
-                registers_map[reg_name] = [{inreg_line_index: creg_with_index[0]}, extracted_local_line_indexing]
+                registers_map[reg_name] = [{inreg_line_index: extracted_local_line_indexing}]
             else:
                 registers_map[reg_name][0][inreg_line_index] = extracted_local_line_indexing
 
-- 
2.43.0


From bf08829df6b40083f7dcc2bd9dd15d25a1919803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 52/81] fix: 2pi in QASM was read as the number 23.14

---
 src/mqt/qudits/quantum_circuit/qasm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index c7a0b7b..dc3226b 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -63,7 +63,6 @@ class QASM:
     @staticmethod
     def safe_eval_math_expression(expression: str) -> float | None:
         try:
-            expression = expression.replace("pi", str(np.pi))
             # Define a dictionary of allowed names
             allowed_names = {"__builtins__": None, "pi": np.pi}
             # Use eval with restricted names
-- 
2.43.0


From a392667ae416b72327eb4189aaa0c66d5027a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 53/81] fix: apply_gate_to_tlines failed for dimensions other
 than two

---
 .../compiler/compilation_minitools/numerical_ansatz_utils.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py b/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py
index 53ced3d..9ea1e5c 100755
--- a/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py
+++ b/src/mqt/qudits/compiler/compilation_minitools/numerical_ansatz_utils.py
@@ -56,7 +56,8 @@ def apply_gate_to_tlines(
     elif isinstance(targets, int):
         targets = [targets]
 
-    subset_gate = np.zeros((2**circuits_size, 2**circuits_size), dtype=np.complex128)
+    size = int(np.prod(dims[:circuits_size]))
+    subset_gate = np.zeros((size, size), dtype=np.complex128)
     for i in targets:
         subset_gate += gate_expand_to_circuit(gate_matrix, circuits_size, i, dims)
     return subset_gate
-- 
2.43.0


From b59f4ea2e23c1ba182e6d39121a8781f9a64a0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 54/81] fix: set_options refused every option

---
 src/mqt/qudits/simulation/backends/backendv2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/simulation/backends/backendv2.py b/src/mqt/qudits/simulation/backends/backendv2.py
index e360034..c457e70 100644
--- a/src/mqt/qudits/simulation/backends/backendv2.py
+++ b/src/mqt/qudits/simulation/backends/backendv2.py
@@ -54,7 +54,7 @@ class Backend(ABC):
 
     def set_options(self, **fields: Unpack[Backend.DefaultOptions]) -> None:
         for field in fields:
-            if not hasattr(self._options, field):
+            if field not in self._options and field not in Backend.DefaultOptions.__annotations__:
                 msg = f"Options field '{field}' is not valid for this backend"
                 raise AttributeError(msg)
         self._options.update(fields)
-- 
2.43.0


From 726895f3a8b5a72348f9e9b2e293e4e0480d9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 55/81] fix: states of qudits with more than ten levels had
 ambiguous labels and no density matrix

---
 .../qudits/visualisation/mini_quantum_information.py |  4 +---
 src/mqt/qudits/visualisation/plot_information.py     | 12 ++++--------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/mqt/qudits/visualisation/mini_quantum_information.py b/src/mqt/qudits/visualisation/mini_quantum_information.py
index be027b8..12c1667 100644
--- a/src/mqt/qudits/visualisation/mini_quantum_information.py
+++ b/src/mqt/qudits/visualisation/mini_quantum_information.py
@@ -9,8 +9,6 @@ import numpy as np
 
 from mqt.qudits.quantum_circuit.components.extensions.matrix_factory import from_dirac_to_basis
 
-from .plot_information import state_labels
-
 if TYPE_CHECKING:
     from numpy.typing import NDArray
 
@@ -24,7 +22,7 @@ def get_density_matrix_from_counts(
     number_counts = Counter(results)
     probabilities = [(number_counts[num] / len(results)) for num in range(num_kets)]
     kets: list[NDArray[complex]] = [
-        from_dirac_to_basis([int(char) for char in state], circuit.dimensions) for state in state_labels(circuit)
+        from_dirac_to_basis(list(state), circuit.dimensions) for state in np.ndindex(*circuit.dimensions)
     ]
     density_matrix: NDArray[np.complex128] = np.zeros((num_kets, num_kets))
     for k, p in zip(kets, probabilities):
diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 6143b86..d02303b 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -87,14 +87,10 @@ def state_labels(circuit: QuantumCircuit) -> list[str]:
     logic = [list(range(d)) for d in dimensions]
     lut = [list(element) for element in itertools.product(*logic)]
 
-    string_states = []
-    for item in lut:
-        s = ""
-        for state in item:
-            s += str(state)
-        string_states.append(s)
-
-    return string_states
+    # levels of more than one digit would run into each other
+    separator = "," if any(d > 10 for d in dimensions) else ""
+
+    return [separator.join(str(state) for state in item) for item in lut]
 
 
 def plot_state(
-- 
2.43.0


From add68ffcedfc64cb27f85895dd98ea2ce796a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 56/81] fix: variational compilation and sparsification
 returned the gates in reverse

---
 .../variational_twodit_compilation/ansatz/instantiate.py       | 3 ++-
 .../twodit/variational_twodit_compilation/sparsifier.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
index 592ec9d..ac5e84c 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
@@ -36,7 +36,8 @@ def ansatz_decompose(
 
         counter += 1
 
-    return decomposition
+    # the ansatz is a product of matrices, the last of them acts first
+    return decomposition[::-1]
 
 
 def create_cu_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
index f012e91..1722222 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
@@ -49,7 +49,8 @@ def instantiate_rotations(circuit: QuantumCircuit, gate: Gate, params_list: list
         CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[3], dims[1]), dims[1]),
     ))
 
-    return decomposition
+    # the rotated matrix is a product, the last factor acts first
+    return decomposition[::-1]
 
 
 def density(m_prime: NDArray[np.float64, np.float64]) -> float:
-- 
2.43.0


From 75e0ed7504d6ab0876751b7e6b595c43098adbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 57/81] fix: variational compilation and sparsification acted
 on the first two lines instead of those of the gate

---
 .../ansatz/instantiate.py                     | 28 ++++++++++++-------
 .../layered_compilation.py                    | 10 ++++---
 .../sparsifier.py                             | 13 +++++----
 3 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
index ac5e84c..ae16f97 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
@@ -18,11 +18,13 @@ if typing.TYPE_CHECKING:
 
 
 def ansatz_decompose(
-    circuit: QuantumCircuit, u: Gate | None, params: list[list[float]], dims: list[int]
+    circuit: QuantumCircuit, u: Gate | None, params: list[list[float]], dims: list[int], lines: list[int] | None = None
 ) -> Sequence[Gate]:
     if u is None:
         msg = "Custom Gate not set."
         raise ValueError(msg)
+    if lines is None:
+        lines = [0, 1]
     counter = 0
     decomposition = []
     for i in range(len(params)):
@@ -31,7 +33,7 @@ def ansatz_decompose(
             decomposition.append(u)
 
         decomposition.append(
-            CustomOne(circuit, "CUo_SUD", counter, generic_sud(params[i], dims[counter]), dims[counter])
+            CustomOne(circuit, "CUo_SUD", lines[counter], generic_sud(params[i], dims[counter]), dims[counter])
         )
 
         counter += 1
@@ -40,20 +42,26 @@ def ansatz_decompose(
     return decomposition[::-1]
 
 
-def create_cu_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_cu_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: list[int] | None = None
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
     cu = Primitive.CUSTOM_PRIMITIVE
-    return ansatz_decompose(circuit, cu, params, dims)
+    return ansatz_decompose(circuit, cu, params, dims, lines)
 
 
-def create_ms_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_ms_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: list[int] | None = None
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
-    ms = gates.MS(circuit, "MS", [0, 1], [np.pi / 2], dims)  # ms_gate(np.pi / 2, dim)
+    ms = gates.MS(circuit, "MS", [0, 1] if lines is None else lines, [np.pi / 2], dims)  # ms_gate(np.pi / 2, dim)
 
-    return ansatz_decompose(circuit, ms, params, dims)
+    return ansatz_decompose(circuit, ms, params, dims, lines)
 
 
-def create_ls_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_ls_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: list[int] | None = None
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
 
     if 2 in dims:
@@ -63,6 +71,6 @@ def create_ls_instance(circuit: QuantumCircuit, p: list[float], dims: list[int])
     else:
         theta = np.pi
 
-    ls = gates.LS(circuit, "LS", [0, 1], [theta], dims)  # ls_gate(theta, dim)
+    ls = gates.LS(circuit, "LS", [0, 1] if lines is None else lines, [theta], dims)  # ls_gate(theta, dim)
 
-    return ansatz_decompose(circuit, ls, params, dims)
+    return ansatz_decompose(circuit, ls, params, dims, lines)
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
index ad80b61..3efbef5 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
@@ -25,18 +25,20 @@ def variational_compile(
     layers: int,
     custom_primitive: Gate | None = None,
 ) -> QuantumCircuit:
-    dim_0, dim_1 = itemgetter(*target.reference_lines)(target.parent_circuit.dimensions)
+    # the matrix of the target is laid out in ascending order of its lines
+    lines = sorted(target.reference_lines)
+    dim_0, dim_1 = itemgetter(*lines)(target.parent_circuit.dimensions)
     Primitive.set_class_variables(custom_primitive)
     Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
     _best_layer, _best_error, parameters = binary_search_compile(layers, ansatz_type)
 
     circuit = copy.deepcopy(target.parent_circuit)
     if ansatz_type == "MS":  # MS is 0
-        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1], lines)
     elif ansatz_type == "LS":  # LS is 1
-        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1], lines)
     elif ansatz_type == "CU":
-        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1], lines)
     else:
         raise ValueError
     circuit.set_instructions(gates)
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
index 1722222..5835f35 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
@@ -36,17 +36,18 @@ def apply_rotations(
 def instantiate_rotations(circuit: QuantumCircuit, gate: Gate, params_list: list[float]) -> list[Gate]:
     gate = copy.deepcopy(gate)
     gate.parent_circuit = circuit
-    dims = typing.cast(list[int], gate.dimensions)
+    lines = sorted(gate.reference_lines)
+    dims = [circuit.dimensions[line] for line in lines]
     params = params_splitter(params_list, dims)
 
     decomposition: list[Gate] = []
 
     decomposition.extend((
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[0], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[1], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", lines[0], generic_sud(params[0], dims[0]), dims[0]),
+        CustomOne(circuit, "CUo_SUD", lines[1], generic_sud(params[1], dims[1]), dims[1]),
         gate,
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[2], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[3], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", lines[0], generic_sud(params[2], dims[0]), dims[0]),
+        CustomOne(circuit, "CUo_SUD", lines[1], generic_sud(params[3], dims[1]), dims[1]),
     ))
 
     # the rotated matrix is a product, the last factor acts first
@@ -122,7 +123,7 @@ def objective_function(thetas: list[float], m: NDArray[np.complex128, np.complex
 
 def sparsify(gate: Gate, tol: float = 0.1) -> QuantumCircuit:
     m = gate.to_matrix()
-    dims = typing.cast(list[int], gate.dimensions)
+    dims = [gate.parent_circuit.dimensions[line] for line in sorted(gate.reference_lines)]
 
     Optimizer.set_class_variables(m, tol, dims[0], dims[1])
     bounds = Optimizer.return_bounds()
-- 
2.43.0


From 7263bfcda25c3b389b44175b5d26fe48a0d0483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 58/81] fix: the variational ansatz ignored dagger and controls
 of a custom primitive

---
 .../variational_twodit_compilation/ansatz/ansatz_gen.py      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
index 48a2ec2..421b757 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
@@ -38,7 +38,10 @@ def prepare_ansatz(u: Gate | None, params: list[list[float]], dims: list[int]) -
 
 def cu_ansatz(p: list[float], dims: list[int]) -> NDArray[np.complex128, np.complex128]:
     params = params_splitter(p, dims)
-    cu = Primitive.CUSTOM_PRIMITIVE
+    if Primitive.CUSTOM_PRIMITIVE is None:
+        msg = "Custom Gate not set."
+        raise ValueError(msg)
+    cu = Primitive.CUSTOM_PRIMITIVE.to_matrix()
     return prepare_ansatz(cu, params, dims)
 
 
-- 
2.43.0


From 952277725052d60051402a5df7f0af7de5c91ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 59/81] fix: a variational search hung after errors, returned
 no gates without a solution and left its timer running

---
 .../ansatz/ansatz_solve_n_search.py           | 24 ++++++++++++++-----
 .../opt/optimizer.py                          |  3 ++-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
index 6251756..f03e456 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
@@ -42,6 +42,10 @@ def binary_search_compile(max_num_layer: int, ansatz_type: Literal["MS", "LS", "
 
         counter += 1
 
+    if len(best_xi) == 0:
+        msg = f"No parameters within the tolerance were found for up to {max_num_layer} layers"
+        raise RuntimeError(msg)
+
     return best_layer, best_error, best_xi
 
 
@@ -52,13 +56,21 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
 
     result_queue: queue.Queue[tuple[float, list[float]]] = queue.Queue()
 
-    thread = threading.Thread(target=Optimizer.solve_anneal, args=(bounds, ansatz_type, result_queue))
-    thread.start()
-
+    Optimizer.timer_var = False
     timer = threading.Timer(duration, interrupt_function)
     timer.start()
-
-    thread.join()
-    f, x = result_queue.get()
+    try:
+        thread = threading.Thread(target=Optimizer.solve_anneal, args=(bounds, ansatz_type, result_queue))
+        thread.start()
+        thread.join()
+    finally:
+        # neither this process nor the next search should wait for or run into the time limit
+        timer.cancel()
+
+    try:
+        f, x = result_queue.get_nowait()
+    except queue.Empty:
+        msg = "The search for parameters failed"
+        raise RuntimeError(msg) from None
 
     return f, x
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
index e0ec224..88f6aa1 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
@@ -139,4 +139,5 @@ class Optimizer:
             result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
 
         except TimeoutError:
-            result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
+            # nothing within the tolerance was found in time
+            result_queue.put((np.inf, []))
-- 
2.43.0


From a950467309afec408aaa55209d8f702363553846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 60/81] fix: a custom primitive on other lines than the target
 gave a wrong circuit

---
 .../variational_twodit_compilation/layered_compilation.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
index 3efbef5..ee8c613 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
@@ -28,6 +28,9 @@ def variational_compile(
     # the matrix of the target is laid out in ascending order of its lines
     lines = sorted(target.reference_lines)
     dim_0, dim_1 = itemgetter(*lines)(target.parent_circuit.dimensions)
+    if custom_primitive is not None and sorted(custom_primitive.reference_lines) != lines:
+        msg = "The custom primitive has to act on the lines of the target"
+        raise ValueError(msg)
     Primitive.set_class_variables(custom_primitive)
     Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
     _best_layer, _best_error, parameters = binary_search_compile(layers, ansatz_type)
-- 
2.43.0


From aa32df2dcfa02d963a505122815fe9434fa44bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 61/81] fix: generic_sud covered only a part of SU(d)

---
 .../parametrize.py                              | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py
index 88daf1f..7bce4ea 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py
@@ -48,14 +48,6 @@ def generic_sud(params: list[float] | NDArray[np.float64], dimension: int) -> ND
     # required well-structured d2 -1 params
     c_unitary = np.identity(dimension, dtype="complex")
 
-    for diag_index in range(dimension - 1):
-        l_vec = from_dirac_to_basis([diag_index], dimension)
-        d_vec = from_dirac_to_basis([dimension - 1], dimension)
-
-        zld = np.outer(np.array(l_vec), np.array(l_vec).T.conj()) - np.outer(np.array(d_vec), np.array(d_vec).T.conj())
-
-        c_unitary = np.matmul(c_unitary, expm(1j * params[reindex(diag_index, diag_index, dimension)] * zld))
-
     for m in range(dimension - 1):
         for n in range(m + 1, dimension):
             m_vec = from_dirac_to_basis([m], dimension)
@@ -73,4 +65,13 @@ def generic_sud(params: list[float] | NDArray[np.float64], dimension: int) -> ND
 
             c_unitary = np.matmul(c_unitary, expm(1j * params[reindex(m, n, dimension)] * ymn))
 
+    # the phases on the diagonal only add something new on the other side of the rotations
+    for diag_index in range(dimension - 1):
+        l_vec = from_dirac_to_basis([diag_index], dimension)
+        d_vec = from_dirac_to_basis([dimension - 1], dimension)
+
+        zld = np.outer(np.array(l_vec), np.array(l_vec).T.conj()) - np.outer(np.array(d_vec), np.array(d_vec).T.conj())
+
+        c_unitary = np.matmul(c_unitary, expm(1j * params[reindex(diag_index, diag_index, dimension)] * zld))
+
     return c_unitary
-- 
2.43.0


From 91e549fa0ad05a9a538c66dcb92cdeab5c95a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 62/81] fix: transposing a matrix decision diagram always
 failed

---
 include/dd/MDDPackage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 12a81bd..b522a2a 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1880,7 +1880,8 @@ public:
       return result;
     }
 
-    std::vector<mEdge> newEdge{};
+    std::vector<mEdge> newEdge(edge.nextNode->edges.size(),
+                               dd::Edge<mNode>::zero);
     auto basicDim =
         registersSizes.at(static_cast<std::size_t>(edge.nextNode->varIndx));
 
-- 
2.43.0


From 8dc6a80a613308120cbea0879a7b5717e3204757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 63/81] fix: reading an entry of a matrix decision diagram
 looked at the wrong place

---
 include/dd/MDDPackage.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index b522a2a..2e0d19c 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1647,7 +1647,9 @@ public:
 
     const auto row = reprI.front();
     const auto col = reprJ.front();
-    const auto rowMajorIndex = row * edge.nextNode->edges.size() + col;
+    const auto rowMajorIndex =
+        row * registersSizes.at(static_cast<std::size_t>(edge.nextNode->varIndx)) +
+        col;
     ComplexValue returnAmp{};
 
     if (!edge.nextNode->edges.at(rowMajorIndex).weight.approximatelyZero()) {
-- 
2.43.0


From 7ce5aefd7cbbaefefe6047adc046d1897b06aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 64/81] fix: the inner product of decision diagrams did not
 conjugate the top weight

---
 include/dd/MDDPackage.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 2e0d19c..4951ec8 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1062,8 +1062,11 @@ public:
     if (y.nextNode->varIndx > circWidth) {
       circWidth = y.nextNode->varIndx;
     }
+    // the weights of y enter conjugated, including the one of its top edge
+    auto yConj = y;
+    yConj.weight = ComplexNumbers::conj(y.weight);
     const ComplexValue ip =
-        innerProduct(x, y, static_cast<QuantumRegister>(circWidth + 1));
+        innerProduct(x, yConj, static_cast<QuantumRegister>(circWidth + 1));
 
     [[maybe_unused]] const auto after = complexNumber.cacheCount();
     assert(after == before);
-- 
2.43.0


From 3b13c42e579b442eec7d78aceb863d3dd486fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 65/81] fix: from_dirac_to_basis gave a list for a single qudit

---
 .../quantum_circuit/components/extensions/matrix_factory.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index dc44438..b1cb8b7 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -173,9 +173,9 @@ def from_dirac_to_basis(vec: list[int], d: list[int] | int) -> NDArray[np.comple
         temp[basis] = 1
         basis_vecs.append(temp)
 
-    ret = basis_vecs[0]
+    ret = np.array(basis_vecs[0])
     for e_i in range(1, len(basis_vecs)):
-        ret = np.kron(np.array(ret), np.array(basis_vecs[e_i]))
+        ret = np.kron(ret, np.array(basis_vecs[e_i]))
 
     return ret
 
-- 
2.43.0


From 63148c14051c4237880b8f360bc1396357aa16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 66/81] fix: waiting for a cancelled job never ended

---
 src/mqt/qudits/simulation/jobs/job.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index 6f13ef8..834323c 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -5,7 +5,7 @@ import uuid
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
-from .jobstatus import JobStatus
+from .jobstatus import JOB_FINAL_STATES, JobStatus
 
 if TYPE_CHECKING:
     from collections.abc import Callable
@@ -67,7 +67,7 @@ class Job:
 
     def in_final_state(self) -> bool:
         """Return whether the job is in a final job state such as DONE or ERROR."""
-        return self.status() in {JobStatus.DONE, JobStatus.ERROR}
+        return self.status() in JOB_FINAL_STATES
 
     def wait_for_final_state(
         self, timeout: float | None = None, wait: float = 5, callback: Callable[[str, str, Job], None] | None = None
@@ -86,7 +86,7 @@ class Job:
             return
         start_time = time.time()
         status = self.status()
-        while status not in {JobStatus.DONE, JobStatus.ERROR}:
+        while status not in JOB_FINAL_STATES:
             elapsed_time = time.time() - start_time
             if timeout is not None and elapsed_time >= timeout:
                 msg = f"Timeout while waiting for job {self.job_id()}."
-- 
2.43.0


From e1cb2d18532ca30e0cbda56ba9bcd0f9b930b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 67/81] fix: noise_x and noise_y accepted missing parameters

---
 src/mqt/qudits/quantum_circuit/gates/noise_x.py | 10 +++++-----
 src/mqt/qudits/quantum_circuit/gates/noise_y.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/noise_x.py b/src/mqt/qudits/quantum_circuit/gates/noise_x.py
index 9cdef08..ded5131 100644
--- a/src/mqt/qudits/quantum_circuit/gates/noise_x.py
+++ b/src/mqt/qudits/quantum_circuit/gates/noise_x.py
@@ -35,11 +35,11 @@ class NoiseX(Gate):
             qasm_tag="noisex",
         )
 
-        if self.validate_parameter(parameters):
-            self.original_lev_a: int = parameters[0]
-            self.original_lev_b: int = parameters[1]
-            self.lev_a, self.lev_b = self.levels_setter(self.original_lev_a, self.original_lev_b)
-            self._params = parameters
+        assert self.validate_parameter(parameters), "Invalid parameters"
+        self.original_lev_a: int = parameters[0]
+        self.original_lev_b: int = parameters[1]
+        self.lev_a, self.lev_b = self.levels_setter(self.original_lev_a, self.original_lev_b)
+        self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         dimension = self.dimensions
diff --git a/src/mqt/qudits/quantum_circuit/gates/noise_y.py b/src/mqt/qudits/quantum_circuit/gates/noise_y.py
index afb67d9..141bbc2 100644
--- a/src/mqt/qudits/quantum_circuit/gates/noise_y.py
+++ b/src/mqt/qudits/quantum_circuit/gates/noise_y.py
@@ -35,11 +35,11 @@ class NoiseY(Gate):
             qasm_tag="noisey",
         )
 
-        if self.validate_parameter(parameters):
-            self.original_lev_a: int = parameters[0]
-            self.original_lev_b: int = parameters[1]
-            self.lev_a, self.lev_b = self.levels_setter(self.original_lev_a, self.original_lev_b)
-            self._params = parameters
+        assert self.validate_parameter(parameters), "Invalid parameters"
+        self.original_lev_a: int = parameters[0]
+        self.original_lev_b: int = parameters[1]
+        self.lev_a, self.lev_b = self.levels_setter(self.original_lev_a, self.original_lev_b)
+        self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         dimension = self.dimensions
-- 
2.43.0


From 8369197968634f66fec5e235b9d963d472af5d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 68/81] fix: custom gates accepted matrices of the wrong size

---
 src/mqt/qudits/quantum_circuit/circuit.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index aef3b97..d9726fd 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -68,6 +68,13 @@ def add_gate_decorator(func: Callable[..., G]) -> Callable[..., G]:
     return gate_constructor
 
 
+def verify_matrix_shape(matrix: NDArray | None, dimensions: list[int]) -> None:
+    size = int(np.prod(dimensions))
+    if matrix is not None and np.shape(matrix) != (size, size):
+        msg = f"The matrix of a gate on lines of dimensions {dimensions} has to be {size}x{size}"
+        raise ValueError(msg)
+
+
 class QuantumCircuit:
     qasm_to_gate_set_dict: ClassVar = {
         "csum": "csum",
@@ -191,12 +198,14 @@ class QuantumCircuit:
 
     @add_gate_decorator
     def cu_one(self, qudits: int, parameters: NDArray, controls: ControlData | None = None) -> CustomOne:
+        verify_matrix_shape(parameters, [self.dimensions[qudits]])
         return CustomOne(
             self, "CUo" + str(self.dimensions[qudits]), qudits, parameters, self.dimensions[qudits], controls
         )
 
     @add_gate_decorator
     def cu_two(self, qudits: list[int], parameters: NDArray, controls: ControlData | None = None) -> CustomTwo:
+        verify_matrix_shape(parameters, [self.dimensions[i] for i in qudits])
         return CustomTwo(
             self,
             "CUt" + str([self.dimensions[i] for i in qudits]),
@@ -208,6 +217,7 @@ class QuantumCircuit:
 
     @add_gate_decorator
     def cu_multi(self, qudits: list[int], parameters: NDArray, controls: ControlData | None = None) -> CustomMulti:
+        verify_matrix_shape(parameters, [self.dimensions[i] for i in qudits])
         return CustomMulti(
             self,
             "CUm" + str([self.dimensions[i] for i in qudits]),
-- 
2.43.0


From 5ff159aeddfd1e89345f8d0c55c0053cab07365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 69/81] fix: csum accepted more than two lines and ignored the
 surplus

---
 src/mqt/qudits/quantum_circuit/gates/csum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/gates/csum.py b/src/mqt/qudits/quantum_circuit/gates/csum.py
index de3d441..e5177ab 100644
--- a/src/mqt/qudits/quantum_circuit/gates/csum.py
+++ b/src/mqt/qudits/quantum_circuit/gates/csum.py
@@ -26,6 +26,9 @@ class CSum(Gate):
         dimensions: list[int],
         controls: ControlData | None = None,
     ) -> None:
+        if len(target_qudits) != 2:
+            msg = "CSum acts on exactly two lines"
+            raise IndexError(msg)
         super().__init__(
             circuit=circuit,
             name=name,
-- 
2.43.0


From e80e6939d2700244e141a0be17f96e0a065c5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 70/81] fix: control with lines but no levels silently gave an
 uncontrolled gate

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 3695252..61bf237 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -109,7 +109,7 @@ class Gate(Instruction):
         raise CircuitError(msg)
 
     def control(self, indices: list[int], ctrl_states: list[int]) -> Gate:
-        if len(indices) == 0 or len(ctrl_states) == 0:
+        if len(indices) == 0 and len(ctrl_states) == 0:
             return self
         # AT THE MOMENT WE SUPPORT CONTROL OF SINGLE QUDIT GATES
         assert self.gate_type == GateTypes.SINGLE
-- 
2.43.0


From 8cba874f9f2f2d16c886d5c4266436c9badb403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 71/81] fix: states of the wrong size, without amplitudes or
 with NaN were prepared as something else

---
 .../qudits/compiler/state_compilation/state_preparation.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqt/qudits/compiler/state_compilation/state_preparation.py b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
index b1542e0..b748e46 100644
--- a/src/mqt/qudits/compiler/state_compilation/state_preparation.py
+++ b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
@@ -168,6 +168,12 @@ class StatePrep:
     def compile_state(self) -> QuantumCircuit:
         final_state = self.state
         cardinalities = self.circuit.dimensions
+        if np.size(final_state) != np.prod(cardinalities):
+            msg = "The state to prepare has to be a vector of the size of the circuit"
+            raise ValueError(msg)
+        if not np.all(np.isfinite(final_state)) or not np.any(final_state):
+            msg = "The state to prepare needs finite amplitudes that are not all zero"
+            raise ValueError(msg)
         labels = list(range(len(self.circuit.dimensions)))
         ops: list[Operation] = []
         decision_tree, _number_of_nodes = create_decision_tree(labels, cardinalities, final_state)
-- 
2.43.0


From 2ebfaed5637e42ad799c2596d0a5790998c1284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 72/81] fix: replacing a gate that does not exist changed the
 circuit

---
 src/mqt/qudits/quantum_circuit/circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index d9726fd..36af6eb 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -330,6 +330,9 @@ class QuantumCircuit:
         return adopted
 
     def replace_gate(self, gate_index: int, sequence: Sequence[Gate]) -> None:
+        if not 0 <= gate_index < len(self.instructions):
+            msg = f"There is no gate {gate_index} to replace"
+            raise IndexError(msg)
         self.instructions[gate_index : gate_index + 1] = [self._adopt(gate) for gate in sequence]
         self.number_gates = (self.number_gates - 1) + len(sequence)
 
-- 
2.43.0


From ab6f82e30a43dacbf3a2be1bcc2e627c3516ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 73/81] fix: a register without enough dimensions was refused
 only after changing the circuit

---
 src/mqt/qudits/quantum_circuit/circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 36af6eb..da1fbd3 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -167,6 +167,9 @@ class QuantumCircuit:
         if any(register.label == qreg.label for register in self.quantum_registers):
             msg = f"There is a quantum register {qreg.label} already"
             raise CircuitError(msg)
+        if len(qreg.dimensions) < qreg.size:
+            msg = f"The quantum register {qreg.label} lacks the dimensions of some of its lines"
+            raise CircuitError(msg)
         self.quantum_registers.append(qreg)
         self.num_qudits += qreg.size
         self._dimensions += qreg.dimensions
-- 
2.43.0


From b8a74688fc426f9318a8044a1e4af8fadb440045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 74/81] fix: the tensor product lost the factor in front of an
 identity

---
 include/dd/MDDPackage.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 4951ec8..0408949 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1229,8 +1229,7 @@ private:
         e = makeDDNode(idx, eSucc);
       }
 
-      e.weight = complexNumber.getCached(CTEntry::val(y.weight.real),
-                                         CTEntry::val(y.weight.img));
+      e.weight = complexNumber.mulCached(x.weight, y.weight);
       computeTable.insert(x, y, {e.nextNode, e.weight});
       return e;
     }
-- 
2.43.0


From affe02bb722cb0384b5b440aab05326564c6680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 75/81] fix: noise on lines beyond the circuit read memory out
 of bounds

---
 src/python/bindings.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index aa8c10f..4f77337 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -354,7 +354,7 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
               if (tag == "rxy" || tag == "rz" || tag == "virtrz") {
                 std::vector<int> dims;
                 dims.push_back(static_cast<int>(
-                    dimensions[static_cast<unsigned long>(dit)]));
+                    dimensions.at(static_cast<std::size_t>(dit))));
                 py::list params_new;
 
                 size_t value_0, value_1;
@@ -396,7 +396,7 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
                 py::object params_new;
                 std::vector<int> dims;
                 dims.push_back(static_cast<int>(
-                    dimensions[static_cast<unsigned long>(dit)]));
+                    dimensions.at(static_cast<std::size_t>(dit))));
 
                 Instruction new_inst = std::make_tuple(
                     "x", false, dims, "SINGLE", std::vector<int>{dit},
@@ -415,7 +415,7 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
 
                 std::vector<int> dims;
                 dims.push_back(static_cast<int>(
-                    dimensions[static_cast<unsigned long>(dit)]));
+                    dimensions.at(static_cast<std::size_t>(dit))));
 
                 size_t value_0, value_1;
                 // Retrieve field 0 and 1 from params
@@ -454,7 +454,7 @@ Circuit generateCircuit(const Circuit_info& circuitInfo,
                 py::object paramsNew;
                 std::vector<int> dims;
                 dims.push_back(static_cast<int>(
-                    dimensions[static_cast<unsigned long>(dit)]));
+                    dimensions.at(static_cast<std::size_t>(dit))));
 
                 Instruction newInst = std::make_tuple(
                     "z", false, dims, "SINGLE", std::vector<int>{dit},
-- 
2.43.0


From 8b092b9d1050dc592883a2b5e59ec00ebe1d2abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:14 +0000
Subject: [PATCH 76/81] fix: never normalize a vector node by an edge of weight
 zero

---
 include/dd/MDDPackage.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 0408949..c4c0b3f 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -212,6 +212,11 @@ public:
     }
     for (auto i = 1UL; i <= edge.nextNode->edges.size(); i++) {
       auto counterBack = edge.nextNode->edges.size() - i;
+      // an edge of weight zero cannot serve as the reference, even if all the
+      // other weights are below the tolerance
+      if (zero.at(counterBack)) {
+        continue;
+      }
       if (ComplexNumbers::mag2(edge.nextNode->edges.at(counterBack).weight) +
               ComplexTable<>::tolerance() >=
           mag2Max) {
-- 
2.43.0


From d35333d725d7c75888f9def474c9fa1ccf61e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:43 +0000
Subject: [PATCH 77/81] fix: refuse words that only begin with the name of an
 ignored statement or of a gate

---
 src/mqt/qudits/quantum_circuit/qasm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index dc3226b..2982474 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -201,12 +201,12 @@ class QASM:
             # "gate_matrix":
             # re.compile(r"(\w+)\s*(?:\(([^)]*)\))?\s*(\w+\[\other_size+\]\s*(,\s*\w+\[\other_size+\])*)\s*;"),
             "gate_matrix": re.compile(
-                r"(\w+)\s*(?:\(([^)]*)\))?\s*(\w+\[\d+\]\s*(,\s*\w+\[\d+\])*)\s*"
+                r"(\w+)(?:\s*\(([^)]*)\)\s*|\s+)(\w+\[\d+\]\s*(,\s*\w+\[\d+\])*)\s*"
                 r"(ctl(\s+\w+\[\d+\]\s*(\s*\w+\s*\[\d+\])*)\s*(\[(\d+(,\s*\d+)*)\]))?"
                 r"\s*;"
             ),
             "error": re.compile(r"^(gate_matrix|if)"),
-            "ignore": re.compile(r"^(measure|barrier)"),
+            "ignore": re.compile(r"^(measure|barrier)\b"),
         }
 
         # initialise number of qubits to zero and an empty list for instructions
-- 
2.43.0


From 7c82c438d035640c876ae88ad3f5f990407bf542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:59 +0000
Subject: [PATCH 78/81] fix: refuse registers of negative size or with lines
 without levels

---
 src/mqt/qudits/quantum_circuit/circuit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index da1fbd3..e078360 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -170,6 +170,9 @@ class QuantumCircuit:
         if len(qreg.dimensions) < qreg.size:
             msg = f"The quantum register {qreg.label} lacks the dimensions of some of its lines"
             raise CircuitError(msg)
+        if qreg.size < 0 or any(dimension < 1 for dimension in qreg.dimensions):
+            msg = f"The quantum register {qreg.label} has a negative size or lines without levels"
+            raise CircuitError(msg)
         self.quantum_registers.append(qreg)
         self.num_qudits += qreg.size
         self._dimensions += qreg.dimensions
@@ -184,6 +187,9 @@ class QuantumCircuit:
         if any(register.label == creg.label for register in self.classic_registers):
             msg = f"There is a classic register {creg.label} already"
             raise CircuitError(msg)
+        if creg.size < 0:
+            msg = f"The classic register {creg.label} has a negative size"
+            raise CircuitError(msg)
         self.classic_registers.append(creg)
         self.num_cl += creg.size
 
-- 
2.43.0


From da5b32bca7288759ff4e36c52701514d9611fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:07 +0000
Subject: [PATCH 79/81] fix: every occurrence of a gate object has its own
 neighbours when compiling at level two

---
 src/mqt/qudits/compiler/dit_compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index f07da5c..91d53f5 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -104,9 +104,11 @@ class QuditCompiler:
     def compile_O2(backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
         phyent = PhyEntQRCEXPass(backend)
 
-        lanes = Lanes(circuit)
+        # a gate can occur several times, every occurrence has its own neighbours
+        placed = circuit.copy().set_instructions(circuit.instructions)
+        lanes = Lanes(placed)
         new_instructions = []
-        for gate in circuit.instructions:
+        for gate in placed.instructions:
             ins: list[Gate] = []
             if gate.gate_type is GateTypes.SINGLE:
                 phyloc = PhyLocAdaPass(backend, lanes.next_is_local(gate))
-- 
2.43.0


From f707193d0b6663fb527958e9dcf2f3b7ff30c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:07 +0000
Subject: [PATCH 80/81] fix: never take the identity of all lines for the one
 of the upper lines

---
 include/dd/MDDPackage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index c4c0b3f..f6a091c 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -622,7 +622,7 @@ public:
       return idTable.at(static_cast<std::size_t>(mostSignificantQubit));
     }
 
-    if (mostSignificantQubit >= 1 &&
+    if (leastSignificantQubit == 0 && mostSignificantQubit >= 1 &&
         (idTable.at(static_cast<std::size_t>(mostSignificantQubit) - 1))
                 .nextNode != nullptr) {
       auto basicDimMost =
-- 
2.43.0


From e396845eeb31617a4422dd0aa8cac862bc8d51c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 81/81] fix: compiling at O2 left the backend's level graphs
 moved for later circuits

---
 src/mqt/qudits/compiler/dit_compiler.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index 91d53f5..4811cec 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import contextlib
+import copy
 import typing
 from typing import Optional
 
@@ -17,6 +19,18 @@ if typing.TYPE_CHECKING:
     from ..simulation.backends.backendv2 import Backend
 
 
+@contextlib.contextmanager
+def keeping_level_graphs(backend: Backend) -> typing.Iterator[None]:
+    """Let the adaptive passes place the levels anew for one circuit without changing the device for the next one."""
+    graphs = backend.energy_level_graphs
+    declared = list(graphs)
+    graphs[:] = [copy.deepcopy(graph, {id(graph.og_circuit): graph.og_circuit}) for graph in declared]
+    try:
+        yield
+    finally:
+        graphs[:] = declared
+
+
 class QuditCompiler:
     passes_enabled: typing.ClassVar = {
         "PhyLocQRPass": PhyLocQRPass,
@@ -35,6 +49,10 @@ class QuditCompiler:
         pass
 
     def compile(self, backend: Backend, circuit: QuantumCircuit, passes_names: list[str]) -> QuantumCircuit:
+        with keeping_level_graphs(backend):
+            return self._compile(backend, circuit, passes_names)
+
+    def _compile(self, backend: Backend, circuit: QuantumCircuit, passes_names: list[str]) -> QuantumCircuit:
         passes_dict = {}
         new_instr = []
         # Instantiate and execute created classes
@@ -102,6 +120,11 @@ class QuditCompiler:
 
     @staticmethod
     def compile_O2(backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
+        with keeping_level_graphs(backend):
+            return QuditCompiler._compile_o2(backend, circuit)
+
+    @staticmethod
+    def _compile_o2(backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:
         phyent = PhyEntQRCEXPass(backend)
 
         # a gate can occur several times, every occurrence has its own neighbours
-- 
2.43.0

