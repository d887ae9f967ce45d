From 942fae6ad35574875f80e17f1f36842f678df3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 01/42] fix: to_unitary of a circuit without operations is the
 identity

---
 src/orquestra/quantum/circuits/_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index be09205..9734a47 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -133,6 +133,9 @@ class Circuit:
                     "be converted to a unitary matrix."
                 )
 
+        if not lifted_matrices:
+            return np.eye(2**self.n_qubits)
+
         return reduce(operator.matmul, lifted_matrices)
 
     def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
-- 
2.43.0


From 276b4b72b19689c808b2d1ab5c2edc8afd9711de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 02/42] fix: Circuit.controlled keeps the idle qubits of the
 circuit

---
 src/orquestra/quantum/circuits/_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 9734a47..21b9871 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -191,7 +191,7 @@ class Circuit:
             new_indices_with_control = (control_index, *new_indices)
             c_ops.append(controlled_op(*new_indices_with_control))
 
-        return Circuit(c_ops)
+        return Circuit(c_ops, n_qubits=max(self.n_qubits, control_index) + 1)
 
 
 @singledispatch
-- 
2.43.0


From 1808f1bc0ab70213f4eef722a34fd2c09a8069ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 03/42] fix: substitute parameters of a custom gate
 simultaneously

---
 src/orquestra/quantum/circuits/_gates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 6e69e8b..7961e24 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -514,7 +514,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 27ec4e8eeb7bd9e936217fc9a9cefc8b94d4dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 04/42] fix: bind symbols in parameter expressions
 simultaneously

---
 src/orquestra/quantum/circuits/_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_operations.py b/src/orquestra/quantum/circuits/_operations.py
index 284598f..f5214dc 100644
--- a/src/orquestra/quantum/circuits/_operations.py
+++ b/src/orquestra/quantum/circuits/_operations.py
@@ -74,7 +74,7 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From 961036030ff5c831c0963df4c386751e79aeb4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 05/42] fix: binding parameters of ResetOperation no longer
 raises TypeError

---
 src/orquestra/quantum/circuits/_wavefunction_operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_wavefunction_operations.py b/src/orquestra/quantum/circuits/_wavefunction_operations.py
index be86d14..087c1f7 100644
--- a/src/orquestra/quantum/circuits/_wavefunction_operations.py
+++ b/src/orquestra/quantum/circuits/_wavefunction_operations.py
@@ -1,7 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from functools import singledispatch
 from numbers import Complex
 from typing import Iterable, Tuple
@@ -105,7 +105,9 @@ class ResetOperation:
         )
 
     def replace_params(self, new_params: Tuple[Parameter, ...]) -> "ResetOperation":
-        return replace(self, params=new_params)
+        new_operation = ResetOperation(*self.qubit_indices)
+        new_operation.params = new_params
+        return new_operation
 
     def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
         raise RuntimeError(
-- 
2.43.0


From 962a00a8d3c60677f66a448f9df2e1f1d1b86031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 06/42] fix: equality of Pauli operators uses the 1e-8
 coefficient tolerance

---
 src/orquestra/quantum/operators/_pauli_operators.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index de757fd..738b279 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -284,7 +284,7 @@ class PauliTerm:
             return other == self
 
         cast_other = cast(PauliTerm, other)
-        return np.allclose(self.coefficient, cast_other.coefficient) and (
+        return np.allclose(self.coefficient, cast_other.coefficient, rtol=0.0) and (
             np.allclose(self.coefficient, 0) or self.operations == cast_other.operations
         )
 
@@ -455,11 +455,10 @@ class PauliSum:
                 return np.allclose(other.coefficient, 0)
             return self == PauliSum([other])
 
-        other = cast(PauliSum, other)
-        if len(self) != len(other):
-            return False
-
-        return set(self.terms) == set(other.terms)
+        # Comparing the coefficients of the difference, and not the sets of terms,
+        # because the rounding done by PauliTerm.__hash__ is not compatible with
+        # a tolerance.
+        return len(self - cast(PauliSum, other)) == 0
 
     def __add__(self, other: Union[PauliRepresentation, complex]) -> "PauliSum":
         _validate_type(other)
-- 
2.43.0


From bd470c62cdf0f93879a7194f5b652d2130f76b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 07/42] fix: sparse matrix of the zero operator

---
 .../quantum/operators/_openfermion_utils/sparse_tools.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
index 94bd0f1..745a088 100644
--- a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
+++ b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
@@ -58,6 +58,9 @@ def get_sparse_operator(operator: PauliRepresentation, n_qubits: Optional[int] =
 
     # Construct the Scipy sparse matrix.
     n_hilbert = 2**n_qubits
+    if len(operator.terms) == 0:
+        return scipy.sparse.csc_matrix((n_hilbert, n_hilbert), dtype=complex)
+
     values_list: List[numpy.ndarray] = []
     row_list: List[numpy.ndarray] = []
     column_list: List[numpy.ndarray] = []
-- 
2.43.0


From d8a8228ff7297056b5bccfe54cfaf6f536a0a029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 08/42] fix: Pauli expansion of a 1 x 1 matrix

---
 src/orquestra/quantum/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 2252ec5..de77194 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -73,7 +73,7 @@ def dec2bin(number: int, length: int) -> List[int]:
             "Insufficient number of bits for representing the number {}".format(number)
         )
 
-    bit_str = bin(number)
+    bit_str = bin(number) if number != 0 else ""
     bit_str = bit_str[2 : len(bit_str)]  # chop off the first two chars
     bit_string = [int(x) for x in list(bit_str)]
     if len(bit_string) < length:
-- 
2.43.0


From 25baf6a26527ec96a6b6c62024d045bcc575e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 09/42] fix: printed constant terms and large coefficients can
 be parsed back

---
 src/orquestra/quantum/operators/_pauli_operators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index 738b279..b563033 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -120,6 +120,9 @@ def _parse_operators_and_coefficient(
         coef = None
         operators_strs = parts
 
+    # Identity without an index is how constant terms are printed.
+    operators_strs = [op_str for op_str in operators_strs if op_str != "I"]
+
     operators_dict = dict([_parse_operator(op_str) for op_str in operators_strs])
 
     if len(operators_dict) != len(operators_strs):
@@ -398,7 +401,11 @@ class PauliTerm:
 class PauliSum:
     def __init__(self, terms: Optional[Union[str, Sequence[PauliTerm]]] = None):
         if isinstance(terms, str):
-            terms = [PauliTerm(s.strip()) for s in re.split(r"\+(?![^(]*\))", terms)]
+            # A plus inside parentheses or in an exponent doesn't separate terms.
+            terms = [
+                PauliTerm(s.strip())
+                for s in re.split(r"(?<![0-9.]e)\+(?![^(]*\))", terms)
+            ]
         if terms is None:
             # If no terms is given, the PauliSum has a value of zero.
             terms = []
-- 
2.43.0


From a1578db5358f5577b3ba93bd0c83d149423cb779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 10/42] fix: artefacts can be loaded from a path object as well
 as a string or a file

---
 src/orquestra/quantum/circuits/layouts.py     | 28 ++++++++-----------
 .../quantum/measurements/measurements.py      | 19 +++++++------
 src/orquestra/quantum/operators/_io.py        | 15 ++++------
 src/orquestra/quantum/utils.py                | 16 ++++-------
 4 files changed, 31 insertions(+), 47 deletions(-)

diff --git a/src/orquestra/quantum/circuits/layouts.py b/src/orquestra/quantum/circuits/layouts.py
index 7cc055e..cceaea4 100644
--- a/src/orquestra/quantum/circuits/layouts.py
+++ b/src/orquestra/quantum/circuits/layouts.py
@@ -2,10 +2,13 @@
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
 import json
-from typing import Dict, List, TextIO, Tuple
+from typing import Dict, List, Tuple
 
 import numpy as np
 
+from ..typing import LoadSource
+from ..utils import ensure_open
+
 
 class CircuitLayers:
     """A class representing a pattern of circuit layers, consisting of lists,
@@ -43,7 +46,7 @@ def save_circuit_layers(circuit_layers: CircuitLayers, filename: str) -> None:
         f.write(json.dumps(circuit_layers_dict))
 
 
-def load_circuit_layers(file: TextIO) -> CircuitLayers:
+def load_circuit_layers(file: LoadSource) -> CircuitLayers:
     """Loads a list of circuit layers from a file.
     Args:
         file (str or file-like object): the name of the file, or a file-like object.
@@ -52,11 +55,8 @@ def load_circuit_layers(file: TextIO) -> CircuitLayers:
         (circuit.CircuitLayers)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitLayers.from_dict(data)
 
@@ -82,11 +82,8 @@ def load_circuit_ordering(file):
         ordering (list)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["ordering"]
 
@@ -134,11 +131,8 @@ def load_circuit_connectivity(file):
         (orquestra.quantum.circuit.CircuitConnectivity)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitConnectivity.from_dict(data)
 
diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 4095067..32649ef 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -6,14 +6,18 @@ from __future__ import annotations
 import copy
 import json
 from collections import Counter
-from typing import Dict, Iterable, List, Optional, Sequence, TextIO, Tuple
+from typing import Dict, Iterable, List, Optional, Sequence, Tuple
 
 import numpy as np
 
 from ..distributions import MeasurementOutcomeDistribution
 from ..operators import PauliRepresentation
-from ..typing import AnyPath
-from ..utils import convert_tuples_to_bitstrings, sample_from_probability_distribution
+from ..typing import AnyPath, LoadSource
+from ..utils import (
+    convert_tuples_to_bitstrings,
+    ensure_open,
+    sample_from_probability_distribution,
+)
 from .expectation_values import ExpectationValues
 from .parities import check_parity_of_vector
 
@@ -207,17 +211,14 @@ class Measurements:
         return cls(bitstring_samples)
 
     @classmethod
-    def load_from_file(cls, file: TextIO):
+    def load_from_file(cls, file: LoadSource):
         """Load a set of measurements from file
 
         Args:
             file (str or file-like object): the name of the file, or a file-like object
         """
-        if isinstance(file, str):
-            with open(file, "r") as f:
-                data = json.load(f)
-        else:
-            data = json.load(file)
+        with ensure_open(file) as f:
+            data = json.load(f)
 
         bitstrings = []
         for bitstring in data["bitstrings"]:
diff --git a/src/orquestra/quantum/operators/_io.py b/src/orquestra/quantum/operators/_io.py
index 142d622..ac162e5 100644
--- a/src/orquestra/quantum/operators/_io.py
+++ b/src/orquestra/quantum/operators/_io.py
@@ -6,6 +6,7 @@ from typing import Any, Dict, List, Tuple
 import rapidjson as json
 
 from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
 from ._pauli_operators import PauliRepresentation, PauliSum, PauliTerm
 
 
@@ -76,11 +77,8 @@ def load_operator(file: LoadSource) -> PauliSum:
         op: the operator.
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return convert_dict_to_op(data)
 
@@ -109,11 +107,8 @@ def load_operator_set(file: LoadSource) -> List[PauliSum]:
     Returns:
         operator_set: a list of QubitOperator objects
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     operator_set = []
     for operator_dict in data["operators"]:
diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index de77194..91b3751 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -332,11 +332,8 @@ def load_value_estimate(file: LoadSource) -> ValueEstimate:
         array (numpy.array): the array
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return ValueEstimate.from_dict(data)
 
@@ -364,11 +361,8 @@ def load_list(file: LoadSource) -> List:
         array (list): the list
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["list"]
 
@@ -469,7 +463,7 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
         frame_meas: frame measurements (number of measurements per group)
     """
 
-    with open(filename, "r") as f:
+    with ensure_open(filename) as f:
         data = json.load(f)
 
     frame_meas = convert_dict_to_array(data["frame_meas"])
-- 
2.43.0


From a8e9226816fce0d4890d52736269a9f0c47266ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 11/42] fix: load measurement-count estimates saved without
 frame measurements

---
 src/orquestra/quantum/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 91b3751..5173826 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -451,7 +451,9 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: AnyPath,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -460,13 +462,16 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), None if
+            they haven't been saved
     """
 
     with ensure_open(filename) as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = None
+    if "frame_meas" in data:
+        frame_meas = convert_dict_to_array(data["frame_meas"])
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From fa3a1857fd771812ee833aa88f03d77362c27e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 12/42] fix: outcomes of a register without qubits have no
 digits

---
 src/orquestra/quantum/wavefunction.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 96c7f9d..4f87a8d 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -3,6 +3,7 @@
 ################################################################################
 import json
 from functools import lru_cache
+from itertools import product
 from math import log2
 from typing import Any, Dict, List, Optional, Sequence, Set, Tuple, Union
 from warnings import warn
@@ -206,9 +207,7 @@ class Wavefunction:
         return np.abs(self.amplitudes) ** 2
 
     def get_outcome_probs(self) -> Dict[str, float]:
-        values = [
-            format(i, "0" + str(self.n_qubits) + "b")[::-1] for i in range(len(self))
-        ]
+        values = ["".join(bits)[::-1] for bits in product("01", repeat=self.n_qubits)]
 
         probs = self.get_probabilities()
 
-- 
2.43.0


From 5482426b4f49dd3baf12bf98e0c3b06e759baf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 13/42] fix: count jobs and circuits of a simulator only once
 they have run

---
 src/orquestra/quantum/api/wavefunction_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/api/wavefunction_simulator.py b/src/orquestra/quantum/api/wavefunction_simulator.py
index 163a5ea..0031fe2 100644
--- a/src/orquestra/quantum/api/wavefunction_simulator.py
+++ b/src/orquestra/quantum/api/wavefunction_simulator.py
@@ -137,13 +137,13 @@ class BaseWavefunctionSimulator(BaseCircuitRunner, WavefunctionSimulator):
         ):
             # Native subcircuits are passed through to the underlying simulator.
             # They also count towards number of circuits and number of jobs run.
-            self._n_jobs_executed += 1
             if is_supported:
-                self._n_circuits_executed += 1
                 state = self._get_wavefunction_from_native_circuit(subcircuit, state)
+                self._n_circuits_executed += 1
             else:
                 for operation in subcircuit.operations:
                     state = operation.apply(state)
+            self._n_jobs_executed += 1
 
         return Wavefunction(state)
 
-- 
2.43.0


From 4a4c4db260d1220f15af96d01e6fd4912e6198e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 14/42] fix: tracking wrapper counts exactly the successful
 calls

---
 src/orquestra/quantum/runners/trackers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/runners/trackers.py b/src/orquestra/quantum/runners/trackers.py
index fde4d58..e7233cc 100644
--- a/src/orquestra/quantum/runners/trackers.py
+++ b/src/orquestra/quantum/runners/trackers.py
@@ -57,9 +57,9 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
             circuits: The circuits to execute.
             n_samples: The number of samples to collect for each circuit.
         """
+        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         self._n_circuits_executed += len(circuits)
         self._n_jobs_executed += 1
-        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         for circuit, measurement in zip(circuits, measurements):
             self.record_raw_measurement_data(circuit, measurement)
         self.save_raw_data()
@@ -103,6 +103,8 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
         distribution = self.inner_backend.get_measurement_outcome_distribution(
             circuit, n_samples
         )
+        self._n_circuits_executed += 1
+        self._n_jobs_executed += 1
         self.raw_data.append(
             {
                 "data_type": "measurement outcome distribution",
-- 
2.43.0


From a84962a589caf7d8d7149943a76a3736e531cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 15/42] fix: deserialise symbols in parameters of custom gates

---
 src/orquestra/quantum/circuits/_serde.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 2297785..90c0c15 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -283,9 +283,11 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
     return gate_def(
-        *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
+        *[
+            deserialize_expr(param, dict_.get("free_symbols", []))
+            for param in dict_.get("params", [])
+        ]
     )
 
 
-- 
2.43.0


From 39b077e2e75c9eaa8bf8ef30334ba01cc24c29c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 16/42] fix: collect definitions of custom gates used by
 modified gates

---
 src/orquestra/quantum/circuits/_circuit.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 21b9871..5ea1fe7 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -25,9 +25,15 @@ def _circuit_size_by_operations(operations):
     )
 
 
-def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+def _innermost_gate(gate):
+    while hasattr(gate, "wrapped_gate"):
+        gate = gate.wrapped_gate
+    return gate
+
+
+def _is_custom_gate(gate):
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,9 +104,9 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
-            for operation in self.operations
-            if _operation_uses_custom_gate(operation)
+            gate.matrix_factory.gate_definition
+            for gate in (_innermost_gate(op.gate) for op in self.operations)
+            if _is_custom_gate(gate)
         )
         unique_operation_dict = {}
         for gate_def in custom_gate_definitions:
-- 
2.43.0


From c1ecba5bded7ea885d2b0959ab991f6efbec7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 17/42] fix: gate matrices of different shapes are not equal

---
 src/orquestra/quantum/circuits/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 7961e24..7f90603 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -603,7 +603,7 @@ def _are_matrix_elements_equal(element, another_element):
 
 
 def _are_matrices_equal(matrix, another_matrix):
-    return all(
+    return matrix.shape == another_matrix.shape and all(
         _are_matrix_elements_equal(element, another_element)
         for element, another_element in zip(matrix, another_matrix)
     )
-- 
2.43.0


From babd87b8b7816e90d7cf5d92fb6940261759a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 18/42] fix: deserialise symbols whose names aren't identifiers
 or share a base name

---
 src/orquestra/quantum/circuits/_serde.py | 46 ++++++++++++++----------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 90c0c15..e9b4604 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -4,7 +4,7 @@
 import json
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Union
+from typing import Dict, Iterable, List, Mapping, Tuple
 
 import sympy
 
@@ -17,28 +17,36 @@ def serialize_expr(expr: sympy.Expr):
     return str(expr)
 
 
-def _make_symbols_map(
-    symbol_names: Iterable[str],
-) -> Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]]:
-    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
-    for name in symbol_names:
-        # Check if the symbol name has brackets, such as "x[4]". Such symbol names will
-        # occur in circuits imported from Qiskit when the Qiskit circuit was
-        # parameterized using a Qiskit ParameterVector.
-        match = re.search(r"^(.*)\[([0-9]+)\]$", name)
-        if match:
-            symbols_map.setdefault(match.group(1), {})[
-                int(match.group(2))
-            ] = sympy.Symbol(name)
-        else:
-            symbols_map[name] = sympy.Symbol(name)
+def _mark_symbols(
+    expr_str: str, symbol_names: Iterable[str]
+) -> Tuple[str, Dict[str, sympy.Symbol]]:
+    """Replace names of symbols by identifiers that can't be misinterpreted.
 
-    return symbols_map
+    Not every name is a valid identifier: "lambda" is a keyword and names with brackets,
+    such as "x[4]", occur in circuits imported from Qiskit when the Qiskit circuit was
+    parameterized using a Qiskit ParameterVector.
+    """
+    identifiers = {
+        name: f"_symbol_{i}"
+        for i, name in enumerate(sorted(symbol_names, key=len, reverse=True))
+    }
+    if not identifiers:
+        return expr_str, {}
+
+    marked_expr_str = re.sub(
+        # A name followed by a parenthesis is a name of a function.
+        rf"(?<!\w)(?:{'|'.join(map(re.escape, identifiers))})(?![\w(])",
+        lambda match: identifiers[match.group()],
+        expr_str,
+    )
+    return marked_expr_str, {
+        identifier: sympy.Symbol(name) for name, identifier in identifiers.items()
+    }
 
 
 def deserialize_expr(expr_str, symbol_names):
-    symbols_map = _make_symbols_map(symbol_names)
-    return sympy.sympify(expr_str, locals=symbols_map)
+    marked_expr_str, symbols_map = _mark_symbols(expr_str, symbol_names)
+    return sympy.sympify(marked_expr_str, locals=symbols_map)
 
 
 def builtin_gate_by_name(name):
-- 
2.43.0


From 3a972d552483b17f9962f974ab083d04f4b8485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 19/42] fix: custom gates named like built-in ones survive
 serialisation

---
 src/orquestra/quantum/circuits/_serde.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index e9b4604..d92935c 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -143,6 +143,12 @@ def _basic_gate_to_dict(gate: _gates.MatrixFactoryGate):
             if gate.free_symbols
             else {}
         ),
+        # The name of a custom gate might coincide with the name of a built-in one.
+        **(
+            {"is_custom": True}
+            if isinstance(gate.matrix_factory, _gates.CustomGateMatrixFactory)
+            else {}
+        ),
     }
 
 
@@ -218,6 +224,9 @@ def _gate_from_dict(dict_, custom_gate_defs):
 
     Pass it a JSON dictionary and it'll try its best to return you a proper gate
     instance, regardless of the given gate type."""
+    if dict_.get("is_custom"):
+        return _custom_gate_instance_from_dict(dict_, custom_gate_defs)
+
     try:
         return _builtin_gate_from_dict(dict_)
     except KeyError:
-- 
2.43.0


From 15be3c5836e95fcd494dac10de3e44f9f59d0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 20/42] fix: Python floats survive serialisation to the last
 bit

---
 src/orquestra/quantum/circuits/_serde.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index d92935c..6d1692f 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -4,7 +4,7 @@
 import json
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Tuple
+from typing import Dict, Iterable, List, Mapping, Tuple, Union
 
 import sympy
 
@@ -44,8 +44,23 @@ def _mark_symbols(
     }
 
 
+def _parse_python_number(expr_str: str) -> Union[float, complex, None]:
+    """Parse string representation of a Python number, exact to the last bit."""
+    for number_type in (float, complex):
+        try:
+            number = number_type(expr_str)
+        except ValueError:
+            continue
+        if str(number) == expr_str:
+            return number
+    return None
+
+
 def deserialize_expr(expr_str, symbol_names):
     marked_expr_str, symbols_map = _mark_symbols(expr_str, symbol_names)
+    number = _parse_python_number(marked_expr_str)
+    if number is not None:
+        return sympy.sympify(number)
     return sympy.sympify(marked_expr_str, locals=symbols_map)
 
 
-- 
2.43.0


From 5c8a3132d0cef09c6c9f84ccea7c17c36b73b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 21/42] fix: circuits with NumPy integers as qubit indices can
 be dumped to JSON

---
 src/orquestra/quantum/circuits/_serde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 6d1692f..8c04c5e 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -109,7 +109,7 @@ def _circuit_to_dict(circuit: _circuit.Circuit):
     """
     custom_gate_definitions = circuit.collect_custom_gate_definitions()
     return {
-        "n_qubits": circuit.n_qubits,
+        "n_qubits": int(circuit.n_qubits),
         **(
             {
                 "operations": _map_eager(to_dict, circuit.operations),
@@ -144,7 +144,7 @@ def _gate_operation_to_dict(gate_operation: _gates.GateOperation):
     return {
         "type": "gate_operation",
         "gate": to_dict(gate_operation.gate),
-        "qubit_indices": list(gate_operation.qubit_indices),
+        "qubit_indices": _map_eager(int, gate_operation.qubit_indices),
     }
 
 
-- 
2.43.0


From 2d4a4ce2d2dac3d41df6f78da8cd84a46e0e5a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 22/42] fix: wavefunction assignments are checked before they
 are made

---
 src/orquestra/quantum/wavefunction.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 4f87a8d..fb50a7b 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -74,7 +74,7 @@ class Wavefunction:
 
     @property
     def amplitudes(self) -> Union[np.ndarray, Matrix]:
-        if self.free_symbols:
+        if isinstance(self._amplitude_vector, Matrix):
             return _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
 
         return self._amplitude_vector
@@ -95,7 +95,8 @@ class Wavefunction:
             or isinstance(arr, Matrix)
             and not arr.free_symbols
         ):
-            probs_of_ground_entries = np.sum(np.abs(arr) ** 2)
+            numbers = np.asarray(arr, dtype=complex)
+            probs_of_ground_entries = np.sum(np.abs(numbers) ** 2)
 
             if not np.isclose(probs_of_ground_entries, 1.0):
                 raise ValueError("Vector does not result in a unit probability.")
@@ -120,16 +121,16 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        new_vector = self._amplitude_vector.copy()
+        new_vector[idx] = val
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            self._check_normalization(new_vector)
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        self._amplitude_vector = new_vector
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From ed7db4154cc0e306fbab196dc90a96471a5c3490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 23/42] fix: number of copies of a circuit is exact for large
 sample counts

---
 src/orquestra/quantum/circuits/_itertools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_itertools.py b/src/orquestra/quantum/circuits/_itertools.py
index 33c7a15..fa6be1c 100644
--- a/src/orquestra/quantum/circuits/_itertools.py
+++ b/src/orquestra/quantum/circuits/_itertools.py
@@ -1,7 +1,6 @@
 from collections import Counter
 from functools import reduce
 from itertools import islice
-from math import ceil
 from typing import Dict, Iterable, List, Sequence, Tuple, TypeVar
 
 T = TypeVar("T")
@@ -79,7 +78,7 @@ def split_into_batches(
 
 
 def _expand_sample_size(n_samples, max_sample_size):
-    multiplicities = ceil(n_samples / max_sample_size)
+    multiplicities = -(-n_samples // max_sample_size)
     new_n_samples = (
         multiplicities * (max_sample_size,)
         if n_samples % max_sample_size == 0
-- 
2.43.0


From d5f05588a73c1ddf341ec91f45ecb912cf94a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 24/42] fix: combine measurement counts of a circuit that was
 not run

---
 src/orquestra/quantum/circuits/_itertools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_itertools.py b/src/orquestra/quantum/circuits/_itertools.py
index fa6be1c..c6c5362 100644
--- a/src/orquestra/quantum/circuits/_itertools.py
+++ b/src/orquestra/quantum/circuits/_itertools.py
@@ -174,7 +174,7 @@ def combine_measurement_counts(
         )
     measurements_it = iter(all_measurements)
     return [
-        reduce(_combine_measurements, islice(measurements_it, multiplicity))
+        reduce(_combine_measurements, islice(measurements_it, multiplicity), {})
         for multiplicity in multiplicities
     ]
 
-- 
2.43.0


From 9a3df9b54511cbfc8d4e382f4441a2b5bddf9ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 25/42] fix: scale_and_discretize is exact for large totals

---
 src/orquestra/quantum/utils.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 5173826..703ffdc 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -7,7 +7,9 @@ import json
 import os
 import sys
 from contextlib import contextmanager
+from fractions import Fraction
 from functools import lru_cache
+from math import floor
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
 
 import numpy as np
@@ -492,20 +494,17 @@ def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
             of the input list elements.
     """
 
-    # Note: combining the two lines below breaks type checking; see mypy #6040
-    value_sum = sum(values)
-    scale_factor = total / value_sum
+    # Exact arithmetic, as rounding errors exceed one unit for large totals.
+    weights = [Fraction(v if isinstance(v, int) else float(v)) for v in values]
+    scale_factor = int(total) / sum(weights, start=Fraction(0))
 
-    result = [np.floor(value * scale_factor) for value in values]
-    remainders = [
-        value * scale_factor - np.floor(value * scale_factor) for value in values
-    ]
+    shares = [weight * scale_factor for weight in weights]
+    result = [floor(share) for share in shares]
+    remainders = [share - floor(share) for share in shares]
     indexes_sorted_by_remainder = np.argsort(remainders)[::-1]
-    for index in range(int(round(total - sum(result)))):
+    for index in range(int(total) - sum(result)):
         result[indexes_sorted_by_remainder[index]] += 1
 
-    result = [int(value) for value in result]
-
     assert sum(result) == total, "The scaled list does not sum to the desired total."
 
     return result
-- 
2.43.0


From d1f0ed189b60691d33c54678575195e6f79fc2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 26/42] fix: marginalising leaves the distribution intact and
 keeps outcomes apart

---
 .../distributions/_measurement_outcome_distribution.py   | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 2340da2..7faf5a1 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -1,7 +1,6 @@
 ################################################################################
 # © Copyright 2022 Zapata Computing Inc.
 ################################################################################
-import copy
 import json
 import math
 import sys
@@ -100,11 +99,9 @@ class MeasurementOutcomeDistribution:
         if len(active_qubits) != len(set(active_qubits)):
             raise ValueError("There exist duplicate indices in the active qubit list")
 
-        for key in copy.deepcopy(list(self.distribution_dict.keys())):
-            new_key = "".join(str(key[i]) for i in active_qubits)
-            new_counts[new_key] = self.distribution_dict.pop(key) + new_counts.get(
-                new_key, 0
-            )
+        for key, value in self.distribution_dict.items():
+            new_key = tuple(key[i] for i in active_qubits)
+            new_counts[new_key] = value + new_counts.get(new_key, 0)
         normalize = is_normalized(self.distribution_dict)
         return MeasurementOutcomeDistribution(new_counts, normalize=normalize)
 
-- 
2.43.0


From 8b971749eeaea355a00e9a4d167e127b333aaec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 27/42] fix: save outcomes above nine of a single subsystem

---
 .../_measurement_outcome_distribution.py              | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 7faf5a1..dfffdf8 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -112,7 +112,8 @@ def preprocess_distibution_dict(
     res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            digits = key if "," not in key else key.rstrip(",").split(",")
+            res_dict[tuple(map(int, digits))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -241,9 +242,15 @@ def normalize_measurement_outcome_distribution(
         return measurement_outcome_distribution
 
 
+def _tuple_to_comma_separated_integers(key: Tuple[int, ...]) -> str:
+    text = ",".join(map(str, key))
+    # The trailing comma tells a single outcome like 12 from a pair of digits
+    return f"{text}," if len(key) == 1 and len(text) > 1 else text
+
+
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key: value
         for key, value in dict.items()
     }
 
-- 
2.43.0


From 935d62eb0c7cc2f1e08afaefff7842cd465da909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 28/42] fix: MMD of wide registers and of outcomes above one

---
 src/orquestra/quantum/distributions/mmd.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/orquestra/quantum/distributions/mmd.py b/src/orquestra/quantum/distributions/mmd.py
index 85e1630..b55d4e2 100644
--- a/src/orquestra/quantum/distributions/mmd.py
+++ b/src/orquestra/quantum/distributions/mmd.py
@@ -26,6 +26,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 # SOFTWARE.
 
+from functools import reduce
 from typing import TYPE_CHECKING, Dict, Sequence
 
 import numpy as np
@@ -48,7 +49,7 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -75,7 +76,7 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
@@ -87,6 +88,10 @@ def compute_multi_rbf_kernel(
     return kernel_matrix / len(sigmas)
 
 
+def _digits_to_int(digits: Sequence[int], base: int) -> int:
+    return reduce(lambda number, digit: base * number + int(digit), digits, 0)
+
+
 def compute_mmd(
     target_distribution: "MeasurementOutcomeDistribution",
     measured_distribution: "MeasurementOutcomeDistribution",
@@ -122,9 +127,10 @@ def compute_mmd(
             measured_distribution.distribution_dict.get(bitstring, 0)
         )
 
+    base = max((digit + 1 for item in all_keys for digit in item), default=2)
     basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys]
-    )  # Digit Tuple to int
+        [_digits_to_int(item, max(2, int(base))) for item in all_keys], dtype=object
+    )  # Digit Tuple to int, of any size
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
     else:
-- 
2.43.0


From fb9f5390c7c244c3c393d414c0bdbc3afb6d1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 29/42] fix: reject distributions whose total overflows

---
 .../distributions/_measurement_outcome_distribution.py        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index dfffdf8..4418ccf 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -230,6 +230,10 @@ def normalize_measurement_outcome_distribution(
             "Normalization of MeasurementOutcomeDistribution FAILED:"
             " input dict is empty (all zero values)."
         )
+    elif math.isinf(norm):
+        raise ValueError(
+            "Normalization of MeasurementOutcomeDistribution FAILED: too large values."
+        )
     elif 0 < norm < sys.float_info.min:
         raise ValueError(
             "Normalization of MeasurementOutcomeDistribution FAILED: too small values."
-- 
2.43.0


From b281d28a32a7a4bd9dd9a0f3699689c5b6673c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 30/42] fix: decomposing a circuit keeps its idle qubits

---
 .../quantum/decompositions/_orquestra_decompositions.py       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 88f626a..8961c79 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -46,4 +46,6 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_orquestra_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules), circuit.n_qubits
+    )
-- 
2.43.0


From d215a9ed05874209a7970811675a2997119093ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 31/42] fix: U3 rule leaves non-gate operations and custom
 gates named U3 alone

---
 .../decompositions/_orquestra_decompositions.py    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 8961c79..4a8328e 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -5,10 +5,16 @@ from typing import Iterable, Sequence
 
 from ..circuits._builtin_gates import RY, RZ
 from ..circuits._circuit import Circuit
-from ..circuits._gates import ControlledGate, GateOperation
+from ..circuits._gates import ControlledGate, Gate, GateOperation, MatrixFactoryGate
+from ..circuits._matrices import u3_matrix
 from ..decompositions._decomposition import DecompositionRule, decompose_operations
 
 
+def _is_u3(gate: Gate) -> bool:
+    # The name alone doesn't tell U3 from a custom gate which is also called "U3"
+    return isinstance(gate, MatrixFactoryGate) and gate.matrix_factory is u3_matrix
+
+
 class U3GateToRotation(DecompositionRule[GateOperation]):
     """Decomposition of Orquestra's U3 gate.
 
@@ -17,10 +23,10 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 
     def predicate(self, operation: GateOperation) -> bool:
         # Only decompose U3 and its controlled version
-        return (
-            operation.gate.name == "U3"
+        return isinstance(operation, GateOperation) and (
+            _is_u3(operation.gate)
             or isinstance(operation.gate, ControlledGate)
-            and operation.gate.wrapped_gate.name == "U3"
+            and _is_u3(operation.gate.wrapped_gate)
         )
 
     def production(self, operation: GateOperation) -> Iterable[GateOperation]:
-- 
2.43.0


From e6eb4cc3f6d2a2ce97f14c755a8e1fc6f286f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 32/42] fix: derivative circuits of several steps repeat steps
 of the right length

---
 src/orquestra/quantum/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 911386a..0715175 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -140,7 +140,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", n_steps=1
+            hamiltonian, time / n_steps, method="Trotter", n_steps=1
         )
 
         for position in range(n_steps):
-- 
2.43.0


From cf22a3b40985695b91d9fa26703b188642196d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 33/42] fix: evolution derivatives with vanishing terms

---
 src/orquestra/quantum/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 0715175..f33513d 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -125,7 +125,7 @@ def time_evolution_derivatives(
                 )
             r = term_1.coefficient.real / n_steps
             output_factors.append(r * factor)
-            shift = factor * (np.pi / (4.0 * r))
+            shift = factor * (np.pi / (4.0 * r)) if r != 0 else 0.0
 
             for j, term_2 in enumerate(terms):
                 output += time_evolution_for_term(
-- 
2.43.0


From 4b14873543fdabcf1f7f994b72de12d0625d83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 34/42] fix: reject imaginary coefficients of either sign in
 time evolution

---
 src/orquestra/quantum/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index f33513d..6a8352d 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -62,13 +62,13 @@ def time_evolution_for_term(term: PauliTerm, time: Union[float, sympy.Expr]) ->
 
     circuit = Circuit()
 
+    if abs(term.coefficient.imag) > 1e-9:
+        raise ValueError("Coefficients of terms must be real for Trotterization.")
+
     # If constant term, return empty circuit.
     if term.is_constant:
         return circuit
 
-    if term.coefficient.imag > 1e-9:
-        raise ValueError("Coefficients of terms must be real for Trotterization.")
-
     for i, qubit_id in enumerate(qubit_indices):
         if term[qubit_id] == "X":
             basis_change += H(qubit_id)
-- 
2.43.0


From 43fad90f3b520cb3cdefdac2775d64da95f3c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 35/42] fix: constant operators of several terms (or none)
 yield their whole constant

---
 src/orquestra/quantum/estimation/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/estimation/_estimation.py b/src/orquestra/quantum/estimation/_estimation.py
index 4afc894..06d5924 100644
--- a/src/orquestra/quantum/estimation/_estimation.py
+++ b/src/orquestra/quantum/estimation/_estimation.py
@@ -102,7 +102,7 @@ def evaluate_non_measured_estimation_tasks(
     for task in estimation_tasks:
         coefficient: complex
         if task.operator.is_constant:
-            coefficient = task.operator.terms[0].coefficient
+            coefficient = sum((term.coefficient for term in task.operator.terms), 0.0)
         else:
             if task.number_of_shots is not None and task.number_of_shots > 0:
                 raise RuntimeError(
-- 
2.43.0


From 590678e0d064ce616365d1e7c17a75e7b485ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 36/42] fix: undefined functions aren't translated to the
 operation they share a name with

---
 .../quantum/circuits/symbolic/sympy_expressions.py         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
index 3ae36bc..b18c089 100644
--- a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
+++ b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
@@ -8,6 +8,7 @@ from numbers import Number
 
 import sympy
 import sympy.core
+from sympy.core.function import AppliedUndef
 
 try:
     # for sympy>=1.6 - import the module as usual
@@ -119,6 +120,12 @@ def power_from_sympy_pow(power: sympy.Pow):
 
 @expression_from_sympy.register
 def function_call_from_sympy_function(function: sympy.Function):
+    if isinstance(function, AppliedUndef) and (
+        str(function.func) in SYMPY_DIALECT.known_functions
+    ):
+        raise NotImplementedError(
+            f"{function} is an undefined function, not the operation of this name"
+        )
     return FunctionCall(str(function.func), expression_from_sympy(function.args))
 
 
-- 
2.43.0


From 33bc43a9c02994ca9cea1659b6b2d5b945ed757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 37/42] fix: refuse to translate unknown constructs instead of
 returning None

---
 src/orquestra/quantum/circuits/symbolic/translations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/translations.py b/src/orquestra/quantum/circuits/symbolic/translations.py
index e60667f..1798b9f 100644
--- a/src/orquestra/quantum/circuits/symbolic/translations.py
+++ b/src/orquestra/quantum/circuits/symbolic/translations.py
@@ -13,7 +13,9 @@ from .expressions import Expression, ExpressionDialect, FunctionCall, Symbol
 def translate_expression(
     expression: Union[Expression, Tuple[Expression, ...]], dialect: ExpressionDialect
 ):
-    pass
+    raise NotImplementedError(
+        f"Expression {expression} of type {type(expression)} can't be translated"
+    )
 
 
 @translate_expression.register
-- 
2.43.0


From 1609fcd487952c523d45263b349d03507eb89978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 38/42] fix: natural ordering of names with digits that aren't
 decimal

---
 src/orquestra/quantum/circuits/symbolic/_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/_sorting.py b/src/orquestra/quantum/circuits/symbolic/_sorting.py
index 65b461a..af5d757 100644
--- a/src/orquestra/quantum/circuits/symbolic/_sorting.py
+++ b/src/orquestra/quantum/circuits/symbolic/_sorting.py
@@ -6,7 +6,7 @@ import re
 
 
 def _convert_string_to_int_if_possible(text):
-    return int(text) if text.isdigit() else text
+    return int(text) if text.isdecimal() else text
 
 
 def natural_key(symbol):
-- 
2.43.0


From 66b8b14f9d4bc5256e55ee0195d352da427224c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 39/42] fix: reject non-positive sample counts also for empty
 batches

---
 src/orquestra/quantum/api/circuit_runner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/api/circuit_runner.py b/src/orquestra/quantum/api/circuit_runner.py
index f12edeb..066d593 100644
--- a/src/orquestra/quantum/api/circuit_runner.py
+++ b/src/orquestra/quantum/api/circuit_runner.py
@@ -172,7 +172,9 @@ class BaseCircuitRunner(ABC, CircuitRunner):
                 f"{len(circuits_batch)}, length of n_samples: "
                 f"{len(samples_per_circuit)}."
             )
-        if any(n <= 0 for n in samples_per_circuit):
+        if (isinstance(n_samples, int) and n_samples <= 0) or any(
+            n <= 0 for n in samples_per_circuit
+        ):
             raise ValueError(
                 f"All numbers of samples have to be positive. Got: {n_samples}"
             )
-- 
2.43.0


From 580e1d4ab658583e522aa14e2680d08aee0ea852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 40/42] fix: dimensions that follow an empty one survive array
 dictionaries

---
 src/orquestra/quantum/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 703ffdc..46c6c48 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -35,6 +35,9 @@ def convert_dict_to_array(dictionary: dict) -> np.ndarray:
     if dictionary.get("imag"):
         array = array + 1j * np.array(dictionary["imag"])
 
+    if "shape" in dictionary:
+        array = array.reshape(dictionary["shape"])
+
     return array
 
 
@@ -55,6 +58,10 @@ def convert_array_to_dict(array: np.ndarray) -> dict:
     else:
         dictionary["real"] = array.tolist()
 
+    # nested lists don't hold the dimensions that follow an empty one
+    if 0 in array.shape[:-1]:
+        dictionary["shape"] = list(array.shape)
+
     return dictionary
 
 
-- 
2.43.0


From 9c80b033618d6ff2986df3d9e8e34a4171bccc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 41/42] fix: empty lists of correlations and covariances
 survive saving and loading

---
 src/orquestra/quantum/measurements/expectation_values.py | 8 ++++----
 src/orquestra/quantum/measurements/parities.py           | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/measurements/expectation_values.py b/src/orquestra/quantum/measurements/expectation_values.py
index 70d588d..22192ea 100644
--- a/src/orquestra/quantum/measurements/expectation_values.py
+++ b/src/orquestra/quantum/measurements/expectation_values.py
@@ -53,12 +53,12 @@ class ExpectationValues:
 
         data["expectation_values"] = convert_array_to_dict(self.values)
 
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = []
             for correlation_matrix in self.correlations:
                 data["correlations"].append(convert_array_to_dict(correlation_matrix))
 
-        if self.estimator_covariances:
+        if self.estimator_covariances is not None:
             data["estimator_covariances"] = []
             for covariance_matrix in self.estimator_covariances:
                 data["estimator_covariances"].append(
@@ -73,13 +73,13 @@ class ExpectationValues:
 
         expectation_values = convert_dict_to_array(dictionary["expectation_values"])
         correlations: Optional[List] = None
-        if dictionary.get("correlations"):
+        if dictionary.get("correlations") is not None:
             correlations = []
             for correlation_matrix in cast(Iterable, dictionary.get("correlations")):
                 correlations.append(convert_dict_to_array(correlation_matrix))
 
         estimator_covariances: Union[List, None] = None
-        if dictionary.get("estimator_covariances"):
+        if dictionary.get("estimator_covariances") is not None:
             estimator_covariances = []
             for covariance_matrix in cast(
                 Iterable, dictionary.get("estimator_covariances")
diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index be25888..59cb65a 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -41,7 +41,7 @@ class Parities:
 
     def to_dict(self) -> dict:
         data: Dict[str, Any] = {"values": convert_array_to_dict(self.values)}
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = [
                 convert_array_to_dict(arr) for arr in self.correlations
             ]
@@ -50,7 +50,7 @@ class Parities:
     @classmethod
     def from_dict(cls, data: dict):
         values = convert_dict_to_array(data["values"])
-        if data.get("correlations"):
+        if data.get("correlations") is not None:
             correlations: Optional[List] = [
                 convert_dict_to_array(arr) for arr in data["correlations"]
             ]
-- 
2.43.0


From 6c1ba212ef0dcfbecf5ea2790985d077750b9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 42/42] fix: scale numpy integer weights beyond 2**53 exactly

---
 src/orquestra/quantum/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 46c6c48..7d41973 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -502,7 +502,10 @@ def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
     """
 
     # Exact arithmetic, as rounding errors exceed one unit for large totals.
-    weights = [Fraction(v if isinstance(v, int) else float(v)) for v in values]
+    weights = [
+        Fraction(int(v) if isinstance(v, (int, np.integer)) else float(v))
+        for v in values
+    ]
     scale_factor = int(total) / sum(weights, start=Fraction(0))
 
     shares = [weight * scale_factor for weight in weights]
-- 
2.43.0

