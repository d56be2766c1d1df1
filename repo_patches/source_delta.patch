From b03d31d8f68a76a3a6e55e76d1105765df21c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 01/30] fix: OpSequence.tensor multiplies the operations in
 application order

---
 horqrux/composite/sequence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index ad31e8f..0c33031 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -4,7 +4,6 @@ from dataclasses import dataclass, field
 from functools import reduce
 from typing import Any, Iterable
 
-import jax.numpy as jnp
 from jax import Array
 from jax.tree_util import register_pytree_node_class
 
@@ -53,7 +52,11 @@ class OpSequence:
                 "Expanding tensor operation requires a `full_support` argument "
                 "larger than or equal to the `qubit_support`."
             )
-        return reduce(jnp.matmul, map(lambda x: x.tensor(values, full_support), self.operations))
+        # operations are applied in order, so that the last one is the leftmost factor
+        return reduce(
+            lambda acc, op: op @ acc,
+            map(lambda x: x.tensor(values, full_support), self.operations),
+        )
 
     def __iter__(self) -> Iterable:
         def flatten(item: Any) -> Iterable:
-- 
2.43.0


From c9251e8a9303ec258c3bccb0e89290dd887eeb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 02/30] fix: OpSequence.qubit_support is sorted, as its tensor
 representation is

---
 horqrux/composite/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 0c33031..e9e6cfa 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -26,7 +26,7 @@ class OpSequence:
 
     @property
     def qubit_support(self) -> tuple:
-        return tuple(set().union(*(op.qubit_support for op in self.operations)))
+        return tuple(sorted(set().union(*(op.qubit_support for op in self.operations))))
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
-- 
2.43.0


From e2c07d4f1e9d10a3efa264dfb7f05299526d5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 03/30] fix: Scale of an Add scales the sum instead of
 composing its terms

---
 horqrux/composite/compose.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index 4e0ff5b..097a2ec 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -27,7 +27,14 @@ class Scale(OpSequence):
     def __init__(
         self, operations: Primitive | OpSequence | list, parameter_name: str | float
     ) -> None:
-        super().__init__(list(operations))  # type:ignore[arg-type]
+        # keep composite operations whole: flattening an `Add` would turn its sum into a product
+        if isinstance(operations, Observable):
+            operations = Add(operations.operations)
+        super().__init__(
+            [operations]
+            if isinstance(operations, OpSequence)
+            else list(operations)  # type:ignore[arg-type]
+        )
         self.parameter: str | float = parameter_name
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> Array:
-- 
2.43.0


From 219be391d899046543b1b58dcbcdf832db8d2f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 04/30] fix: sparse/dense conversion of Scale keeps all of its
 operations

---
 horqrux/utils/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index d29f823..e8bd89c 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -73,12 +73,12 @@ def _(operations: OpSequence) -> OpSequence:
 
 @to_sparse.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_sparse(operations.operations[0]), operations.parameter)
+    return Scale([to_sparse(op) for op in operations.operations], operations.parameter)
 
 
 @to_dense.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_dense(operations.operations[0]), operations.parameter)
+    return Scale([to_dense(op) for op in operations.operations], operations.parameter)
 
 
 @to_sparse.register
-- 
2.43.0


From a7fcc22962b6fa01bff27e91263543e22773a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 05/30] fix: sparse/dense conversion of QuantumCircuit keeps
 fparams

---
 horqrux/utils/conversion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index e8bd89c..6f49e62 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -83,9 +83,13 @@ def _(operations: Scale) -> Scale:
 
 @to_sparse.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_sparse(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits, [to_sparse(op) for op in operations.operations], operations.fparams
+    )
 
 
 @to_dense.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_dense(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits, [to_dense(op) for op in operations.operations], operations.fparams
+    )
-- 
2.43.0


From f4a89da7c1281b345a5e41c415bbe6a69a2d3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 06/30] fix: group_by_index does not move gates across
 multi-qubit gates

---
 horqrux/apply.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 186eb5f..c4e9377 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -281,7 +281,8 @@ def group_by_index(gates: Iterable[Primitive]) -> Iterable[Primitive]:
     sorted_gates = []
     gate_batch = []
     for gate in gates:
-        if not is_controlled(gate.control):
+        # only single-qubit gates can be reordered: gates on several qubits are barriers
+        if not is_controlled(gate.control) and len(gate.target[0]) == 1:
             gate_batch.append(gate)
         else:
             if len(gate_batch) > 0:
-- 
2.43.0


From 4aaa19d695737b88c38ad7ce4e5c3cbce435afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 07/30] fix: numpy integer and array control qubits are not
 ignored

---
 horqrux/primitives/primitive.py | 6 +++---
 horqrux/utils/operator_utils.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 0e8fa6a..8a3e223 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -39,12 +39,12 @@ class Primitive:
     def parse_idx(
         idx: tuple,
     ) -> tuple:
-        if isinstance(idx, (int, np.int64)):
-            return ((idx,),)
+        if isinstance(idx, (int, np.integer)):
+            return ((int(idx),),)
         elif isinstance(idx, tuple):
             return (idx,)
         else:
-            return (idx.astype(int),)
+            return (tuple(int(i) for i in np.atleast_1d(idx)),)
 
     def __post_init__(self) -> None:
         self.target = Primitive.parse_idx(self.target)
diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index e439caf..1de7e77 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -461,7 +461,7 @@ def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
 
 
 def is_controlled(qubit_support: Union[tuple[Union[int, None], ...], int, None]) -> bool:
-    if isinstance(qubit_support, int):
+    if isinstance(qubit_support, (int, np.integer)):
         return True
     elif isinstance(qubit_support, tuple):
         return any(is_controlled(q) for q in qubit_support)
-- 
2.43.0


From 1f3d0303d628d240c339971a389b23c52231b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 08/30] fix: register the matrices of SQRTSWAP, ISWAP and
 ISQRTSWAP

---
 horqrux/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horqrux/matrices.py b/horqrux/matrices.py
index 19128df..dab8f7a 100644
--- a/horqrux/matrices.py
+++ b/horqrux/matrices.py
@@ -53,6 +53,9 @@ OPERATIONS_DICT = {
     "T": _T,
     "I": _I,
     "SWAP": _SWAP,
+    "SQSWAP": _SQSWAP,
+    "ISWAP": _ISWAP,
+    "ISQSWAP": _ISQSWAP,
 }
 
 SPARSE_OPERATIONS_DICT = {k: BCOO.fromdense(mat) for k, mat in OPERATIONS_DICT.items()}
-- 
2.43.0


From 30601bc628521ff41f99fbc2fe00d1590d5d7b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 09/30] fix: jacobian of rotation gates is the derivative of
 their unitary

---
 horqrux/utils/operator_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 1de7e77..d86579f 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -169,8 +169,7 @@ def _(generator: Array, theta: float) -> Array:
     return (
         -1
         / 2
-        * (jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype) + 1j * jnp.cos(theta / 2))
-        * generator
+        * (jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype) + 1j * jnp.cos(theta / 2) * generator)
     )
 
 
@@ -181,9 +180,8 @@ def _(generator: BCOO, theta: float) -> BCOO:
         / 2
         * (
             jnp.sin(theta / 2) * jax.experimental.sparse.eye(2, dtype=default_dtype)
-            + 1j * jnp.cos(theta / 2)
+            + 1j * jnp.cos(theta / 2) * generator
         )
-        * generator
     )
 
 
-- 
2.43.0


From 505b281242c767c52b402c583adac3f06effc467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 10/30] fix: Primitive.n_qubits counts the target and control
 qubits

---
 horqrux/primitives/primitive.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 8a3e223..a96225b 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -132,10 +132,7 @@ class Primitive:
 
     @property
     def n_qubits(self) -> int:
-        n_qubits = len(self.target)
-        if self.control[0] is not None:
-            n_qubits += len(self.control)
-        return n_qubits
+        return len(self.qubit_support)
 
     @property
     def qubit_support(self) -> tuple:
-- 
2.43.0


From dbc1d29b85b5343d676867bcbf8a2fedc331d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 11/30] fix: fixed numeric angles are not reported as circuit
 parameters

---
 horqrux/composite/sequence.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index e9e6cfa..5b50a3f 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -82,7 +82,13 @@ class OpSequence:
         """
         from horqrux.primitives import Parametric
 
-        return set([str(op.param) for op in list(iter(self)) if isinstance(op, Parametric)])  # type: ignore[type-var]
+        return set(
+            [
+                str(op.param)
+                for op in list(iter(self))  # type: ignore[type-var]
+                if isinstance(op, Parametric) and op.is_parametric
+            ]
+        )
 
     @property
     def n_vparams(self) -> int:
-- 
2.43.0


From 5a047404b1ca62e926c8cad49251a2edf241798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 12/30] fix: overlap is the squared modulus of the inner
 product

---
 horqrux/utils/operator_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index d86579f..c86fb1f 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -447,7 +447,7 @@ def inner(state: Array, projection: Array) -> Array:
 
 
 def overlap(state: Array, projection: Array) -> Array:
-    return jnp.power(inner(state, projection), 2).real
+    return jnp.square(jnp.abs(inner(state, projection)))
 
 
 def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
-- 
2.43.0


From 80f636dcbc87acfcec73c00e6a8826ab5689c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 13/30] fix: QuantumCircuit survives a pytree round trip

---
 horqrux/circuit.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index 0a3cccd..e5d7dba 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -50,16 +50,14 @@ class QuantumCircuit(OpSequence):
         return len(self.vparams)
 
     def tree_flatten(self) -> tuple:
-        children = (
-            self.operations,
-            self.fparams,
-        )
-        aux_data = (self.n_qubits,)
-        return (aux_data, children)
+        children = (self.operations,)
+        aux_data = (self.n_qubits, tuple(self.fparams))
+        return (children, aux_data)
 
     @classmethod
     def tree_unflatten(cls, aux_data: Any, children: Any) -> Any:
-        return cls(*aux_data, *children)
+        n_qubits, fparams = aux_data
+        return cls(n_qubits, *children, list(fparams))
 
 
 def hea(
-- 
2.43.0


From 0d6bcbbfd804289703bfc585e554ca381b598643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 14/30] fix: circuits do not share their default fparams list

---
 horqrux/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index e5d7dba..f118b37 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -29,7 +29,7 @@ class QuantumCircuit(OpSequence):
     ):
         super().__init__(list(operations))  # type:ignore[arg-type]
         self.n_qubits = n_qubits
-        self.fparams = fparams
+        self.fparams = list(fparams)
 
     @property
     def vparams(self) -> set[str]:
-- 
2.43.0


From e5594177895b062f0ef4e78202486031705cde6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 15/30] fix: register PHASE as a pytree node like the other
 gates

---
 horqrux/primitives/parametric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 6c13384..746120c 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -198,6 +198,7 @@ def RZ(
     return Parametric("Z", target, control, noise, param=param, sparse=sparse)
 
 
+@register_pytree_node_class
 class _PHASE(Parametric):
     def _unitary(self, values: dict[str, float] = dict()) -> Array:
         u = jnp.eye(2, 2, dtype=default_dtype)
-- 
2.43.0


From 5a2c3d8037133953d896d41d20bab2404ae5b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 16/30] fix: the array of a DensityMatrix is a pytree leaf

---
 horqrux/utils/operator_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index c86fb1f..2ec1a4a 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -36,9 +36,9 @@ class DensityMatrix:
 
     array: Array
 
-    def tree_flatten(self) -> tuple[tuple, tuple[Array]]:
-        children = ()
-        aux_data = (self.array,)
+    def tree_flatten(self) -> tuple[tuple[Array], tuple]:
+        children = (self.array,)
+        aux_data = ()
         return (children, aux_data)
 
     @classmethod
-- 
2.43.0


From 9f08e5cf22fc1575377af00df8bc232751389a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 17/30] fix: applying an empty sequence of gates leaves the
 state unchanged

---
 horqrux/apply.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index c4e9377..fdb2437 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -375,8 +375,8 @@ def prepare_sequence_reduce(
         if group_gates:
             gate = group_by_index(gate)
         operator = tuple(getattr(g, op_type)(values) for g in gate)
-        target = reduce(add, [g.target for g in gate])
-        control = reduce(add, [g.control for g in gate])
+        target = reduce(add, [g.target for g in gate], ())
+        control = reduce(add, [g.control for g in gate], ())
         noise = [g.noise for g in gate]
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
-- 
2.43.0


From f95ea42c9b8e7d781bd0ab4332554cc9ff5b715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 18/30] fix: apply_gates accepts one-shot iterables of gates

---
 horqrux/apply.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index fdb2437..2823aed 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -372,8 +372,7 @@ def prepare_sequence_reduce(
         operator, target, control = (operator_fn(values),), gate.target, gate.control
         noise += [gate.noise]
     else:
-        if group_gates:
-            gate = group_by_index(gate)
+        gate = list(group_by_index(gate) if group_gates else gate)
         operator = tuple(getattr(g, op_type)(values) for g in gate)
         target = reduce(add, [g.target for g in gate], ())
         control = reduce(add, [g.control for g in gate], ())
-- 
2.43.0


From ccaa05a7559a8a33343f7bb58a58990c8cb56635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 19/30] fix: sampling does not reshape the input density matrix
 in place

---
 horqrux/api.py   | 2 +-
 horqrux/shots.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/api.py b/horqrux/api.py
index 6d5ce14..b905d78 100644
--- a/horqrux/api.py
+++ b/horqrux/api.py
@@ -56,7 +56,7 @@ def sample(
     n_qubits = num_qubits(output_circuit)
     if isinstance(output_circuit, DensityMatrix):
         d = 2**n_qubits
-        output_circuit.array = output_circuit.array.reshape((d, d))
+        output_circuit = DensityMatrix(output_circuit.array.reshape((d, d)))
 
     probs = probabilities(output_circuit)
     return sample_from_probs(probs, n_qubits, n_shots)
diff --git a/horqrux/shots.py b/horqrux/shots.py
index 44c015a..0819a5b 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -180,5 +180,5 @@ def finite_shots(
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
-        output_gates.array = output_gates.array.reshape((d, d))
+        output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
     return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
-- 
2.43.0


From e042b3a1c8a6d1f25a5ca77d8628cec69e1e7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 20/30] fix: tensor of a gate accounts for the order of its
 target qubits

---
 horqrux/primitives/primitive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index a96225b..26e23bf 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -17,8 +17,10 @@ from horqrux.utils.operator_utils import (
     _dagger,
     controlled,
     expand_operator,
+    hilbert_reshape,
     is_controlled,
     none_like,
+    permute_basis,
     zero_state,
 )
 
@@ -119,6 +121,11 @@ class Primitive:
             Array: Unitary representation taking into account the qubit support.
         """
         base_unitary = self._unitary(values)
+        if len(self.target[0]) > 1:
+            # the representation is ordered by qubit index, whatever the order of the targets
+            shape = base_unitary.shape
+            base_unitary = permute_basis(hilbert_reshape(base_unitary), self.target[0], True)
+            base_unitary = base_unitary.reshape(shape)
         if is_controlled(self.control):
             base_unitary = controlled(base_unitary, self.target, self.control)
         if full_support is None:
-- 
2.43.0


From 65db6835252271389a33b6b495395e8434b7bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 21/30] fix: hea on a single qubit does not contain a
 self-controlled NOT

---
 horqrux/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index f118b37..36acf84 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -89,7 +89,8 @@ def hea(
                 for fn, qubit in zip(rot_fns, [i for _ in range(len(rot_fns))])
             ]
             param_names += [op.param for op in ops]
-            ops += [NOT((i + 1) % n_qubits, i % n_qubits) for i in range(n_qubits)]  # type: ignore[arg-type]
+            if n_qubits > 1:
+                ops += [NOT((i + 1) % n_qubits, i % n_qubits) for i in range(n_qubits)]  # type: ignore[arg-type]
             gates += ops
 
     return gates
-- 
2.43.0


From 7d3833b0f8c5ee61ce9aebcf69d7879feec740a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 22/30] fix: GPSR shifts PHASE gates with a repeated parameter
 as PHASE gates

---
 horqrux/differentiation/gpsr/gpsr_utils.py |  4 ++--
 horqrux/primitives/parametric.py           | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index 0362ca3..f0f9ade 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -22,7 +22,7 @@ def to_shift(gate: Parametric, shift_value: float) -> Any:
         Any: A new Parametric (Any type due to clsmethod)
     """
     children, aux_data = gate.tree_flatten()
-    return Parametric.tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
+    return type(gate).tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
 
 
 def prepare_param_gates_seq(
@@ -127,7 +127,7 @@ def new_named_parametric(gate: Primitive) -> Parametric:
     """
     children, aux_data = gate.tree_flatten()
     new_name = str(uuid4())
-    new_gate: Parametric = Parametric.tree_unflatten(
+    new_gate: Parametric = type(gate).tree_unflatten(  # type: ignore[assignment]
         aux_data[:-2]
         + (
             new_name,
diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 746120c..105354d 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -214,6 +214,16 @@ class _PHASE(Parametric):
             jac = BCOO.fromdense(jac)
         return jac
 
+    @cached_property
+    def spectral_gap(self) -> Array:
+        """PHASE is not generated by `generator`: PHASE(x) = exp(-i x / 2 diag(0, -2)),
+        whose only spectral gap is 2, with or without controls.
+
+        Returns:
+            Array: Spectral gap value.
+        """
+        return jnp.array([2.0])
+
     @property
     def name(self) -> str:
         base_name = "PHASE"
-- 
2.43.0


From c70b2c1ef2de1140f3c92278f4507cc2d410b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 23/30] fix: GPSR detects repeated parameters when values has
 entries no gate uses

---
 horqrux/differentiation/gpsr/analytical.py | 21 ++++++++++++++-------
 horqrux/differentiation/gpsr/shots.py      | 21 ++++++++++++++-------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index f2134da..547d43f 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -100,13 +100,15 @@ def analytical_gpsr_bwd(
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
 
                 def jvp_component_repeated_param(param_name: str) -> Array:
                     shift_gates = param_to_gates_indices[param_name]
+                    if not shift_gates:
+                        return jvp_component(param_name)
 
                     def shift_jvp(ind: int) -> Array:
                         spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
@@ -189,7 +191,7 @@ def analytical_gpsr_jvp(
 
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
@@ -200,14 +202,19 @@ def analytical_gpsr_jvp(
                     for pname in legit_val_keys
                     for ind in param_to_gates_indices[pname]
                 }
+                spectral_gap = {
+                    gates[ind].param: gates[ind].spectral_gap  # type: ignore[index]
+                    for pname in legit_val_keys
+                    for ind in param_to_gates_indices[pname]
+                }
+                # keep the values which are not used by any gate
+                for pname in legit_val_keys:
+                    if not param_to_gates_indices[pname]:
+                        values_map[pname] = pname
+                        spectral_gap[pname] = jnp.array([2.0])
                 values = {
                     temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
                 }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
             else:
                 spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
 
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index d2ced52..bf7a6bc 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -72,13 +72,15 @@ def finite_shots_gpsr_backward(
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
 
                 def jvp_component_repeated_param(param_name: str, key: Array) -> Array:
                     shift_gates = param_to_gates_indices[param_name]
+                    if not shift_gates:
+                        return jvp_component(param_name, key)
                     shift_keys = random.split(key, len(shift_gates))
 
                     def shift_jvp(ind: int, key: Array) -> Array:
@@ -177,7 +179,7 @@ def finite_shots_jvp(
 
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
@@ -188,14 +190,19 @@ def finite_shots_jvp(
                     for pname in legit_val_keys
                     for ind in param_to_gates_indices[pname]
                 }
+                spectral_gap = {
+                    gates[ind].param: gates[ind].spectral_gap  # type: ignore[index]
+                    for pname in legit_val_keys
+                    for ind in param_to_gates_indices[pname]
+                }
+                # keep the values which are not used by any gate
+                for pname in legit_val_keys:
+                    if not param_to_gates_indices[pname]:
+                        values_map[pname] = pname
+                        spectral_gap[pname] = jnp.array([2.0])
                 values = {
                     temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
                 }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
 
             else:
                 spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
-- 
2.43.0


From b44ac9a3a2ea16240f468dbb89998841cdc896ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 24/30] fix: finite shots sample every observable in its own
 eigenbasis

---
 horqrux/shots.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/horqrux/shots.py b/horqrux/shots.py
index 0819a5b..96d1868 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -98,9 +98,14 @@ def eigen_sample(
         )
     )
     eigs = jax.vmap(jnp.linalg.eigh)(jnp.stack(mat_obs))
-    eigvecs, eigvals = align_eigenvectors(eigs.eigenvalues, eigs.eigenvectors)
-    probs = eigen_probabilities(state, eigvecs)
-    return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+
+    # observables do not share an eigenbasis in general: each one is sampled in its own
+    def sample_mean(eigvals: Array, eigvecs: Array, key: Any) -> Array:
+        probs = eigen_probabilities(state, eigvecs)
+        return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean()
+
+    keys = jax.random.split(key, len(observables))
+    return jax.vmap(sample_mean)(eigs.eigenvalues, eigs.eigenvectors, keys)
 
 
 @jax.vmap
-- 
2.43.0


From b45781e28127a035f2f414c95e7209088ca226f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 25/30] fix: jacobian of a controlled gate vanishes where the
 controls are not satisfied

---
 horqrux/apply.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 2823aed..2e31080 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -331,6 +331,28 @@ def merge_operators(
     return merged_operators[::-1], merged_targets[::-1], merged_controls[::-1]
 
 
+def uncontrolled_jacobian(
+    jacobian: Array, target: tuple[int, ...], control: tuple[Union[int, None], ...]
+) -> tuple[Array, tuple[int, ...], tuple[Union[int, None], ...]]:
+    """Express the jacobian of a controlled gate over its control and target qubits.
+
+    The gate is the identity when a control is not satisfied, where its derivative vanishes.
+
+    Args:
+        jacobian (Array): Jacobian of the gate on its target qubits.
+        target (tuple[int, ...]): Target qubits.
+        control (tuple[int  |  None, ...]): Control qubits.
+
+    Returns:
+        tuple: Operator, target and control (none) to apply.
+    """
+    if not is_controlled(control):
+        return jacobian, target, control
+    n_control = len(control)
+    operator = _controlled(jacobian, n_control) - _controlled(0.0 * jacobian, n_control)
+    return operator, (*control, *target), (None,)  # type: ignore[arg-type]
+
+
 @singledispatch
 def apply_gates(
     state: Any,
@@ -377,6 +399,9 @@ def prepare_sequence_reduce(
         target = reduce(add, [g.target for g in gate], ())
         control = reduce(add, [g.control for g in gate], ())
         noise = [g.noise for g in gate]
+    if op_type == OperationType.JACOBIAN and len(operator) > 0:
+        operator, target, control = zip(*map(uncontrolled_jacobian, operator, target, control))
+    if not isinstance(gate, Primitive):
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
             operator, target, control = merge_operators(operator, target, control)
-- 
2.43.0


From 2e2c63d64ee1a9e00c3678df6b616db0bce3195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 26/30] fix: separate circuit and observable values work in
 every expectation mode

---
 horqrux/differentiation/adjoint.py         | 6 ++++--
 horqrux/differentiation/gpsr/analytical.py | 6 ++++--
 horqrux/shots.py                           | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/horqrux/differentiation/adjoint.py b/horqrux/differentiation/adjoint.py
index a5b4b17..d70e79f 100644
--- a/horqrux/differentiation/adjoint.py
+++ b/horqrux/differentiation/adjoint.py
@@ -8,6 +8,7 @@ from horqrux.composite import Observable, OpSequence
 from horqrux.primitives.primitive import Primitive
 from horqrux.utils.operator_utils import OperationType, inner
 from horqrux.utils.sparse_utils import real_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def ad_expectation(
@@ -17,8 +18,9 @@ def ad_expectation(
     Run 'state' through a sequence of 'gates' given parameters 'values'
     and compute the expectation given an observable.
     """
-    out_state = apply_gates(state, list(iter(circuit)), values, OperationType.UNITARY)  # type: ignore[type-var]
-    projected_state = observable.forward(out_state, values)
+    values_circuit, values_observables = _values_processing(values)
+    out_state = apply_gates(state, list(iter(circuit)), values_circuit, OperationType.UNITARY)  # type: ignore[type-var]
+    projected_state = observable.forward(out_state, values_observables)
     return real_sp(inner(out_state, projected_state))
 
 
diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index 547d43f..ccbc7d6 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -21,6 +21,7 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import State
 from horqrux.utils.sparse_utils import stack_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def analytical_expectation(
@@ -41,12 +42,13 @@ def analytical_expectation(
     Returns:
         Array: Expectation values.
     """
+    values_circuit, values_observables = _values_processing(values)
     outputs = list(
         map(
             lambda observable: _ad_expectation_single_observable(
-                apply_gates(state, gates, values),
+                apply_gates(state, gates, values_circuit),
                 observable,
-                values,
+                values_observables,
             ),
             observables,
         )
diff --git a/horqrux/shots.py b/horqrux/shots.py
index 96d1868..c52a850 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -12,6 +12,7 @@ from horqrux.apply import apply_gates
 from horqrux.composite import Observable
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import DensityMatrix, State, expand_operator, num_qubits
+from horqrux.utils.values_utils import _values_processing
 
 
 @singledispatch
@@ -181,9 +182,10 @@ def finite_shots(
     Returns:
         Array: Expectation values.
     """
-    output_gates = apply_gates(state, gates, values)
+    values_circuit, values_observables = _values_processing(values)
+    output_gates = apply_gates(state, gates, values_circuit)
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
         output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
-    return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
+    return eigen_sample(output_gates, observables, values_observables, n_qubits, n_shots, key)
-- 
2.43.0


From 6343a15edd7dd42bb465394720a8011fc2f65081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 27/30] fix: tensor of controlled gates can be traced by jax
 transformations

---
 horqrux/utils/operator_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 2ec1a4a..bba0cde 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -265,14 +265,15 @@ def prepare_controlled(
     full_dim = 2**ntotal_qubits
 
     # Compute the control mask using bit manipulation
-    control_mask = jnp.sum(
-        jnp.array(
+    # the qubits are static: numpy keeps the indices concrete under jax transformations
+    control_mask = np.sum(
+        np.array(
             [1 << (ntotal_qubits - control_qubit - 1) for control_qubit in control_ind_support]
         )
     )
 
     # Create indices for the controlled subspace
-    indices = jnp.arange(full_dim)
+    indices = np.arange(full_dim)
     controlled_indices = indices[(indices & control_mask) == control_mask]
     return full_dim, controlled_indices
 
-- 
2.43.0


From 6fd6817372d1e119b416fe65a6096024a35cb742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 28/30] fix: matrix of a sparse Scale accepts numpy scalar
 parameters

---
 horqrux/composite/compose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index 097a2ec..b68ef70 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -68,7 +68,7 @@ class Scale(OpSequence):
             Array: Unitary representation.
         """
         param = values[self.parameter] if isinstance(self.parameter, str) else self.parameter
-        return param * super().tensor(values, full_support)
+        return jnp.array(param) * super().tensor(values, full_support)
 
 
 @register_pytree_node_class
-- 
2.43.0


From e88f064420f378512547c7f47f8fa1973ea3cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 29/30] fix: gates accept the nested targets and controls of
 their documentation

---
 horqrux/primitives/primitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 26e23bf..d3d1065 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -44,7 +44,8 @@ class Primitive:
         if isinstance(idx, (int, np.integer)):
             return ((int(idx),),)
         elif isinstance(idx, tuple):
-            return (idx,)
+            # the qubits may already be nested, as in SWAP(((0, 1),), (2,))
+            return idx if len(idx) == 1 and isinstance(idx[0], tuple) else (idx,)
         else:
             return (tuple(int(i) for i in np.atleast_1d(idx)),)
 
-- 
2.43.0


From fe025884e823eed6bedd1190de7d30ea2640c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 30/30] fix: PHASE accepts values of shape (1,) as the
 rotations do

---
 horqrux/primitives/parametric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 105354d..cdfaf9a 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -202,14 +202,14 @@ def RZ(
 class _PHASE(Parametric):
     def _unitary(self, values: dict[str, float] = dict()) -> Array:
         u = jnp.eye(2, 2, dtype=default_dtype)
-        u = u.at[(1, 1)].set(jnp.exp(1.0j * self.parse_values(values)))
+        u = u.at[(1, 1)].set(jnp.squeeze(jnp.exp(1.0j * self.parse_values(values))))
         if self.sparse:
             u = BCOO.fromdense(u)
         return u
 
     def jacobian(self, values: dict[str, float] = dict()) -> Array:
         jac = jnp.zeros((2, 2), dtype=default_dtype)
-        jac = jac.at[(1, 1)].set(1j * jnp.exp(1.0j * self.parse_values(values)))
+        jac = jac.at[(1, 1)].set(jnp.squeeze(1j * jnp.exp(1.0j * self.parse_values(values))))
         if self.sparse:
             jac = BCOO.fromdense(jac)
         return jac
-- 
2.43.0

